"""The Kriging predictor, written down independently: predictions and variances from samples and hyper-parameters."""
import math, random


def chol(r):
    n = len(r)
    l = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = r[i][j] - sum(a * b for a, b in zip(l[i][:j], l[j][:j]))
            if i == j:
                if s <= 0:
                    return None
                l[i][i] = math.sqrt(s)
            else:
                l[i][j] = s / l[j][j]
    return l


def solve(l, b):
    n = len(b)
    y = []
    for i in range(n):
        y.append((b[i] - sum(l[i][k] * y[k] for k in range(i))) / l[i][i])
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (y[i] - sum(l[k][i] * x[k] for k in range(i + 1, n))) / l[i][i]
    return x


def dot(a, b):
    return math.fsum(u * v for u, v in zip(a, b))


def once(z, y, theta, gamma, pts, noise, eps=1e-12):
    n = len(z)

    def corr(a, b):
        return math.exp(-sum(t * abs(u - v) ** g for t, g, u, v in zip(theta, gamma, a, b)))
    r = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            v = 1.0 + eps if i == j else corr(z[i], z[j])
            r[i][j] = r[j][i] = v + v * noise()
    l = chol(r)
    if l is None:
        return None
    one = [1.0] * n
    ri, ry = solve(l, one), solve(l, y)
    b = dot(one, ry) / dot(one, ri)
    w = solve(l, [v - b for v in y])
    s2 = dot([v - b for v in y], w) / n
    out = []
    for p in pts:
        c = [corr(p, q) for q in z]
        rr = dot(c, solve(l, c))
        t1 = dot(c, ri) - 1.0
        out.append((b + dot(c, w), s2 * ((1.0 - rr) + t1 * t1 / dot(one, ri)), abs(s2)))
    return out


def predict(z, y, h, pts):
    """[(value, its uncertainty by rounding, variance, its uncertainty)] or None when rounding decides"""
    d = len(h) // 2
    rnd = random.Random(1)
    runs = [once(z, y, h[:d], h[d:], pts, lambda: 0.0)]
    for _ in range(7):
        runs.append(once(z, y, h[:d], h[d:], pts, lambda: rnd.choice((-2, -1, 0, 1, 2)) * 1.2e-16))
    if any(r is None for r in runs):
        return None
    # the code takes terms below 1e-9 as zero
    return [(c[0][0], max(v[0] for v in c) - min(v[0] for v in c), c[0][1], max(v[1] for v in c) - min(v[1] for v in c) + 1e-10 * c[0][2]) for c in zip(*runs)]


def gauss(a, b):
    n = len(b)
    m = [list(r) + [v] for r, v in zip(a, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        m[i], m[p] = m[p], m[i]
        if m[i][i] == 0:
            return None
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            if f:
                for j in range(i, n + 1):
                    m[k][j] -= f * m[i][j]
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (m[i][n] - sum(m[i][j] * x[j] for j in range(i + 1, n))) / m[i][i]
    return x


def linear(train, lb, ub):
    """least-squares plane through the samples, in coordinates scaled to the box"""
    d = len(lb)
    def z(x):
        return [1.0] + [(x[j] - lb[j]) / (ub[j] - lb[j]) / d for j in range(d)]
    a = [z(r) for r in train]
    n = d + 1
    xtx = [[sum(r[i] * r[j] for r in a) + (1e-8 if i == j else 0) for j in range(n)] for i in range(n)]
    w = gauss(xtx, [sum(r[i] * t[-1] for r, t in zip(a, train)) for i in range(n)])
    return None if w is None else (lambda x: sum(u * v for u, v in zip(w, z(x))))


def of_rows(rows, pts, lb, ub, h, universal, scaled=False, trend_rows=None):
    """[(value, its uncertainty, variance, its uncertainty, square of the range)] from unscaled samples, None where rounding decides"""
    d = len(lb)
    if any(v is None or isinstance(v, str) for v in h) or len(h) != 2 * d:
        return None

    def unit(r):
        return [(r[j] - lb[j]) / (ub[j] - lb[j]) / d for j in range(d)]
    z, q = [unit(r) for r in rows], [list(r[:d]) if scaled else unit(r) for r in pts]
    y, trend = [r[-1] for r in rows], [0.0] * len(pts)
    if universal:
        lin = linear(trend_rows or rows, lb, ub)
        if lin is None:
            return None
        back = [[lb[j] + p[j] * d * (ub[j] - lb[j]) for j in range(d)] for p in q]
        y, trend = [v - lin(r) for v, r in zip(y, rows)], [lin(p) for p in back]
    try:
        p = predict(z, y, h, q)
    except (OverflowError, ZeroDivisionError, ValueError):
        return None
    sc = max(y) - min(y)
    if p is None or any(not (a[1] <= 1e-3 * sc) for a in p):
        return None
    floor = 1e-9 * max(abs(r[-1]) for r in rows)      # what rounding may leave of a constant
    d = 1e-12 * max(abs(r[-1]) for r in rows) if universal else 0.0      # rounding of what is left beside the trend
    return [(a[0] + t, a[1] + d, a[2], a[3] + (2 * d / sc * abs(a[2]) if sc else 0.0), sc * sc + floor * floor) for a, t in zip(p, trend)]


def wrong(est, var, own):
    """does a prediction differ from the one computed here?"""
    if est is not None and est == est and not abs(est - own[0]) <= 1e-6 * own[4] ** 0.5 + 30 * own[1] + 1e-6 * abs(own[0]):
        return "predicts %r instead of %r (+-%.1g)" % (est, own[0], own[1])
    if var is not None and var == var and not abs(var - own[2]) <= 1e-6 * own[4] + 30 * own[3] + 1e-5 * abs(own[2]):
        return "has the variance %r instead of %r (+-%.1g)" % (var, own[2], own[3])
    return None
