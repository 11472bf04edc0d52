// Simulation scenarios: RoDeO's real code driven through its public interfaces.
#include "simrt.h"
#include <omp.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <limits>
#include "API/INCLUDE/rodeoapi.h"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
#include <fstream>
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include "Bounds/INCLUDE/bounds.hpp"

using namespace sim;
using std::string;
using std::vector;

int rodeo_main(int argc, char *argv[]);
void simLogDriver(int, const string &);
void simLogOptimization(int, const string &);
void simLogModel(int, const string &);
void simLogObjective(int, const string &);

static vector<string> split(const string &s, char d) { vector<string> o; string c; for (char ch : s) { if (ch == d) { o.push_back(c); c.clear(); } else c += ch; } if (!c.empty() || !o.empty()) o.push_back(c); return o; }
static vector<double> nums(const string &s) { vector<double> o; if (s.empty()) return o; for (auto &t : split(s, ',')) o.push_back(atof(t.c_str())); return o; }
static Rodop::vec V(const vector<double> &v) { Rodop::vec r((unsigned)v.size()); for (size_t i = 0; i < v.size(); i++) r((unsigned)i) = v[i]; return r; }

// ---------------------------------------------------------------- observation points of RoDeO
struct Sel { long n = 0, nans = 0, threads = 0; double best = -std::numeric_limits<double>::infinity(); vector<double> arg; };
static Sel g_sel;
struct Candidate { vector<double> x; double v; };
extern vector<Candidate> g_candidates;      // internals.cpp
struct Hyp { long n = 0, nans = 0, out = 0; double best = std::numeric_limits<double>::infinity(); vector<double> arg; std::vector<Candidate> all; };
static Hyp g_hyp;
namespace sim { void enter(); void leave(); }
struct Quiet { Quiet() { sim::enter(); } ~Quiet() { sim::leave(); } };
namespace RodeoSim {
void acquisitionCandidate(const double *dv, unsigned dim, double v) {
    Quiet q;
    g_sel.n++;
    g_sel.threads = omp_get_num_threads();
    if ((g_sel.n & (g_sel.n - 1)) == 0 && g_candidates.size() < 8 && plan.geti("models")) g_candidates.push_back({vector<double>(dv, dv + dim), v});
    if (std::isnan(v)) { g_sel.nans++; return; }
    if (v > g_sel.best || g_sel.n == 1) { g_sel.best = v; g_sel.arg.assign(dv, dv + dim); }
}
void acquisitionSelected(const double *dv, unsigned dim, double v) {
    Quiet q;
    if (plan.geti("models")) g_candidates.push_back({vector<double>(dv, dv + dim), v});
    Ev("acq").i("n", g_sel.n).i("threads", g_sel.threads).i("nans", g_sel.nans).num("best", g_sel.best).nums("arg", g_sel.arg.data(), g_sel.arg.size()).num("sel", v).nums("dv", dv, dim).emit();
    g_sel = Sel();
}
void acquisitionRefined(const double *dv, unsigned dim, double before, double after) {
    Quiet q;
    Ev("refined").num("before", before).num("after", after).nums("dv", dv, dim).emit();
}
void hyperParameterCandidate(const double *p, unsigned dim, double v) {
    Quiet q;
    if (plan.geti("stopattrain")) { Ev("trainstart").emit(); dieHere(); }
    g_hyp.n++;
    for (unsigned i = 0; i < dim; i++) { double lo = i < dim / 2 ? 0.0 : 1.0, hi = i < dim / 2 ? 20.0 : 2.0; if (!(p[i] >= lo && p[i] <= hi)) g_hyp.out++; }
    if (std::isnan(v)) { g_hyp.nans++; return; }
    if (plan.get("scenario") == "model") g_hyp.all.push_back({vector<double>(p, p + dim), v});
    if (v < g_hyp.best) { g_hyp.best = v; g_hyp.arg.assign(p, p + dim); }
}
}

// ---------------------------------------------------------------- rodeo as a command-line program
static int runDriver() {
    string cfg = plan.get("config", "config.xml");
    vector<string> a = {"rodeo"};
    if (cfg != "-") a.push_back(cfg);
    vector<char *> av; for (auto &s : a) av.push_back(&s[0]); av.push_back(nullptr);
    armAlloc(true);
    int rc = rodeo_main((int)a.size(), av.data());
    armAlloc(false);
    return rc;
}

// ---------------------------------------------------------------- the C++ API
static long g_apiDim = 1, g_apiBase = 0;      // of the study that is running
static double apiCall(int idx, const double *xp) {
    EvalSpec spec; vector<double> x; long k; string fault; double y;
    {
        Quiet q;
        spec = plan.evals[(size_t)idx];
        x.assign(xp, xp + g_apiDim);
        snapshot();
        k = nextEvalIndex();
        fault = evalFault(k);
        y = evalFunction(spec, x);
        if (fault == "nan") y = std::nan("");
        if (fault == "inf") y = k % 2 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        Ev e("eval"); e.i("k", k).str("exe", spec.exe).nums("x", x.data(), x.size()).num("y", y).i("status", fault == "throw" ? 1 : 0).i("orphan", 0).i("wrote", 1);
        if (!fault.empty()) e.str("fault", fault);
        e.emit();
        advanceClock(1 + (double)(rnd64(3) % 600) + (fault == "slow" ? 864000 : 0));
    }
    if (fault == "throw") throw std::runtime_error("simulated evaluator failure");
    return y;
}
template <int I> static double apiF(const double *x) { return apiCall(I, x); }
static double (*const g_f[8])(const double *) = {apiF<0>, apiF<1>, apiF<2>, apiF<3>, apiF<4>, apiF<5>, apiF<6>, apiF<7>};

// one study; the keys of its plan begin with pre
static int apiStudy(const string &pre) {
    auto get = [&](const string &k, const string &d = "") { return plan.get(pre + k, d); };
    auto geti = [&](const string &k, long d = 0) { return plan.geti(pre + k, d); };
    try {
        Rodop::RobustDesignOptimizerAPI o;
        vector<double> lb = nums(get("lb")), ub = nums(get("ub"));
        g_apiDim = geti("dim", 1);
        long base = geti("base", 0);
        string calls = get("calls");
        if (calls.empty()) {
            calls = "dim";
            if (!get("name").empty()) calls += ";name";
            if (!get("cwd").empty()) calls += ";cwd";
            calls += ";obj";
            for (long i = 0; i < geti("ncons"); i++) calls += ";con" + std::to_string(i);
            if (!get("trainfile").empty()) calls += ";train";
            if (!get("lb0").empty()) calls += ";box0";
            calls += ";box";
            if (geti("ndoe")) calls += ";doe";
            if (!get("doetype").empty()) calls += ";strategy";
            calls += ";neval";
        }
        armAlloc(true);
        for (auto &c : split(calls, ';')) {
            if (c == "dim") o.setDimension((unsigned)geti("setdim", geti("dim", 1)));
            else if (c == "dim2") o.setDimension((unsigned)geti("setdim2", 1));
            else if (c == "name") o.setName(get("name"));
            else if (c == "cwd") { string d = get("cwd"); if (d[0] == '@') d = plan.get("scratch") + d.substr(1); o.setCurrentWorkingDirectory(d); }
            else if (c == "obj") o.setObjectiveFunction(geti("nullobj") ? nullptr : g_f[base], get("objname"), get("objfile"));
            else if (c.compare(0, 3, "con") == 0) { string n = c.substr(3); o.addConstraint(g_f[base + 1 + atoi(n.c_str())], get("con" + n), get("confile" + n)); }
            else if (c == "train") o.setNameOfTrainingDataFile(get("trainfile"));
            else if (c == "box0") { vector<double> l0 = nums(get("lb0")), u0 = nums(get("ub0")); o.setBoxConstraints(l0.data(), u0.data()); }
            else if (c == "box") o.setBoxConstraints(lb.data(), ub.data());
            else if (c == "doe") o.setDoEOn((unsigned)geti("ndoe"));
            else if (c == "strategy") o.setDoEStrategy(get("doetype"));
            else if (c == "neval") o.setMaxNumberOfFunctionEvaluations((unsigned)geti("neval", 1));
        }
        Ev("run").emit();
        o.run();
        armAlloc(false);
    } catch (const std::exception &e) {
        armAlloc(false);
        Ev("error").str("what", e.what()).emit();
        std::cerr << "Error: " << e.what() << std::endl;
        return EXIT_FAILURE;
    }
    return 0;
}

static int runApi() {
    int rc = apiStudy("");
    // further studies in the same process
    for (long i = 1; i < plan.geti("studies", 1); i++) {
        { Quiet q; snapshot(); Ev("nextstudy").i("code", rc).emit(); snapshot(); }
        rc = apiStudy("s" + std::to_string(i) + ".");
    }
    return rc;
}

// ---------------------------------------------------------------- Kriging model life cycle
struct Model {
    Rodop::KrigingModel m;
    bool uni = false;
};
void emitHeldOut(const Rodop::KrigingModel &);      // internals.cpp
static void setupModel(Rodop::KrigingModel &m, unsigned dim, const string &file, bool universal, const string &hfile, double ratio = 0) {
    m.setDimension(dim);
    m.setName("m");
    if (universal) m.setLinearRegressionOn();
    m.setNameOfInputFile(file);
    if (!hfile.empty()) m.setNameOfHyperParametersFile(hfile);
    m.setBoxConstraints(Rodop::Bounds(V(nums(plan.get("lb"))), V(nums(plan.get("ub")))));
    if (ratio > 0) m.setRatioValidationSamples(ratio);
    m.readData();
    m.normalizeData();
    m.initializeSurrogateModel();
}
static void emitPrediction(const char *tag, const Rodop::KrigingModel &m, unsigned dim, bool var) {
    vector<double> p;
    for (int i = 0; i < 6; i++) {
        Rodop::vec x(dim);
        for (unsigned j = 0; j < dim; j++) x(j) = fmod(0.137 + 0.293 * i + 0.171 * j, 1.0) / dim;
        double v = m.interpolate(x); p.push_back(v);
        if (var) { double f = 0, s = 0; m.interpolateWithVariance(x, &f, &s); p.push_back(f); p.push_back(s); }
    }
    Ev("pred").str("tag", tag).i("samples", m.getNumberOfSamples()).nums("p", p.data(), p.size()).emit();
}
static int runModel() {
    unsigned dim = (unsigned)plan.geti("dim", 1);
    bool uni = plan.geti("universal");
    string file = plan.get("file", "train.csv"), hfile = plan.get("hfile", "hyp.csv");
    Rodop::KrigingModel *m = nullptr;
    long idx = 0;
    for (auto &op : split(plan.get("ops"), ';')) {
        if (op.empty()) continue;
        auto w = split(op, ' ');
        string err; bool ok = true;
        snapshot();
        Ev("mop").i("i", idx).str("op", op).emit();
        try {
            armAlloc(true);
            if (w[0] == "open") { delete m; m = nullptr; m = new Rodop::KrigingModel; setupModel(*m, dim, file, uni, hfile, plan.getd("ratio", 0)); }
            else if (!m) ok = false;
            else if (w[0] == "add") m->addNewSampleToData(V(nums(w[1])));
            else if (w[0] == "train") {
                g_hyp = Hyp();
                if (plan.getd("ratio", 0) > 0) { Quiet q; emitHeldOut(*m); }
                if (w.size() > 1) m->setNumberOfThreads((unsigned)atoi(w[1].c_str()));
                if (w.size() > 2) m->setNumberOfTrainingIterations((unsigned)atoi(w[2].c_str()));
                if (w.size() > 3) m->setObjectiveFunctionTypeForModelTraining(Rodop::MAXIMUM_LIKELIHOOD);
                m->train();
                Quiet q;
                Rodop::vec h = m->getHyperParameters();
                double kept = std::nan("");
                for (auto &c : g_hyp.all) {
                    bool same = c.x.size() == h.getSize();
                    for (unsigned j = 0; same && j < h.getSize(); j++) same = fabs(c.x[j] - h(j)) <= 1e-9 * fabs(h(j)) + 1e-12;
                    if (same && !(kept <= c.v)) kept = c.v;
                }
                Ev("trained").num("kept", kept).i("n", g_hyp.n).i("nans", g_hyp.nans).i("out", g_hyp.out).num("best", g_hyp.best).nums("arg", g_hyp.arg.data(), g_hyp.arg.size()).nums("h", h.getPointer(), h.getSize()).emit();
            }
            else if (w[0] == "like") {
                Rodop::KrigingModel c = *m;
                double l = c.calculateLikelihoodFunction(m->getHyperParameters());
                Ev("like").num("v", l).emit();
            }
            else if (w[0] == "save") m->saveHyperParameters();
            else if (w[0] == "load") { m->loadHyperParameters(); m->updateAuxilliaryFields(); }
            else if (w[0] == "warm") { m->setReadWarmStartFileFlag(true); m->train(); m->setReadWarmStartFileFlag(false); }
            else if (w[0] == "warmsave") { m->setWriteWarmStartFileFlag(true); m->train(); m->setWriteWarmStartFileFlag(false); }
            else if (w[0] == "hyper") { m->setHyperParameters(V(nums(w[1]))); m->updateAuxilliaryFields(); }
            else if (w[0] == "update") m->updateModelWithNewData();
            else ok = false;
            armAlloc(false);
        } catch (const std::exception &e) { armAlloc(false); err = e.what(); if (err.empty()) err = "exception"; ok = false; }
        Ev("mopres").i("i", idx).i("ok", ok).str("err", err).emit();
        snapshot();
        idx++;
        if (m && m->ifInitialized) {
            try {
                Rodop::vec h = m->getHyperParameters();
                Ev("hyper").nums("h", h.getPointer(), h.getSize()).emit();
                emitPrediction("use", *m, dim, true);
            } catch (const std::exception &e) { Ev("prederr").str("tag", "use").str("err", e.what()).emit(); }
            sim::enter();
            try {
                Rodop::KrigingModel f;
                setupModel(f, dim, file, uni, hfile);
                f.setHyperParameters(m->getHyperParameters());
                f.updateAuxilliaryFields();
                emitPrediction("fresh", f, dim, true);
            } catch (const std::exception &e) { Ev("prederr").str("tag", "fresh").str("err", e.what()).emit(); }
            sim::leave();
        }
    }
    return 0;
}

// ---------------------------------------------------------------- evolutionary optimiser
static long g_eaCalls = 0;
static double eaValue(const vector<double> &x) {
    Quiet q;
    double y = evalFunction(plan.evals[0], x);
    long k = g_eaCalls++;
    Ev("ea").i("k", k).nums("x", x.data(), x.size()).num("y", y).emit();
    return y;
}
static double eaPlain(double *p) { return eaValue(vector<double>(p, p + plan.geti("dim", 1))); }
class EASub : public Rodop::EAOptimizer {
public:
    double calculateObjectiveFunctionInternal(const Rodop::vec &v) override { return eaValue(vector<double>(v.getPointer(), v.getPointer() + v.getSize())); }
};
static int runEA() {
    unsigned dim = (unsigned)plan.geti("dim", 1);
    EASub *o = nullptr;
    long idx = 0;
    for (auto &op : split(plan.get("ops"), ';')) {
        if (op.empty()) continue;
        auto w = split(op, ' ');
        string err; bool ok = true;
        snapshot();
        Ev("mop").i("i", idx).str("op", op).emit();
        try {
            armAlloc(true);
            if (w[0] == "new") {
                delete o; o = nullptr; o = new EASub;
                o->setDimension(dim);
                o->setBounds(nums(plan.get("lb")), nums(plan.get("ub")));
                o->setInitialPopulationSize((unsigned)plan.geti("init", 10));
                o->setNumberOfNewIndividualsInAGeneration((unsigned)plan.geti("newind", 10));
                o->setNumberOfDeathsInAGeneration((unsigned)plan.geti("deaths", 10));
                o->setNumberOfGenerations((unsigned)plan.geti("gens", 3));
                o->setMaximumNumberOfGeneratedIndividuals((unsigned)plan.geti("maxeval", 100));
                o->setMutationProbability(plan.getd("mut", 0.1));
                if (plan.geti("plainfn")) o->setObjectiveFunction(eaPlain);
                o->setFilenameWarmStart("warm.csv");
            }
            else if (!o) ok = false;
            else if (w[0] == "init") o->initializePopulation();
            else if (w[0] == "gen") o->generateANewGeneration();
            else if (w[0] == "optimize") o->optimize();
            else if (w[0] == "write") { o->setFilenameWarmStart(w.size() > 1 ? w[1] : "warm.csv"); o->writeWarmRestartFile(); }
            else if (w[0] == "read") { o->setFilenameWarmStart(w.size() > 1 ? w[1] : "warm.csv"); o->readWarmRestartFile(); }
            else if (w[0] == "warm") { o->setFilenameWarmStart(w.size() > 1 ? w[1] : "warm.csv"); o->setWarmStartOn(); o->optimize(); o->setWarmStartOff(); }
            else if (w[0] == "reset") o->resetPopulation();
            else ok = false;
            armAlloc(false);
        } catch (const std::exception &e) { armAlloc(false); err = e.what(); if (err.empty()) err = "exception"; ok = false; }
        Ev("mopres").i("i", idx).i("ok", ok).str("err", err).emit();
        snapshot();
        idx++;
        if (o && ok) {
            sim::enter();
            try {
                long n = o->getPopulationSize();
                Ev e("pop"); e.i("size", n);
                if (n > 0) { Rodop::EAIndividual b = o->getSolution(); Rodop::vec g = b.getGenes(); e.i("id", b.getId()).num("y", b.getObjectiveFunctionValue()).nums("x", g.getPointer(), g.getSize()); }
                e.emit();
                if (n > 0) {
                    // the whole population as the optimiser itself writes it, to a file no fault can reach
                    o->setFilenameWarmStart(plan.get("dump"));
                    o->writeWarmRestartFile();
                    string txt; FILE *f = fopen(plan.get("dump").c_str(), "r"); if (f) { char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) txt.append(b, r); fclose(f); }
                    Ev("popdump").str("csv", txt).emit();
                    o->setFilenameWarmStart("warm.csv");
                }
            } catch (const std::exception &e) { Ev("poperr").str("err", e.what()).emit(); }
            sim::leave();
        }
    }
    return 0;
}

// ---------------------------------------------------------------- tests of a model
void testerReference(Rodop::SurrogateModelTester &, const string &, const vector<double> &, const vector<double> &, const vector<vector<double>> &, const vector<vector<double>> &);
static vector<vector<double>> csvRows(const string &name) {
    vector<vector<double>> r;
    std::ifstream f(name);
    string l;
    while (std::getline(f, l)) { vector<double> v; for (auto &c : split(l, ',')) v.push_back(atof(c.c_str())); if (!l.empty()) r.push_back(v); }
    return r;
}
static int runTest() {
    unsigned dim = (unsigned)plan.geti("dim", 1);
    vector<double> lb = nums(plan.get("lb")), ub = nums(plan.get("ub"));
    Rodop::SurrogateModelTester *t = nullptr;
    string train = "train.csv", test = "test.csv";
    long idx = 0;
    for (auto &op : split(plan.get("ops"), ';')) {
        if (op.empty()) continue;
        auto w = split(op, ' ');
        string err; bool ok = true;
        snapshot();
        Ev("mop").i("i", idx).str("op", op).emit();
        try {
            armAlloc(true);
            if (w[0] == "new") { delete t; t = nullptr; t = new Rodop::SurrogateModelTester; t->setDimension(dim); t->setName("test"); t->setBoxConstraints(Rodop::Bounds(V(lb), V(ub))); train = "train.csv"; test = "test.csv"; t->setFileNameTrainingData(train); t->setFileNameTestData(test); }
            else if (!t) ok = false;
            else if (w[0] == "model") { t->setSurrogateModel(w[1] == "linear" ? Rodop::LINEAR_REGRESSION : w[1] == "universal" ? Rodop::UNIVERSAL_KRIGING : Rodop::ORDINARY_KRIGING); t->bindSurrogateModels(); }
            else if (w[0] == "iters") t->setNumberOfTrainingIterations((unsigned)atoi(w[1].c_str()));
            else if (w[0] == "ratio") t->setRatioValidationSamples(atof(w[1].c_str()));
            else if (w[0] == "variances") t->ifVariancesShouldBeComputedInTest = atoi(w[1].c_str());
            else if (w[0] == "train") t->setFileNameTrainingData(train = w[1]);
            else if (w[0] == "test") t->setFileNameTestData(test = w[1]);
            else if (w[0] == "run") t->performSurrogateModelTest();
            else ok = false;
            armAlloc(false);
        } catch (const std::exception &e) { armAlloc(false); err = e.what(); if (err.empty()) err = "exception"; ok = false; }
        Ev("mopres").i("i", idx).i("ok", ok).str("err", err).emit();
        snapshot();
        idx++;
        if (w[0] == "run" && ok) {
            sim::enter();
            try { testerReference(*t, train, lb, ub, csvRows(test), csvRows(train)); } catch (const std::exception &e) { Ev("testreferr").str("err", e.what()).emit(); }
            sim::leave();
        }
    }
    return 0;
}

// ---------------------------------------------------------------- loggers used from several threads
static int runLog() {
    int nt = (int)plan.geti("threads", 3), nm = (int)plan.geti("messages", 10), which = (int)plan.geti("logger", 4), inc = (int)plan.geti("inc", 0), first = (int)plan.geti("first", 0);
    vector<std::thread> ts;
    auto one = [&](int t, int i) {
        uint64_t h = (uint64_t)(t * 7919 + i * 104729 + inc * 31) * 2654435761ull;
        int len = (int)((h >> 16) % (uint64_t)plan.geti("maxlen", 200));
        string m = "<m" + std::to_string(inc) + "." + std::to_string(t) + "." + std::to_string(i) + ":" + string((size_t)len, (char)('a' + (t % 26))) + ">";
        int l = which == 4 ? (int)((h >> 40) % 4) : which, lev = 1 + (int)((h >> 50) % 4);
        { Quiet q; Ev("logmsg").i("th", t).i("l", l).i("lev", lev).i("now", (long long)wallNow()).str("m", m).emit(); }
        if (l == 0) simLogDriver(lev, m); else if (l == 1) simLogOptimization(lev, m); else if (l == 2) simLogModel(lev, m); else simLogObjective(lev, m);
        { Quiet q; Ev("logdone").i("th", t).i("now", (long long)wallNow()).str("m", m).emit(); }
    };
    if (first) for (int i = 0; i < first; i++) one(90, i);
    for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { for (int i = 0; i < nm; i++) one(t, i); });
    for (auto &t : ts) t.join();
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: simrun plan\n"); return 2; }
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOEXEC")) {
        if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOEXEC", "1", 1);
            syscall(SYS_execve, "/proc/self/exe", argv, environ);
        }
    }
    start(argv[1]);
    int rc = 2;
    if (plan.scenario == "driver") rc = runDriver();
    else if (plan.scenario == "api") rc = runApi();
    else if (plan.scenario == "model") rc = runModel();
    else if (plan.scenario == "ea") rc = runEA();
    else if (plan.scenario == "test") rc = runTest();
    else if (plan.scenario == "log") rc = runLog();
    exit(rc);      // static objects are destroyed under simulation; the runtime's exit handler ends the run
}
