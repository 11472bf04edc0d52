// The models a study has in use when it chose a design, next to models rebuilt from the training-data files.
// This unit reads members of the optimizer.  Where the code around them has changed so that it no longer compiles,
// sim/build.py compiles it with -DNO_INTERNALS, and the study is judged without it.
#include "simrt.h"
#include <cmath>
#include <string>
#include <vector>
using std::string;
using std::vector;
using namespace sim;
namespace sim { void enter(); void leave(); }

struct Candidate { vector<double> x; double v; };
vector<Candidate> g_candidates;        // some of the candidates of the search that has just ended

namespace Rodop { class Optimizer; class KrigingModel; }
#ifdef NO_INTERNALS
namespace RodeoSim { void searchFinished(const Rodop::Optimizer &) {} }
void emitHeldOut(const Rodop::KrigingModel &) {}
#else
#include "Optimizers/INCLUDE/optimization.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"

static void one(const Rodop::ObjectiveFunction &f, int id, const string &type, double limit, bool defined, unsigned dim, const vector<vector<double>> &pts) {
    Ev e("model");
    e.i("fn", id).str("type", type).num("limit", limit).i("defined", defined);
    if (!defined) {
        const Rodop::KrigingModel &m = f.surrogateModel;
        e.str("file", f.definition.nameHighFidelityTrainingData).i("samples", m.getNumberOfSamples()).i("linear", m.ifUsesLinearRegression).i("iters", m.numberOfTrainingIterations);
        vector<double> use, fresh;
        for (auto &p : pts) {
            Rodop::vec x(dim);
            for (unsigned i = 0; i < dim; i++) x(i) = p[i];
            double v = 0, s = 0;
            f.surrogate->interpolateWithVariance(x, &v, &s);
            use.push_back(v); use.push_back(s);
        }
        Rodop::vec h = const_cast<Rodop::KrigingModel &>(m).getHyperParameters();
        vector<double> flat;
        for (auto &p : pts) for (double d : p) flat.push_back(d);
        e.nums("use", use.data(), use.size()).nums("h", h.getPointer(), h.getSize()).nums("at", flat.data(), flat.size());
        try {
            Rodop::KrigingModel n;
            n.setDimension(dim);
            n.setName("rebuilt");
            if (f.definition.modelHiFi == Rodop::UNIVERSAL_KRIGING) n.setLinearRegressionOn();
            n.setNameOfInputFile(f.definition.nameHighFidelityTrainingData);
            n.setBoxConstraints(f.boxConstraints);
            n.readData();
            n.normalizeData();
            n.initializeSurrogateModel();
            n.setHyperParameters(const_cast<Rodop::KrigingModel &>(m).getHyperParameters());
            n.updateAuxilliaryFields();
            for (auto &p : pts) {
                Rodop::vec x(dim);
                for (unsigned i = 0; i < dim; i++) x(i) = p[i];
                double v = 0, s = 0;
                n.interpolateWithVariance(x, &v, &s);
                fresh.push_back(v); fresh.push_back(s);
            }
            e.i("freshsamples", n.getNumberOfSamples()).nums("fresh", fresh.data(), fresh.size());
        } catch (const std::exception &x) { e.str("err", x.what()); }
    }
    e.emit();
}

// the samples a model holds out for validation
void emitHeldOut(const Rodop::KrigingModel &m) {
    const Rodop::mat &v = m.data.rawDataValidation;
    vector<double> flat;
    if (m.data.getNumberOfSamplesValidation() > 0)
        for (unsigned i = 0; i < v.getNRows(); i++)
            for (unsigned j = 0; j < v.getNCols(); j++) flat.push_back(v(i, j));
    Ev("held").nums("rows", flat.data(), flat.size()).emit();
}

namespace RodeoSim {
void searchFinished(const Rodop::Optimizer &o) {
    if (!plan.geti("models")) { g_candidates.clear(); return; }
    sim::enter();
    unsigned dim = o.dimension;
    vector<vector<double>> pts;
    vector<double> vals, flat;
    for (auto &c : g_candidates) { pts.push_back(c.x); vals.push_back(c.v); for (double d : c.x) flat.push_back(d); }
    for (int i = 0; i < 4; i++) {
        vector<double> x(dim);
        for (unsigned j = 0; j < dim; j++) x[j] = fmod(0.137 + 0.293 * i + 0.171 * j, 1.0) / dim;
        pts.push_back(x);
    }
    Ev("search").i("dim", dim).i("n", (long long)vals.size()).nums("x", flat.data(), flat.size()).nums("v", vals.data(), vals.size()).num("factor", o.objFun.sigmaFactor).emit();
    one(o.objFun, -1, "", 0, false, dim, pts);
    for (auto &c : o.constraintFunctions) one(c, c.getID(), c.getInequalityType(), c.getInequalityTargetValue(), c.isUserDefinedFunction(), dim, pts);
    g_candidates.clear();
    sim::leave();
}
}
#endif
