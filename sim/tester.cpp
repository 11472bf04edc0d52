// The model a SurrogateModelTester has trained, next to one rebuilt from the training file.
// This unit reads members of the tester; like internals.cpp it can be left out.
#include "simrt.h"
#include <string>
#include <vector>
using std::string;
using std::vector;
using namespace sim;

namespace Rodop { class SurrogateModelTester; }
#ifdef NO_INTERNALS
void testerReference(Rodop::SurrogateModelTester &, const string &, const vector<double> &, const vector<double> &, const vector<vector<double>> &, const vector<vector<double>> &) {}
#else
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"

static Rodop::vec V(const vector<double> &v) { Rodop::vec r((unsigned)v.size()); for (size_t i = 0; i < v.size(); i++) r((unsigned)i) = v[i]; return r; }

// What a model of the training file with the hyper-parameters found predicts for the test points and the samples
void testerReference(Rodop::SurrogateModelTester &t, const string &file, const vector<double> &lb, const vector<double> &ub, const vector<vector<double>> &test, const vector<vector<double>> &train) {
    if (t.surrogateModelType == Rodop::LINEAR_REGRESSION) {
        // the samples it rests on: some may be held out for validation
        Rodop::mat X = t.surrogateModel->getX();
        vector<double> rows;
        for (unsigned i = 0; i < X.getNRows(); i++) for (unsigned j = 0; j < X.getNCols(); j++) rows.push_back(X(i, j));
        Ev("testref").num("insample", t.surrogateModel->calculateInSampleError()).nums("rows", rows.data(), rows.size()).emit();
        return;
    }
    unsigned dim = (unsigned)lb.size();
    Rodop::vec h = t.krigingModel.getHyperParameters();
    double ins = t.surrogateModel->calculateInSampleError();
    Rodop::KrigingModel n;
    n.setDimension(dim);
    n.setName("rebuilt");
    if (t.surrogateModelType == Rodop::UNIVERSAL_KRIGING) n.setLinearRegressionOn();
    n.setNameOfInputFile(file);
    n.setBoxConstraints(Rodop::Bounds(V(lb), V(ub)));
    n.readData();
    n.normalizeData();
    n.initializeSurrogateModel();
    n.setHyperParameters(h);
    n.updateAuxilliaryFields();
    auto at = [&](const vector<double> &p, double *f, double *s) {
        Rodop::vec x(dim);
        for (unsigned i = 0; i < dim; i++) x(i) = (p[i] - lb[i]) / (ub[i] - lb[i]) / dim;
        n.interpolateWithVariance(x, f, s);
    };
    vector<double> f, v, g;
    for (auto &p : test) { double a = 0, b = 0; at(p, &a, &b); f.push_back(a); v.push_back(b); }
    for (auto &p : train) { double a = 0, b = 0; at(p, &a, &b); g.push_back(a); }
    Ev("testref").num("insample", ins).nums("h", h.getPointer(), h.getSize()).nums("f", f.data(), f.size()).nums("v", v.data(), v.size()).nums("train", g.data(), g.size()).emit();
}
#endif
