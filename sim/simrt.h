// Deterministic simulation runtime for RoDeO: interface used by the scenarios.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>

namespace sim {

struct EvalSpec {                  // one simulated external program
    std::string exe;               // file name of the executable (base name)
    std::string dv, out;           // files it reads / writes (relative to its cwd)
    std::string fn;                // function id
    std::vector<double> c;         // coefficients
    int fmt = 0;                   // output formatting style
    double shift = 0;
};

struct Plan {
    uint64_t seed = 1;
    std::string scenario;
    std::map<std::string, std::string> kv;
    std::vector<EvalSpec> evals;
    std::string get(const std::string &k, const std::string &d = "") const {
        auto it = kv.find(k); return it == kv.end() ? d : it->second;
    }
    long geti(const std::string &k, long d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
    double getd(const std::string &k, double d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atof(it->second.c_str()); }
};
extern Plan plan;

// event log (JSON lines)
struct Ev {
    std::string s;
    explicit Ev(const char *t);
    Ev &str(const char *k, const std::string &v);
    Ev &num(const char *k, double v);     // exact (%.17g), nan/inf as strings
    Ev &i(const char *k, long long v);
    Ev &raw(const char *k, const std::string &json);
    Ev &nums(const char *k, const double *p, size_t n);
    void emit();
};
std::string jstr(const std::string &v);

double evalFunction(const EvalSpec &e, const std::vector<double> &x);
uint64_t rnd64(int stream);
double rnd01(int stream);
void snapshot();                    // log changed files in the scratch directory
void advanceClock(double seconds);
double wallNow();                   // simulated wall clock, seconds
void start(const char *planfile);   // parse plan, open event log, arm seams
[[noreturn]] void finish(int code); // final snapshot, flush, exit
// evaluator fault chosen for the k-th evaluation of this incarnation ("" = none)
std::string evalFault(long k);
long nextEvalIndex();
void armAlloc(bool on);
[[noreturn]] void dieHere();        // the process dies now
void enter();                       // the harness's own code: no seams, no scheduling
void leave();
// number of distinct scheduling decisions so far
long steps();
}
