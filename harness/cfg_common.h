// Configured solutions of a registered right hand side, with an independent record of what happened.
#pragma once
#include "hybrid.h"
#include "ode_num_int/alg/NewtonSolver.h"
#include "ode_num_int/ode/OdeSolverConfiguration.h"
#include <iostream>

namespace vf {
typedef ctm::math::OdeSolverConfiguration<VD> Config;
typedef ctm::math::OdeSolverComponents<VD> Components;

// The right hand side the configuration creates (a copy of *current each time)
class CfgRhs : public HybridRhs, public ctm::FactoryMixin<CfgRhs, Rhs> {
public:
    static std::shared_ptr<HybridRhs>& current() { static std::shared_ptr<HybridRhs> p; return p; }
    CfgRhs() {
        if (!current()) return;
        const HybridRhs& r = *current();
        n2 = r.n2; n1 = r.n1; c = r.c; b = r.b; om = r.om; ph = r.ph; terms = r.terms; budget = r.budget; zf = r.zf; distort = r.distort; faultAt = r.faultAt;
        if (auto q = dynamic_cast<const CfgRhs*>(&r)) { barrier = barrier0 = q->barrier0; period = q->period; }
    }
    // Ends steps at barrier, barrier + period, ... (systems without zero functions only)
    double barrier0 = 0, period = 0; mutable double barrier = 0;
    bool truncateStep(double& t, V&) const override {
        if (!(period > 0) || !(t > barrier)) return false;
        t = barrier; barrier += period;
        return true;
    }
    std::string describeZeroFunction(unsigned i) const override { return "function-" + std::to_string(i); }
};
inline void registerCfgRhs() { static CfgRhs::Registrator r("vf"); (void)r; }
inline void setAll(Config& cfg, const Params& p) {
    auto& cc = static_cast<ctm::ComponentConfiguration&>(cfg);
    Params all = cc.parameters();
    for (auto& k : p) all[k.first] = k.second;
    cc.parameterProvider()->setParameters(all);
}

// Independent record of a solution
struct RunRec {
    std::vector<StepRec> steps;
    long evals = 0, evalsJ = 0, refreshes = 0, iterations = 0;
    struct It { size_t attempt; unsigned number; double alpha; std::string status; };
    std::vector<It> its;            // the iterations of Newton's method and the attempts they belong to
    bool inRefresh = false;
    SolverPtr s; std::shared_ptr<Rhs> f;
    int a, b, c, d, e;
    RunRec(SolverPtr s) : s(s), f(s->odeRhs()) {
        a = s->odeSolverPreObservers.add([this](double h, const Solver* w) { StepRec r = StepRec(); r.hPre = h; r.t0 = w->initialTime(); r.x0 = fromV(w->initialState()); steps.push_back(r); });
        b = s->odeSolverPostObservers.add([this](const ctm::math::OdeSolverPostObserverArg<VD>& g) {
            StepRec& r = steps.back();
            r.h = g.stepSize(); r.accepted = g.stepAccepted(); r.changed = g.stepSizeChanged(); r.truncated = g.stepTruncated(); r.err = g.errorNorm(); r.izf = g.izfTrunc(); r.trans = g.transitionType();
            r.t1 = this->s->initialTime(); r.x1 = fromV(this->s->initialState()); r.posted = true;
        });
        c = f->odeRhsPostObservers.add([this](double, const V&, const V&, const Rhs*) { ++evals; if (inRefresh) ++evalsJ; });
        d = s->jacobianRefreshObservers.add([this](bool on) { inRefresh = on; if (!on) ++refreshes; });
        e = s->iterationObservers.add([this](unsigned k, const ctm::math::NewtonSolverInterface<VD>* w) {
            ++iterations;
            auto p = w->iterationPerformer();
            its.push_back(It{steps.size(), k, p->currentStepRatio(), p->errorEstimator()->currentStatusMessage()});
            return false;
        });
    }
    ~RunRec() { s->odeSolverPreObservers.remove(a); s->odeSolverPostObservers.remove(b); f->odeRhsPostObservers.remove(c); s->jacobianRefreshObservers.remove(d); s->iterationObservers.remove(e); }
    RunRec(const RunRec&) = delete;
};
inline std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string x; std::stringstream k(s); while (std::getline(k, x, d)) r.push_back(x); return r; }
} // namespace vf
