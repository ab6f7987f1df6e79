// Synthetic right hand sides, solver construction and step recording for the ODE monitors.
#pragma once
#include "alg_common.h"
#include "reg.h"
#include "ode_num_int/ode/interfaces/OdeSolver.h"
#include "ode_num_int/ode/interfaces/OdeStepSizeController.h"
#include "ode_num_int/ode/interfaces/OdeEventController.h"

namespace vf {
typedef ctm::math::OdeSolver<VD> Solver;
typedef ctm::math::OdeRhs<VD> Rhs;
typedef std::shared_ptr<Solver> SolverPtr;
typedef ctm::OptionalParameters::Parameters Params;
typedef ctm::OptionalParameters::Value PValue;

inline SolverPtr newSolver(const std::string& id) { registerAll(); return ctm::Factory<Solver>::newInstance(id); }

inline DV add(const DV& a, double s, const DV& b) { DV r = a; for (size_t i = 0; i < r.size(); ++i) r[i] += s * b[i]; return r; }
inline DV sub(const DV& a, const DV& b) { return add(a, -1, b); }
inline double maxDiff(const DV& a, const DV& b) { return a.size() == b.size() ? maxAbs(sub(a, b)) : INFINITY; }
inline bool finite(const DV& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
inline DV rndv(Rng& g, unsigned n, double s) { DV x(n); for (auto& v : x) v = g.uni(-s, s); return x; }

struct Fault : std::runtime_error { explicit Fault(const std::string& s) : std::runtime_error(s) {} };
// x = [positions; velocities; first order variables]
// positions' = velocities, the others' derivative: F_j = c_j + sum( a x_i + q sin( w x_i + p ) ) + b_j sin( om_j t + ph_j )
class GenRhs : public Rhs {
public:
    unsigned n2 = 0, n1 = 0;
    DV c, b, om, ph;
    std::vector<Term> terms;
    mutable long calls = 0;
    long budget = 3000000, faultAt = -1;                // evaluation that fails with an exception
    mutable std::vector<std::pair<double, DV>> trace;   // arguments, when recording
    bool record = false;
    mutable std::vector<std::pair<double, DV>> before;  // beforeStep()
    mutable std::vector<DV> before2;                    // beforeStep2()
    std::function<void(double, const DV&, DV&)> distort; // deliberate faults
    bool notify = true;

    unsigned secondOrderVarCount() const override { return n2; }
    unsigned firstOrderVarCount() const override { return n1; }
    unsigned n() const { return 2 * n2 + n1; }
    using Rhs::rhs;
    void rhs(V& dst, double t, const V& x) const override {
        if (++calls > budget) throw Runaway("right hand side evaluated " + std::to_string(calls) + " times");
        if (calls == faultAt) throw Fault("injected fault");
        if (notify) odeRhsPreObservers(t, x, this);
        DV xx = fromV(x);
        if (record) trace.emplace_back(t, xx);
        DV r = eval(t, xx);
        dst.resize(n());
        for (unsigned i = 0; i < n(); ++i) dst[i] = r[i];
        if (notify) odeRhsPostObservers(t, x, dst, this);
    }
    void beforeStep(double t, const V& x) const override { if (record) before.emplace_back(t, fromV(x)); }
    void beforeStep2(const V& k) const override { if (record) before2.push_back(fromV(k)); }
    DV eval(double t, const DV& x) const {
        DV r(n(), 0.);
        for (unsigned i = 0; i < n2; ++i) r[i] = x[n2 + i];
        for (unsigned j = 0; j < n2 + n1; ++j) r[n2 + j] = c[j] + (b[j] != 0 ? b[j] * std::sin(om[j] * t + ph[j]) : 0.);
        for (auto& k : terms) r[n2 + k.j] += k.a * x[k.i] + (k.q != 0 ? k.q * std::sin(k.w * x[k.i] + k.p) : 0.);
        if (distort) distort(t, x, r);
        return r;
    }
    DM jac(const DV& x) const {
        DM m(n(), n());
        for (unsigned i = 0; i < n2; ++i) m(i, n2 + i) = 1;
        for (auto& k : terms) m(n2 + k.j, k.i) += k.a + k.q * k.w * std::cos(k.w * x[k.i] + k.p);
        return m;
    }
    std::string text() const {
        std::ostringstream s; s << std::setprecision(17) << "rhs n2=" << n2 << " n1=" << n1 << " c=" << list(c) << " b=" << list(b) << " om=" << list(om) << " ph=" << list(ph) << " terms";
        for (auto& t : terms) s << " F" << t.j << "+=" << t.a << "*x" << t.i << "+" << t.q << "*sin(" << t.w << "*x" << t.i << "+" << t.p << ")";
        return s.str();
    }
};
// strength: magnitude of the coupling; nonlin: share of the nonlinear part; forcing: amplitude of the time dependence
inline std::shared_ptr<GenRhs> randomRhs(Rng& g, unsigned n2, unsigned n1, double density, double strength, double nonlin, double forcing) {
    auto f = std::make_shared<GenRhs>();
    f->n2 = n2; f->n1 = n1;
    unsigned m = n2 + n1, n = 2 * n2 + n1;
    f->c = rndv(g, m, 1); f->b.assign(m, 0.); f->om.assign(m, 1.); f->ph.assign(m, 0.);
    for (unsigned j = 0; j < m; ++j) {
        if (g.chance(.6)) { f->b[j] = forcing * g.uni(-1, 1); f->om[j] = g.uni(.5, 3); f->ph[j] = g.uni(-3, 3); }
        for (unsigned i = 0; i < n; ++i) if (i == n2 + j || g.chance(density)) {
            double w = g.uni(.5, 2), a = strength * g.uni(-1, 1);
            if (i == n2 + j) a = -strength * g.uni(.2, 1.5);
            f->terms.push_back(Term{j, i, a, g.chance(.7) ? nonlin * g.uni(-1, 1) * a / w : 0., w, g.uni(-3, 3)});
        }
    }
    return f;
}

struct StepRec {
    double hPre, t0, t1;        // announced step size; time before and after
    DV x0, x1;
    double h; bool accepted, changed, truncated; double err; unsigned izf; int trans;
    bool posted;
};
// Records every attempted step of a solver (between the pre and the post observers)
struct StepLog {
    SolverPtr s;
    std::vector<StepRec> recs;
    int idPre, idPost;
    bool open = false;
    std::string protocol;       // first violation of the observer protocol
    explicit StepLog(SolverPtr s) : s(s) {
        idPre = s->odeSolverPreObservers.add([this](double h, const Solver* who) {
            if (who != this->s.get() && protocol.empty()) protocol = "the pre observer was passed another solver";
            if (open && protocol.empty()) protocol = "two pre notifications without a post notification in between";
            StepRec r = StepRec();
            r.hPre = h; r.t0 = who->initialTime(); r.x0 = fromV(who->initialState());
            recs.push_back(r); open = true;
        });
        idPost = s->odeSolverPostObservers.add([this](const ctm::math::OdeSolverPostObserverArg<VD>& a) {
            if (a.solver() != this->s.get() && protocol.empty()) protocol = "the post observer was passed another solver";
            if (!open) { if (protocol.empty()) protocol = "post notification without pre notification"; return; }
            open = false;
            StepRec& r = recs.back();
            r.h = a.stepSize(); r.accepted = a.stepAccepted(); r.changed = a.stepSizeChanged(); r.truncated = a.stepTruncated();
            r.err = a.errorNorm(); r.izf = a.izfTrunc(); r.trans = a.transitionType();
            r.t1 = this->s->initialTime(); r.x1 = fromV(this->s->initialState()); r.posted = true;
        });
    }
    ~StepLog() { s->odeSolverPreObservers.remove(idPre); s->odeSolverPostObservers.remove(idPost); }
    StepLog(const StepLog&) = delete;
};

// ---- Butcher tableaus taken from the running code --------------------------
struct Tableau {
    unsigned s = 0;
    DM A; DV b, c;
    int order = 0;
    // one step; k receives the stages
    DV step(const std::function<DV(double, const DV&)>& f, double t, const DV& x, double h) const {
        std::vector<DV> k;
        for (unsigned i = 0; i < s; ++i) {
            DV y = x;
            for (unsigned j = 0; j < i; ++j) if (A(i, j) != 0) y = add(y, h * A(i, j), k[j]);
            k.push_back(f(t + h * c[i], y));
        }
        DV r = x;
        for (unsigned i = 0; i < s; ++i) if (b[i] != 0) r = add(r, h * b[i], k[i]);
        return r;
    }
};
// A right hand side whose k-th evaluation returns the k-th unit vector: stage arguments and result then show the method's coefficients
class ProbeRhs : public Rhs {
public:
    unsigned m = 24;
    mutable unsigned k = 0;
    mutable std::vector<DV> args; mutable DV times;
    unsigned secondOrderVarCount() const override { return 0; }
    unsigned firstOrderVarCount() const override { return m; }
    using Rhs::rhs;
    void rhs(V& dst, double t, const V& x) const override {
        args.push_back(fromV(x)); times.push_back(t);
        dst.resize(m);
        for (unsigned i = 0; i < m; ++i) dst[i] = i == k ? 1 : 0;
        ++k;
    }
};
inline Tableau extractTableau(const std::string& id, const std::string& mode = "") {
    auto s = newSolver(id);
    Params p; p["h_init"] = 1.; p["h_min"] = 0.;
    if (!mode.empty()) { p["mode"] = mode; p["disable_error_check"] = true; }
    s->setParameters(p);
    auto f = std::make_shared<ProbeRhs>();
    s->setOdeRhs(f);
    s->setInitialState(0, V(f->m));
    s->doStep();
    Tableau t;
    t.s = f->k; t.A = DM(t.s, t.s); t.c = f->times; t.order = s->order();
    DV x = fromV(s->initialState());
    for (unsigned i = 0; i < t.s; ++i) { t.b.push_back(x[i]); for (unsigned j = 0; j < t.s; ++j) t.A(i, j) = f->args[i][j]; }
    return t;
}
} // namespace vf
