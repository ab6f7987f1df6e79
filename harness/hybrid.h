// Hybrid systems (zero functions, jumps, switched right hand sides) and random solver configurations.
#pragma once
#include "ode_common.h"

namespace vf {
inline int sg(double v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

struct ZF { DV a; double bt = 0, c0 = 0, q = 0; unsigned k = 0, flags = Rhs::BothDirections; double jump = 0; int jcomp = -1, jkind = 0; DV dc; };
struct SwitchCall { std::vector<int> tr; double t; DV x; };

class HybridRhs : public GenRhs {
public:
    std::vector<ZF> zf;
    std::vector<SwitchCall> calls2;
    unsigned zeroFuncCount() const override { return unsigned(zf.size()); }
    std::vector<unsigned> zeroFuncFlags() const override { std::vector<unsigned> r; for (auto& z : zf) r.push_back(z.flags); return r; }
    double g(unsigned i, double t, const DV& x) const {
        auto& z = zf[i];
        double r = z.bt * t + z.c0 + z.q * std::sin(x[z.k]);
        for (unsigned j = 0; j < x.size(); ++j) r += z.a[j] * x[j];
        return r;
    }
    void zeroFunctions(V& dst, double t, const V& x) const override {
        dst.resize(unsigned(zf.size()));
        DV xx = fromV(x);
        for (unsigned i = 0; i < zf.size(); ++i) dst[i] = g(i, t, xx);
    }
    // the effect of a switch on the state and on the right hand side
    static DV jump(const ZF& z, int tr, DV x) {
        if (z.jcomp >= 0) { double& v = x[unsigned(z.jcomp)]; v = z.jkind == 0 ? -z.jump * v : v + tr * z.jump; }
        return x;
    }
    void switchPhaseState(const int* tr, double t, V& x) override {
        SwitchCall s; s.tr.assign(tr, tr + zf.size()); s.t = t; s.x = fromV(x);
        calls2.push_back(s);
        for (unsigned i = 0; i < zf.size(); ++i) if (tr[i]) {
            DV y = jump(zf[i], tr[i], fromV(x));
            for (unsigned j = 0; j < y.size(); ++j) x[j] = y[j];
            for (unsigned j = 0; j < c.size(); ++j) c[j] += tr[i] * zf[i].dc[j];
        }
    }
};

inline void noEvents(SolverPtr s) { dynamic_cast<ctm::math::OdeEventControllerHolder<VD>&>(*s).setEventController(nullptr); }

static const std::vector<std::string> kinds = {"euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_w1", "rosenbrock_sw2_4", "i_euler", "extrapolator"};


// A hybrid system; the functions start on the side they are watched from
inline std::shared_ptr<HybridRhs> randomHybrid(Rng& g, unsigned n2, unsigned n1, unsigned nz, double t0, const DV& x0, std::ostream& desc) {
    auto gen = randomRhs(g, n2, n1, .4, g.uni(.2, 2), g.uni(0, 1), g.uni(0, 2));
    auto f = std::make_shared<HybridRhs>();
    f->n2 = gen->n2; f->n1 = gen->n1; f->c = gen->c; f->b = gen->b; f->om = gen->om; f->ph = gen->ph; f->terms = gen->terms; f->budget = 2000000;
    unsigned n = f->n();
    unsigned jc = g.u(0, n - 1);            // the component that may jump
    for (unsigned i = 0; i < nz; ++i) {
        ZF z;
        z.a = rndv(g, n, 1); z.bt = g.chance(.5) ? g.uni(-1, 1) : 0; z.k = g.u(0, n - 1); z.q = g.chance(.3) ? g.uni(-.5, .5) : 0;
        z.flags = g.u(1, 3); if (g.chance(.4)) z.flags = 3;
        bool rec = g.chance(.5);
        if (rec) z.flags |= Rhs::RecomputeAfterSwitch;
        else { z.a[jc] = 0; if (z.k == jc) z.q = 0; }       // must not depend on what jumps
        if (g.chance(.5)) { z.jcomp = int(jc); z.jkind = g.i(0, 1); z.jump = g.uni(.1, 1); }
        z.dc = DV(f->c.size(), 0.);
        if (g.chance(.6)) z.dc[g.u(0, unsigned(z.dc.size() - 1))] = g.uni(-2, 2);
        f->zf.push_back(z);
        double v = f->g(i, t0, x0), want = g.chance(.2) ? g.uni(.05, 1) : g.uni(.01, .3);
        unsigned dir = z.flags & 3u;
        if (dir == 2 || (dir == 3 && g.chance(.5))) want = -want;
        f->zf[i].c0 += want - v;
        desc << "; z" << i << " flags " << z.flags << " a=" << list(z.a) << " bt=" << z.bt << " c0=" << f->zf[i].c0 << " q=" << z.q << " sin x" << z.k << " jump " << z.jcomp << "/" << z.jkind << "/" << z.jump << " dc=" << list(z.dc);
    }
    desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
    return f;
}
inline std::shared_ptr<HybridRhs> cloneOf(const HybridRhs& r) {
    auto f = std::make_shared<HybridRhs>();
    f->n2 = r.n2; f->n1 = r.n1; f->c = r.c; f->b = r.b; f->om = r.om; f->ph = r.ph; f->terms = r.terms; f->budget = r.budget; f->zf = r.zf; f->notify = r.notify; f->distort = r.distort;
    return f;
}

// A random configuration of a solver (through parameters, as a user would give it)
struct SolverSpec { std::string id; Params p; std::string text; bool adaptive = false, events = true; };
inline std::string textOf(const Params& p) {
    std::string r;
    for (auto& k : p) { r += " " + k.first + "=" + k.second.value<std::string>(); if (auto q = k.second.nestedParameters()) r += "{" + textOf(*q) + " }"; }
    return r;
}
inline SolverSpec randomSpec(Rng& g, std::string id = "", bool innerEvents = false) {
    SolverSpec s;
    s.id = id.empty() ? g.pick(kinds) : id;
    auto inner = [&](const std::string& i, Params q = Params()) { if (!innerEvents) q["eventctl"] = ""; return PValue(i, q); };
    bool can = s.id.substr(0, 5) == "dopri" || s.id == "rosenbrock_sw2_4" || s.id == "extrapolator";
    if (can) {
        s.adaptive = g.chance(.6);
        if (!s.adaptive) s.p["disable_error_check"] = true;
        else if (g.chance(.8)) { Params q; q["tolerance"] = g.logu(1e-8, 1e-3); if (g.chance(.3)) q["inc_max_factor"] = g.uni(1.5, 4); s.p["stepsizectl"] = PValue("simple", q); }
    }
    if (s.id.substr(0, 5) == "dopri") { if (g.chance(.5)) s.p["mode"] = "high"; if (g.chance(.2)) s.p["h_after_switch"] = g.logu(1e-4, .01); if (g.chance(.3)) s.p["force_error_calc"] = true; }
    if (s.id.substr(0, 4) == "rose" && g.chance(.5)) s.p["d"] = g.uni(.3, 1.5);
    if (s.id == "gragg" && g.chance(.5)) s.p["smooth"] = true;
    if (s.id == "extrapolator") {
        s.p["step_sequence"] = g.pick(std::vector<std::string>{"romberg", "bulirsch", "harmonic"});
        s.p["max_stages"] = g.u(2, 4);
        if (g.chance(.5)) s.p["symmetric"] = true;
        std::string r = g.pick(std::vector<std::string>{"euler", "rk4", "gragg", "gragg", "rosenbrock_w1"});
        Params q; if (r == "gragg" && g.chance(.5)) q["smooth"] = true;
        s.p["reference_solver"] = inner(r, q);
    }
    if (s.id == "i_euler") {
        if (g.chance(.5)) s.p["alpha"] = g.chance(.4) ? .5 : g.uni(.1, 1);
        if (g.chance(.3)) { s.p["predictor"] = inner(g.pick(std::vector<std::string>{"euler", "rk4"})); if (g.chance(.5)) s.p["predictor_steps"] = g.u(1, 3); }
        if (g.chance(.7)) {
            Params a, e;
            a["ddir"] = g.pick(std::vector<std::string>{"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"});
            a["jacobian"] = g.pick(std::vector<std::string>{"default", "sparse"});
            e["rel_max_threshold"] = 0.; e["abs_tol"] = g.logu(1e-9, 1e-6);
            a["err"] = PValue("simple", e);
            s.p["algsolver"] = PValue("newton", a);
        }
    }
    if (g.chance(.1)) { s.p["eventctl"] = ""; s.events = false; }
    s.text = s.id + textOf(s.p);
    return s;
}
} // namespace vf
