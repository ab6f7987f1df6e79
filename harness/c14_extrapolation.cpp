// C14: the modified midpoint (Gragg) solver and the extrapolation solver do the steps they are defined to do.
#include "ode_common.h"
#include "step_rule.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/interfaces/OdeSolverStepSizeController.h"
#include "ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h"
#include "ode_num_int/infra/cxx_zeroinit.h"
#include "ode_num_int/ode/OdeSolverExtrapolator.h"
using namespace vf;
using namespace ctm::math;
typedef OdeSolverExtrapolator<VD> Extrapolator;

struct GraggRef {               // definition, with the staggered variable kept between steps
    DV u, v, f; double t = 0; bool running = false, smooth = false;
    void start(double t0, const DV& x) { t = t0; u = x; running = false; }
    DV state() const { if (!smooth || !running) return u; DV r = u; for (size_t i = 0; i < r.size(); ++i) r[i] = .5 * (u[i] + v[i]); return r; }
    void step(const std::function<DV(double, const DV&)>& F, double h) {
        if (!running) { v = u; f = F(t, u); }
        v = add(v, h / 2, f);
        u = add(u, h, F(t + h / 2, v));
        f = F(t + h, u);
        v = add(v, h / 2, f);
        t += h; running = true;
    }
};

static std::vector<int> sequenceOf(const std::string& id, unsigned n) {
    std::vector<int> r;
    for (unsigned k = 0; k < n; ++k) {
        if (id == "harmonic") r.push_back(int(k) + 1);
        else if (id == "romberg") r.push_back(1 << k);
        else if (k == 0) r.push_back(1);
        else r.push_back(k % 2 ? 2 << (k / 2) : 3 << (k / 2 - 1));
    }
    return r;
}
// weights of the value at 0 of the interpolation polynomial in z = (1/n)^p
static std::vector<long double> weights(const std::vector<int>& n, unsigned from, unsigned to, int p) {
    std::vector<long double> w;
    for (unsigned j = from; j < to; ++j) {
        long double v = 1, zj = powl(1.0L / n[j], p);
        for (unsigned k = from; k < to; ++k) if (k != j) { long double zk = powl(1.0L / n[k], p); v *= zk / (zk - zj); }
        w.push_back(v);
    }
    return w;
}

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("multi-step integrations of random nonlinear time-dependent systems: the midpoint solver with and without smoothing and with restarts at any point; the extrapolation solver with all step sequences, reference solvers, "
             "2 to 6 stages, linear and quadratic extrapolation, fixed and controlled step sizes, settings changed between steps; every attempted step compared with the definition; non-trivial: at least 3 steps");
    ctx.expectAtLeast("gragg steps", 2000);
    ctx.expectAtLeast("extrapolated steps", 2000);
    ctx.expectAtLeast("rejected steps", 50);

    ctx.section("sequences", 60, 600, [&](Case& c) {
        Rng& g = c.rng;
        std::string id = std::vector<std::string>{"romberg", "bulirsch", "harmonic"}[c.index() % 3];
        auto s = ctm::Factory<ExtrapolatorStepSequence>::newInstance(id);
        c.desc << id;
        for (int round = 0, rounds = g.i(1, 5); round < rounds; ++round) {
            unsigned n = g.u(0, 14);
            auto want = sequenceOf(id, n);
            for (unsigned k = 0; k < n; ++k) { int got = s->next(); if (got != want[k]) c.die("sequence", "element " + std::to_string(k) + " is " + std::to_string(got) + " instead of " + std::to_string(want[k])); }
            s->reset();
            c.desc << " " << n;
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("gragg", 5000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        auto s = newSolver("gragg");
        GraggRef ref;
        ref.smooth = g.chance(.5);
        double h = g.logu(1e-3, .3);
        { Params p; p["smooth"] = ref.smooth; s->setParameters(p); }
        s->setInitialStepSize(h);
        c.desc << "gragg" << (ref.smooth ? " smooth" : "") << " h=" << h;
        StepLog log(s);
        c.require(s->order() == 2, "order", "order()");
        long total = 0;
        for (int round = 0, rounds = g.i(1, 3); round < rounds; ++round) {
            auto f = randomRhs(g, g.u(0, 3), g.u(0, 3), .4, g.uni(.2, 3), g.uni(0, 1), g.uni(0, 2));
            if (f->n() == 0) f = randomRhs(g, 1, 0, .4, 1, .5, 1);
            f->record = true;
            auto F = [&f](double tt, const DV& xx) { return f->eval(tt, xx); };
            double t0 = g.chance(.5) ? 0 : g.uni(-5, 5);
            DV x0 = rndv(g, f->n(), 2);
            c.desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f);
            s->setInitialState(t0, toV(x0), g.chance(.3));
            ref.start(t0, x0);
            for (int k = 0, steps = g.i(1, 12); k < steps; ++k) {
                std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                int what = g.i(0, 11);
                if (what == 0 && !ref.smooth) { h = g.logu(1e-3, .3); s->setInitialStepSize(h); ref.running = false; c.desc << " h=" << h; }
                if (what == 1) { DV x = fromV(s->initialState()); s->setInitialState(ref.t, toV(x)); ref.start(ref.t, x); c.desc << " restart"; }
                if (what == 2) { ref.start(g.uni(-3, 3), rndv(g, f->n(), 2)); s->setInitialState(ref.t, toV(ref.u)); c.desc << " other state"; }
                if (what == 3 && !ref.smooth) {       // another system with the same variables, without a restart
                    f = randomRhs(g, f->n2, f->n1, .4, g.uni(.2, 3), g.uni(0, 1), g.uni(0, 2)); f->record = true;
                    s->setOdeRhs(f); ref.running = false; c.desc << " other " << f->text(); c.count("other systems");
                }
                f->before.clear();
                DV xb = ref.u; double tb = ref.t;
                s->doStep();
                ref.step(F, h);
                DV got = fromV(s->initialState()), want = ref.state();
                if (!finite(want) || maxAbs(want) > 1e3) break;
                if (!(maxDiff(got, want) <= 1e-12 * (1 + maxAbs(want)) * (k + 1))) c.die("step", at + list(got) + " instead of " + list(want));
                if (!close(s->initialTime(), ref.t, 1e-14, 1e-15)) c.die("time", at + num(s->initialTime()) + " instead of " + num(ref.t));
                if (f->before.size() != 1 || !close(f->before[0].first, tb, 1e-14, 1e-15) || !(maxDiff(f->before[0].second, xb) <= 1e-12 * (1 + maxAbs(xb)) * (k + 1))) c.die("before-step", at + "beforeStep() is not called once with the state");
                auto& r = log.recs.back();
                if (!r.posted || !r.accepted || r.truncated || r.changed || r.h != h || r.hPre != h) c.die("report", at + "the step is not reported as it was done");
                c.count("gragg steps"); ++total;
            }
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
        if (total >= 3) c.nontrivial(c.desc.str());
    });

    // A reference solver that keeps a Jacobian: a soft restart keeps it, a hard one renews it
    ctx.expectAtLeast("soft restarts", 150);
    ctx.section("soft", 500, 6000, [&](Case& c) {
        Rng& g = c.rng;
        auto s = std::make_shared<Extrapolator>();
        auto inner = newSolver("rosenbrock_w1"), shadow = newSolver("rosenbrock_w1");
        std::string seq = g.pick(std::vector<std::string>{"romberg", "bulirsch", "harmonic"});
        unsigned stages = g.u(1, 4);
        double h = g.logu(1e-2, .2);
        { Params p; p["symmetric"] = false; p["disable_error_check"] = true; s->setParameters(p); }
        s->setReferenceSolver(inner);
        s->setStepSequence(ctm::Factory<ExtrapolatorStepSequence>::newInstance(seq));
        s->setMaxStages(stages); s->setInitialStepSize(h);
        auto f = randomRhs(g, g.u(0, 2), g.u(1, 2), .4, g.uni(.2, 2), g.uni(.2, 1), g.uni(0, 2)); f->notify = false;
        c.desc << seq << " stages=" << stages << " h=" << h << " " << f->text();
        int refreshed = 0, shadowed = 0;
        inner->jacobianRefreshObservers.add([&](bool on) { if (on) ++refreshed; });
        shadow->jacobianRefreshObservers.add([&](bool on) { if (on) ++shadowed; });
        s->setOdeRhs(f); shadow->setOdeRhs(f);
        double t = 0; DV x = rndv(g, f->n(), 1);
        bool hard = true;
        s->setInitialState(t, toV(x)); shadow->setInitialState(t, toV(x));
        auto n = sequenceOf(seq, stages); auto w = weights(n, 0, stages, 1);
        int steps = g.i(3, 12);
        for (int k = 0; k < steps; ++k) {
            if (k && g.chance(.4)) {
                bool soft = g.chance(.6);
                if (g.chance(.8)) { x = rndv(g, f->n(), 1); t = g.uni(-1, 1); }
                s->setInitialState(t, toV(x), soft);
                if (!soft) { shadow->setInitialState(t, toV(x)); hard = true; } else c.count("soft restarts");
                c.desc << (soft ? " soft" : " hard") << "@" << k << " t=" << t << " x=" << list(x);
            }
            int before = refreshed;
            s->doStep();
            if (refreshed - before != (hard ? 1 : 0)) c.die("soft-restart", "step " + std::to_string(k) + ": the Jacobian of the reference solver is computed " + std::to_string(refreshed - before) + " times after " + (hard ? "a hard restart" : "no restart or a soft one"));
            hard = false;
            std::vector<long double> want(x.size(), 0.0L); double sc = 1;
            for (unsigned j = 0; j < stages; ++j) {
                shadow->setInitialState(t, toV(x), true); shadow->setInitialStepSize(h / n[j]);
                for (int q = 0; q < n[j]; ++q) shadow->doStep();
                DV y = fromV(shadow->initialState());
                for (unsigned i = 0; i < x.size(); ++i) { want[i] += w[j] * y[i]; sc = std::max(sc, std::fabs(y[i])); }
            }
            double amp = 0; for (auto q : w) amp += std::fabs(double(q));
            DV got = fromV(s->initialState());
            if (!finite(got) || sc > 1e6) return;
            for (unsigned i = 0; i < x.size(); ++i) if (!(std::fabs(got[i] - double(want[i])) <= 2e-13 * amp * sc * n.back())) c.die("soft-step", "step " + std::to_string(k) + ": component " + std::to_string(i) + " is " + num(got[i]) + " instead of " + num(double(want[i])));
            t = s->initialTime(); x = got;
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("extrapolator", 10000, 100000, [&](Case& c) {
        Rng& g = c.rng;
        auto s = std::make_shared<Extrapolator>();
        static const std::vector<std::string> seqs = {"romberg", "bulirsch", "harmonic"}, refs = {"euler", "rk4", "gragg", "gragg smooth", "dopri_45", "rosenbrock_w1"};
        bool sym = g.chance(.5), fixed = g.chance(.6);
        double h = g.logu(1e-2, .3), tol = g.logu(1e-9, 1e-4);
        StepRule rule; rule.tol = tol;
        {
            Params p, q;
            q["tolerance"] = tol; q["insurance"] = rule.ins; q["inc_min_factor"] = rule.incMin; q["inc_max_factor"] = rule.incMax; q["dec_max_factor"] = rule.decMax; q["max_threshold"] = rule.maxH;
            p["symmetric"] = sym; p["disable_error_check"] = fixed;
            if (!fixed) p["stepsizectl"] = PValue("simple", q);
            s->setParameters(p);
        }
        s->setInitialStepSize(h);
        std::string seq, ref; unsigned stages = 0;
        SolverPtr inner, shadow;
        GraggRef gref;
        auto setRef = [&]() {
            ref = g.pick(refs);
            std::string id = ref.substr(0, ref.find(' '));
            inner = newSolver(id);
            shadow = nullptr;
            Params p;
            if (ref == "gragg smooth") p["smooth"] = true;
            if (id == "dopri_45") p["disable_error_check"] = true;
            if (!p.empty()) inner->setParameters(p);
            if (id == "dopri_45" || id == "rosenbrock_w1") { shadow = newSolver(id); if (!p.empty()) shadow->setParameters(p); }
            if (g.chance(.4)) {                       // it has served another system
                auto o = randomRhs(g, g.u(0, 2), 1, .4, 1, .5, 1); o->notify = false; c.desc << " used";
                inner->setOdeRhs(o); inner->setInitialStepSize(.01); inner->setInitialState(0, toV(rndv(g, o->n(), 1)));
                if (g.chance(.5)) inner->doStep();
                c.count("used reference solvers");
            }
            s->setReferenceSolver(inner);
            c.desc << " ref=" << ref;
        };
        auto setSeq = [&]() { seq = g.pick(seqs); s->setStepSequence(ctm::Factory<ExtrapolatorStepSequence>::newInstance(seq)); c.desc << " seq=" << seq; };
        auto setStages = [&]() { stages = g.u(fixed ? 1 : 2, seq == "romberg" ? 5 : 6); s->setMaxStages(stages); c.desc << " stages=" << stages; };
        c.desc << (sym ? "quadratic" : "linear") << (fixed ? " fixed" : " adaptive") << " h=" << h << " tol=" << tol;
        if (g.chance(.5)) { setRef(); setSeq(); } else { setSeq(); setRef(); }
        setStages();
        StepLog log(s);
        long total = 0;
        for (int round = 0, rounds = g.i(1, 3); round < rounds; ++round) {
            if (round && g.chance(.4)) setRef();
            auto f = randomRhs(g, g.u(0, 2), g.u(0, 2), .4, g.uni(.2, 2), g.uni(0, 1), g.uni(0, 2));
            if (f->n() == 0) f = randomRhs(g, 1, 0, .4, 1, .5, 1);
            f->record = true; f->notify = false;
            auto F = [&](double tt, const DV& xx) { return f->eval(tt, xx); };
            double t0 = g.chance(.5) ? 0 : g.uni(-5, 5);
            DV x0 = rndv(g, f->n(), 2);
            c.desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f);
            s->setInitialState(t0, toV(x0));
            c.require(s->initialTime() == t0 && fromV(s->initialState()) == x0, "initial-state", "the initial state is not what was set");
            if (shadow) { shadow->setOdeRhs(f); shadow->setInitialState(t0, toV(x0)); }
            double t = t0; DV x = x0;
            bool over = false;
            StepRec prev = StepRec(); double prevOrder = -1;
            for (int k = 0, steps = g.i(1, 5); k < steps && !over; ++k) {
                if (k && g.chance(.15)) { setSeq(); if (seq == "romberg" && stages > 5) setStages(); }
                if (k && g.chance(.15)) setStages();
                if (k && g.chance(.1)) { setRef(); if (shadow) { shadow->setOdeRhs(f); shadow->setInitialState(t, toV(x)); } c.count("other reference solvers"); }
                unsigned base = ref == "euler" || ref == "rosenbrock_w1" ? 1 : ref.substr(0, 5) == "gragg" ? 2 : 4;
                unsigned expOrder = base + (stages - 1) * (sym ? 2 : 1);
                if (shadow == nullptr && s->order() != int(expOrder)) c.die("order", "order() is " + std::to_string(s->order()) + " instead of " + std::to_string(expOrder));
                double lowOrderNow = s->order() - (sym ? 2 : 1);
                size_t first = log.recs.size();
                f->before.clear();
                try { s->doStep(); }
                catch (const ctm::cxx::exception& e) { over = true; log.open = false; c.count("stopped at the minimal step"); if (fixed) c.die("unexpected", std::string("exception: ") + e.what()); }
                auto n = sequenceOf(seq, stages);
                for (size_t a = first; a < log.recs.size() && (!over || log.recs[a].posted); ++a) {
                    auto& r = log.recs[a];
                    std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + " attempt " + std::to_string(a - first) + ": ";
                    if (r.t0 != t || r.x0 != x) c.die("before", at + "an attempt starts from another state");
                    if (fixed && r.h != h) c.die("fixed-h", at + "step size " + num(r.h));
                    // the step size is the controller's, also when the number of stages or the sequence has just been changed
                    if (!fixed) {
                        if (prevOrder < 0) { if (r.hPre != h) c.die("first-h", at + "step size " + num(r.hPre)); }
                        else { std::string wrong = rule.judge(prev.h, prev.err, prevOrder, prev.accepted, prev.changed, r.hPre); if (!wrong.empty()) c.die("controlled-h", at + wrong); c.count("controlled step sizes"); }
                        prev = r; prevOrder = lowOrderNow;
                    }
                    std::vector<DV> T;
                    bool bad = false;
                    for (unsigned j = 0; j < stages; ++j) {
                        double hh = r.h / n[j];
                        DV y = x; double tt = t;
                        if (shadow) {
                            shadow->setInitialState(t, toV(x), true);
                            shadow->setInitialStepSize(hh);
                            for (int q = 0; q < n[j]; ++q) shadow->doStep();
                            y = fromV(shadow->initialState());
                        } else if (ref.substr(0, 5) == "gragg") {
                            gref.smooth = ref == "gragg smooth";
                            gref.start(t, x);
                            for (int q = 0; q < n[j]; ++q) gref.step(F, hh);
                            y = gref.state();
                        } else for (int q = 0; q < n[j]; ++q) {
                            DV k1 = F(tt, y);
                            if (ref == "euler") y = add(y, hh, k1);
                            else {
                                DV k2 = F(tt + hh / 2, add(y, hh / 2, k1)), k3 = F(tt + hh / 2, add(y, hh / 2, k2)), k4 = F(tt + hh, add(y, hh, k3));
                                y = add(add(add(add(y, hh / 6, k1), hh / 3, k2), hh / 3, k3), hh / 6, k4);
                            }
                            tt += hh;
                        }
                        if (!finite(y) || maxAbs(y) > 1e6) bad = true;
                        T.push_back(y);
                    }
                    if (bad) { over = true; break; }
                    auto w = weights(n, 0, stages, sym ? 2 : 1);
                    std::vector<long double> w1 = weights(n, 1, stages, sym ? 2 : 1);
                    double amp = 0, sc = 1;
                    DV want(x.size()), err(x.size());
                    for (unsigned i = 0; i < x.size(); ++i) {
                        long double v = 0, v1 = 0;
                        for (unsigned j = 0; j < stages; ++j) { v += w[j] * T[j][i]; sc = std::max(sc, std::fabs(T[j][i])); if (j) v1 += w1[j - 1] * T[j][i]; }
                        want[i] = double(v); err[i] = double(v - v1);
                    }
                    for (auto q : w) amp += std::fabs(double(q));
                    double eps = 2e-13 * amp * sc * n.back();
                    if (r.accepted) {
                        if (!(maxDiff(r.x1, want) <= eps)) c.die("step", at + list(r.x1) + " instead of " + list(want));
                        if (!close(r.t1, t + r.h, 1e-14, 1e-15)) c.die("time", at + num(r.t1) + " instead of " + num(t + r.h));
                        t = r.t1; x = r.x1;
                    } else {
                        c.count("rejected steps");
                        if (fixed) c.die("rejected", at + "rejected although the check is disabled");
                        if (r.t1 != t || r.x1 != x) c.die("rejected-state", at + "a rejected attempt changed the state");
                    }
                    if (!fixed) {
                        double e = maxAbs(err);
                        if (!(std::fabs(e - r.err) <= eps)) c.die("error-norm", at + "error estimate " + num(r.err) + " instead of " + num(e));
                        if (e > tol * 1.0001 + eps && r.accepted) c.die("accepted", at + "accepted with the error estimate " + num(e));
                        if (e < tol * .9999 - eps && !r.accepted) c.die("rejected-good", at + "rejected with the error estimate " + num(e));
                    }
                    if (r.hPre != r.h) c.die("report", at + "announced step size " + num(r.hPre) + ", reported " + num(r.h));
                    if (r.truncated) c.die("report", at + "truncation reported");
                    if (a + 1 == log.recs.size() && !over && (s->initialTime() != r.t1 || fromV(s->initialState()) != r.x1)) c.die("final", at + "state after the step is not the last one reported");
                    c.count("extrapolated steps"); ++total;
                }
                if (maxAbs(x) > 1e3) over = true;
            }
            if (over) { s->setInitialState(0, toV(DV(f->n(), 0.))); log.open = false; }
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
        if (total >= 3) c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
