// C15: switching events - every watched sign change of a zero function ends the step there, switches the phase state exactly once, and the integration goes on from the switched state.
#include "newton_common.h"
#include "hybrid.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/LinearOdeEventController.h"
#include "ode_num_int/ode/interfaces/OdeNewtonSolver.h"
#include "ode_num_int/ode/interfaces/OdeSolverStepSizeController.h"
#include "ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h"
#include "ode_num_int/ode/OdeSolverExtrapolator.h"
using namespace vf;
using namespace ctm::math;

// What is being watched, between the steps
struct Watch {
    std::vector<unsigned> flags;
    DV z1; std::vector<int> st;
    static int side(double z, unsigned flags) {
        switch (flags & 3u) { case 1: return z > 0 ? 1 : 0; case 2: return z < 0 ? -1 : 0; default: return sg(z); }
    }
    void start(const std::vector<unsigned>& f, const DV& z) { flags = f; z1 = z; st.resize(z.size()); for (size_t i = 0; i < z.size(); ++i) st[i] = side(z[i], f[i]); }
    bool crossed(unsigned i, double z2) const {
        switch (flags[i] & 3u) {
            case 1: return z2 < 0 || (z2 == 0 && st[i] == 1);
            case 2: return z2 > 0 || (z2 == 0 && st[i] == -1);
            default: return sg(z2) != st[i];
        }
    }
    double where(unsigned i, double z2) const { return sg(z1[i]) * sg(z2) > 0 || z1[i] == z2 ? 0 : z1[i] / (z1[i] - z2); }
    int transition(unsigned i, double z2) const { return sg(z2) ? sg(z2) : -st[i]; }
    void pass(const DV& z2) { z1 = z2; }
    // after an event of function ev at the fraction tau; again: the functions evaluated at the switched state
    void event(unsigned ev, int tr, double tau, const DV& z2, const DV& again) {
        for (unsigned i = 0; i < z1.size(); ++i) {
            bool rec = flags[i] & Rhs::RecomputeAfterSwitch;
            z1[i] = rec ? again[i] : z1[i] * (1 - tau) + z2[i] * tau;
            if (rec) st[i] = side(z1[i], flags[i]);
            else if (i == ev) st[i] = (flags[i] & 3u) == 3u ? tr : side(z1[i], flags[i]);
        }
    }
};

static SolverPtr make(const std::string& id, bool adaptive, double tol, bool events) {
    auto s = newSolver(id);
    Params p;
    if (id == "dopri_45" || id == "dopri_56" || id == "dopri_78" || id == "rosenbrock_sw2_4" || id == "extrapolator") {
        if (!adaptive) p["disable_error_check"] = true;
        else { Params q; q["tolerance"] = tol; p["stepsizectl"] = PValue("simple", q); }
    }
    if (!p.empty()) s->setParameters(p);
    if (id == "i_euler") {
        auto& newton = *dynamic_cast<OdeNewtonSolver<VD>&>(*s).newtonSolver();
        auto ee = std::make_shared<SimpleErrorEstimator<VD>>();
        ee->setAbsoluteTolerance(1e-11); ee->setRelativeTolerance(1e-9); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0);
        newton.setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee));
    }
    if (id == "extrapolator") {
        auto& e = dynamic_cast<OdeSolverExtrapolator<VD>&>(*s);
        auto r = newSolver("gragg"); noEvents(r);
        e.setReferenceSolver(r);
        e.setMaxStages(3);
        e.setStepSequence(ctm::Factory<ExtrapolatorStepSequence>::newInstance("harmonic"));
    }
    if (!events) noEvents(s);
    return s;
}

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("hybrid systems with 1 to 4 zero functions (both or one direction, interpolated or recomputed after a switch), jumps and switched right hand sides, integrated by every solver with fixed and controlled step sizes and restarted; "
             "every step is compared with the same step of a solver without event control; the controller alone with exact values including zeros and ties; non-trivial: an event happened; distinct by solver and system");
    ctx.expectAtLeast("events", 2000);
    ctx.expectAtLeast("steps without event", 2000);
    ctx.expectAtLeast("events after an event", 500);
    ctx.expectAtLeast("rejected attempts", 50);
    ctx.expectAtLeast("exact events", 1000);
    ctx.expectAtLeast("truncated by the right hand side", 100);
    ctx.expectAtLeast("steps ended by a controller", 200); ctx.expectAtLeast("interpolated states", 500);
    ctx.assumption("functions whose value or crossing cannot be told from zero (1e-7) are not judged, except in the exact section");

    ctx.section("solvers", 5000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        std::string id = g.pick(kinds);
        bool canAdapt = id.substr(0, 5) == "dopri" || id == "rosenbrock_sw2_4" || id == "extrapolator";
        bool adaptive = canAdapt && g.chance(.4);
        double tol = g.logu(1e-7, 1e-3), h = g.logu(.01, .3);
        auto s = make(id, adaptive, tol, true), sh = make(id, false, tol, false);
        c.desc << id << (adaptive ? " adaptive tol=" + num(tol) : "") << " h=" << h;
        StepLog log(s);
        for (int round = 0, rounds = g.i(1, 3); round < rounds; ++round) {
            auto gen = randomRhs(g, g.u(0, 2), g.u(1, 2), .4, g.uni(.2, 2), g.uni(0, 1), g.uni(0, 2));
            auto f = std::make_shared<HybridRhs>(), fs = std::make_shared<HybridRhs>();
            for (auto p : {f, fs}) { p->n2 = gen->n2; p->n1 = gen->n1; p->c = gen->c; p->b = gen->b; p->om = gen->om; p->ph = gen->ph; p->terms = gen->terms; p->budget = 2000000; p->notify = false; }
            unsigned n = f->n(), nz = g.u(1, 4);
            double t0 = g.chance(.5) ? 0 : g.uni(-3, 3);
            DV x0 = rndv(g, n, 1.5);
            unsigned jc = g.u(0, n - 1);            // the component that may jump
            for (unsigned i = 0; i < nz; ++i) {
                ZF z;
                z.a = rndv(g, n, 1); z.bt = g.chance(.5) ? g.uni(-1, 1) : 0; z.k = g.u(0, n - 1); z.q = g.chance(.3) ? g.uni(-.5, .5) : 0;
                z.flags = g.u(1, 3); if (g.chance(.4)) z.flags = 3;
                bool rec = g.chance(.5);
                if (rec) z.flags |= Rhs::RecomputeAfterSwitch;
                else { z.a[jc] = 0; if (z.k == jc) z.q = 0; }       // must not depend on what jumps
                if (g.chance(.5)) { z.jcomp = int(jc); z.jkind = g.i(0, 1); z.jump = g.uni(.1, 1); }
                z.dc = DV(f->c.size(), 0.);
                if (g.chance(.6)) z.dc[g.u(0, unsigned(z.dc.size() - 1))] = g.uni(-2, 2);
                f->zf.push_back(z);
                double v = f->g(i, t0, x0), want = g.chance(.2) ? g.uni(.05, 1) : g.uni(.01, .3);
                unsigned dir = z.flags & 3u;
                if (dir == 2 || (dir == 3 && g.chance(.5))) want = -want;
                f->zf[i].c0 += want - v;
                c.desc << "; z" << i << " flags " << z.flags << " a=" << list(z.a) << " bt=" << z.bt << " c0=" << f->zf[i].c0 << " q=" << z.q << " sin x" << z.k << " jump " << z.jcomp << "/" << z.jkind << "/" << z.jump << " dc=" << list(z.dc);
            }
            c.desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f); sh->setOdeRhs(fs);
            if (round && g.chance(.5)) { h = g.logu(.01, .3); c.desc << " h=" << h; }
            s->setInitialStepSize(h); sh->setInitialStepSize(h);
            s->setInitialState(t0, toV(x0)); sh->setInitialState(t0, toV(x0));
            auto G = [&](double t, const DV& x) { DV r; for (unsigned i = 0; i < nz; ++i) r.push_back(f->g(i, t, x)); return r; };
            Watch w; w.start(f->zeroFuncFlags(), G(t0, x0));
            double t = t0; DV x = x0;
            bool shadowFresh = true, lastEvent = false;
            log.recs.clear();
            bool stop = false;
            for (int k = 0, steps = g.i(3, 25); k < steps && !stop; ++k) {
                if (k && g.chance(.04)) {           // restart, possibly elsewhere
                    if (g.chance(.5)) { x = rndv(g, n, 1); t = g.uni(-2, 2); }
                    DV z = G(t, x);
                    for (unsigned i = 0; i < nz; ++i) { unsigned dir = w.flags[i] & 3u; double want = dir == 1 ? 1 : dir == 2 ? -1 : sg(z[i]); if (sg(z[i]) != want || std::fabs(z[i]) < 1e-3) f->zf[i].c0 += want * .1 - z[i]; }
                    bool soft = g.chance(.5);
                    s->setInitialState(t, toV(x), soft); sh->setInitialState(t, toV(x), soft); shadowFresh = true;
                    if (soft) c.count("soft restarts");
                    w.start(w.flags, G(t, x));
                    lastEvent = false;
                    c.desc << (soft ? " soft restart@" : " restart@") << k;
                }
                std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                f->calls2.clear();
                DV cBefore = f->c;
                size_t first = log.recs.size();
                try { s->doStep(); }
                catch (const ctm::cxx::exception& e) {
                    if (id == "i_euler" || adaptive) { log.open = false; stop = true; break; }
                    throw;
                }
                for (size_t a = first; a + 1 < log.recs.size(); ++a) {
                    auto& r = log.recs[a];
                    if (r.accepted || r.truncated) c.die("attempts", at + "an attempt before the last one is reported as accepted or truncated");
                    if (r.x1 != x || r.t1 != t) c.die("rejected-state", at + "a rejected attempt changed the state");
                    c.count("rejected attempts");
                }
                StepRec r = log.recs.back();
                if (!r.accepted) c.die("attempts", at + "the last attempt is not accepted");
                // the whole step, without events
                fs->c = cBefore;
                if (id == "gragg") { if (shadowFresh) sh->setInitialState(t, toV(x)); }
                else { bool soft = id.substr(0, 4) == "rose"; if (id == "i_euler" || soft) sh->setInitialState(t, toV(x), soft); else sh->setInitialState(t, toV(x)); sh->setInitialStepSize(r.h); }
                sh->doStep();
                DV X2 = fromV(sh->initialState()); double T2 = t + r.h;
                if (!finite(X2) || maxAbs(X2) > 1e4) { stop = true; break; }
                double near = id == "i_euler" ? 1e-6 : 1e-7, eps = id == "i_euler" ? 1e-8 : 1e-10;
                DV z2 = G(T2, X2);
                std::vector<std::pair<double, unsigned>> ev;
                bool tie = false;
                for (unsigned i = 0; i < nz; ++i) { if (std::fabs(z2[i]) < near) tie = true; if (w.crossed(i, z2[i])) ev.emplace_back(w.where(i, z2[i]), i); }
                std::sort(ev.begin(), ev.end());
                if (ev.size() > 1 && ev[1].first - ev[0].first < near) tie = true;
                if (tie) { c.count("too close to tell"); stop = true; break; }
                DV now = fromV(s->initialState()); double tn = s->initialTime();
                double xtol = eps * (1 + maxAbs(X2) + maxAbs(x)) + 1e-8 * maxDiff(X2, x);
                if (ev.empty()) {
                    if (r.truncated || !f->calls2.empty()) c.die("false-event", at + "an event without a watched sign change: before " + list(w.z1) + ", after " + list(z2));
                    if (r.izf != ~0u || r.trans != 0) c.die("report", at + "a step without event reports an event index or transition");
                    if (!(maxDiff(now, X2) <= xtol) || !close(tn, T2, 1e-13, 1e-14)) c.die("step", at + list(now) + " at " + num(tn) + " instead of " + list(X2) + " at " + num(T2));
                    w.pass(G(tn, now));
                    shadowFresh = false; lastEvent = false;
                    c.count("steps without event");
                } else {
                    double tau = ev[0].first; unsigned i = ev[0].second;
                    int tr = w.transition(i, z2[i]);
                    double te = t + tau * r.h;
                    DV xe = x; for (unsigned j = 0; j < n; ++j) xe[j] = x[j] * (1 - tau) + X2[j] * tau;
                    if (!r.truncated) c.die("missed-event", at + "function " + std::to_string(i) + " went from " + num(w.z1[i]) + " to " + num(z2[i]) + " without an event");
                    if (f->calls2.size() != 1) c.die("switch-count", at + "the phase state is switched " + std::to_string(f->calls2.size()) + " times");
                    auto& sc = f->calls2[0];
                    for (unsigned j = 0; j < nz; ++j) if (sc.tr[j] != (j == i ? tr : 0)) c.die("transitions", at + "transition " + std::to_string(sc.tr[j]) + " of function " + std::to_string(j) + "; the event is " + std::to_string(tr) + " of function " + std::to_string(i));
                    if (!close(sc.t, te, 1e-12, 1e-8 * r.h) || !(maxDiff(sc.x, xe) <= xtol)) c.die("switch-point", at + "the switch happens at " + num(sc.t) + " " + list(sc.x) + " instead of " + num(te) + " " + list(xe));
                    DV want = HybridRhs::jump(f->zf[i], tr, sc.x);
                    if (tn != sc.t || !(maxDiff(now, want) <= 1e-15 * (1 + maxAbs(want)))) c.die("after-switch", at + "the state after the switch is " + list(now) + " instead of " + list(want));
                    if (r.izf != i || r.trans != tr) c.die("report", at + "event " + std::to_string(r.izf) + "/" + std::to_string(r.trans) + " is reported instead of " + std::to_string(i) + "/" + std::to_string(tr));
                    DV again = G(tn, now);
                    w.event(i, tr, tau, z2, again);
                    for (unsigned j = 0; j < nz; ++j) if ((w.flags[j] & 3u) == 3u && (w.flags[j] & Rhs::RecomputeAfterSwitch) && std::fabs(w.z1[j]) < near) stop = true;
                    shadowFresh = true;
                    c.count("events");
                    if (lastEvent) c.count("events after an event");
                    lastEvent = true;
                    c.nontrivial(id + c.desc.str());
                }
                if (!adaptive && r.h != h) c.die("fixed-h", at + "step size " + num(r.h) + " instead of " + num(h));
                if (r.t1 != tn || r.x1 != now) c.die("report", at + "the reported state is not the state after the step");
                t = tn; x = now;
                if (maxAbs(x) > 1e3) stop = true;
            }
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
    });

    // The controller alone: values are small dyadic numbers, so that zeros, ties and interpolation are exact
    ctx.section("exact", 8000, 150000, [&](Case& c) {
        Rng& g = c.rng;
        auto f = std::make_shared<HybridRhs>();
        unsigned nz = g.u(1, 4), n = nz + 1;
        f->n2 = 0; f->n1 = n; f->c = DV(n, 0.); f->b = f->om = f->ph = DV(n, 0.);
        for (unsigned i = 0; i < nz; ++i) {
            ZF z; z.a = DV(n, 0.); z.a[i] = 1; z.dc = DV(n, 0.);
            z.flags = g.u(1, 3); if (g.chance(.5)) z.flags |= Rhs::RecomputeAfterSwitch;
            if (g.chance(.4)) { z.jcomp = int(nz); z.jkind = 1; z.jump = 1; if ((z.flags & 4) && g.chance(.6)) z.jcomp = int(i); }
            f->zf.push_back(z);
            c.desc << " flags " << z.flags << " jump " << z.jcomp;
        }
        LinearOdeEventController<VD> ec;
        ec.setOdeRhs(f);
        auto val = [&]() { static const double v[] = {-3, -1, -.5, 0, 0, .5, 1, 3}; return v[g.u(0, 7)]; };
        double t = g.i(-2, 2);
        DV x(n);
        for (auto& v : x) v = val();
        Watch w;
        bool fresh = true;
        auto head = [&](const DV& v) { return DV(v.begin(), v.begin() + nz); };
        for (int k = 0, steps = g.i(1, 12); k < steps; ++k) {
            if (g.chance(.05)) { ec.reset(); fresh = true; for (auto& v : x) v = val(); c.desc << " reset"; }
            ec.atStepStart(toV(x), t);
            if (fresh) { w.start(f->zeroFuncFlags(), head(x)); fresh = false; }
            double h = std::vector<double>{.5, 1, 2}[g.u(0, 2)], T2 = t + h;
            DV X2(n);
            for (unsigned i = 0; i < n; ++i) X2[i] = g.chance(.6) ? x[i] : val();
            c.desc << "; " << list(x) << " to " << list(X2) << " in " << h;
            std::string at = "step " + std::to_string(k) + ": ";
            V x2 = toV(X2); double t2 = T2; unsigned izf = ~0u; int tr = 0;
            f->calls2.clear();
            bool trunc = ec.atStepEnd(toV(x), x2, t2, nullptr, &izf, &tr);
            DV z2 = head(X2), got = fromV(x2);
            double tmin = 2; std::set<unsigned> best;
            for (unsigned i = 0; i < nz; ++i) if (w.crossed(i, z2[i])) { double q = w.where(i, z2[i]); if (q < tmin - 1e-12) { tmin = q; best.clear(); } if (std::fabs(q - tmin) <= 1e-12) best.insert(i); }
            if (best.empty()) {
                if (trunc || !f->calls2.empty()) c.die("false-event", at + "an event without a watched sign change");
                if (got != X2 || t2 != T2) c.die("no-event-state", at + "the state changed without an event");
                t = t2; x = got; w.pass(head(x));
                continue;
            }
            c.count("exact events");
            if (!trunc) c.die("missed-event", at + "no event");
            if (!best.count(izf)) c.die("event-index", at + "event of function " + std::to_string(izf) + ", not the earliest");
            if (tr != w.transition(izf, z2[izf]) || tr == 0) c.die("event-direction", at + "transition " + std::to_string(tr) + " of function " + std::to_string(izf));
            if (f->calls2.size() != 1) c.die("switch-count", at + "the phase state is switched " + std::to_string(f->calls2.size()) + " times");
            for (unsigned j = 0; j < nz; ++j) if (f->calls2[0].tr[j] != (j == izf ? tr : 0)) c.die("transitions", at + "transitions " + std::to_string(f->calls2[0].tr[j]) + " at " + std::to_string(j));
            DV xe(n); for (unsigned i = 0; i < n; ++i) xe[i] = x[i] * (1 - tmin) + X2[i] * tmin;
            if (!close(t2, t + h * tmin, 1e-14, 1e-14) || !(maxDiff(f->calls2[0].x, xe) <= 1e-14)) c.die("switch-point", at + "switch at " + num(t2) + " " + list(f->calls2[0].x) + " instead of " + num(t + h * tmin) + " " + list(xe));
            DV want = HybridRhs::jump(f->zf[izf], tr, f->calls2[0].x);
            if (got != want || f->calls2[0].t != t2) c.die("after-switch", at + "state " + list(got) + " instead of " + list(want));
            w.event(izf, tr, tmin, z2, head(got));
            // rounding decides on which side a function is that should be zero: stop there
            bool stop = false;
            for (unsigned i = 0; i < nz; ++i) if (std::fabs(w.z1[i]) < 1e-12 && w.z1[i] != 0) stop = true;
            if (stop) { c.count("stopped by rounding"); break; }
            t = t2; x = got;
            for (unsigned i = 0; i < nz; ++i) if (!(w.flags[i] & 4)) x[i] = w.z1[i];
            c.nontrivial(c.desc.str());
        }
    });

    // Right hand sides without zero functions may end the step themselves
    ctx.section("truncate", 600, 10000, [&](Case& c) {
        struct Cut : GenRhs {
            mutable int asked = 0; int every = 2; double frac = .5; mutable DV x1; mutable double t1 = 0; mutable std::vector<std::pair<double, DV>> cut;
            bool truncateStep(double& t, V& x) const override {
                if (++asked % every) return false;
                t = t1 + frac * (t - t1);
                for (unsigned i = 0; i < x1.size(); ++i) x[i] = x1[i] + frac * (x[i] - x1[i]);
                cut.emplace_back(t, fromV(x));
                return true;
            }
        };
        Rng& g = c.rng;
        std::string id = g.pick(kinds);
        auto s = make(id, false, 1e-6, true);
        double h = g.logu(.01, .2);
        s->setInitialStepSize(h);
        auto gen = randomRhs(g, g.u(0, 2), g.u(1, 2), .4, 1, .5, 1);
        auto f = std::make_shared<Cut>();
        f->n2 = gen->n2; f->n1 = gen->n1; f->c = gen->c; f->b = gen->b; f->om = gen->om; f->ph = gen->ph; f->terms = gen->terms; f->notify = false;
        f->every = g.i(1, 4); f->frac = g.uni(.1, 1);
        DV x = rndv(g, f->n(), 1);
        c.desc << id << " h=" << h << " every " << f->every << " frac " << f->frac << " " << f->text() << " x0=" << list(x);
        auto sh = make(id, false, 1e-6, false); sh->setOdeRhs(gen); sh->setInitialStepSize(h); sh->setInitialState(0, toV(x));
        StepLog log(s);
        s->setOdeRhs(f);
        s->setInitialState(0, toV(x));
        double t = 0;
        bool fresh = true;
        for (int k = 0; k < 10; ++k) {
            std::string at = "step " + std::to_string(k) + ": ";
            f->cut.clear();
            int n0 = f->asked;
            f->t1 = t; f->x1 = x;
            s->doStep();
            auto& r = log.recs.back();
            if (f->asked != n0 + 1) c.die("asked", at + "truncateStep() was called " + std::to_string(f->asked - n0) + " times");
            bool soft = id.substr(0, 4) == "rose";
            if (id != "gragg" || fresh) { sh->setInitialState(t, toV(x), soft); }
            sh->doStep();
            DV X2 = fromV(sh->initialState()), now = fromV(s->initialState());
            double tol = (id == "i_euler" ? 1e-8 : 1e-11) * (1 + maxAbs(X2));
            if (f->cut.empty()) {
                if (r.truncated) c.die("report", at + "truncation reported");
                if (!(maxDiff(now, X2) <= tol) || !close(s->initialTime(), t + h, 1e-13, 0)) c.die("step", at + list(now) + " instead of " + list(X2));
                fresh = false;
            } else {
                c.count("truncated by the right hand side");
                if (!r.truncated) c.die("report", at + "truncation not reported");
                if (s->initialTime() != f->cut[0].first || now != f->cut[0].second) c.die("truncated-state", at + "the state is not the truncated one");
                DV want = add(x, f->frac, sub(X2, x));
                if (!(maxDiff(now, want) <= tol)) c.die("step", at + list(now) + " instead of " + list(want));
                fresh = true;
            }
            if (r.izf != ~0u || r.trans) c.die("report", at + "an event index is reported");
            t = s->initialTime(); x = now;
        }
        c.nontrivial(c.desc.str());
    });
    // Any event controller sees every attempt once, every accepted step whole, may interpolate in it, and decides where the step ends
    ctx.section("controllers", 900, 15000, [&](Case& c) {
        struct Own : OdeEventController<VD> {
            Rng g{1}; double often = .3;
            std::vector<std::pair<double, DV>> starts, marks; int resets = 0, ends = 0;
            DV x1, x2; double t2 = 0; bool cut = false; DV to; double tt = 0; unsigned izf = 0; int tr = 0; std::string wrong; long interpolated = 0;
            void reset() override { ++resets; }
            void atStepStart(const V& x, double t) override { starts.emplace_back(t, fromV(x)); }
            bool atStepEnd(const V& a, V& b, double& t, Interpolator ip, unsigned* i, int* k) override {
                ++ends; x1 = fromV(a); x2 = fromV(b); t2 = t; cut = false;
                double m = 1 + maxAbs(x1) + maxAbs(x2);
                for (int q = g.i(0, 3); q > 0; --q) {
                    double th = g.chance(.2) ? 0 : g.chance(.25) ? 1 : g.uni(0, 1);
                    V d(g.chance(.5) ? unsigned(x1.size()) : 0u); ip(d, th); ++interpolated;
                    DV got = fromV(d), want(x1.size());
                    for (unsigned j = 0; j < want.size(); ++j) want[j] = (1 - th) * x1[j] + th * x2[j];
                    if (!(maxDiff(got, want) <= 1e-14 * m) && wrong.empty()) wrong = "between " + list(x1) + " and " + list(x2) + " at " + num(th) + ": " + list(got);
                    if ((fromV(a) != x1 || fromV(b) != x2) && wrong.empty()) wrong = "interpolation changed the states";
                }
                if (!g.chance(often)) return false;
                cut = true; double th = g.uni(.1, 1); double t1 = starts.back().first;
                to = x1; for (unsigned j = 0; j < to.size(); ++j) to[j] += th * (x2[j] - x1[j]) + (g.chance(.3) ? g.uni(-.2, .2) : 0);
                tt = t1 + th * (t2 - t1); izf = g.u(0, 5); tr = g.chance(.5) ? 1 : -1;
                t = tt; for (unsigned j = 0; j < to.size(); ++j) b[j] = to[j];
                if (i) *i = izf;
                if (k) *k = tr;
                return true;
            }
        };
        Rng& g = c.rng;
        std::string id = g.pick(kinds);
        bool canAdapt = id.substr(0, 5) == "dopri" || id == "rosenbrock_sw2_4" || id == "extrapolator";
        bool adaptive = canAdapt && g.chance(.5);
        double tol = g.logu(1e-7, 1e-3), h = g.logu(.01, .2);
        auto s = make(id, adaptive, tol, true), sh = make(id, false, tol, false);
        auto ec = std::make_shared<Own>(); ec->g = Rng(g.u64()); ec->often = g.uni(.1, .6);
        auto f = randomRhs(g, g.u(0, 2), g.u(1, 2), .4, 1, .5, 1), fs = std::make_shared<GenRhs>(*f);
        unsigned n = f->n();
        DV x = rndv(g, n, 1); double t = g.uni(-1, 1);
        c.desc << id << (adaptive ? " adaptive" : "") << " h=" << h << " often " << ec->often << " " << f->text() << " t0=" << t << " x0=" << list(x);
        bool before = g.chance(.5);
        auto& holder = dynamic_cast<OdeEventControllerHolder<VD>&>(*s);
        if (before) { s->setOdeRhs(f); holder.setEventController(ec); } else { holder.setEventController(ec); s->setOdeRhs(f); }
        if (ec->odeRhs() != f) c.die("controller-rhs", "the event controller does not know the right-hand side");
        s->setInitialStepSize(h); s->setInitialState(t, toV(x));
        if (ec->resets < 1) c.die("reset", "the event controller is not reset by a new initial state");
        sh->setOdeRhs(fs); sh->setInitialStepSize(h); sh->setInitialState(t, toV(x));
        StepLog log(s);
        bool fresh = true;
        for (int k = 0, steps = g.i(2, 15); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ";
            ec->starts.clear(); ec->ends = 0; size_t first = log.recs.size(); int resets = ec->resets;
            try { s->doStep(); } catch (const ctm::cxx::exception&) { if (id == "i_euler" || adaptive) { log.open = false; break; } throw; }
            size_t attempts = log.recs.size() - first;
            auto& r = log.recs.back();
            if (ec->starts.size() != attempts) c.die("starts", at + std::to_string(ec->starts.size()) + " starts of steps for " + std::to_string(attempts) + " attempts");
            if (ec->ends != 1) c.die("ends", at + std::to_string(ec->ends) + " ends of steps");
            if (ec->resets != resets) c.die("reset", at + "the controller was reset");
            for (auto& q : ec->starts) if (q.first != t || q.second != x) c.die("start", at + "a step is said to start at " + num(q.first) + " " + list(q.second) + " instead of " + num(t) + " " + list(x));
            if (!ec->wrong.empty()) c.die("interpolation", at + ec->wrong);
            if (ec->x1 != x) c.die("end", at + "the step is said to have started at " + list(ec->x1) + " instead of " + list(x));
            bool soft = id.substr(0, 4) == "rose";
            if (id != "gragg" || fresh) { sh->setInitialState(t, toV(x), soft); sh->setInitialStepSize(r.h); }
            sh->doStep();
            DV X2 = fromV(sh->initialState()), now = fromV(s->initialState());
            if (!finite(X2) || maxAbs(X2) > 1e4) break;
            double eps = (id == "i_euler" ? 1e-8 : 1e-11) * (1 + maxAbs(X2));
            if (!(maxDiff(ec->x2, X2) <= eps) || !close(ec->t2, t + r.h, 1e-13, 1e-14)) c.die("end-state", at + "the step is said to end at " + num(ec->t2) + " " + list(ec->x2) + " instead of " + num(t + r.h) + " " + list(X2));
            if (ec->cut) {
                if (now != ec->to || s->initialTime() != ec->tt) c.die("decision", at + "the solver is at " + num(s->initialTime()) + " " + list(now) + " and not where the controller ended the step");
                if (!r.truncated || r.izf != ec->izf || r.trans != ec->tr) c.die("report", at + "the event is not reported as the controller gave it");
                c.count("steps ended by a controller"); fresh = true;
            } else {
                if (now != ec->x2 || s->initialTime() != ec->t2) c.die("decision", at + "the solver is not at the end of the step");
                if (r.truncated || r.izf != ~0u || r.trans) c.die("report", at + "an event is reported");
                fresh = false;
            }
            x = now; t = s->initialTime();
        }
        c.count("interpolated states", ec->interpolated);
        c.require(log.protocol.empty(), "protocol", log.protocol);
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
