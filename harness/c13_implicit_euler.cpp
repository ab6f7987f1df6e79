// C13: every step of the implicit solver satisfies the step equation, whatever the Newton configuration, predictor or variable order.
#include "newton_common.h"
#include "ode_common.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/OdeSolverImplicitEuler.h"
using namespace vf;
using namespace ctm::math;
typedef OdeSolverImplicitEuler<VD> IE;

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("integrations of random systems with the implicit solver: implicitness 0 to 1, six descent directions, dense and sparse Jacobians, predictors, permuted equation systems, restarts with other systems and step sizes, "
             "steps that cannot be solved; the step equation is evaluated after every step; non-trivial: at least 3 completed steps; distinct by configuration and equation");
    ctx.expectAtLeast("steps", 2000);
    ctx.expectAtLeast("with reordering", 200);
    ctx.expectAtLeast("with predictor", 200);
    ctx.expectAtLeast("failed steps", 20);

    ctx.section("steps", 8000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        auto s = std::make_shared<IE>();
        double alpha = g.chance(.3) ? 1 : g.chance(.3) ? .5 : g.chance(.2) ? 0 : g.uni(.05, 1);
        Params p;
        bool pred = g.chance(.35);
        if (alpha != 1) p["alpha"] = alpha;
        if (pred) { p["predictor"] = PValue(g.pick(std::vector<std::string>{"euler", "rk4"})); p["predictor_steps"] = g.u(1, 3); }
        if (!p.empty()) s->setParameters(p);
        double h = g.logu(1e-3, .3);
        s->setInitialStepSize(h);
        auto newton = s->newtonSolver();
        int kd = g.i(0, 6);             // 6: the default configuration
        bool sparse = g.chance(.5);
        if (kd < 6) { newton->setComponent(makeDDir(kd, g.u(0, 8))); newton->setComponent(makeJProv(sparse)); }
        auto ee = std::make_shared<SimpleErrorEstimator<VD>>();
        double tol = g.chance(.5) ? 1e-6 : g.logu(1e-10, 1e-4);
        ee->setAbsoluteTolerance(tol); ee->setRelativeTolerance(g.chance(.5) ? tol : 1e-6); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0);
        newton->setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee));
        c.desc << "alpha=" << alpha << " h=" << h << " tol=" << tol << " ddir=" << (kd < 6 ? ddirNames[kd] : "default") << (sparse ? " sparse" : "") << (pred ? " predictor" : "");
        bool reorder = g.chance(.4), offDiagonal = false;
        auto ro = std::make_shared<VectorReorderingMapping<VD>>();
        std::shared_ptr<GenRhs> f;
        StepLog log(s);
        long iters = 0;
        s->iterationObservers.add([&](unsigned, const NewtonSolverInterface<VD>*) -> bool { ++iters; return false; });
        int refresh = 0;
        s->jacobianRefreshObservers.add([&](bool st) { refresh += st ? 1 : -1; });
        for (int round = 0, rounds = g.i(1, 3); round < rounds; ++round) {
            unsigned n2 = g.u(0, 3), n1 = g.u(n2 ? 0 : 1, 3);
            double strength = g.chance(.25) ? g.logu(10, 1000) : g.uni(.2, 4);
            f = randomRhs(g, n2, n1, .4, strength, g.chance(.4) ? 0 : g.uni(.1, 1), g.uni(0, 2));
            f->notify = false; f->record = true; f->budget = 400000;
            int trouble = g.i(0, 9);
            unsigned tcomp = g.u(n2, f->n() - 1);
            if (trouble == 0) f->distort = [=](double, const DV& x, DV& d) { d[tcomp] += 40 * x[tcomp] * x[tcomp]; };   // no solution for long steps
            if (trouble == 1) f->distort = [=](double, const DV& x, DV& d) { if (std::fabs(x[tcomp]) > 1.5) d[tcomp] = NAN; };
            double t0 = g.chance(.5) ? 0 : g.uni(-2, 2);
            DV x0 = rndv(g, f->n(), 1.5);
            c.desc << "; " << f->text() << " trouble " << trouble << " on " << tcomp << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f);
            if (round && g.chance(.3)) { h = g.logu(1e-3, .3); s->setInitialStepSize(h); c.desc << " h=" << h; }
            if (reorder) {
                auto pi = g.perm(n2 + n1), po = g.chance(.6) ? pi : g.perm(n2 + n1);
                offDiagonal = pi != po;         // the factorization does no pivoting, so it may fail then
                ro->setInputOrdering(pi); ro->setOutputOrdering(po);
                if (round == 0 || g.chance(.5)) s->setReorder(ro);
                c.count("with reordering");
                c.desc << " order " << list(DV(pi.begin(), pi.end())) << list(DV(po.begin(), po.end()));
            }
            if (pred) c.count("with predictor");
            s->setInitialState(t0, toV(x0));
            double L = 0;
            for (auto& k : f->terms) L = std::max(L, std::fabs(k.a) + std::fabs(k.q * k.w));
            double t = t0; DV x = x0;
            int steps = g.i(1, 8), done = 0;
            log.recs.clear();
            for (int k = 0; k < steps; ++k) {
                std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                double hl = h * L * double(f->n());
                bool benign = hl < .2 && trouble > 1 && tol > 1e-9 && !offDiagonal;
                f->before.clear();
                long it0 = iters;
                try { s->doStep(); }
                catch (const ctm::cxx::exception& e) {
                    c.count("failed steps");
                    log.open = false; refresh = 0;        // an exception may interrupt a refresh
                    if (benign) c.die("benign-failed", at + "a step of a benign system failed: " + e.what());
                    if (s->initialTime() != t || fromV(s->initialState()) != x) c.die("failed-step", at + "a failed step changed the state");
                    h /= 4; s->setInitialStepSize(h);       // try again with a shorter step
                    if (g.chance(.5)) s->setInitialState(t, toV(x));
                    continue;
                }
                ++done;
                DV y = fromV(s->initialState());
                double tn = s->initialTime();
                if (!close(tn, t + h, 1e-14, 0)) c.die("time", at + "time " + num(tn));
                if (iters == it0 && alpha > 0) c.die("iteration-observers", at + "no iteration is announced");
                DV f0 = f->eval(t, x), f1 = f->eval(t + h, y);
                double sc = 1 + maxAbs(x) + maxAbs(y);
                for (unsigned i = 0; i < n2; ++i) {
                    double want = x[i] + h * ((1 - alpha) * x[n2 + i] + alpha * y[n2 + i]);
                    if (!(std::fabs(y[i] - want) <= 1e-13 * sc)) c.die("position", at + "position " + std::to_string(i) + " is " + num(y[i]) + " instead of " + num(want));
                }
                for (unsigned i = n2; i < f->n(); ++i) {
                    double res = y[i] - x[i] - h * ((1 - alpha) * f0[i] + alpha * f1[i]);
                    double rnd = 1e-13 * (sc + h * (std::fabs(f0[i]) + std::fabs(f1[i])) + h * L * sc);
                    if (!(std::fabs(res) <= tol * (1 + 1e-9) + rnd)) c.die("equation", at + "the step equation leaves " + num(res) + " in component " + std::to_string(i) + ", tolerance " + num(tol) + " state " + list(y));
                }
                if (alpha == 0) for (unsigned i = 0; i < f->n(); ++i) { double want = x[i] + h * f0[i]; if (!(std::fabs(y[i] - want) <= tol + 1e-12 * sc)) c.die("explicit", at + "component " + std::to_string(i) + " is " + num(y[i]) + " instead of " + num(want)); }
                if (f->before.empty() || f->before[0].first != t || f->before[0].second != x) c.die("before-step", at + "beforeStep() has not been called with the initial state first");
                auto& r = log.recs.back();
                if (!r.posted || !r.accepted || r.changed || r.truncated || r.h != h || r.hPre != h || r.x1 != y || r.t1 != tn) c.die("report", at + "the step is not reported as it was done");
                c.count("steps");
                t = tn; x = y;
                if (maxAbs(x) > 1e4) break;
            }
            if (done >= 3) c.nontrivial(c.desc.str());
            c.require(refresh == 0, "refresh-observers", "Jacobian refresh notifications are not paired");
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
        c.require(s->order() == 1, "order", "order()");
    });

    // A Jacobian that is kept between the steps is computed again after a restart and after a switch, and only then
    ctx.expectAtLeast("kept Jacobians", 1000); ctx.expectAtLeast("Jacobians renewed after a switch", 200); ctx.expectAtLeast("soft restarts", 150);
    ctx.section("kept-jacobian", 900, 12000, [&](Case& c) {
        Rng& g = c.rng;
        struct SwRhs : GenRhs {
            double level = 1; int fired = 0; std::vector<Term> other; bool two = false;
            unsigned zeroFuncCount() const override { return two ? 2 : 1; }
            void zeroFunctions(V& dst, double t, const V&) const override { dst.resize(zeroFuncCount()); dst[0] = t - level; if (two) dst[1] = t - level * 2.1; }
            void switchPhaseState(const int*, double, V&) override { ++fired; std::swap(terms, other); }
        };
        auto f = std::make_shared<SwRhs>();
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        static_cast<GenRhs&>(*f) = *randomRhs(g, n2, n1, .4, g.uni(.2, 2), 0, g.uni(0, 2));
        f->other = f->terms;
        double stiff = g.logu(1, 300);
        for (auto& k : f->other) k.a = -stiff * g.uni(.2, 1) * (k.i == n2 + k.j ? 1 : .1 * g.uni(-1, 1));
        f->notify = false; f->budget = 400000;
        double h = g.logu(1e-3, .05);
        f->level = h * g.uni(2.2, 8); f->two = g.chance(.5);
        int kd = g.chance(.6) ? 1 : 4;
        bool sparse = g.chance(.5), reorder = g.chance(.3), pred = g.chance(.2);
        auto s = std::make_shared<IE>();
        double alpha = g.chance(.6) ? 1 : g.uni(.5, 1);
        Params p;
        if (alpha != 1) p["alpha"] = alpha;
        if (pred) { Params q; q["eventctl"] = ""; p["predictor"] = PValue("euler", q); }
        if (!p.empty()) s->setParameters(p);
        s->setInitialStepSize(h);
        auto newton = s->newtonSolver();
        auto dd = makeDDir(kd, 12);
        newton->setComponent(dd); newton->setComponent(makeJProv(sparse));
        auto ee = std::make_shared<SimpleErrorEstimator<VD>>();
        ee->setAbsoluteTolerance(1e-8); ee->setRelativeTolerance(1e-6); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0);
        newton->setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee));
        s->setOdeRhs(f);
        if (reorder) { auto ro = std::make_shared<VectorReorderingMapping<VD>>(); auto pi = g.perm(n2 + n1); ro->setInputOrdering(pi); ro->setOutputOrdering(pi); s->setReorder(ro); }
        c.desc << ddirNames[kd] << (sparse ? " sparse" : "") << (reorder ? " reordered" : "") << (pred ? " predictor" : "") << " alpha=" << alpha << " h=" << h << " level=" << f->level << (f->two ? " twice " : " ") << f->text() << " then a=";
        for (auto& k : f->other) c.desc << k.a << " ";
        s->setInitialState(0, toV(rndv(g, f->n(), 1)));
        int refreshes = 0; long solutions = 0, iters = 0, total = 0;
        s->jacobianRefreshObservers.add([&](bool on) { if (on) ++refreshes; });
        dd->ddirPostObservers.add([&](const V&) { ++solutions; });
        s->iterationObservers.add([&](unsigned, const NewtonSolverInterface<VD>*) -> bool { ++iters; return false; });
        bool truncated = false;
        s->odeSolverPostObservers.add([&](const OdeSolverPostObserverArg<VD>& a) { truncated = a.stepTruncated(); });
        bool expect = true; const char* why = "after the start";
        int events = 0;
        for (int k = 0, steps = g.i(6, 25); k < steps; ++k) {
            if (k && g.chance(.15)) {
                bool soft = g.chance(.6);
                DV x = fromV(s->initialState());
                if (g.chance(.5)) x = rndv(g, f->n(), 1);
                s->setInitialState(s->initialTime(), toV(x), soft);
                if (soft) c.count("soft restarts"); else { expect = true; why = "after a restart"; }
                c.desc << (soft ? " soft" : " hard") << "@" << k;
            }
            refreshes = 0; iters = 0; truncated = false;
            try { s->doStep(); } catch (const ctm::cxx::exception& e) { c.count("not solved"); return; }
            std::string at = "step " + std::to_string(k) + ": ";
            total += iters;
            if (iters > 6) { c.count("slow"); return; }        // a restart from scratch within the step
            if (refreshes != (expect ? 1 : 0)) c.die("kept-jacobian", at + "the Jacobian is computed " + std::to_string(refreshes) + " times " + (expect ? why : "in a step after which nothing has changed"));
            if (expect && iters > 4) c.die("kept-jacobian-iterations", at + std::to_string(iters) + " iterations with a Jacobian computed " + why);
            if (expect && std::string(why) == "after a switch") c.count("Jacobians renewed after a switch");
            c.count(expect ? "new Jacobians" : "kept Jacobians");
            auto& lu = s->luTimingStats;
            if (long(lu.solveTiming.count()) != solutions) c.die("lu-stats", at + std::to_string(lu.solveTiming.count()) + " solutions of linear systems are counted, there were " + std::to_string(solutions));
            if (lu.setMatrixTiming.count() + lu.setMatrixFastTiming.count() < lu.factorizeTiming.count()) c.die("lu-stats", at + "more factorizations than matrices are counted");
            expect = truncated; why = "after a switch";
            if (truncated) ++events;
            if (!(maxAbs(fromV(s->initialState())) < 1e4)) return;
        }
        if (events != f->fired) c.die("events", std::to_string(events) + " truncated steps, " + std::to_string(f->fired) + " switches");
        c.nontrivial(c.desc.str());
    });

    // The step equation itself, as an algebraic mapping that can be used without the solver.
    ctx.expectAtLeast("mapping values", 3000);
    ctx.section("mapping", 2500, 30000, [&](Case& c) {
        Rng& g = c.rng;
        OdeStepMappingEuler<VD> m;
        OdeStepMapping<VD>& im = m;
        double alpha = 1, h = .1, t0 = 0; DV x0;
        std::shared_ptr<GenRhs> f;
        unsigned n2 = 0, n1 = 0;
        auto fresh = [&](bool sameSize) {
            if (!sameSize) { n2 = g.u(0, 3); n1 = g.u(n2 ? 0 : 1, 3); }
            f = randomRhs(g, n2, n1, .4, g.uni(.2, 4), g.chance(.4) ? 0 : g.uni(.1, 1), g.uni(0, 2)); f->budget = 400000;
            m.setOdeRhs(f); c.desc << "; " << f->text();
        };
        auto start = [&]() { t0 = g.uni(-2, 2); x0 = rndv(g, 2 * n2 + n1, 1.5); m.setInitialState(t0, toV(x0)); c.desc << "; t0=" << t0 << " x0=" << list(x0); };
        fresh(false); start();
        int pre = 0, post = 0; DV seenX, seenF;
        m.vectorMappingPreObservers.add([&](const V& x, const VectorMapping<VD>*) { ++pre; seenX = fromV(x); });
        m.vectorMappingPostObservers.add([&](const V& x, const V& y, const VectorMapping<VD>*) { ++post; seenX = fromV(x); seenF = fromV(y); });
        int values = 0;
        for (int q = g.i(4, 14); q-- > 0;) {
            int op = g.i(0, 8);
            if (op == 0) { bool keep = g.chance(.5); fresh(keep); if (!keep || g.chance(.5)) start(); }
            else if (op == 1) start();
            else if (op == 2) { h = g.logu(1e-3, .5); c.desc << "; h=" << h; if (g.chance(.5)) m.setTimeStep(h); else { Params p; p["h"] = h; m.setParameters(p); } }
            else if (op == 3) { alpha = g.chance(.2) ? 1 : g.chance(.2) ? 0 : g.uni(0, 1); c.desc << "; alpha=" << alpha; if (g.chance(.5)) m.setImplicitnessParameter(alpha); else { Params p; p["alpha"] = alpha; m.setParameters(p); } }
            else {
                unsigned n = n2 + n1;
                DV y = rndv(g, n, 1.5), full(2 * n2 + n1), want(n); c.desc << "; value";
                for (unsigned i = 0; i < n2; ++i) full[i] = x0[i] + h * ((1 - alpha) * x0[n2 + i] + alpha * y[i]);
                for (unsigned i = 0; i < n; ++i) full[n2 + i] = y[i];
                DV f0 = f->eval(t0, x0), f1 = f->eval(t0 + h, full);
                if (m.inputSize() != n || m.outputSize() != n) c.die("mapping-size", "");
                V r; int p0 = pre, q0 = post;
                if (g.chance(.5)) r = V(g.u(0, 9));
                m.map(r, toV(y));
                double sc = 1 + maxAbs(x0) + maxAbs(y) + h * (maxAbs(f0) + maxAbs(f1));
                if (r.size() != n) c.die("mapping-size", "a value of " + std::to_string(r.size()) + " components");
                for (unsigned i = 0; i < n; ++i) {
                    want[i] = y[i] - x0[n2 + i] - h * ((1 - alpha) * f0[n2 + i] + alpha * f1[n2 + i]);
                    if (!(std::fabs(r[i] - want[i]) <= 1e-12 * sc)) c.die("mapping-value", "component " + std::to_string(i) + " is " + num(r[i]) + " instead of " + num(want[i]));
                }
                if (pre != p0 + 1 || post != q0 + 1 || seenX != y || seenF != fromV(r)) c.die("mapping-observers", "an evaluation is not announced as it was done");
                if (m.initialTime() != t0 || fromV(m.initialState()) != x0 || m.timeStep() != h || m.implicitnessParameter() != alpha) c.die("mapping-data", "");
                if (fromV(m.eqnInitialState()) != DV(x0.begin() + n2, x0.end())) c.die("mapping-initial", "");
                V s1(g.u(0, 9)); im.computeOdeState(s1, toV(y)); V s2 = m.computeOdeState(toV(y)), s3 = im.computeOdeState(toV(y));
                if (fromV(s1) != fromV(s2) || fromV(s1) != fromV(s3) || s1.size() != full.size()) c.die("mapping-state", "");
                for (unsigned i = 0; i < full.size(); ++i) if (!(std::fabs(s1[i] - full[i]) <= 1e-13 * sc)) c.die("mapping-state", "component " + std::to_string(i) + " is " + num(s1[i]) + " instead of " + num(full[i]));
                V e1(g.u(0, 9)); im.computeEqnState(e1, s1); V e2 = m.computeEqnState(s1), e3 = im.computeEqnState(s1);
                if (fromV(e1) != y || fromV(e2) != y || fromV(e3) != y) c.die("mapping-equation-state", "");
                auto ids = f->varIds(); ids.erase(ids.begin(), ids.begin() + n2);
                if (m.inputIds() != ids || m.outputIds() != ids) c.die("mapping-ids", "");
                auto p = m.parameters(); if (p["h"].value<double>() != h || p["alpha"].value<double>() != alpha) c.die("mapping-parameters", "");
                c.count("mapping values"); ++values;
            }
        }
        if (values >= 2) c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
