// C08: what the Newton solver reports is true of the equation, it stops, and it can be reused.
#include "newton_common.h"
using namespace vf;
using namespace ctm::math;
typedef NewtonSolverInterface<VD> NSI;

static DV rnd(Rng& g, unsigned n, double s) { DV x(n); for (auto& v : x) v = g.uni(-s, s); return x; }

// A mapping that may fail on purpose
struct FaultyMapping : TestMapping {
    mutable long failAt = -1;           // the call that throws
    int mode = 0;                       // 0: ordinary; 1: returns NaN away from the ball of radius r; 2: overflowing; 3: no root
    double r = 1;
    using TestMapping::map;
    void map(V& dst, const V& x) const override {
        if (failAt >= 0 && calls >= failAt) { failAt = -1; throw std::domain_error("the mapping refuses"); }
        TestMapping::map(dst, x);
        distort(dst, x);
    }
    void distort(V& dst, const V& x) const {
        if (mode == 1 && maxAbs(fromV(x)) > r) dst[0] = NAN;
        if (mode == 2 && maxAbs(fromV(x)) > r) for (unsigned i = 0; i < nout; ++i) dst[i] *= 1e200;
        if (mode == 3) dst[0] = 1 + dst[0] * dst[0];
    }
    DV value(const DV& x) const { V d = toV(eval(x)); distort(d, toV(x)); return fromV(d); }
};

struct Trace { std::vector<unsigned> nums; std::vector<DV> xs, fs; std::vector<double> ratio; };

static void run(Ctx& ctx) {
    ctx.rule("nonlinear systems (well-conditioned, singular, rootless, with NaN or overflow away from the guess, with exceptions) solved by all of the descent directions with dense and "
             "sparse Jacobians, trimmers, tolerances and iteration limits, repeatedly in one solver object with hard and soft restarts; every iteration is recorded by an observer; "
             "non-trivial: at least 2 iterations; distinct by configuration and equation");
    ctx.expectAtLeast("converged", 300);
    ctx.expectAtLeast("not converged", 50); ctx.expectAtLeast("scripted runs", 1000); ctx.expectAtLeast("restarts", 300); ctx.expectAtLeast("started at a root", 500); ctx.expectAtLeast("no step from a root", 50);

    ctx.section("solve", 10000, 150000, [&](Case& c) {
        Rng& g = c.rng;
        Newton ns;
        unsigned n = g.u(1, 8);
        int kd = g.i(0, 5);
        bool sparse = g.chance(.5);
        double absTol = g.chance(.3) ? g.logu(1e-9, 1e-2) : 1e-6, relTol = g.chance(.3) ? g.logu(1e-9, 1e-1) : 1e-6;
        unsigned limit = g.chance(.3) ? g.u(1, 6) : 100;
        c.desc << ddirNames[kd] << (sparse ? " sparse" : " dense") << " tol=" << absTol << "/" << relTol << " limit=" << limit;
        ns.setComponent(makeDDir(kd, g.u(0, 12)));
        ns.setComponent(makeJProv(sparse));
        ns.setIterationCountLimit(limit);
        { auto ee = ns.iterationPerformer()->errorEstimator(); ee->setAbsoluteTolerance(absTol); ee->setRelativeTolerance(relTol); }
        bool noThresholds = g.chance(.5);       // otherwise a guess near zero counts as divergence by design
        if (noThresholds) { auto ee = std::make_shared<SimpleErrorEstimator<VD>>(); ee->setAbsoluteTolerance(absTol); ee->setRelativeTolerance(relTol); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0); ns.setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee)); c.desc << " no thresholds"; }
        auto ls = std::make_shared<SimpleNewtonLinearSearch<VD>>();
        if (g.chance(.3)) { ls->setMaxStepTruncations(g.u(1, 6)); c.desc << " truncations=" << ls->maxStepTruncations(); }
        ns.setComponent(std::static_pointer_cast<NewtonLinearSearch<VD>>(ls));
        bool trim = g.chance(.2);
        if (trim) { auto t = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); ctm::OptionalParameters::Parameters p; p["width"] = g.u(1, 3); t->setParameters(p); ns.setComponent(std::static_pointer_cast<JacobianTrimmer<VD>>(t)); c.desc << " trimmed"; }

        std::shared_ptr<FaultyMapping> f;
        double spread = 2;
        int kind = 0;
        auto newMapping = [&]() {
            n = g.u(1, 8);
            f = std::make_shared<FaultyMapping>();
            kind = g.i(0, 9);   // 0-4 good, 5 linear, 6 arbitrary, 7 singular, 8 NaN away, 9 overflow / no root
            auto b = kind <= 4 || kind >= 8 ? dominantMapping(g, n, .4, .5) : kind == 5 ? dominantMapping(g, n, .4, 0.) : randomMapping(g, n, n, .4, true, .6);
            static_cast<TestMapping&>(*f) = *b;
            if (kind == 7) { // two proportional rows
                if (n >= 2) { auto have = f->pattern(); for (unsigned i = 0; i < 2; ++i) if (!have.count(Idx(0, i))) f->terms.push_back(Term{0, i, g.uni(.5, 2), 0, 1, 0}); std::vector<Term> t; for (auto& q : f->terms) if (q.j != 1) { t.push_back(q); if (q.j == 0) { Term z = q; z.j = 1; t.push_back(z); } } f->terms = t; }
                else f->mode = 3;
            }
            if (kind == 8) { f->mode = 1; f->r = g.uni(1, 4); }
            if (kind == 9) { f->mode = g.i(2, 3); f->r = g.uni(1, 4); }
            spread = g.chance(.2) ? 20 : 2;
            c.desc << "; kind " << kind << " " << f->text() << " mode " << f->mode << " r=" << f->r;
        };
        for (auto& k : std::vector<std::pair<NSI::Status, std::string>>{{NSI::Converged, "converged"}, {NSI::Diverged, "diverged"}, {NSI::Terminated, "terminated"}, {NSI::IterationCountLimitExceeded, "iteration count limit exceeded"}})
            if (NSI::statusText(k.first) != k.second) c.die("status-text", NSI::statusText(k.first) + " instead of " + k.second);
        newMapping();
        ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
        Trace tr;
        long stopAt = -1;
        ns.iterationObservers.add([&](unsigned k, const NSI* s) -> bool {
            if (s != &ns) c.fail("observer-argument", "");
            tr.nums.push_back(k);
            tr.xs.push_back(fromV(ns.currentSolution()));
            tr.fs.push_back(fromV(ns.iterationPerformer()->currentResidual()));
            tr.ratio.push_back(ns.iterationPerformer()->currentStepRatio());
            return stopAt >= 0 && long(tr.nums.size()) > stopAt;
        });

        int runs = g.i(1, 4);
        bool mappingIsNew = true;
        for (int r = 0; r < runs; ++r) {
            if (r && g.chance(.4)) { newMapping(); ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f)); mappingIsNew = true; }
            bool hard = mappingIsNew || g.chance(.6);
            mappingIsNew = false;
            DV x0 = g.chance(.05) ? DV(n, 0.) : rnd(g, n, spread);
            bool keep = !hard && g.chance(.2);      // go on from where it stopped
            if (keep) x0 = fromV(ns.currentSolution());
            c.desc << "; run from " << list(x0) << (hard ? " hard" : " soft");
            if (!keep) ns.setInitialGuess(toV(x0), hard);
            tr = Trace();
            stopAt = g.chance(.1) ? g.i(0, 4) : -1;
            f->calls = 0;
            f->failAt = g.chance(.08) ? g.i(0, 40) : -1;
            // no solver may need more than this
            f->budget = long(2 * limit) * (2 * 10 + n + 2) + 20;
            NSI::Status st;
            bool thrown = false;
            try { st = ns.run(); } catch (const std::domain_error&) { thrown = true; }
            f->failAt = -1;
            if (thrown) { c.count("exceptions from the mapping"); mappingIsNew = true; continue; }
            DV x = fromV(ns.currentSolution());
            size_t m = tr.nums.size();
            c.desc << " -> " << NSI::statusText(st) << " after " << m;
            c.count("runs"); c.count("iterations", long(m));
            if (m == 0) c.die("no-iteration", "");
            if (m > 2 * size_t(limit)) c.die("iteration-limit", std::to_string(m) + " iterations, the limit is " + std::to_string(limit));
            for (size_t k = 0; k < m; ++k) if (tr.nums[k] != k) c.die("iteration-numbers", "iteration " + std::to_string(k) + " has number " + std::to_string(tr.nums[k]));
            if (!(maxAbs(x) == maxAbs(tr.xs.back())) && !std::isnan(maxAbs(x))) c.die("solution", "differs from that of the last iteration");
            // the residual is that of the solution; it never grows, except at a restart from the initial guess
            double scale = 1e-11;
            double n0 = 0; { DV v = f->value(x0); for (double q : v) n0 += q * q; }
            double prev = n0;
            for (size_t k = 0; k < m; ++k) {
                DV v = f->value(tr.xs[k]);
                double amp = 1; for (auto& t : f->terms) amp = std::max(amp, std::fabs(t.a) * (1 + maxAbs(tr.xs[k])));
                double sc = f->mode >= 2 ? 1e-7 * (1 + maxAbs(v)) : scale * amp;
                double now = 0;
                for (unsigned i = 0; i < n; ++i) {
                    now += tr.fs[k][i] * tr.fs[k][i];
                    if (!close(tr.fs[k][i], v[i], 1e-9, sc)) c.die("residual", "iteration " + std::to_string(k) + ": the residual is " + list(tr.fs[k]) + " and the mapping gives " + list(v) + " at " + list(tr.xs[k]));
                }
                if (!(std::fabs(tr.ratio[k]) <= 1)) c.die("step-ratio", num(tr.ratio[k]));
                if (now > prev * (1 + 1e-10) + 1e-26 && !(std::isnan(n0)) && !(k > 0 && now <= n0 * (1 + 1e-10))) c.die("residual-grows", "iteration " + std::to_string(k) + ": " + num(prev) + " -> " + num(now));
                prev = now;
            }
            DV v = f->value(x);
            double amp = 1; for (auto& t : f->terms) amp = std::max(amp, std::fabs(t.a) * (1 + maxAbs(x)));
            if (st == NSI::Converged) {
                c.count("converged");
                if (!(maxAbs(v) <= absTol * (1 + 1e-9) + 1e-12 * amp)) c.die("false-convergence", "residual " + num(maxAbs(v)) + ", tolerance " + num(absTol) + " at " + list(x));
                const DV& xp = m >= 2 ? tr.xs[m - 2] : x0;
                // x0 is also where a restart begins
                auto relOf = [&](const DV& a) { DV d(n); for (unsigned i = 0; i < n; ++i) d[i] = x[i] - a[i]; double b = maxAbs(a); return b > 0 ? maxAbs(d) / b : 0.; };
                if (!(relOf(xp) <= relTol * (1 + 1e-9) + 1e-14) && !(relOf(x0) <= relTol * (1 + 1e-9) + 1e-14)) c.die("false-convergence-relative", "relative change " + num(relOf(xp)) + ", tolerance " + num(relTol));
                if (!(maxAbs(x) < INFINITY)) c.die("not-finite", list(x));
            }
            else {
                c.count("not converged");
                if (maxAbs(f->value(x0)) < INFINITY && !(maxAbs(x) < INFINITY)) c.die("not-finite", "the solution has been spoilt: " + list(x));
                if (st == NSI::Terminated) { if (stopAt < 0 || long(m) != stopAt + 1) c.die("terminated", ""); c.count("terminated"); }
                else if (stopAt >= 0 && long(m) > stopAt) c.die("not-terminated", "");
                if (st == NSI::IterationCountLimitExceeded && m < limit) c.die("limit-not-reached", std::to_string(m));
            }
            // with the exact Jacobian a linear system takes one iteration, and one more to see that nothing changes
            if (kind == 5 && noThresholds && !trim && maxAbs(x0) < 100 && absTol >= 1e-8 && relTol >= 1e-8 && st != NSI::Terminated && f->mode == 0 && hard && limit >= 8) {
                if (st != NSI::Converged) c.die("linear-not-solved", NSI::statusText(st));
                if (m > 6) c.die("linear-slow", std::to_string(m) + " iterations");
            }
            if (kind <= 4 && kd == 0 && noThresholds && !trim && limit == 100 && absTol >= 1e-8 && relTol >= 1e-8 && spread < 3 && hard && stopAt < 0 && ls->maxStepTruncations() >= 10) {
                c.count("must converge");
                if (st != NSI::Converged) c.die("well-conditioned-not-solved", NSI::statusText(st));
            }
            if (m >= 2) c.nontrivial(std::to_string(kd) + (sparse ? "s" : "d") + std::to_string(kind) + f->text());
        }
    });

    // The same problem gives the same iterations whatever has been solved in the same object before
    ctx.section("reuse", 2500, 30000, [&](Case& c) {
        Rng& g = c.rng;
        int kd = g.i(0, 5);
        bool sparse = g.chance(.5);
        unsigned lazy = g.u(0, 12);
        auto make = [&](Newton& ns) { ns.setComponent(makeDDir(kd, lazy)); ns.setComponent(makeJProv(sparse)); };
        Newton a; make(a);
        int before = g.i(1, 3);
        c.desc << ddirNames[kd] << (sparse ? " sparse" : " dense");
        Trace tr; Newton* cur = nullptr;
        auto watch = [&](Newton& ns) { ns.iterationObservers.add([&tr, &ns](unsigned, const NSI*) -> bool { tr.xs.push_back(fromV(ns.currentSolution())); return false; }); };
        watch(a); (void)cur;
        for (int k = 0; k < before; ++k) {
            unsigned n = g.u(1, 7);
            auto f = g.chance(.7) ? dominantMapping(g, n, .4, .5) : randomMapping(g, n, n, .4, true);
            a.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
            a.setInitialGuess(toV(rnd(g, n, 3)), true);
            a.run();
            c.desc << "; " << f->text();
        }
        unsigned n = g.u(1, 7);
        auto f = dominantMapping(g, n, .4, .5);
        DV x0 = rnd(g, n, 2);
        c.desc << "; " << f->text() << " from " << list(x0);
        auto solve = [&](Newton& ns, Trace& t) { ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f)); tr = Trace(); ns.setInitialGuess(toV(x0), true); auto st = ns.run(); t = tr; return st; };
        Trace t1, t2;
        auto s1 = solve(a, t1);
        Newton b; make(b); watch(b);
        auto s2 = solve(b, t2);
        c.count("reused");
        if (s1 != s2) c.die("status", NSI::statusText(s1) + " in a reused solver, " + NSI::statusText(s2) + " in a new one");
        if (t1.xs.size() != t2.xs.size()) c.die("iterations", std::to_string(t1.xs.size()) + " in a reused solver, " + std::to_string(t2.xs.size()) + " in a new one");
        for (size_t k = 0; k < t1.xs.size(); ++k) for (unsigned i = 0; i < n; ++i)
            if (!close(t1.xs[k][i], t2.xs[k][i], 1e-7, 1e-8)) c.die("iterates", "iteration " + std::to_string(k) + ": " + list(t1.xs[k]) + " in a reused solver, " + list(t2.xs[k]) + " in a new one");
        if (t1.xs.size() >= 2) c.nontrivial(f->text() + std::to_string(kd));
    });

    // A root, given as the initial guess, is confirmed to be one
    ctx.section("at-root", 2500, 30000, [&](Case& c) {
        Rng& g = c.rng;
        int kd = g.i(0, 5);
        bool sparse = g.chance(.5);
        unsigned n = g.u(1, 6);
        auto f = dominantMapping(g, n, .4, g.chance(.3) ? 0. : .5);
        c.desc << ddirNames[kd] << (sparse ? " sparse " : " dense ") << f->text();
        Newton ns;
        ns.setComponent(makeDDir(kd, g.u(0, 12))); ns.setComponent(makeJProv(sparse));
        auto ee = std::make_shared<SimpleErrorEstimator<VD>>(); ee->setAbsoluteTolerance(1e-6); ee->setRelativeTolerance(1e-6); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0);
        ns.setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee));
        ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
        DV x(n, 0.);
        { // the root to the last digit
            ns.setInitialGuess(toV(rnd(g, n, 2)), true);
            if (ns.run() != NSI::Converged) { c.count("no root"); return; }
            x = fromV(ns.currentSolution());
            Newton fine; fine.setComponent(makeDDir(0, 0)); fine.setComponent(makeJProv(false));
            auto e2 = std::make_shared<SimpleErrorEstimator<VD>>(); e2->setAbsoluteTolerance(0); e2->setRelativeTolerance(0); e2->setAbsoluteMaxThreshold(0); e2->setRelativeMaxThreshold(0);
            fine.setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(e2));
            fine.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
            fine.setInitialGuess(toV(x), true);
            fine.run();
            x = fromV(fine.currentSolution());
        }
        if (!(maxAbs(f->eval(x)) <= 1e-10)) { c.count("no root"); return; }
        int runs = g.i(1, 3);
        for (int r = 0; r < runs; ++r) {
            DV x0 = x; bool near = g.chance(.3);
            if (near) for (auto& q : x0) q += g.uni(-1, 1) * g.logu(1e-17, 1e-9);
            bool hard = r == 0 || g.chance(.5);
            c.desc << "; from " << (near ? "near the root " : "the root ") << list(x0) << (hard ? " hard" : " soft");
            ns.setInitialGuess(toV(x0), hard);
            auto st = ns.run();
            DV y = fromV(ns.currentSolution());
            c.count("started at a root");
            if (ns.iterationPerformer()->currentStepRatio() == 0) c.count("no step from a root");
            if (st != NSI::Converged) c.die("root-not-recognized", std::string(NSI::statusText(st)) + " at " + list(y) + ", the residual is " + num(maxAbs(f->eval(y))));
            if (!(maxAbs(f->eval(y)) <= 1e-6)) c.die("root-lost", list(y));
        }
        c.nontrivial(f->text() + std::to_string(kd));
    });

    // A regularization strategy changes the equation in the course of the iterations
    ctx.section("regularized", 1500, 20000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 6);
        struct Reg : TestMapping { double p = 0; using TestMapping::map; void map(V& dst, const V& x) const override { TestMapping::map(dst, x); for (unsigned i = 0; i < nout; ++i) dst[i] += p * (1 + i); } };
        auto f = std::make_shared<Reg>();
        static_cast<TestMapping&>(*f) = *dominantMapping(g, n, .4, .4);
        struct Strategy : NewtonRegularizationStrategy<VD> {
            std::shared_ptr<Reg> f; double factor; int every, k = 0, adjusted = 0; bool wait;
            double regularizationParameter() const override { return f->p; }
            void setRegularizationParameter(double x) override { f->p = x; }
            bool adjustRegularizationParameter() override {
                if (f->p == 0) return false;
                if (wait && this->errorEstimator()->currentStatus() == ErrorEstimator<VD>::ContinueIterations && ++k % every) return false;
                ++adjusted;
                f->p = f->p > 1e-3 ? f->p * factor : 0;
                return true;
            }
        };
        auto s = std::make_shared<Strategy>();
        s->f = f; s->factor = g.uni(.01, .5); s->every = g.i(1, 4); s->wait = true;
        f->p = g.uni(.1, 3);
        int kd = g.i(0, 5);
        bool sparse = g.chance(.5);
        c.desc << ddirNames[kd] << " p=" << f->p << " factor=" << s->factor << " every=" << s->every << " " << f->text();
        Newton ns;
        ns.setComponent(makeDDir(kd)); ns.setComponent(makeJProv(sparse));
        ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
        ns.setComponent(std::static_pointer_cast<NewtonRegularizationStrategy<VD>>(s));
        if (s->errorEstimator() != ns.iterationPerformer()->errorEstimator() || s->newtonDescentDirection() != ns.iterationPerformer()->newtonDescentDirection()) c.die("strategy-components", "");
        DV x0 = rnd(g, n, 2);
        ns.setInitialGuess(toV(x0), true);
        auto st = ns.run();
        DV x = fromV(ns.currentSolution());
        DV v = f->eval(x); for (unsigned i = 0; i < n; ++i) v[i] += f->p * (1 + i);
        c.desc << " -> " << NSI::statusText(st) << " adjusted " << s->adjusted;
        c.count("adjustments", s->adjusted);
        if (st == NSI::Converged) {
            c.count("converged");
            if (f->p != 0) c.die("stopped-early", "p=" + num(f->p));
            if (!(maxAbs(v) <= 1e-6 * (1 + 1e-9) + 1e-12)) c.die("false-convergence", "residual " + num(maxAbs(v)) + " at " + list(x));
        }
        else if (kd == 0) c.die("not-solved", NSI::statusText(st));
        if (s->adjusted >= 2) c.nontrivial(f->text());
    });

    ctx.section("estimator", 3000, 40000, [&](Case& c) {
        Rng& g = c.rng;
        SimpleErrorEstimator<VD> e;
        unsigned n = g.u(1, 5);
        double at = g.logu(1e-8, 1e-2), rt = g.logu(1e-8, 1e-1), am = g.chance(.2) ? 0. : g.logu(1, 1e6), rm = g.chance(.2) ? 0. : g.logu(.5, 100);
        e.setAbsoluteTolerance(at); e.setRelativeTolerance(rt); e.setAbsoluteMaxThreshold(am); e.setRelativeMaxThreshold(rm);
        if (e.absoluteTolerance() != at || e.relativeTolerance() != rt || e.absoluteMaxThreshold() != am || e.relativeMaxThreshold() != rm) c.die("settings", "");
        DV x = g.chance(.1) ? DV(n, 0.) : rnd(g, n, 2);
        c.desc << "tol " << at << " " << rt << " thresholds " << am << " " << rm << " x0=" << list(x);
        e.reset(toV(x));
        int steps = g.i(1, 8);
        for (int k = 0; k < steps; ++k) {
            DV y = x, r = rnd(g, n, g.logu(1e-10, 1e7));
            double d = g.logu(1e-10, 1e3);
            for (auto& q : y) q += d * g.uni(-1, 1);
            int bad = g.i(0, 19);
            if (bad == 0) r[g.u(0, n - 1)] = NAN;
            if (bad == 1) r[g.u(0, n - 1)] = INFINITY;
            if (bad == 2) y[g.u(0, n - 1)] = NAN;
            c.desc << "; x=" << list(y) << " f=" << list(r);
            long seen = 0;
            e.errorObservers.clear();
            e.errorObservers.add([&](const V& a, const V& b, const ErrorEstimator<VD>* p) { ++seen; if (p != &e) c.fail("observer", ""); });
            e.setCurrentSolution(toV(y), toV(r));
            if (seen != 1) c.die("observer", std::to_string(seen));
            DV dx(n); for (unsigned i = 0; i < n; ++i) dx[i] = y[i] - x[i];
            double rel = maxAbs(x) > 0 ? maxAbs(dx) / maxAbs(x) : 0., abs = maxAbs(r);
            if (!close(e.absoluteError(), abs, 1e-13, 0)) c.die("absoluteError", num(e.absoluteError()) + " vs " + num(abs));
            if (!close(e.relativeError(), rel, 1e-9, 1e-12)) c.die("relativeError", num(e.relativeError()) + " vs " + num(rel));
            bool near = std::fabs(rel - rt) < 1e-6 * rt || std::fabs(rel - rm) < 1e-6 * rm || rel < 1e-11;
            if (!near) {
                auto exp = abs <= at && rel <= rt ? ErrorEstimator<VD>::Converged : (am > 0 && abs >= am) || (rm > 0 && rel >= rm) ? ErrorEstimator<VD>::Diverged : ErrorEstimator<VD>::ContinueIterations;
                if (e.currentStatus() != exp) c.die("status", e.currentStatusMessage());
                c.count(exp == ErrorEstimator<VD>::Converged ? "estimated converged" : exp == ErrorEstimator<VD>::Diverged ? "estimated diverged" : "estimated continue");
            }
            if (bad == 2) break;
            x = y;
        }
        c.nontrivial(c.desc.str());
    });
    // The solver on its own, between components that follow a script
    ctx.section("scripted", 4000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        typedef ErrorEstimator<VD> EE;
        struct DD : NewtonDescentDirection<VD> {
            bool help = true; std::vector<int> reports;
            using NewtonDescentDirection<VD>::computeDescentDirection;
            void reset(bool) override {}
            bool hardResetMayHelp() const override { return help; }
            void computeDescentDirection(V&, const V&, const V&, unsigned) override {}
            void reportSuccess(bool ok) override { reports.push_back(ok); }
        };
        struct IP : NewtonIterationPerformer<VD> {
            V x{2}; std::vector<EE::Status> script; size_t at = 0; std::vector<unsigned> nums; std::vector<std::pair<DV, bool>> guesses; std::vector<size_t> guessAt;
            double r = 0;
            void setInitialGuess(const V& v, bool hard) override { x = v; guesses.emplace_back(fromV(v), hard); guessAt.push_back(at); }
            void reset(bool) override {}
            EE::Status iteration(unsigned k) override { nums.push_back(k); x[0] += 1; x[1] += .5; return at < script.size() ? script[at++] : (++at, EE::ContinueIterations); }
            const V& currentSolution() const override { return x; }
            const V& currentResidual() const override { return x; }
            double currentStepRatio() const override { return r; }
        };
        Newton ns;
        auto ip = std::make_shared<IP>(); auto dd = std::make_shared<DD>();
        dd->help = g.chance(.7);
        ns.setComponent(std::static_pointer_cast<NewtonIterationPerformer<VD>>(ip));
        ns.setComponent(std::static_pointer_cast<NewtonDescentDirection<VD>>(dd));
        unsigned limit = g.u(1, 6); ns.setIterationCountLimit(limit);
        c.desc << "limit " << limit << (dd->help ? " a hard reset may help;" : ";");
        std::vector<unsigned> seen; long stopAt = -1;
        ns.iterationObservers.add([&](unsigned k, const NSI*) { seen.push_back(k); return stopAt >= 0 && long(seen.size()) > stopAt; });
        for (int run = 0, runs = g.i(1, 3); run < runs; ++run) {
            ip->script.clear(); ip->at = 0; ip->nums.clear(); dd->reports.clear(); seen.clear();
            stopAt = g.chance(.15) ? g.i(0, 6) : -1;
            for (unsigned k = 0; k < 2 * limit; ++k) ip->script.push_back(g.chance(.7) ? EE::ContinueIterations : g.chance(.6) ? EE::Diverged : EE::Converged);
            DV x0 = rnd(g, 2, 2);
            ns.setInitialGuess(toV(x0), g.chance(.5));
            ip->guesses.clear(); ip->guessAt.clear();
            c.desc << " script "; for (auto q : ip->script) c.desc << (q == EE::ContinueIterations ? "." : q == EE::Diverged ? "d" : "c"); c.desc << " stop " << stopAt << ";";
            auto st = ns.run();
            // what must happen
            NSI::Status want = NSI::IterationCountLimitExceeded; std::vector<unsigned> nums; std::vector<size_t> resets; bool stopped = false;
            size_t at = 0;
            for (int attempt = 0; attempt < 2; ++attempt) {
                bool again = true, div = false;
                for (unsigned k = 0; k < limit; ++k) {
                    nums.push_back(k); auto q = ip->script[at++];
                    if (stopAt >= 0 && long(nums.size()) > stopAt) { want = NSI::Terminated; stopped = true; again = false; break; }
                    if (q == EE::Converged) { want = NSI::Converged; again = false; break; }
                    if (q == EE::Diverged) { div = true; break; }
                }
                if (!again) break;
                want = div ? NSI::Diverged : NSI::IterationCountLimitExceeded;
                if (attempt || !dd->help) break;
                resets.push_back(at);
            }
            if (st != want) c.die("scripted-status", std::string(NSI::statusText(st)) + " instead of " + NSI::statusText(want));
            if (ip->nums != nums) c.die("scripted-iterations", std::to_string(ip->nums.size()) + " iterations instead of " + std::to_string(nums.size()));
            if (ip->guessAt != resets) c.die("scripted-resets", std::to_string(ip->guesses.size()) + " restarts instead of " + std::to_string(resets.size()) + (ip->guessAt.empty() ? "" : ", the first after " + std::to_string(ip->guessAt[0])));
            for (auto& q : ip->guesses) if (!q.second || q.first != x0) c.die("scripted-restart", "the restart is from " + list(q.first) + (q.second ? "" : ", not a hard one"));
            for (size_t k = 0; k < seen.size(); ++k) if (seen[k] != k) c.die("scripted-numbers", "observers of iteration " + std::to_string(k) + " are told the number " + std::to_string(seen[k]));
            if (seen.size() != nums.size()) c.die("scripted-observers", std::to_string(seen.size()) + " iterations are observed, " + std::to_string(nums.size()) + " are done");
            if (!stopped && (dd->reports.empty() || bool(dd->reports.back()) != (want == NSI::Converged))) c.die("scripted-success", "the descent direction is told wrongly how it ended");
            if (want != NSI::Converged) for (int q : dd->reports) if (q) c.die("scripted-success", "the descent direction is told of a success in a run that failed");
            DV xe = {(resets.empty() ? x0 : x0)[0], x0[1]}; size_t since = nums.size() - (resets.empty() ? 0 : resets[0]);
            for (size_t k = 0; k < since; ++k) { xe[0] += 1; xe[1] += .5; }
            if (fromV(ns.currentSolution()) != xe) c.die("scripted-solution", "the solution is " + list(fromV(ns.currentSolution())) + " instead of " + list(xe));
            c.count("scripted runs"); if (!resets.empty()) c.count("restarts");
        }
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
