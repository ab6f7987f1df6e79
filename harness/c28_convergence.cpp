// C28: solutions over an interval converge to the true solution, at the solver's order, with the tolerance, through events and in stiff systems.
#include "hybrid.h"
using namespace vf;

struct Variant { const char* id; Params p; std::string text; double order = 0; bool implicit = false; double n0 = 0; };
static std::vector<Variant> fixedStep() {
    std::vector<Variant> r;
    auto put = [&](const char* id, Params p, double order, double n0, bool imp = false) { Variant v; v.id = id; v.p = p; v.order = order; v.implicit = imp; v.n0 = n0; v.text = id + textOf(p); r.push_back(v); };
    auto P = [](std::initializer_list<std::pair<const char*, PValue>> l) { Params p; for (auto& k : l) p[k.first] = k.second; return p; };
    put("euler", P({}), 1, 60);
    put("rk4", P({}), 4, 12);
    for (auto m : {"low", "high"}) {
        put("dopri_45", P({{"disable_error_check", true}, {"mode", m}}), m[0] == 'l' ? 4 : 5, 10);
        put("dopri_56", P({{"disable_error_check", true}, {"mode", m}}), m[0] == 'l' ? 5 : 6, 9);
        put("dopri_78", P({{"disable_error_check", true}, {"mode", m}}), m[0] == 'l' ? 7 : 8, m[0] == 'l' ? 5 : 2.5);
    }
    put("gragg", P({}), 2, 40);
    put("gragg", P({{"smooth", true}}), 2, 40);
    put("rosenbrock_w1", P({}), 1, 60, true);
    put("rosenbrock_w1", P({{"d", .5}}), 1, 60, true);
    put("rosenbrock_sw2_4", P({{"disable_error_check", true}}), 2, 40, true);
    auto newton = [&](const char* ddir, const char* jac) { Params a, e; a["ddir"] = ddir; a["jacobian"] = jac; e["rel_max_threshold"] = 0.; e["abs_tol"] = 1e-11; a["err"] = PValue("simple", e); return PValue("newton", a); };
    put("i_euler", P({{"algsolver", newton("simple", "default")}}), 1, 60, true);
    put("i_euler", P({{"algsolver", newton("broyden", "default")}, {"alpha", .5}}), 2, 40, true);
    put("i_euler", P({{"algsolver", newton("const", "sparse")}, {"alpha", .5}, {"predictor", PValue("euler", P({{"eventctl", ""}}))}}), 2, 40, true);
    for (auto q : {"romberg", "bulirsch", "harmonic"}) {
        put("extrapolator", P({{"disable_error_check", true}, {"step_sequence", q}, {"max_stages", 3u}, {"reference_solver", PValue("euler", P({{"eventctl", ""}}))}}), 3, 20);
        put("extrapolator", P({{"disable_error_check", true}, {"step_sequence", q}, {"max_stages", 3u}, {"symmetric", true}, {"reference_solver", PValue("gragg", P({{"eventctl", ""}}))}}), 6, 8);
        put("extrapolator", P({{"disable_error_check", true}, {"step_sequence", q}, {"max_stages", 2u}, {"symmetric", true}, {"reference_solver", PValue("gragg", P({{"eventctl", ""}, {"smooth", true}}))}}), 4, 10);
    }
    return r;
}
static SolverPtr make(const Variant& v) { auto s = newSolver(v.id); if (!v.p.empty()) s->setParameters(v.p); return s; }

// the true solution: Runge-Kutta in long double with extrapolation
typedef std::vector<long double> LV;
static LV evalL(const GenRhs& f, long double t, const LV& x) {
    LV r(f.n(), 0.L);
    for (unsigned i = 0; i < f.n2; ++i) r[i] = x[f.n2 + i];
    for (unsigned j = 0; j < f.n2 + f.n1; ++j) r[f.n2 + j] = f.c[j] + (f.b[j] != 0 ? f.b[j] * sinl(f.om[j] * t + f.ph[j]) : 0.L);
    for (auto& k : f.terms) r[f.n2 + k.j] += k.a * x[k.i] + (k.q != 0 ? k.q * sinl(k.w * x[k.i] + k.p) : 0.L);
    return r;
}
static LV rkL(const GenRhs& f, long double t, LV x, long double T, int N) {
    long double h = T / N; size_t n = x.size();
    for (int k = 0; k < N; ++k, t += h) {
        LV k1 = evalL(f, t, x), y(n), k2, k3, k4;
        for (size_t i = 0; i < n; ++i) y[i] = x[i] + h / 2 * k1[i];
        k2 = evalL(f, t + h / 2, y);
        for (size_t i = 0; i < n; ++i) y[i] = x[i] + h / 2 * k2[i];
        k3 = evalL(f, t + h / 2, y);
        for (size_t i = 0; i < n; ++i) y[i] = x[i] + h * k3[i];
        k4 = evalL(f, t + h, y);
        for (size_t i = 0; i < n; ++i) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    }
    return x;
}
static DV truth(const GenRhs& f, double t, const DV& x, double T, double& uncertainty) {
    LV a(x.begin(), x.end()), y0 = rkL(f, t, a, T, 400), y1 = rkL(f, t, a, T, 800), y2 = rkL(f, t, a, T, 1600); DV r(x.size()); uncertainty = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        long double e0 = y1[i] + (y1[i] - y0[i]) / 15, e1 = y2[i] + (y2[i] - y1[i]) / 15, e = e1 + (e1 - e0) / 31;
        r[i] = double(e); uncertainty = std::max(uncertainty, double(fabsl(e - e1)));
    }
    return r;
}
static double mean(const DV& v) { double s = 0; for (double x : v) s += x; return s / v.size(); }
static double median(DV v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; }

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("solutions over an interval by every solver and variant: observed orders over halved steps against a long double reference (median over 15 random systems), errors against the tolerance for step size control, "
             "hybrid systems with a closed solution (a bouncing body, a relay), stiff relaxation to a slow motion with steps far above the fast time scale, linear invariants; non-trivial: errors above rounding; distinct by system");
    for (auto k : {"orders observed", "tolerance runs", "invariants"}) ctx.expectAtLeast(k, 100);
    ctx.expectAtLeast("hybrid orders observed", 100); ctx.expectAtLeast("stiff runs", 100);
    auto variants = fixedStep();

    ctx.section("order", long(variants.size()) * 3, long(variants.size()) * 12, [&](Case& c) {
        Rng& g = c.rng;
        auto& v = variants[c.index() % variants.size()];
        c.desc << v.text;
        DV orders; double worst = 0;
        for (int k = 0; k < 15; ++k) {
            unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
            auto f = randomRhs(g, n2, n1, .4, g.uni(.5, 1.5), g.uni(0, .8), g.uni(0, 2));
            double t0 = g.uni(-2, 2), T = g.uni(1, 2), unc; DV x0 = rndv(g, f->n(), 1);
            DV x = truth(*f, t0, x0, T, unc);
            double scale = 1 + maxAbs(x);
            double e[2]; bool ok = unc < 1e-13 * scale;
            for (int q = 0; q < 2; ++q) {
                auto s = make(v);
                int N = int(v.n0 * T) << q;
                s->setOdeRhs(f); s->setInitialStepSize(T / N); s->setInitialState(t0, toV(x0));
                for (int i = 0; i < N; ++i) s->doStep();
                if (!close(s->initialTime(), t0 + T, 1e-12, 1e-12)) c.die("time", std::to_string(N) + " steps of " + num(T / N) + " from " + num(t0) + " end at " + num(s->initialTime()));
                e[q] = maxDiff(fromV(s->initialState()), x);
                if (!finite(fromV(s->initialState()))) c.die("finite", f->text());
            }
            double floor = (v.implicit ? 3e-9 : 2e-13) * scale;
            if (!ok || e[1] < floor) { c.count("too exact to judge"); continue; }
            worst = std::max(worst, e[1] / scale);
            orders.push_back(std::log2(e[0] / e[1]));
            c.count("orders observed");
            c.nontrivial(f->text());
        }
        if (orders.size() < 7) { c.count("variants not judged"); return; }
        double m = median(orders);
        if (getenv("VF_SHOW")) fprintf(stderr, "%s: %g of %g, worst %g\n", v.text.c_str(), m, v.order, worst);
        if (!(m > v.order - .5)) c.fail("order", "median observed order " + num(m) + " instead of " + num(v.order) + ": " + list(orders));
        if (!(worst < .2)) c.fail("error", "relative error " + num(worst));
    });

    ctx.section("tolerance", 60, 1200, [&](Case& c) {
        Rng& g = c.rng;
        std::vector<Variant> vs;
        auto put = [&](const char* id, Params p) { Variant v; v.id = id; v.p = p; v.text = id + textOf(p); vs.push_back(v); };
        for (auto id : {"dopri_45", "dopri_56", "dopri_78"}) { put(id, Params()); Params p; p["mode"] = "high"; put(id, p); }
        put("rosenbrock_sw2_4", Params());
        { Params p, q; q["eventctl"] = ""; p["step_sequence"] = "harmonic"; p["max_stages"] = 4u; p["symmetric"] = true; p["reference_solver"] = PValue("gragg", q); put("extrapolator", p); }
        auto& v = vs[c.index() % vs.size()];
        c.desc << v.text;
        bool ros = v.text.compare(0, 4, "rose") == 0;
        DV ratios, drop;
        for (int k = 0; k < 9; ++k) {
            unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
            auto f = randomRhs(g, n2, n1, .4, g.uni(.5, 1.5), g.uni(0, .8), g.uni(0, 2));
            double t0 = g.uni(-2, 2), T = g.uni(2, 4), unc; DV x0 = rndv(g, f->n(), 1);
            double tol1 = g.logu(1e-5, 1e-4), e[2];
            for (int q = 0; q < 2; ++q) {
                double tol = q ? tol1 * 1e-2 : tol1;
                auto s = make(v);
                Params p, sc; sc["tolerance"] = tol; p["stepsizectl"] = PValue("simple", sc); s->setParameters(p);
                s->setOdeRhs(f); s->setInitialStepSize(g.logu(1e-3, .5)); s->setInitialState(t0, toV(x0));
                int steps = 0;
                while (s->initialTime() < t0 + T && ++steps < 20000) s->doStep();
                if (steps >= 20000) c.die("steps", "more than 20000 steps with tolerance " + num(tol) + ": " + f->text());
                DV x = truth(*f, t0, x0, s->initialTime() - t0, unc);
                e[q] = maxDiff(fromV(s->initialState()), x);
                c.count("tolerance runs"); c.count("controlled steps", steps);
                if (e[q] > 3e-13) ratios.push_back(e[q] / tol);
            }
            if (e[1] > 1e-12) drop.push_back(std::log10(e[0] / e[1]));
            c.nontrivial(f->text());
        }
        if (ratios.size() < 8 || drop.size() < 5) { c.count("not judged"); return; }
        if (getenv("VF_SHOW")) fprintf(stderr, "%s: error/tolerance %g, drop %g\n", v.text.c_str(), median(ratios), median(drop));
        if (!(median(ratios) < 150)) c.fail("tolerance", "the median of error/tolerance is " + num(median(ratios)) + ": " + list(ratios));
        if (!(median(drop) > .8)) c.fail("tolerance-has-no-effect", "a tolerance smaller by 100 makes the error smaller by 10^" + num(median(drop)) + " only (median)");
        (void)ros;
    });

    // systems with switches whose solution is known
    struct Bounce : HybridRhs { };
    ctx.section("hybrid", long(variants.size()) * 6, long(variants.size()) * 24, [&](Case& c) {
        Rng& g = c.rng;
        auto& v = variants[c.index() % variants.size()];
        int kind = int(c.index() / variants.size()) % 3;
        c.desc << v.text << (kind == 0 ? " bounce" : kind == 1 ? " relay" : " two levels");
        DV coarse, fine; double worst = 0;
        for (int k = 0; k < 40; ++k) {
            auto f = std::make_shared<HybridRhs>(); f->budget = 1000000;
            DV x0; double T, t0 = g.uni(-1, 1);
            DV want;
            if (kind == 0) {            // x'' = -w, at x = 0 the velocity turns and loses a part
                double w = g.uni(1, 3), r = g.uni(.7, 1); x0 = {g.uni(.5, 1.5), g.uni(-1, 1)};
                f->n2 = 1; f->n1 = 0; f->c = {-w}; f->b = {0}; f->om = {1}; f->ph = {0};
                ZF z; z.a = {1, 0}; z.flags = Rhs::PlusMinus; z.jcomp = 1; z.jkind = 0; z.jump = r; z.dc = {0};
                f->zf.push_back(z);
                // event times
                double t = 0, x = x0[0], u = x0[1], hit[3];
                for (int q = 0; q < 3; ++q) { double d = (u + std::sqrt(u * u + 2 * w * x)) / w; t += d; hit[q] = t; u = -r * (u - w * d); x = 0; }
                T = g.chance(.5) ? .5 * (hit[0] + hit[1]) + g.uni(-.2, .2) * (hit[1] - hit[0]) : .5 * (hit[1] + hit[2]);
                x = x0[0]; u = x0[1]; t = 0;
                while (true) { double d = (u + std::sqrt(u * u + 2 * w * x)) / w; if (t + d > T) break; t += d; u = -r * (u - w * d); x = 0; }
                double d = T - t; want = {x + u * d - w * d * d / 2, u - w * d};
            }
            else {                      // x' = c - a x, c changes when x passes a level, or two levels at a distance below a step; y' = x
                double a = g.uni(.5, 1.5), cc = g.uni(1, 2), x = 0, y = g.uni(-1, 1); x0 = {x, y};
                f->n2 = 0; f->n1 = 2; f->c = {cc, 0}; f->b = {0, 0}; f->om = {1, 1}; f->ph = {0, 0};
                f->terms = {Term{0, 0, -a, 0, 1, 0}, Term{1, 0, 1, 0, 1, 0}};
                double d = -std::log(1 - g.uni(.3, .6)) / a, left; T = d + g.uni(.5, 1); left = T;
                auto go = [&](double d) { double q = (x - cc / a) * std::exp(-a * d); y += cc / a * d + ((x - cc / a) - q) / a; x = cc / a + q; left -= d; };
                for (int m = 0; m < kind; ++m) {
                    if (m) d = g.uni(.15, .9) * T / (std::max(int(v.n0 * 4 * T), 40) * 4);
                    go(d);
                    double dc = a * x * g.uni(1.2, 3) - cc; cc += dc;
                    ZF z; z.a = {1, 0}; z.c0 = -x; z.flags = Rhs::BothDirections; z.dc = {dc, 0};
                    f->zf.push_back(z);
                }
                go(left);
                want = {x, y};
            }
            double e[2]; long ev[2] = {0, 0};
            for (int q = 0; q < 2; ++q) {
                auto s = make(v);
                int N = std::max(int(v.n0 * 4 * T), 40) << (2 * q);
                auto fq = cloneOf(*f);
                double h = T / N;
                s->setOdeRhs(fq); s->setInitialStepSize(h); s->setInitialState(t0, toV(x0));
                StepLog lg(s);
                int guard = 0;
                // the last step is made to end at T
                while (s->initialTime() < t0 + T - h * 1.5 && ++guard < 100000) s->doStep();
                for (auto& r : lg.recs) if (r.truncated) ++ev[q];
                // whatever is left: a fresh solver from the state reached (the switches made so far are in the system)
                double left = t0 + T - s->initialTime();
                if (left > 1e-13) {
                    auto u = newSolver("dopri_78"); Params p; p["disable_error_check"] = true; p["eventctl"] = ""; u->setParameters(p);
                    u->setOdeRhs(fq); u->setInitialStepSize(left); u->setInitialState(s->initialTime(), s->initialState()); u->doStep();
                    e[q] = maxDiff(fromV(u->initialState()), want);
                }
                else e[q] = maxDiff(fromV(s->initialState()), want);
            }
            if (ev[0] < 1 || ev[0] != ev[1]) c.count("different events");
            if (e[1] < 1e-10 && e[0] < 1e-8) { c.count("too exact to judge"); continue; }
            worst = std::max(worst, e[1]);
            coarse.push_back(e[0]); fine.push_back(e[1]);
            c.count("hybrid orders observed"); c.count("events", ev[1]);
            c.nontrivial(f->text() + num(T));
        }
        if (fine.size() < 20) { c.count("variants not judged"); return; }
        // the errors depend on where in a step an event falls: mean errors with the two step sizes are compared, not those of each system
        double m = std::log2(mean(coarse) / mean(fine)) / 2, want = std::min(v.order, 2.);
        if (getenv("VF_SHOW")) fprintf(stderr, "%s %d: hybrid %g of %g, worst %g\n", v.text.c_str(), kind, m, want, worst);
        if (!(m > want - (want > 1 ? .65 : .5))) c.fail("order", "observed order " + num(m) + " instead of " + num(want) + "; errors " + list(coarse) + " become " + list(fine) + " with steps smaller by 4");
        if (!(worst < .2)) c.fail("error", num(worst));
    });

    // fast relaxation to a slow motion; steps far above the fast time scale
    ctx.section("stiff", 120, 2400, [&](Case& c) {
        Rng& g = c.rng;
        std::vector<const Variant*> vs; for (auto& v : variants) if (v.implicit && v.text.find("d=0.5") == std::string::npos && v.text.find("alpha") == std::string::npos) vs.push_back(&v);
        auto& v = *vs[c.index() % vs.size()];
        auto f = std::make_shared<GenRhs>(); double lam = g.logu(1e3, 1e6), A = g.uni(-1, 1), om = g.uni(.5, 2), ph = g.uni(-3, 3), off = g.uni(-1, 1);
        // x' = -lam ( x - off - A sin( om t + ph ) ), y' = -y + x
        f->n1 = 2; f->c = {lam * off, 0}; f->b = {lam * A, 0}; f->om = {om, 1}; f->ph = {ph, 0};
        f->terms = {Term{0, 0, -lam, 0, 1, 0}, Term{1, 1, -1, 0, 1, 0}, Term{1, 0, 1, 0, 1, 0}};
        double t0 = g.uni(-2, 2), h = g.uni(.01, .05); DV x0 = rndv(g, 2, 1);
        c.desc << v.text << " lambda=" << lam << " h=" << h << " " << f->text() << " x0=" << list(x0);
        auto s = make(v);
        s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t0, toV(x0));
        for (int k = 0; k < 60; ++k) s->doStep();
        DV x = fromV(s->initialState()); double t = s->initialTime();
        double slow = off + A * std::sin(om * t + ph), err = std::fabs(x[0] - slow), lim = 3 * std::fabs(A) * om * h + 1e-4;
        c.count("stiff runs");
        if (getenv("VF_SHOW")) fprintf(stderr, "%s lam %g h %g: stiff error %g of %g\n", v.text.c_str(), lam, h, err, lim);
        if (!(err < lim)) c.die("stiff", "after 60 steps the fast variable is " + num(x[0]) + ", the slow motion " + num(slow));
        c.nontrivial(c.desc.str());
    });

    // what the equations conserve linearly is conserved
    ctx.section("invariants", long(variants.size()) * 6, long(variants.size()) * 100, [&](Case& c) {
        Rng& g = c.rng;
        auto& v = variants[c.index() % variants.size()];
        unsigned n = g.u(2, 5);
        auto f = std::make_shared<GenRhs>(); f->n1 = n; f->c.assign(n, 0.); f->b.assign(n, 0.); f->om.assign(n, 1.); f->ph.assign(n, 0.);
        DV w(n); for (auto& q : w) q = g.sgn() * g.uni(.5, 2);
        for (int k = 0, m = g.i(2, 8); k < m; ++k) {       // an exchange between two components
            unsigned a = g.u(0, n - 1), b = (a + g.u(1, n - 1)) % n, i = g.u(0, n - 1); double r = g.uni(-1, 1), q = g.uni(-.5, .5), ww = g.uni(.5, 2), p = g.uni(-3, 3);
            f->terms.push_back(Term{a, i, r / w[a], q / w[a], ww, p}); f->terms.push_back(Term{b, i, -r / w[b], -q / w[b], ww, p});
        }
        double t0 = g.uni(-2, 2), h = g.logu(.005, .1); DV x0 = rndv(g, n, 1);
        c.desc << v.text << " h=" << h << " weights " << list(w) << " " << f->text() << " x0=" << list(x0);
        auto s = make(v);
        s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t0, toV(x0));
        double i0 = 0, i1 = 0, size = 0; for (unsigned i = 0; i < n; ++i) i0 += w[i] * x0[i];
        for (int k = 0; k < 20; ++k) {
            s->doStep();
            DV x = fromV(s->initialState()); i1 = 0; size = 1 + maxAbs(x);
            for (unsigned i = 0; i < n; ++i) i1 += w[i] * x[i];
            if (!(std::fabs(i1 - i0) < (v.implicit ? 2e-8 : 1e-11) * (k + 1) * size)) c.die("invariant", "step " + std::to_string(k) + ": " + num(i0) + " has become " + num(i1));
        }
        c.count("invariants");
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
