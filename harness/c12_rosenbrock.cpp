// C12: Rosenbrock (W-method) steps solve the linear systems they are defined by, with the Jacobian of the right hand side.
#include "ode_common.h"
using namespace vf;

struct WRef {
    DM J; double d;
    bool sing = false;
    DV solve(double h, const DV& b) {
        unsigned n = J.r;
        DM W(n, n);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) W(i, j) = (i == j ? 1. : 0.) - h * d * J(i, j);
        DV x;
        if (!denseSolve(W, b, x)) { sing = true; x.assign(n, NAN); }
        return x;
    }
    // size of the inverse of W, roughly
    double cond(double h) { double r = 0; for (unsigned i = 0; i < J.r; ++i) { DV e(J.r, 0.); e[i] = 1; r = std::max(r, maxAbs(solve(h, e))); } return r * J.r; }
};

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("steps of both Rosenbrock solvers on random linear and nonlinear systems (positions, velocities, first-order variables; mild and stiff; time-dependent), with fixed and controlled step sizes, several implicitness "
             "parameters, restarts (hard and soft) and step size changes; every attempt is compared with the method's equations solved with a dense analytic Jacobian; non-trivial: at least 3 steps; distinct by solver and equation");
    ctx.expectAtLeast("steps compared", 2000);
    ctx.expectAtLeast("error estimates compared", 500);
    ctx.expectAtLeast("stiff", 50);
    ctx.expectAtLeast("soft restarts", 50);

    ctx.section("steps", 8000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        bool sw = g.chance(.65);
        auto s = newSolver(sw ? "rosenbrock_sw2_4" : "rosenbrock_w1");
        double d = g.chance(.5) ? 1 : g.uni(.3, 2);
        double h = g.logu(1e-3, .3);
        bool check = sw && g.chance(.5);
        double tol = g.logu(1e-6, 1e-2);
        Params p;
        if (d != 1) p["d"] = d;
        if (sw) {
            p["disable_error_check"] = !check;
            if (check) { Params q; q["tolerance"] = tol; p["stepsizectl"] = PValue("simple", q); }
        }
        s->setParameters(p);
        s->setInitialStepSize(h);
        c.desc << (sw ? "sw2_4" : "w1") << " d=" << d << " h=" << h << (check ? " adaptive" : "");
        int refreshOpen = 0, refreshed = 0;
        s->jacobianRefreshObservers.add([&](bool start) { if (start) ++refreshOpen; else { --refreshOpen; ++refreshed; } });
        StepLog log(s);
        for (int round = 0, rounds = g.i(1, 4); round < rounds; ++round) {
            unsigned n2 = g.u(0, 3), n1 = g.u(n2 ? 0 : 1, 3);
            bool lin = g.chance(.5);
            double strength = g.chance(.3) ? g.logu(30, 3000) : g.uni(.2, 5);
            auto f = randomRhs(g, n2, n1, .4, strength, lin ? 0 : g.uni(.1, 1), g.uni(0, 2));
            if (g.chance(.3)) for (unsigned j = 0; j < n2; ++j) f->terms.push_back(Term{j, j, -strength * g.uni(.5, 2), 0, 1, 0});     // springs
            f->notify = false;
            double t0 = g.chance(.5) ? 0 : g.uni(-2, 2);
            DV x0 = rndv(g, f->n(), 1.5);
            c.desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f);
            if (round && g.chance(.3)) { h = g.logu(1e-3, .3); s->setInitialStepSize(h); c.desc << " h=" << h; }
            s->setInitialState(t0, toV(x0));
            WRef w; w.d = d; w.J = f->jac(x0);
            double curv = 0, sizeJ = 0;
            for (auto& k : f->terms) curv = std::max(curv, std::fabs(k.q) * k.w * k.w);
            for (double a : w.J.a) sizeJ = std::max(sizeJ, std::fabs(a));
            DV f0 = f->eval(t0, x0);
            double dJ = 2e-6 * curv + 1e-9 * (1 + maxAbs(f0));      // error of the one-sided differences
            auto F = [&](double tt, const DV& xx) { return f->eval(tt, xx); };
            double t = t0; DV x = x0;
            log.recs.clear();
            int steps = g.i(1, 8), wasRefreshed = refreshed;
            if (strength > 30) c.count("stiff");
            bool ok = true;
            for (int k = 0; k < steps && ok; ++k) {
                if (k && g.chance(.1)) { // continue from elsewhere with the Jacobian kept
                    x = rndv(g, f->n(), 1.5); t = g.uni(-1, 1);
                    s->setInitialState(t, toV(x), true);
                    c.count("soft restarts"); c.desc << " [step " << k << ": soft restart t=" << t << " x=" << list(x) << "]";
                }
                if (k && g.chance(.1)) { h = g.logu(1e-3, .3); s->setInitialStepSize(h); c.desc << " [step " << k << ": h=" << h << "]"; }
                size_t first = log.recs.size();
                f->record = true; f->before2.clear();
                s->doStep();
                f->record = false;
                if (f->before2.size() != log.recs.size() - first && finite(x)) c.die("before-step2", "step " + std::to_string(k) + ": beforeStep2() is called " + std::to_string(f->before2.size()) + " times in " + std::to_string(log.recs.size() - first) + " attempts");
                for (auto& b : f->before2) if (!(maxDiff(b, F(t, x)) <= 1e-12 * (1 + maxAbs(F(t, x))))) c.die("before-step2", "step " + std::to_string(k) + ": beforeStep2() is given " + list(b) + " instead of the right hand side " + list(F(t, x)) + " at the start of the attempt");
                c.count("beforeStep2 calls", long(f->before2.size()));
                for (size_t a = first; a < log.recs.size() && ok; ++a) {
                    auto& r = log.recs[a];
                    double hh = r.hPre;
                    std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                    if (!check && hh != h) c.die("step-size", at + "step size " + num(hh) + " instead of " + num(h));
                    if (r.t0 != t || r.x0 != x) c.die("start", at + "does not start from the current state");
                    DV fx = F(t, x), k1 = w.solve(hh, fx), ref, k2, k3, k4;
                    double e = 0;
                    if (!sw) ref = add(x, hh, k1);
                    else {
                        k2 = w.solve(hh, add(F(t + hh * 2 / 3, add(x, hh * 2 / 3, k1)), -4. / 3 * hh * d, mul(w.J, k1)));
                        ref = add(add(x, .25 * hh, k1), .75 * hh, k2);
                        if (check) {
                            k3 = w.solve(hh, F(t + hh, ref));
                            DV m = add(DV(x.size(), 0.), 2. / 3, k1); m = add(m, 6, k2);
                            k4 = w.solve(hh, add(F(t + hh * 5 / 3, add(ref, hh * 2 / 3, k3)), hh * d, mul(w.J, m)));
                            DV er = sub(k3, k2); for (size_t i = 0; i < er.size(); ++i) er[i] = hh / 8 * (5 * er[i] + k1[i] - k4[i]);
                            e = maxAbs(er);
                        }
                    }
                    double cond = w.cond(hh), big = std::max({maxAbs(k1), maxAbs(k2), maxAbs(k3), maxAbs(k4), maxAbs(fx)});
                    if (w.sing || !std::isfinite(cond) || cond > 1e4 || !finite(ref) || maxAbs(ref) > 1e4 || cond * big > 1e8) { ok = false; break; }
                    // effect of the inexact Jacobian and of rounding
                    double amp = 1 + hh * sizeJ;
                    double tolr = hh * cond * cond * big * (hh * d * dJ * double(x.size()) * 4 + 1e-13 * amp * double(x.size())) * (sw ? 20 * amp : 4) + 1e-13 * (1 + maxAbs(x));
                    if (tolr > 1e-3 * (hh * maxAbs(k1)) + 1e-9) { c.count("too ill-conditioned to judge"); ok = false; break; }
                    if (r.accepted && !(maxDiff(ref, r.x1) <= tolr)) c.die("step", at + list(r.x1) + " instead of " + list(ref) + " difference " + num(maxDiff(ref, r.x1)) + " allowed " + num(tolr));
                    if (check) {
                        if (!(std::fabs(e - r.err) <= 8 * tolr * amp)) c.die("error-norm", at + "error " + num(r.err) + " instead of " + num(e) + " allowed " + num(8 * tolr * amp));
                        c.count("error estimates compared");
                    } else if (r.err != 0) c.die("error-norm", at + "an error is reported without error check");
                    if (!r.accepted && (r.t1 != t || r.x1 != x)) c.die("rejected", at + "a rejected attempt changed the state");
                    if (r.accepted) {
                        if (!close(r.t1, t + hh, 1e-14, 0)) c.die("time", at + "time " + num(r.t1) + " instead of " + num(t + hh));
                        t = r.t1; x = r.x1;
                    }
                    c.count("steps compared");
                }
            }
            if (ok && log.recs.size() >= 3) c.nontrivial(f->text() + (sw ? "s" : "w"));
            c.require(refreshOpen == 0, "refresh-observers", "the Jacobian refresh notifications are not paired");
            c.require(refreshed > wasRefreshed, "refresh-observers", "no Jacobian refresh is announced after a hard restart");
            c.require(refreshed == wasRefreshed + 1, "refresh-observers", std::to_string(refreshed - wasRefreshed) + " Jacobian refreshes after one hard restart");
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
        c.require(s->order() == (sw ? 2 : 1), "order", "order() is " + std::to_string(s->order()));
    });

    // Many step sizes, new ones and old ones again, with one Jacobian
    ctx.expectAtLeast("steps with many sizes", 5000);
    ctx.section("many-sizes", 60, 900, [&](Case& c) {
        Rng& g = c.rng;
        bool sw = g.chance(.5);
        auto s = newSolver(sw ? "rosenbrock_sw2_4" : "rosenbrock_w1");
        double d = g.uni(.5, 1.5);
        Params p; p["d"] = d; if (sw) p["disable_error_check"] = true;
        s->setParameters(p);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 2);
        auto f = randomRhs(g, n2, n1, .4, g.uni(.2, 3), 0, g.uni(0, 1));
        f->notify = false;
        c.desc << (sw ? "sw2_4" : "w1") << " d=" << d << " " << f->text() << " h";
        int refreshed = 0;
        s->jacobianRefreshObservers.add([&](bool on) { if (on) ++refreshed; });
        s->setOdeRhs(f);
        double t = 0, h = .1; DV x = rndv(g, f->n(), 1);
        s->setInitialStepSize(h);
        s->setInitialState(t, toV(x));
        WRef w; w.d = d; w.J = f->jac(x);
        double sizeJ = 0; for (double a : w.J.a) sizeJ = std::max(sizeJ, std::fabs(a));
        DV used; int hard = 1;
        auto F = [&](double tt, const DV& xx) { return f->eval(tt, xx); };
        for (int k = 0, steps = g.i(150, 320); k < steps; ++k) {
            h = used.empty() || g.chance(.7) ? g.logu(1e-3, .2) : used[g.u(g.chance(.5) ? 0 : unsigned(used.size() * 3 / 4), unsigned(used.size() - 1))];
            used.push_back(h); c.desc << " " << h;
            s->setInitialStepSize(h);
            bool again = g.chance(.003);
            if (again) { ++hard; c.desc << "(hard)"; }
            if (again || g.chance(.3) || maxAbs(x) > 10) { if (maxAbs(x) > 10) { x = rndv(g, f->n(), 1); } s->setInitialState(t, toV(x), !again); }
            s->doStep();
            DV fx = F(t, x), k1 = w.solve(h, fx), ref, k2;
            if (!sw) ref = add(x, h, k1);
            else {
                k2 = w.solve(h, add(F(t + h * 2 / 3, add(x, h * 2 / 3, k1)), -4. / 3 * h * d, mul(w.J, k1)));
                ref = add(add(x, .25 * h, k1), .75 * h, k2);
            }
            double cond = w.cond(h), big = std::max({maxAbs(k1), maxAbs(k2), maxAbs(fx)}), amp = 1 + h * sizeJ;
            DV y = fromV(s->initialState());
            double tolr = h * cond * cond * big * (h * d * 1e-9 * (1 + maxAbs(x) * sizeJ) * double(x.size()) * 4 + 1e-13 * amp * double(x.size())) * (sw ? 20 * amp : 4) + 1e-13 * (1 + maxAbs(x));
            if (!w.sing && cond < 1e3 && tolr < 1e-3 * h * maxAbs(k1) + 1e-9) {
                if (!(maxDiff(ref, y) <= tolr)) c.die("step", "step " + std::to_string(k) + " h=" + num(h) + ": " + list(y) + " instead of " + list(ref) + " difference " + num(maxDiff(ref, y)) + " allowed " + num(tolr));
                c.count("steps with many sizes");
            }
            if (!close(s->initialTime(), t + h, 1e-13, 1e-13)) c.die("time", num(s->initialTime()));
            t = s->initialTime(); x = y;
            if (!finite(x) || maxAbs(x) > 1e6) { x = rndv(g, f->n(), 1); s->setInitialState(t, toV(x), true); }
        }
        if (refreshed != hard) c.die("refresh-observers", std::to_string(refreshed) + " Jacobian refreshes after " + std::to_string(hard) + " hard restarts");
        c.nontrivial(f->text());
    });

    // The methods keep their order with a Jacobian that has become inaccurate: the error of a step falls with the square (cube) of its size
    // (median over several systems: a single error may happen to pass through zero)
    ctx.section("local-order", 64, 1500, [&](Case& c) {
        Rng& g = c.rng;
        bool sw = g.chance(.6);
        auto s = newSolver(sw ? "rosenbrock_sw2_4" : "rosenbrock_w1");
        Params p; double d = g.uni(.5, 1.5); p["d"] = d;
        if (sw) p["disable_error_check"] = true;
        s->setParameters(p);
        c.desc << (sw ? "sw2_4" : "w1") << " d=" << d;
        std::vector<double> orders;
        for (int system = 0; system < 15; ++system) {
            auto f = randomRhs(g, g.u(0, 2), g.u(1, 2), .5, 2, 1, 1);
            f->notify = false;
            DV xj = rndv(g, f->n(), 1), x = rndv(g, f->n(), 1);
            c.desc << "; " << f->text() << " Jacobian at " << list(xj) << " step from " << list(x);
            s->setOdeRhs(f);
            auto exact = [&](double h) { // many RK4 steps
                DV y = x; double t = 0; int n = 40; double q = h / n;
                for (int k = 0; k < n; ++k, t += q) {
                    DV k1 = f->eval(t, y), k2 = f->eval(t + q / 2, add(y, q / 2, k1)), k3 = f->eval(t + q / 2, add(y, q / 2, k2)), k4 = f->eval(t + q, add(y, q, k3));
                    for (size_t i = 0; i < y.size(); ++i) y[i] += q / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
                }
                return y;
            };
            double e[2];
            s->setInitialStepSize(.01);
            s->setInitialState(0, toV(xj));
            s->doStep();
            for (int k = 0; k < 2; ++k) {
                double h = .03 / (1 << k);
                s->setInitialStepSize(h);
                s->setInitialState(0, toV(x), true);
                s->doStep();
                e[k] = maxDiff(fromV(s->initialState()), exact(h));
            }
            if (e[1] < 1e-11 || e[0] > .05) continue;
            orders.push_back(std::log2(e[0] / e[1]));
            c.count("orders observed");
        }
        if (orders.size() < 7) return;
        std::sort(orders.begin(), orders.end());
        double m = orders[orders.size() / 2], want = sw ? 3 : 2;      // of the local error
        if (!(m > want - .5)) c.fail("order", "median order of the local error " + num(m) + " instead of " + num(want) + ": " + list(orders));
        c.nontrivialHash(mix(uint64_t(m * 1e6)));
    });
    ctx.expectAtLeast("orders observed", 300);
}
VF_MAIN(run)
