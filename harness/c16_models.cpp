// C16: the bundled test problems are the equations they are documented to be, and integrating them gives what those equations imply.
#include "ode_common.h"
using namespace vf;
typedef std::shared_ptr<Rhs> RhsPtr;

static RhsPtr model(const std::string& id, const Params& p) { registerAll(); auto m = ctm::Factory<Rhs>::newInstance(id); m->setParameters(p); return m; }

struct Model {
    std::string id; Params p; std::string text; unsigned n2, n1;
    std::function<DV(double, const DV&)> f;
};
static Model randomModel(Rng& g, bool mild) {
    Model m; std::ostringstream s; s << std::setprecision(17);
    auto set = [&](const char* k, double v) { m.p[k] = v; s << " " << k << "=" << v; };
    static const std::vector<std::string> ids = {"oscillator", "coupled_nl_osc", "stiff_1d", "sliding_point", "bouncing_ball"};
    m.id = g.pick(ids);
    s << m.id;
    double hi = mild ? 10 : 1e4;
    if (m.id == "oscillator") {
        double c = 1e3, f = 100;
        if (mild || g.chance(.8)) set("c", c = g.logu(.1, hi));
        if (mild || g.chance(.8)) set("f", f = g.uni(-hi, hi));
        m.n2 = 1; m.n1 = 0;
        m.f = [=](double, const DV& x) { return DV{x[1], f - c * x[0]}; };
    } else if (m.id == "coupled_nl_osc") {
        unsigned n = 10; double c0 = 1e3, c2 = 1e3, f = 100;
        if (g.chance(.9)) { n = g.u(1, 12); m.p["n"] = n; s << " n=" << n; }
        if (mild || g.chance(.8)) set("c0", c0 = g.logu(.1, hi));
        if (mild || g.chance(.8)) set("c2", c2 = g.chance(.2) ? 0 : g.logu(.1, hi));
        if (mild || g.chance(.8)) set("f", f = g.uni(-hi, hi));
        m.n2 = n; m.n1 = 0;
        m.f = [=](double, const DV& x) {
            DV r(2 * n, 0.);
            for (unsigned i = 0; i < n; ++i) r[i] = x[n + i];
            for (unsigned i = 0; i < n; ++i) {      // spring i between mass i-1 (or the wall) and mass i
                double d = x[i] - (i ? x[i - 1] : 0.), T = c0 * d + c2 * d * d * d;
                r[n + i] -= T;
                if (i) r[n + i - 1] += T;
            }
            r[2 * n - 1] += f;
            return r;
        };
    } else if (m.id == "stiff_1d") {
        double a = 50;
        if (mild || g.chance(.8)) set("a", a = g.logu(.1, hi));
        m.n2 = 0; m.n1 = 1;
        m.f = [=](double t, const DV& x) { return DV{-a * (x[0] - std::cos(t))}; };
    } else if (m.id == "sliding_point") {
        std::string fr = "atan"; double mass = 1, f0 = 1, v0 = 1, F1 = 10, F2 = 10, om = 100;
        if (g.chance(.9)) { fr = g.pick(std::vector<std::string>{"atan", "tabular", "linear"}); m.p["friction"] = fr; s << " friction=" << fr; }
        if (mild || g.chance(.8)) set("mass", mass = g.logu(.2, 10));
        if (mild || g.chance(.8)) set("f0", f0 = g.uni(0, 5));
        if (mild || g.chance(.8)) set("v0", v0 = g.logu(.1, 5));
        if (mild || g.chance(.8)) set("F1", F1 = g.uni(-20, 20));
        if (mild || g.chance(.8)) set("F2", F2 = g.uni(-20, 20));
        if (mild || g.chance(.8)) set("omega", om = g.uni(0, mild ? 5 : 200));
        m.n2 = 2; m.n1 = 0;
        m.f = [=](double t, const DV& x) {
            double v = std::hypot(x[2], x[3]), R = fr == "atan" ? f0 * 2 / M_PI * std::atan(v / v0) : fr == "tabular" ? f0 * std::min(1., v / v0) : f0 * v / v0;
            DV r{x[2], x[3], F1 / mass, F2 * std::sin(om * t) / mass};
            if (v > 0) { r[2] -= R * x[2] / v / mass; r[3] -= R * x[3] / v / mass; }
            return r;
        };
    } else {
        double gr = 9.8;
        if (mild || g.chance(.8)) set("gravity_acceleration", gr = g.uni(.5, 30));
        m.n2 = 1; m.n1 = 0;
        m.f = [=](double, const DV& x) { return DV{x[1], -gr}; };
    }
    m.text = s.str();
    return m;
}

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("every bundled problem with random parameters: right hand side at random states against the documented equations, observers, sizes; integrations with several solvers against closed-form solutions and conserved or dissipated "
             "quantities; the bouncing ball through many impacts and into rest; non-trivial: all; distinct by problem and parameters");
    ctx.expectAtLeast("right hand sides compared", 5000);
    ctx.expectAtLeast("states compared with the closed form", 2000);
    ctx.expectAtLeast("impacts", 500);
    ctx.expectAtLeast("at rest", 50);
    ctx.expectAtLeast("energies compared", 1000);

    ctx.section("equations", 1500, 20000, [&](Case& c) {
        Rng& g = c.rng;
        Model m = randomModel(g, false);
        c.desc << m.text;
        auto r = model(m.id, m.p);
        unsigned n = 2 * m.n2 + m.n1;
        c.require(r->secondOrderVarCount() == m.n2 && r->firstOrderVarCount() == m.n1 && r->varCount() == n, "sizes", "wrong number of variables");
        int pre = 0, post = 0; DV seen; double seenT = 0; bool argOk = true;
        r->odeRhsPreObservers.add([&](double t, const V& x, const Rhs* who) { ++pre; if (who != r.get() || t != seenT || fromV(x) != seen) argOk = false; });
        r->odeRhsPostObservers.add([&](double t, const V& x, const V& y, const Rhs* who) { ++post; if (pre != post || who != r.get() || t != seenT || fromV(x) != seen || y.size() != n) argOk = false; });
        for (int k = 0; k < 12; ++k) {
            DV x = rndv(g, n, g.logu(.01, 10)); double t = g.uni(-5, 5);
            if (g.chance(.1)) x.assign(n, 0.);
            seen = x; seenT = t;
            V xv = toV(x), out(g.u(0, 20));
            pre = post = 0;
            r->rhs(out, t, xv);
            DV got = fromV(out), want = m.f(t, x);
            if (fromV(xv) != x) c.die("argument", "the argument has been changed");
            if (got.size() != n) c.die("rhs-size", "size " + std::to_string(got.size()));
            double sc = 0; for (double v : want) sc = std::max(sc, std::fabs(v));
            for (unsigned i = 0; i < n; ++i) if (!(std::fabs(got[i] - want[i]) <= 1e-12 * (1 + std::fabs(want[i])) + 1e-13 * sc * 10)) c.die("rhs", "component " + std::to_string(i) + " is " + num(got[i]) + " instead of " + num(want[i]) + " at t=" + num(t) + " x=" + list(x));
            if (pre != 1 || post != 1 || !argOk) c.die("observers", "the observers are not called once each with the arguments of the evaluation");
            c.count("right hand sides compared");
        }
        auto q = r->parameters();
        for (auto& k : m.p) c.require(q.count(k.first) && q.at(k.first).value<std::string>() == k.second.value<std::string>(), "parameters", k.first + " is not kept");
        c.nontrivial(m.text);
    });

    ctx.section("closed-form", 400, 6000, [&](Case& c) {
        Rng& g = c.rng;
        int kind = g.i(0, 2);
        Params p; std::string id; DV x0; std::function<DV(double)> exact; std::ostringstream s; s << std::setprecision(17);
        double t0 = g.uni(-1, 1), scale = 1;
        if (kind == 0) {
            double C = g.logu(.2, 20), f = g.uni(-5, 5); id = "oscillator"; p["c"] = C; p["f"] = f; x0 = rndv(g, 2, 2);
            double w = std::sqrt(C);
            exact = [=](double t) { double a = x0[0] - f / C, b = x0[1] / w, q = w * (t - t0); return DV{f / C + a * std::cos(q) + b * std::sin(q), w * (b * std::cos(q) - a * std::sin(q))}; };
            scale = 1 + std::fabs(f / C); s << id << " c=" << C << " f=" << f;
        } else if (kind == 1) {
            double a = g.logu(.2, 20); id = "stiff_1d"; p["a"] = a; x0 = rndv(g, 1, 2);
            auto part = [=](double t) { return (a * a * std::cos(t) + a * std::sin(t)) / (a * a + 1); };
            exact = [=](double t) { return DV{part(t) + (x0[0] - part(t0)) * std::exp(-a * (t - t0))}; };
            s << id << " a=" << a;
        } else {
            double mass = g.logu(.5, 5), f0 = g.uni(.1, 3), v0 = g.logu(.3, 3), F1 = g.uni(-5, 5), F2 = g.uni(-5, 5), om = g.uni(.2, 4); id = "sliding_point";
            p["friction"] = "linear"; p["mass"] = mass; p["f0"] = f0; p["v0"] = v0; p["F1"] = F1; p["F2"] = F2; p["omega"] = om;
            x0 = rndv(g, 4, 2);
            double k = f0 / v0 / mass, a1 = F1 / mass, a2 = F2 / mass;
            // v' = a1 - k v ; v' = a2 sin(om t) - k v
            double d = k * k + om * om;
            auto vp = [=](double t) { return a2 * (k * std::sin(om * t) - om * std::cos(om * t)) / d; };
            auto xp = [=](double t) { return a2 * (-k * std::cos(om * t) / om - std::sin(om * t)) / d; };
            exact = [=](double t) {
                double q = t - t0, e = std::exp(-k * q), c1 = x0[2] - a1 / k, c2 = x0[3] - vp(t0);
                return DV{x0[0] + a1 / k * q + c1 * (1 - e) / k, x0[1] + xp(t) - xp(t0) + c2 * (1 - e) / k, a1 / k + c1 * e, vp(t) + c2 * e};
            };
            scale = 1 + std::fabs(a1 / k); s << id << " mass=" << mass << " f0=" << f0 << " v0=" << v0 << " F1=" << F1 << " F2=" << F2 << " omega=" << om;
        }
        std::string sid = g.pick(std::vector<std::string>{"rk4", "dopri_45", "dopri_56", "dopri_78"});
        auto sol = newSolver(sid);
        sol->setInitialStepSize(.01);
        c.desc << s.str() << " t0=" << t0 << " x0=" << list(x0) << " " << sid;
        sol->setOdeRhs(model(id, p));
        sol->setInitialState(t0, toV(x0));
        bool adaptive = sid != "rk4";
        for (int k = 0; k < (adaptive ? 30 : 150) && sol->initialTime() < t0 + 3; ++k) {
            sol->doStep();
            DV want = exact(sol->initialTime()), got = fromV(sol->initialState());
            // controlled: a tolerance of 1e-6 per step
            double tol = (adaptive ? 2e-4 : 2e-4 * (kind == 1 ? 10 : 1)) * (scale + maxAbs(want));
            if (!(maxDiff(want, got) <= tol)) c.die("solution", "at t=" + num(sol->initialTime()) + " " + list(got) + " instead of " + list(want));
            c.count("states compared with the closed form");
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("energy", 150, 3000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 6);
        double c0 = g.logu(.2, 5), c2 = g.chance(.2) ? 0 : g.logu(.2, 5), f = g.uni(-2, 2);
        Params p; p["n"] = n; p["c0"] = c0; p["c2"] = c2; p["f"] = f;
        auto E = [=](const DV& x) {
            double e = -f * x[n - 1];
            for (unsigned i = 0; i < n; ++i) { double d = x[i] - (i ? x[i - 1] : 0.); e += x[n + i] * x[n + i] / 2 + c0 * d * d / 2 + c2 * d * d * d * d / 4; }
            return e;
        };
        DV x = rndv(g, 2 * n, 1);
        c.desc << "coupled_nl_osc n=" << n << " c0=" << c0 << " c2=" << c2 << " f=" << f << " x0=" << list(x);
        auto s = newSolver("rk4");
        s->setInitialStepSize(.005);
        s->setOdeRhs(model("coupled_nl_osc", p)); s->setInitialState(0, toV(x));
        double e0 = E(x), big = 1 + std::fabs(e0) + std::fabs(f * x[n - 1]);
        for (int k = 0; k < 300; ++k) {
            s->doStep();
            double e = E(fromV(s->initialState()));
            if (!(std::fabs(e - e0) <= 1e-5 * big)) c.die("energy", "step " + std::to_string(k) + ": energy " + num(e) + ", initially " + num(e0));
            c.count("energies compared");
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("bouncing", 300, 6000, [&](Case& c) {
        Rng& g = c.rng;
        double gr = g.uni(1, 20), rec = g.chance(.1) ? 1 : g.uni(.1, .95), stick = g.chance(.5) ? 1e-5 : g.logu(1e-6, .1);
        Params p; p["gravity_acceleration"] = gr; p["recovery_factor"] = rec; p["stick_speed"] = stick;
        auto ball = model("bouncing_ball", p);
        std::string sid = g.pick(std::vector<std::string>{"rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_sw2_4"});
        auto s = newSolver(sid);
        Params q;
        bool fixed = g.chance(.5);
        if (sid.substr(0, 5) == "dopri" || sid == "rosenbrock_sw2_4") q["disable_error_check"] = fixed;
        if (!q.empty()) s->setParameters(q);
        double h = g.logu(1e-3, .05);
        s->setInitialStepSize(h);
        double x = g.uni(.05, 1), v = g.uni(-2, 2);
        c.desc << "bouncing_ball g=" << gr << " recovery=" << rec << " stick=" << stick << " " << sid << (fixed ? " fixed" : "") << " h=" << h << " x0=" << x << " v0=" << v;
        c.require(ball->zeroFuncCount() == 1 && ball->zeroFuncFlags() == std::vector<unsigned>(1, Rhs::PlusMinus), "zero-functions", "the ball must watch its height falling through zero");
        StepLog log(s);
        s->setOdeRhs(ball);
        s->setInitialState(0, toV(DV{x, v}));
        double t = 0; bool rest = false; int hits = 0;
        for (int k = 0; k < 400; ++k) {
            s->doStep();
            auto& r = log.recs.back();
            DV y = fromV(s->initialState()); double tn = s->initialTime(), dt = tn - t;
            std::string at = "step " + std::to_string(k) + " t=" + num(tn) + ": ";
            if (y[0] < -1e-9) c.die("penetration", at + "height " + num(y[0]));
            double e0 = v * v / 2 + gr * x, e1 = y[1] * y[1] / 2 + gr * y[0];
            if (e1 > e0 * (1 + 1e-9) + 1e-9) c.die("energy", at + "the energy grows from " + num(e0) + " to " + num(e1));
            if (rest) {
                if (y[0] != 0 || y[1] != 0) c.die("rest", at + "the ball leaves the plane it had come to rest on");
                c.count("at rest");
            } else if (!r.truncated) {
                if (!(std::fabs(y[0] - (x + v * dt - gr * dt * dt / 2)) <= 1e-9) || !(std::fabs(y[1] - (v - gr * dt)) <= 1e-9)) c.die("flight", at + list(y) + " is not on the parabola from " + num(x) + ", " + num(v));
            } else {
                ++hits; c.count("impacts");
                if (y[0] == 0 && y[1] == 0) {
                    rest = true;
                    if (v - gr * dt < -stick * (1 + 1e-9) - 1e-9) c.die("stuck-early", at + "the ball sticks to the plane at the speed " + num(v - gr * dt));
                }
                else {
                    if (!(std::fabs(y[0]) <= 1e-9)) c.die("impact-height", at + "impact at the height " + num(y[0]));
                    if (!(y[1] > 0)) c.die("impact-speed", at + "speed after the impact " + num(y[1]));
                    double before = v - gr * dt;        // the interpolated speed is linear in time
                    if (!(std::fabs(y[1] + rec * before) <= 1e-9 * (1 + std::fabs(before)))) c.die("impact-speed", at + "speed " + num(y[1]) + " after the impact with " + num(before));
                    if (std::fabs(before) < stick * (1 - 1e-9)) c.die("stick", at + "an impact slower than the threshold must stick");
                }
            }
            if (tn < t || (tn == t && !r.truncated)) c.die("time", at + "time does not advance");
            t = tn; x = y[0]; v = y[1];
        }
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
