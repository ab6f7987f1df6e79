// C31: the motion a solver computes is the same however the model is written down.
#include "hybrid.h"
using namespace vf;

// The same system in other variables: renumbered, with idle variables added, in other units of the variables and of time, with the zero functions in another order.
struct Rewritten : Rhs {
    std::shared_ptr<HybridRhs> in;
    unsigned n2 = 0, n1 = 0;
    std::vector<int> from;          // outer component -> inner component, -1: idle
    std::vector<double> unit;       // outer component = inner component * unit
    std::vector<unsigned> zfrom;    // outer function -> inner function
    double tu = 1, shift = 0;       // outer time = inner time * tu + shift
    mutable long calls = 0;
    unsigned secondOrderVarCount() const override { return n2; }
    unsigned firstOrderVarCount() const override { return n1; }
    unsigned zeroFuncCount() const override { return in->zeroFuncCount(); }
    std::vector<unsigned> zeroFuncFlags() const override { auto f = in->zeroFuncFlags(); std::vector<unsigned> r; for (auto i : zfrom) r.push_back(f[i]); return r; }
    double tin(double t) const { return (t - shift) / tu; }
    DV inner(const V& x) const { DV y(in->n()); for (unsigned i = 0; i < from.size(); ++i) if (from[i] >= 0) y[unsigned(from[i])] = x[i] / unit[i]; return y; }
    DV outer(const DV& y, const DV& idle) const { DV x(from.size()); for (unsigned i = 0; i < from.size(); ++i) x[i] = from[i] >= 0 ? y[unsigned(from[i])] * unit[i] : idle[i]; return x; }
    using Rhs::rhs;
    void rhs(V& dst, double t, const V& x) const override {
        ++calls; odeRhsPreObservers(t, x, this);
        V d; in->rhs(d, tin(t), toV(inner(x))); dst.resize(unsigned(from.size()));
        for (unsigned i = 0; i < from.size(); ++i) dst[i] = from[i] >= 0 ? d[unsigned(from[i])] * unit[i] / tu : 0;
        for (unsigned i = 0; i < n2; ++i) if (from[i] < 0) dst[i] = x[n2 + i];
        odeRhsPostObservers(t, x, dst, this);
    }
    void zeroFunctions(V& dst, double t, const V& x) const override {
        V d; in->zeroFunctions(d, tin(t), toV(inner(x))); dst.resize(unsigned(zfrom.size()));
        for (unsigned i = 0; i < zfrom.size(); ++i) dst[i] = d[zfrom[i]];
    }
    void switchPhaseState(const int* tr, double t, V& x) override {
        std::vector<int> u(zfrom.size()); for (unsigned i = 0; i < zfrom.size(); ++i) u[zfrom[i]] = tr[i];
        V y = toV(inner(x)); in->switchPhaseState(u.data(), tin(t), y);
        for (unsigned i = 0; i < from.size(); ++i) if (from[i] >= 0) x[i] = y[unsigned(from[i])] * unit[i];
    }
};
static double pow2(Rng& g, int m) { return std::ldexp(1., g.i(-m, m)); }

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("the same random hybrid system is solved twice, as it is and rewritten: variables and zero functions renumbered, idle variables added, variables (all alike, or each by its own factor) and time measured in units that differ by powers of two, the time origin moved, "
             "second order variables written as pairs of first order ones; the two solutions agree bit for bit where the method does no factorization, and otherwise to rounding or solver tolerance; non-trivial: at least 3 steps compared; distinct by system and rewriting");
    for (auto k : {"exact: renumbered", "exact: idle", "exact: units", "exact: own units", "exact: time unit", "close: renumbered", "close: idle", "close: units", "close: time unit", "close: first order"}) ctx.expectAtLeast(k, 150);
    ctx.expectAtLeast("steps compared", 5000); ctx.expectAtLeast("events compared", 200);

    ctx.section("exact", 4000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec spec;
        do spec = randomSpec(g); while (spec.id.substr(0, 4) == "rose" || spec.id == "i_euler" || spec.text.find("rosenbrock") != spec.text.npos);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3), nz = g.chance(.5) ? 0 : g.u(1, 3);
        double t0 = g.uni(-2, 2), h = g.logu(.005, .2); DV x0 = rndv(g, 2 * n2 + n1, 1.5);
        std::ostringstream sys;
        auto fa = randomHybrid(g, n2, n1, nz, t0, x0, sys), fb = cloneOf(*fa);
        fa->budget = fb->budget = 100000;
        auto w = std::make_shared<Rewritten>(); w->in = fb;
        bool renum = g.chance(.6), idle = g.chance(.4), units = g.chance(.4), own = !spec.adaptive && g.chance(.5), tunit = (!spec.adaptive || n2 == 0) && g.chance(.4);
        unsigned a2 = idle ? g.u(0, 2) : 0, a1 = idle ? g.u(0, 2) : 0; idle = a1 + a2 > 0;
        w->n2 = n2 + a2; w->n1 = n1 + a1;
        auto place = [&](unsigned n, unsigned a) { std::vector<int> r; for (unsigned i = 0; i < n; ++i) r.push_back(int(i)); for (unsigned i = 0; i < a; ++i) r.push_back(-1); if (renum || idle) { auto p = g.perm(n + a); auto q = r; if (renum) for (unsigned i = 0; i < n + a; ++i) r[i] = q[p[i]]; else { r.assign(n + a, -2); std::vector<char> pad(n + a); for (unsigned i = 0; i < a; ++i) pad[p[i]] = 1; int k = 0; for (unsigned i = 0; i < n + a; ++i) r[i] = pad[i] ? -1 : k++; } } return r; };
        auto p2 = place(n2, a2), p1 = place(n1, a1);
        for (int i : p2) w->from.push_back(i);
        for (int i : p2) w->from.push_back(i < 0 ? -1 : i + int(n2));
        for (int i : p1) w->from.push_back(i < 0 ? -1 : i + int(2 * n2));
        w->tu = tunit ? pow2(g, 12) : 1;
        double common = units ? pow2(g, 20) : 1;
        w->unit.assign(w->from.size(), common);
        if (own) for (auto& u : w->unit) u = pow2(g, 20);
        for (unsigned i = 0; i < w->n2; ++i) w->unit[w->n2 + i] = w->unit[i] / w->tu;
        for (unsigned i = 0; i < nz; ++i) w->zfrom.push_back(i);
        if (renum) { auto p = g.perm(nz); for (unsigned i = 0; i < nz; ++i) w->zfrom[i] = p[i]; }
        Params pa = spec.p, pb = spec.p;
        if (spec.adaptive) {
            Params qa, qb; double tol = g.logu(1e-8, 1e-3); qa["tolerance"] = tol; qb["tolerance"] = tol * common;
            pa["stepsizectl"] = PValue("simple", qa); pb["stepsizectl"] = PValue("simple", qb);
        }
        if (pa.count("h_after_switch")) pb["h_after_switch"] = pa["h_after_switch"].value<double>() * w->tu;
        if (pa.count("h_min")) pb.erase("h_min");
        auto A = newSolver(spec.id), B = newSolver(spec.id);
        if (!pa.empty()) A->setParameters(pa);
        if (!pb.empty()) B->setParameters(pb);
        DV pad(w->from.size(), 0.);
        for (unsigned i = 0; i < pad.size(); ++i) pad[i] = spec.adaptive || (i >= w->n2 && i < 2 * w->n2) ? 0 : g.uni(-2, 2);   // rounding moves an idle variable that is not zero
        c.desc << spec.id << textOf(pa) << " h=" << h << " " << sys.str() << " || renumbered " << list(DV(w->from.begin(), w->from.end())) << " functions " << list(DV(w->zfrom.begin(), w->zfrom.end())) << " units " << list(w->unit) << " time unit " << w->tu;
        A->setOdeRhs(fa); B->setOdeRhs(w);
        A->setInitialStepSize(h); B->setInitialStepSize(h * w->tu);
        A->setInitialState(t0, toV(x0)); B->setInitialState(t0 * w->tu, toV(w->outer(x0, pad)));
        StepLog la(A), lb(B);
        int cmp = 0, events = 0;
        for (int k = 0, steps = g.i(3, 15); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ", ea, eb;
            try { A->doStep(); } catch (const Runaway&) { ea = "runaway"; } catch (const std::exception& e) { ea = e.what(); }
            try { B->doStep(); } catch (const Runaway&) { eb = "runaway"; } catch (const std::exception& e) { eb = e.what(); }
            bool tie = false;       // of several functions that are past their surfaces at the start of a step, the first is served
            for (auto& a : la.recs) if (a.posted && a.truncated && std::fabs(a.t1 - a.t0) < 1e-10) tie = true;
            if (tie && renum && nz > 1) { c.count("ties"); break; }
            if (ea != eb) c.die("exception", at + "'" + ea + "' as against '" + eb + "'");
            DV xa = fromV(A->initialState()), xb = fromV(B->initialState()), want = w->outer(xa, pad);
            if (!finite(xa) || maxAbs(xa) > 1e6) break;
            if (!same(A->initialTime() * w->tu, B->initialTime())) c.die("time", at + "t=" + num(A->initialTime()) + " as against " + num(B->initialTime() / w->tu));
            for (unsigned i = 0; i < want.size(); ++i) if (w->from[i] < 0 ? !(std::fabs(want[i] - xb[i]) <= 1e-12) : !same(want[i], xb[i])) c.die("state", at + "variable " + std::to_string(i) + " is " + num(xb[i]) + " instead of " + num(want[i]));
            if (la.recs.size() != lb.recs.size()) c.die("attempts", at + std::to_string(la.recs.size()) + " attempts as against " + std::to_string(lb.recs.size()));
            for (size_t j = 0; j < la.recs.size(); ++j) {
                auto &a = la.recs[j], &b = lb.recs[j];
                if (a.posted != b.posted || !same(a.hPre * w->tu, b.hPre) || (a.posted && (!same(a.h * w->tu, b.h) || a.accepted != b.accepted || a.changed != b.changed || a.truncated != b.truncated || a.trans != b.trans || (!own && n2 * (w->tu != 1) == 0 && !same(a.err * common, b.err)))))
                    c.die("report", at + "attempt " + std::to_string(j) + " is reported differently");
                if (a.posted && a.truncated) { ++events; if (a.izf >= nz || b.izf >= nz || w->zfrom[b.izf] != a.izf) c.die("function", at + "function " + std::to_string(a.izf) + " as against " + std::to_string(b.izf)); }
            }
            la.recs.clear(); lb.recs.clear();
            if (fa->calls != fb->calls) c.die("evaluations", at + std::to_string(fa->calls) + " evaluations as against " + std::to_string(fb->calls));
            ++cmp;
            if (!ea.empty()) break;
        }
        c.count("steps compared", cmp); c.count("events compared", events);
        if (cmp >= 3) {
            if (renum) c.count("exact: renumbered"); if (idle) c.count("exact: idle"); if (units && !own) c.count("exact: units"); if (own) c.count("exact: own units"); if (tunit) c.count("exact: time unit");
            c.nontrivial(c.desc.str());
        }
    });

    // All solvers, with steps of fixed size and without events: rounding and, for implicit methods, the approximation of the Jacobian and the solver's tolerance depend on the units.
    ctx.section("close", 4000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec spec;
        do spec = randomSpec(g); while (spec.adaptive);
        bool rose = spec.text.find("rosenbrock") != spec.text.npos, ie = spec.id == "i_euler", soft = rose || ie;
        if (ie) { Params a, e; if (g.chance(.7)) a["ddir"] = g.pick(std::vector<std::string>{"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"}); a["jacobian"] = g.chance(.5) ? "default" : "sparse"; e["abs_tol"] = 1e-10; e["rel_tol"] = 1e-10; e["rel_max_threshold"] = 0.; a["err"] = PValue("simple", e); spec.p["algsolver"] = PValue("newton", a); }
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        double t0 = g.uni(-2, 2), h = g.logu(.002, .08); DV x0 = rndv(g, 2 * n2 + n1, 1.5);
        std::ostringstream sys;
        auto fa = randomHybrid(g, n2, n1, 0, t0, x0, sys), fb = cloneOf(*fa);
        bool autonomous = g.chance(.4);
        if (autonomous) for (auto& b : fa->b) b = 0;
        fb->b = fa->b; fa->budget = fb->budget = 100000;
        auto w = std::make_shared<Rewritten>(); w->in = fb;
        bool first = n2 && g.chance(.4), renum = g.chance(.5), units = g.chance(.5), tunit = g.chance(.4), shift = autonomous && g.chance(.5);
        unsigned a2 = g.chance(.3) ? g.u(0, 2) : 0, a1 = g.chance(.3) ? g.u(0, 2) : 0; bool idle = a1 + a2 > 0;
        int m = soft ? 3 : 20;
        w->tu = tunit ? pow2(g, m) : 1; w->shift = shift ? g.uni(-3, 3) : 0;
        // groups that stay together: a position and its velocity, or a first order variable
        std::vector<std::pair<int, int>> two; std::vector<int> one;
        for (unsigned i = 0; i < n2; ++i) { if (first) { one.push_back(int(i)); one.push_back(int(n2 + i)); } else two.push_back({int(i), int(n2 + i)}); }
        for (unsigned i = 0; i < n1; ++i) one.push_back(int(2 * n2 + i));
        for (unsigned i = 0; i < a2; ++i) two.push_back({-1, -1});
        for (unsigned i = 0; i < a1; ++i) one.push_back(-1);
        if (renum) { auto p = g.perm(unsigned(two.size())); auto t2 = two; for (unsigned i = 0; i < two.size(); ++i) two[i] = t2[p[i]]; p = g.perm(unsigned(one.size())); auto t1 = one; for (unsigned i = 0; i < one.size(); ++i) one[i] = t1[p[i]]; }
        w->n2 = unsigned(two.size()); w->n1 = unsigned(one.size());
        for (auto& q : two) w->from.push_back(q.first);
        for (auto& q : two) w->from.push_back(q.second);
        for (int q : one) w->from.push_back(q);
        w->unit.assign(w->from.size(), 1.);
        if (units) for (auto& u : w->unit) u = pow2(g, m);
        for (unsigned i = 0; i < w->n2; ++i) w->unit[w->n2 + i] = w->unit[i] / w->tu;
        auto A = newSolver(spec.id), B = newSolver(spec.id);
        Params pb = spec.p; if (pb.count("h_after_switch")) pb["h_after_switch"] = spec.p["h_after_switch"].value<double>() * w->tu;
        if (!spec.p.empty()) { A->setParameters(spec.p); B->setParameters(pb); }
        DV pad(w->from.size(), 0.);
        for (unsigned i = 0; i < pad.size(); ++i) pad[i] = i >= w->n2 && i < 2 * w->n2 ? 0 : g.uni(-2, 2);
        c.desc << spec.id << textOf(spec.p) << " h=" << h << " " << sys.str() << (autonomous ? " autonomous" : "") << " || from " << list(DV(w->from.begin(), w->from.end())) << " n2=" << w->n2 << " units " << list(w->unit) << " time unit " << w->tu << " shift " << w->shift;
        A->setOdeRhs(fa); B->setOdeRhs(w);
        A->setInitialStepSize(h); B->setInitialStepSize(h * w->tu);
        A->setInitialState(t0, toV(x0)); B->setInitialState(t0 * w->tu + w->shift, toV(w->outer(x0, pad)));
        int cmp = 0; double L = 0; for (auto& k : fa->terms) L = std::max(L, std::fabs(k.a) + std::fabs(k.q * k.w));
        bool benign = h * L * fa->n() < .2;
        for (int k = 0, steps = g.i(3, 12); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ", ea, eb;
            try { A->doStep(); } catch (const std::exception& e) { ea = e.what(); }
            try { B->doStep(); } catch (const std::exception& e) { eb = e.what(); }
            if (ie && !benign && !(ea.empty() && eb.empty())) break;        // the convergence of an iteration may depend on the way the equation is written
            if (ea.empty() != eb.empty()) c.die("exception", at + "'" + ea + "' as against '" + eb + "'");
            if (!ea.empty()) break;
            DV xa = fromV(A->initialState()), xb = fromV(B->initialState()), want = w->outer(xa, pad);
            if (!finite(xa) || maxAbs(xa) > 1e3) break;
            double ta = A->initialTime(), tb = (B->initialTime() - w->shift) / w->tu;
            if (!close(ta, tb, 1e-12, 1e-12 * (1 + std::fabs(w->shift / w->tu)))) c.die("time", at + "t=" + num(ta) + " as against " + num(tb));
            double tol = (soft ? 1e-6 : 1e-11) * (1 + maxAbs(xa));
            for (unsigned i = 0; i < want.size(); ++i) {
                double e = std::fabs(want[i] - xb[i]) / (w->from[i] < 0 ? 1 : w->unit[i]);
                if (!(e <= tol)) c.die("state", at + "variable " + std::to_string(i) + " is " + num(xb[i]) + " instead of " + num(want[i]) + ", relative difference " + num(e));
            }
            ++cmp;
        }
        c.count("steps compared", cmp);
        if (cmp >= 3) {
            if (renum) c.count("close: renumbered"); if (idle) c.count("close: idle"); if (units) c.count("close: units"); if (tunit) c.count("close: time unit"); if (first) c.count("close: first order");
            c.nontrivial(c.desc.str());
        }
    });
}
VF_MAIN(run)
