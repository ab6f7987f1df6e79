// C10: explicit Runge-Kutta solvers are consistent methods of the announced order, and every step is a step of that method.
#include "ode_common.h"
using namespace vf;

// Rooted trees up to a given order, with density gamma and elementary weight
struct Tree { unsigned order; double gamma; std::vector<unsigned> sub; };
static std::vector<Tree> trees(unsigned maxOrder, std::vector<std::vector<unsigned>>& byOrder) {
    std::vector<Tree> t;
    byOrder.assign(maxOrder + 1, {});
    for (unsigned n = 1; n <= maxOrder; ++n) {
        // multisets of trees with the total order n-1, indices non-decreasing
        std::function<void(unsigned, unsigned, std::vector<unsigned>&)> rec = [&](unsigned left, unsigned from, std::vector<unsigned>& cur) {
            if (left == 0) {
                double gamma = n;
                for (auto k : cur) gamma *= t[k].gamma;
                t.push_back(Tree{n, gamma, cur}); byOrder[n].push_back(unsigned(t.size() - 1));
                return;
            }
            unsigned limit = 0;
            for (unsigned o = 1; o < n; ++o) limit += unsigned(byOrder[o].size());
            for (unsigned k = from; k < limit; ++k) if (t[k].order <= left) { cur.push_back(k); rec(left - t[k].order, k, cur); cur.pop_back(); }
        };
        std::vector<unsigned> cur;
        rec(n - 1, 0, cur);
    }
    return t;
}
static std::vector<long double> stageWeights(const Tableau& T, const std::vector<Tree>& t, unsigned k) {
    std::vector<long double> w(T.s, 1.0L);
    for (auto q : t[k].sub) {
        auto v = stageWeights(T, t, q);
        for (unsigned i = 0; i < T.s; ++i) { long double a = 0; for (unsigned j = 0; j < T.s; ++j) a += (long double)T.A(i, j) * v[j]; w[i] *= a; }
    }
    return w;
}

struct Variant { const char *id, *mode; };
static const std::vector<Variant> variants = {{"euler", ""}, {"rk4", ""}, {"dopri_45", "low"}, {"dopri_45", "high"}, {"dopri_56", "low"}, {"dopri_56", "high"}, {"dopri_78", "low"}, {"dopri_78", "high"}};

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("Butcher tableaus read off the running solvers (unit-vector probe), all rooted-tree order conditions up to the announced order, and multi-step integrations of random nonlinear time-dependent "
             "systems (positions, velocities, first-order variables) where every step is compared with a step of the tableau; non-trivial: at least 3 steps; distinct by solver, mode and equation");
    ctx.expectAtLeast("order conditions", 100);
    ctx.expectAtLeast("steps compared", 2000);
    ctx.assumption("order conditions hold to 1e-12");

    static std::vector<Tableau> tabs;
    for (auto& v : variants) tabs.push_back(extractTableau(v.id, v.mode));

    ctx.section("order", long(variants.size()), long(variants.size()), [&](Case& c) {
        const Tableau& T = tabs[c.index()];
        auto& v = variants[c.index()];
        c.desc << v.id << " " << v.mode << " stages=" << T.s << " order=" << T.order;
        static const std::map<std::string, int> announced = {{"euler", 1}, {"rk4", 4}, {"dopri_45low", 4}, {"dopri_45high", 5}, {"dopri_56low", 5}, {"dopri_56high", 6}, {"dopri_78low", 7}, {"dopri_78high", 8}};
        c.require(T.order == announced.at(std::string(v.id) + v.mode), "announced-order", "order() is " + std::to_string(T.order));
        for (unsigned i = 0; i < T.s; ++i) {
            long double r = 0;
            for (unsigned j = 0; j < T.s; ++j) { r += T.A(i, j); if (j >= i) c.require(T.A(i, j) == 0, "explicit", "stage " + std::to_string(i) + " depends on stage " + std::to_string(j)); }
            if (std::fabs(double(r) - T.c[i]) > 1e-12) c.fail("row-sum", "stage " + std::to_string(i) + " is evaluated at the time fraction " + num(T.c[i]) + " but its arguments add up to " + num(double(r)));
        }
        std::vector<std::vector<unsigned>> by;
        auto t = trees(unsigned(T.order), by);
        for (unsigned k = 0; k < t.size(); ++k) {
            auto w = stageWeights(T, t, k);
            long double phi = 0;
            for (unsigned i = 0; i < T.s; ++i) phi += (long double)T.b[i] * w[i];
            c.count("order conditions");
            if (std::fabs(double(phi) - 1 / t[k].gamma) > 1e-12) c.fail("order-condition", "tree " + std::to_string(k) + " of order " + std::to_string(t[k].order) + ": weight " + num(double(phi)) + " instead of " + num(1 / t[k].gamma));
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("steps", 4000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned iv = g.u(0, unsigned(variants.size() - 1));
        auto& v = variants[iv];
        bool embedded = *v.mode;
        auto s = newSolver(v.id);
        Params p;
        double h = g.logu(1e-3, .3);
        p["h_init"] = h;
        bool err = false;
        if (embedded) { p["mode"] = v.mode; p["disable_error_check"] = true; err = g.chance(.5); p["force_error_calc"] = err; }
        s->setParameters(p);
        c.desc << v.id << " " << v.mode << " h=" << h << (err ? " error computed" : "");
        h = s->initialStepSize();
        const Tableau& T = tabs[iv];
        const Tableau *hi = embedded ? &tabs[iv | 1] : nullptr, *lo = embedded ? &tabs[iv & ~1u] : nullptr;
        StepLog log(s);
        for (int round = 0, rounds = g.i(1, 3); round < rounds; ++round) {
            auto f = randomRhs(g, g.u(0, 3), g.u(0, 3), .4, g.uni(.2, 3), g.uni(0, 1), g.uni(0, 2));
            if (f->n() == 0) { f = randomRhs(g, 1, 0, .4, 1, .5, 1); }
            f->record = true;
            double t0 = g.chance(.5) ? 0 : g.uni(-5, 5);
            DV x0 = rndv(g, f->n(), 2);
            c.desc << "; " << f->text() << " t0=" << t0 << " x0=" << list(x0);
            s->setOdeRhs(f);
            if (round && g.chance(.3)) { h = g.logu(1e-3, .3); s->setInitialStepSize(h); c.desc << " h=" << h; }
            s->setInitialState(t0, toV(x0), g.chance(.3));
            c.require(s->initialTime() == t0 && fromV(s->initialState()) == x0, "initial-state", "the initial state is not what was set");
            double t = t0; DV x = x0;
            auto F = [&](double tt, const DV& xx) { return f->eval(tt, xx); };
            log.recs.clear();
            int steps = g.i(1, 12);
            for (int k = 0; k < steps; ++k) {
                f->before.clear(); f->before2.clear(); f->trace.clear();
                s->doStep();
                DV ref = T.step(F, t, x, h);
                DV got = fromV(s->initialState());
                if (!finite(ref) || maxAbs(ref) > 1e3) break;
                double tol = 1e-12 * (1 + maxAbs(ref) + maxAbs(x));
                std::string where = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                if (!(maxDiff(got, ref) <= tol)) c.die("step", where + list(got) + " instead of " + list(ref));
                if (!close(s->initialTime(), t + h, 1e-14, 0)) c.die("time", where + num(s->initialTime()) + " instead of " + num(t + h));
                auto& r = log.recs.back();
                if (log.recs.size() != size_t(k + 1) || !r.posted || !r.accepted || r.truncated || r.changed) c.die("report", where + "a plain accepted step is reported otherwise");
                if (r.h != h || r.hPre != h) c.die("report-h", where + "reported step size " + num(r.h));
                // the RHS is told about the step first
                if (f->before.size() != 1 || f->before[0].first != t || f->before[0].second != x) c.die("before-step", where + "beforeStep() is not called once with the step's initial time and state");
                if (f->before2.size() != 1 || f->before2[0] != f->eval(t, x)) c.die("before-step2", where + "beforeStep2() is not called once with the right hand side at the initial state");
                if (embedded && err) {
                    double e = maxAbs(sub(hi->step(F, t, x, h), lo->step(F, t, x, h)));
                    if (!(std::fabs(e - r.err) <= 4e-15 * 20 * (1 + maxAbs(x)))) c.die("error-norm", where + "error estimate " + num(r.err) + " instead of " + num(e));
                    c.count("error estimates compared");
                }
                t = s->initialTime(); x = got;
                c.count("steps compared");
            }
            if (log.recs.size() >= 3) c.nontrivial(v.id + std::string(v.mode) + std::to_string(f->n2) + f->text());
        }
        c.require(log.protocol.empty(), "protocol", log.protocol);
    });
}
VF_MAIN(run)
