// C29: a step that fails leaves the solver where it was and can be repeated.
#include "hybrid.h"
using namespace vf;
static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

// Fails at a chosen access (evaluation of the right hand side or of the zero functions, or beforeStep)
class FailingRhs : public HybridRhs {
public:
    mutable long count = 0, failAt = -1; mutable bool failed = false;
    int kind = 0;           // 0: evaluations, 1: zero functions, 2: beforeStep
    void tick(int k) const { if (k == kind && ++count == failAt) { failed = true; failAt = -1; throw Fault("injected"); } }
    using Rhs::rhs;
    void rhs(V& dst, double t, const V& x) const override {
        bool before = false;
        if (kind == 0 && failAt > 0 && count + 1 == failAt && failAt % 2) { before = true; HybridRhs::rhs(dst, t, x); for (auto& v : dst) v *= -3.; }   // spoils the destination first
        tick(0);
        if (!before) HybridRhs::rhs(dst, t, x);
    }
    void zeroFunctions(V& dst, double t, const V& x) const override { tick(1); HybridRhs::zeroFunctions(dst, t, x); }
    void beforeStep(double t, const V& x) const override { tick(2); HybridRhs::beforeStep(t, x); }
};
static std::shared_ptr<FailingRhs> failing(const HybridRhs& r) {
    auto f = std::make_shared<FailingRhs>();
    f->n2 = r.n2; f->n1 = r.n1; f->c = r.c; f->b = r.b; f->om = r.om; f->ph = r.ph; f->terms = r.terms; f->budget = r.budget; f->zf = r.zf; f->notify = r.notify;
    return f;
}

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("two solvers of every kind and random configuration solve the same random hybrid system; in one of them steps fail, at a random evaluation of the right hand side or of the zero functions or in beforeStep, and are "
             "repeated; non-trivial: a step failed after the first evaluation; distinct by configuration, problem and points of failure");
    ctx.expectAtLeast("failed steps", 1500); ctx.expectAtLeast("repeated steps compared", 1500);
    ctx.section("retry", 2600, 50000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        double h = g.logu(2e-3, .1), t0 = g.chance(.5) ? 0 : g.uni(-1, 1);
        sp.p["h_init"] = h;
        c.desc << sp.text << " h=" << h;
        auto s = newSolver(sp.id), q = newSolver(sp.id);
        s->setParameters(sp.p); q->setParameters(sp.p);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        DV x0 = rndv(g, 2 * n2 + n1, 1);
        auto base = randomHybrid(g, n2, n1, g.chance(.5) ? 0 : g.u(1, 2), t0, x0, c.desc);
        auto f = failing(*base); auto fq = cloneOf(*base);
        s->setOdeRhs(f); q->setOdeRhs(fq);
        s->setInitialState(t0, toV(x0)); q->setInitialState(t0, toV(x0));
        int steps = g.i(1, 10);
        for (int k = 0; k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ";
            double t = s->initialTime(); DV x = fromV(s->initialState());
            double hi = s->initialStepSize();
            if (k == 0 || g.chance(.5)) for (int tries = g.i(1, 3); tries-- > 0;) {
                f->kind = base->zf.empty() ? (g.chance(.85) ? 0 : 2) : g.chance(.7) ? 0 : g.i(1, 2);
                f->count = 0; f->failed = false; f->failAt = f->kind == 0 ? (g.chance(.4) ? g.i(1, 4) : g.i(1, 25)) : g.i(1, 3);
                long fa = f->failAt; size_t sw = f->calls2.size();
                bool other = false;
                try { s->doStep(); } catch (const Runaway&) { throw; } catch (const Fault&) {} catch (const ctm::cxx::exception&) { other = true; }
                f->failAt = -1;
                if (other) { c.count("other failures"); return; }
                if (!f->failed) { c.count("steps that did not fail"); goto done; }
                c.desc << "; " << at << "access " << fa << " of kind " << f->kind << " fails";
                if (f->calls2.size() != sw) { c.count("failures after a switch"); return; }      // the phase has been switched: not undone
                c.count("failed steps");
                if (fa > 1) c.nontrivial(c.desc.str());
                if (s->initialTime() != t || !sameV(fromV(s->initialState()), x)) {
                    if (sp.adaptive && s->initialTime() == t) {}
                    c.die("moved", at + "the failed step left t=" + num(s->initialTime()) + " " + list(fromV(s->initialState())) + ", it started at t=" + num(t) + " " + list(x));
                }
                if (s->initialStepSize() != hi) c.die("moved", at + "the failed step changed h_init");
            }
            {
                std::string e1;
                try { s->doStep(); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception& e) { e1 = e.what(); if (e1.empty()) e1 = "?"; }
                if (!e1.empty()) {
                    std::string e2;
                    try { q->doStep(); } catch (const ctm::cxx::exception& e) { e2 = e.what(); }
                    if (e1 != e2) c.die("exception", at + "the repeated step ends with '" + e1 + "', the step that did not fail with '" + e2 + "'");
                    return;
                }
            }
        done:
            try { q->doStep(); } catch (const ctm::cxx::exception& e) { c.die("exception", at + "the repeated step succeeds, the step that did not fail ends with '" + e.what() + "'"); }
            c.count("repeated steps compared");
            DV a = fromV(s->initialState()), b = fromV(q->initialState());
            double tol = sp.id == "i_euler" ? 1e-4 : 1e-13;
            if (sp.id == "i_euler" && f->calls2.size() != fq->calls2.size()) return;
            if (!(std::fabs(s->initialTime() - q->initialTime()) <= (sp.id == "i_euler" ? 1e-3 : 1e-13) * (1 + std::fabs(t))) || !(maxDiff(a, b) <= tol * (1 + maxAbs(b))))
                c.die("repeated", at + "the repeated step gives t=" + num(s->initialTime()) + " " + list(a) + ", a step that did not fail t=" + num(q->initialTime()) + " " + list(b));
            if (!(maxAbs(b) < 1e6)) break;
        }
    });
}
VF_MAIN(run)
