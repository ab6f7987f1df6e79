// C18: a solver that is given a system and an initial state behaves as a new one, whatever it has been used for before.
#include "hybrid.h"
using namespace vf;

static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("every solver in random configurations is used for 1 to 4 histories (other systems and sizes, events, rejections, failed steps, exceptions injected at a random evaluation, soft restarts, other step sizes) and then started on a system together "
             "with a new solver built from its parameters; both are stepped in random interleaving and must agree bit for bit in everything observable; non-trivial: at least 3 compared steps; distinct by configuration and system");
    ctx.expectAtLeast("steps compared", 10000);
    ctx.expectAtLeast("faults injected", 300);
    ctx.expectAtLeast("events compared", 300);
    ctx.expectAtLeast("rejections compared", 200);

    ctx.section("reuse", 3000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec spec = randomSpec(g);
        c.desc << spec.text;
        auto A = newSolver(spec.id);
        if (!spec.p.empty()) A->setParameters(spec.p);
        SolverPtr C;            // bystander of the same kind, stepped in between: must not matter
        if (g.chance(.3)) {
            C = newSolver(spec.id);
            if (!spec.p.empty()) C->setParameters(spec.p);
            std::ostringstream dummy;
            DV x = rndv(g, 3, 1);
            C->setOdeRhs(randomHybrid(g, 1, 1, g.u(0, 2), 0, x, dummy));
            C->setInitialStepSize(.05);
            C->setInitialState(0, toV(x));
        }
        auto bystander = [&]() { if (C && g.chance(.3)) try { C->doStep(); } catch (const std::exception&) { C->setInitialState(0, toV(rndv(g, 3, 1))); } };
        double h0 = g.logu(.005, .2);       // step size and numbers of variables that come back
        unsigned m2 = g.u(0, 2), m1 = g.u(m2 ? 0 : 1, 3);
        for (int round = 0, rounds = g.i(1, 4); round < rounds; ++round) {
            unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
            if (g.chance(.5)) n2 = m2, n1 = m1;
            double t = g.uni(-2, 2); DV x = rndv(g, 2 * n2 + n1, 1.5);
            c.desc << " ||";
            int trouble = g.i(0, 9);
            auto f = randomHybrid(g, n2, n1, trouble > 1 ? g.u(0, 3) : 0, t, x, c.desc);     // zero functions of states that are no numbers are outside the contract
            f->budget = 200000;
            if (trouble == 0) f->distort = [](double, const DV& y, DV& d) { d.back() += 60 * y.back() * y.back(); };
            if (trouble == 1) f->distort = [](double, const DV& y, DV& d) { if (y.back() > .7) d.back() = NAN; };
            if (trouble <= 4) { f->faultAt = g.i(1, g.chance(.5) ? 10 : 150); c.desc << " fault at " << f->faultAt; }
            double h = g.chance(.5) ? h0 : g.logu(.005, .2);
            A->setOdeRhs(f);
            A->setInitialStepSize(h);
            A->setInitialState(t, toV(x));
            c.desc << " h=" << h;
            try {
                for (int k = 0, steps = g.i(0, 12); k < steps; ++k) {
                    A->doStep();
                    bystander();
                    DV y = fromV(A->initialState());
                    if (!finite(y) || maxAbs(y) > 1e6) break;
                    if (g.chance(.1)) { DV z = rndv(g, f->n(), 1); A->setInitialState(g.uni(-1, 1), toV(z), true); c.desc << " soft"; }
                    if (g.chance(.1)) A->setInitialStepSize(g.logu(.005, .2));
                }
            }
            catch (const Fault&) { c.count("faults injected"); c.desc << " failed"; }
            catch (const Runaway&) { c.desc << " runaway"; }
            catch (const ctm::cxx::exception& e) { c.count("failed histories"); c.desc << " stopped"; }
        }
        // now something else, compared with a new solver
        auto B = newSolver(spec.id);
        B->setParameters(A->parameters());
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        if (g.chance(.5)) n2 = m2, n1 = m1;
        double t0 = g.uni(-2, 2); DV x0 = rndv(g, 2 * n2 + n1, 1.5);
        c.desc << " || compared:";
        auto fa = randomHybrid(g, n2, n1, g.u(0, 3), t0, x0, c.desc), fb = cloneOf(*fa);
        fa->budget = fb->budget = 100000;
        double h = g.chance(.5) ? h0 : g.logu(.005, .2);
        c.desc << " h=" << h;
        StepLog la(A), lb(B);
        for (int q = 0; q < 2; ++q) { auto& S = q ? B : A; S->setOdeRhs(q ? fb : fa); S->setInitialStepSize(h); S->setInitialState(t0, toV(x0)); }
        int cmp = 0;
        long ca = fa->calls, cb = fb->calls;
        for (int k = 0, steps = g.i(3, 15); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ", ea, eb;
            bool aFirst = g.chance(.5);
            for (int q = 0; q < 2; ++q) {
                bool doA = (q == 0) == aFirst;
                try { (doA ? A : B)->doStep(); }
                catch (const Runaway& e) { (doA ? ea : eb) = "runaway"; }
                catch (const std::exception& e) { (doA ? ea : eb) = e.what(); }
                bystander();
            }
            if (ea != eb) c.die("exception", at + "the used solver reports '" + ea + "', the new one '" + eb + "'");
            if (!same(A->initialTime(), B->initialTime()) || !sameV(fromV(A->initialState()), fromV(B->initialState())))
                c.die("state", at + "used: t=" + num(A->initialTime()) + " " + list(fromV(A->initialState())) + ", new: t=" + num(B->initialTime()) + " " + list(fromV(B->initialState())));
            if (la.recs.size() != lb.recs.size()) c.die("attempts", at + std::to_string(la.recs.size()) + " attempts of the used solver, " + std::to_string(lb.recs.size()) + " of the new one");
            for (size_t j = 0; j < la.recs.size(); ++j) {
                auto &a = la.recs[j], &b = lb.recs[j];
                if (a.posted != b.posted || !same(a.hPre, b.hPre) || (a.posted && (!same(a.h, b.h) || a.accepted != b.accepted || a.changed != b.changed || a.truncated != b.truncated || !same(a.err, b.err) || a.izf != b.izf || a.trans != b.trans)))
                    c.die("report", at + "attempt " + std::to_string(j) + " is reported differently");
                if (!a.posted) continue;
                if (a.truncated) c.count("events compared");
                if (!a.accepted) c.count("rejections compared");
            }
            la.recs.clear(); lb.recs.clear();
            if (fa->calls - ca != fb->calls - cb) c.die("evaluations", at + std::to_string(fa->calls - ca) + " evaluations by the used solver, " + std::to_string(fb->calls - cb) + " by the new one");
            c.count("steps compared"); ++cmp;
            if (!ea.empty()) { c.count("failures compared"); break; }
            if (maxAbs(fromV(A->initialState())) > 1e6) break;
        }
        if (cmp >= 3) c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
