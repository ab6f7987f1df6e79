// C32: a missing component is refused, with everything as it was; one that is not needed is not missed.
#include "cfg_common.h"
using namespace vf;

static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
typedef std::vector<std::string> Path;
static std::string dotted(const Path& p) { std::string r; for (auto& k : p) r += (r.empty() ? "" : ".") + k; return r; }
// the parameters that set the component at a path, in a solver with these parameters, to nothing
static Params without(const Params& full, const Path& path, size_t at = 0) {
    Params r;
    if (at + 1 == path.size()) r[path[at]] = "";
    else {
        auto& v = full.at(path[at]);
        r[path[at]] = PValue(v.value<std::string>(), without(*v.nestedParameters(), path, at + 1));
    }
    return r;
}
struct Removal { Path path; bool needed; };
// the components of a solver, and whether a step needs them
static std::vector<Removal> removals(const SolverSpec& sp, const Params& full) {
    std::vector<Removal> r;
    auto flag = [&](const char* k) { auto i = full.find(k); return i != full.end() && (i->second.value<std::string>() == "true" || i->second.value<std::string>() == "1"); };
    bool off = flag("disable_error_check"), force = flag("force_error_calc");
    auto add = [&](const Path& p, bool needed) { r.push_back(Removal{p, needed}); };
    if (full.count("enorm")) add({"enorm"}, !off || force);
    if (full.count("stepsizectl")) add({"stepsizectl"}, !off);
    if (full.count("eventctl")) add({"eventctl"}, false);
    if (full.count("jtrim")) add({"jtrim"}, false);
    if (sp.id == "extrapolator") { add({"reference_solver"}, true); add({"step_sequence"}, true); }
    if (sp.id == "i_euler") {
        add({"algsolver"}, true); add({"predictor"}, false); add({"reorder"}, false);
        for (auto k : {"ddir", "err", "itperf", "linsearch", "jacobian"}) add({"algsolver", k}, true);
        for (auto k : {"jtrim", "regularizer"}) add({"algsolver", k}, false);
    }
    return r;
}
static bool hasPath(const Params& full, const Path& p, size_t at = 0) {
    auto i = full.find(p[at]);
    if (i == full.end()) return false;
    if (at + 1 == p.size()) return !i->second.value<std::string>().empty();
    return i->second.nestedParameters() && hasPath(*i->second.nestedParameters(), p, at + 1);
}

static void run(Ctx& ctx) {
    registerAll(); registerCfgRhs();
    ctx.rule("components (at any level) are taken out of solvers of every kind and random configuration, before or between the steps of random systems: a needed one makes doStep fail with an exception and everything stays as it was, and "
             "after it is put back the solution goes on like that of a twin that never lacked it; one that is not needed makes no difference; also through solveOde, and in a Newton solver and its directions used directly; "
             "non-trivial: a component missing between steps; distinct by configuration, component and system");
    for (auto k : {"refused steps", "steps without an optional component"}) ctx.expectAtLeast(k, 300);
    ctx.expectAtLeast("refused solutions", 80); ctx.expectAtLeast("refused equations", 100); ctx.expectAtLeast("refused directions", 20);

    ctx.section("steps", 1600, 24000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        double h = g.logu(2e-3, .05), t0 = g.chance(.5) ? 0 : g.uni(-1, 1);
        sp.p["h_init"] = h;
        auto s = newSolver(sp.id), q = newSolver(sp.id);
        s->setParameters(sp.p); q->setParameters(sp.p);
        Params full = s->parameters();
        std::vector<Removal> rs;
        for (auto& r : removals(sp, full)) if (hasPath(full, r.path)) rs.push_back(r);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        DV x0 = rndv(g, 2 * n2 + n1, 1);
        c.desc << sp.text << " h=" << h;
        if (rs.empty()) { c.count("nothing to remove"); return; }
        Removal rm = g.pick(rs);
        if (!rm.needed && g.chance(.5)) rm = g.pick(rs);
        auto base = randomHybrid(g, n2, n1, rm.needed && g.chance(.3) ? g.u(1, 2) : 0, t0, x0, c.desc);
        base->budget = 60000;
        auto f = cloneOf(*base), fq = cloneOf(*base);
        s->setOdeRhs(f); q->setOdeRhs(fq);
        s->setInitialState(t0, toV(x0)); q->setInitialState(t0, toV(x0));
        int before = g.chance(.3) ? 0 : g.i(1, 4), after = g.i(1, 4);
        c.desc << "; without " << dotted(rm.path) << " after " << before << " steps";
        bool soft = sp.id == "i_euler";
        auto both = [&](const std::string& at) -> bool {
            std::string e1, e2;
            try { s->doStep(); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception& e) { e1 = std::string("!") + e.what(); }
            try { q->doStep(); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception& e) { e2 = std::string("!") + e.what(); }
            if (e1 != e2 && !soft) c.die("exception", at + "ends with '" + e1 + "', that of the twin with '" + e2 + "'");
            if (!e1.empty() || !e2.empty()) return false;
            if (soft && f->calls2.size() != fq->calls2.size()) return false;
            DV a = fromV(s->initialState()), b = fromV(q->initialState());
            double tol = soft ? 1e-4 : 1e-13;
            if (!(std::fabs(s->initialTime() - q->initialTime()) <= (soft ? 1e-3 : 1e-13) * (1 + std::fabs(t0))) || !(maxDiff(a, b) <= tol * (1 + maxAbs(b))))
                c.die("differs", at + "gives t=" + num(s->initialTime()) + " " + list(a) + ", that of the twin t=" + num(q->initialTime()) + " " + list(b));
            return maxAbs(b) < 1e6;
        };
        for (int k = 0; k < before; ++k) if (!both("step " + std::to_string(k) + " ")) { c.count("abandoned"); return; }
        s->setParameters(without(full, rm.path));
        if (hasPath(s->parameters(), rm.path)) c.die("removed", dotted(rm.path) + " is still there");
        if (rm.needed) {
            StepLog log(s);
            double t = s->initialTime(), hi = s->initialStepSize(); DV x = fromV(s->initialState()); size_t sw = f->calls2.size();
            for (int k = g.i(1, 2); k-- > 0;) {
                std::string e;
                try { s->doStep(); } catch (const Runaway&) { throw; } catch (const std::exception& w) { e = std::string("!") + w.what(); }
                if (e.empty()) c.die("accepted", "a step is made without " + dotted(rm.path));
                if (s->initialTime() != t || !sameV(fromV(s->initialState()), x) || s->initialStepSize() != hi || f->calls2.size() != sw)
                    c.die("moved", "the refused step left t=" + num(s->initialTime()) + " " + list(fromV(s->initialState())) + ", it started at t=" + num(t) + " " + list(x));
                c.count("refused steps");
            }
            for (auto& r : log.recs) if (r.posted) c.die("reported", "a step that was refused is reported as done");
            if (before) c.nontrivial(c.desc.str());
            Params back; back[rm.path[0]] = full.at(rm.path[0]);
            s->setParameters(back);
        } else if (rm.path.back() == "jtrim" || rm.path.back() == "predictor" || rm.path.back() == "regularizer" || rm.path.back() == "reorder") q->setParameters(without(full, rm.path));
        if (sp.id == "extrapolator") q->setParameters(Params());        // (the reference solver of an extrapolator with new parameters starts with a new Jacobian)
        for (int k = 0; k < after; ++k) {
            if (!both("step " + std::to_string(before + k) + " ")) { c.count("abandoned"); return; }
            if (!rm.needed) c.count("steps without an optional component");
        }
    });

    ctx.section("solutions", 300, 4000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        double h = g.logu(2e-3, .05);
        sp.p["h_init"] = h;
        auto tmp = newSolver(sp.id); tmp->setParameters(sp.p); Params full = tmp->parameters();
        std::vector<Removal> rs;
        for (auto& r : removals(sp, full)) if (r.needed && hasPath(full, r.path)) rs.push_back(r);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3), n = 2 * n2 + n1;
        DV x0 = rndv(g, n, 1);
        c.desc << sp.text << " h=" << h;
        CfgRhs::current() = randomHybrid(g, n2, n1, 0, 0, x0, c.desc);
        bool noRhs = rs.empty() || g.chance(.4);
        Removal rm;
        Config cfg;
        Params p; p["rhs"] = "vf"; p["solver"] = PValue(sp.id, sp.p); p["time"] = 5 * h;
        std::string file = c.outDir() + "/out", file2 = c.outDir() + "/out2";
        std::remove(file.c_str()); std::remove(file2.c_str());
        Params q; q["file_name"] = file; p["output_file"] = PValue("con_solution", q);
        q["file_name"] = file2; p["output_stats"] = PValue("stats_full", q);
        setAll(cfg, p);
        Components sc = cfg.apply(std::set<unsigned>(), 0, toV(x0));
        auto s = sc.solver();
        if (noRhs) { s->setOdeRhs(nullptr); c.desc << "; without a right hand side"; }
        else { rm = g.pick(rs); s->setParameters(without(full, rm.path)); c.desc << "; without " << dotted(rm.path); }
        DV x = fromV(s->initialState());
        std::string e;
        try { ctm::math::solveOde(&cfg, &sc); } catch (const Runaway&) { throw; } catch (const std::exception& w) { e = std::string("!") + w.what(); }
        if (e.empty()) c.die("accepted", "a solution is made without " + (noRhs ? std::string("a right hand side") : dotted(rm.path)));
        c.count("refused solutions");
        if (noRhs) { if (std::ifstream(file) || std::ifstream(file2)) c.die("written", "a report is written of a solution without a right hand side"); }
        else {
            if (s->initialTime() != 0 || !sameV(fromV(s->initialState()), x)) c.die("moved", "the refused solution moved the state");
            auto l = split(slurp(file), '\n');
            if (l.size() != 2) c.die("written", std::to_string(l.size()) + " lines instead of the header and the initial state");
            if (slurp(file2).find("Total steps: 0\n") == std::string::npos) c.die("written", "the statistics are not those of no steps");
        }
        c.nontrivial(c.desc.str());
        // complete again
        if (noRhs) s->setOdeRhs(sc.odeRhs()); else s->setParameters(full);
        s->setInitialState(0, toV(x0));
        try { ctm::math::solveOde(&cfg, &sc); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception& w) { if (sp.adaptive || sp.id == "i_euler") return; c.die("completed", std::string("the completed solver fails: ") + w.what()); }
        if (!(s->initialTime() >= 5 * h)) c.die("completed", "stopped at " + num(s->initialTime()));
    });

    ctx.section("equations", 160, 2000, [&](Case& c) {
        typedef ctm::math::NewtonDescentDirection<VD> Dir;
        Rng& g = c.rng;
        unsigned n = g.u(1, 4);
        struct Map : ctm::math::VectorMapping<VD> { unsigned n; unsigned inputSize() const override { return n; } unsigned outputSize() const override { return n; } void map(V& y, const V& x) const override { y.resize(n); for (unsigned i = 0; i < n; ++i) y[i] = 2 * x[i] + .1 * std::sin(x[(i + 1) % n]) - 1; } };
        auto m = std::make_shared<Map>(); m->n = n;
        ctm::math::NewtonSolver<VD> s;
        std::string key = g.pick(std::vector<std::string>{"ddir", "err", "itperf", "linsearch", "jacobian"}), dir = g.pick(std::vector<std::string>{"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"});
        Params p, q, e; p["ddir"] = dir; e["rel_max_threshold"] = 0.; p["err"] = PValue("simple", e); s.setParameters(p);
        Params full = s.parameters();
        s.setComponent(std::static_pointer_cast<ctm::math::VectorMapping<VD>>(m));
        DV x0 = rndv(g, n, 1);
        bool solved = g.chance(.5);
        c.desc << dir << " n=" << n << " without " << key << (solved ? " after a solution" : "");
        auto solve = [&]() -> std::string { try { s.setInitialGuess(toV(x0)); return s.run() == ctm::math::NewtonSolverInterface<VD>::Converged ? "" : "not converged"; } catch (const std::exception& e) { return std::string("!") + e.what(); } };
        if (solved) { auto r = solve(); if (!r.empty()) c.die("solve", r); }
        q[key] = ""; s.setParameters(q);
        auto r = solve();
        if (r.empty() || r[0] != '!') c.die("accepted", "an equation is solved without " + key + ": " + r);
        c.count("refused equations");
        s.setParameters(full); s.setComponent(std::static_pointer_cast<ctm::math::VectorMapping<VD>>(m));
        r = solve();
        if (!r.empty()) c.die("completed", "the completed solver does not solve the equation: " + r);
        DV x = fromV(s.currentSolution()), y; { V yv; m->map(yv, toV(x)); y = fromV(yv); }
        if (!(maxAbs(y) < 1e-4)) c.die("completed", "residual " + list(y));
        c.nontrivial(c.desc.str());
        // a direction on its own
        if (auto d = ctm::Factory<Dir>::newInstance(dir)) {
            bool thrown = false; V y2 = toV(y), p2(n);
            try { d->computeDescentDirection(p2, toV(x0), y2, 0); } catch (const std::exception&) { thrown = true; }
            if (!thrown) c.die("direction", "a direction is computed without a Jacobian");
            c.count("refused directions");
        }
    });
}
VF_MAIN(run)
