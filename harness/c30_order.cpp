// C30: what a solver does depends on its configuration, not on the way it was configured.
#include "hybrid.h"
#include "newton_common.h"
#include "ode_num_int/ode/interfaces/ErrorNormCalculator.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/OdeSolverImplicitEuler.h"
using namespace vf;

static std::string fullText(const Params& p) {
    std::string r;
    for (auto& k : p) { r += " " + k.first + "=" + k.second.value<std::string>(); if (auto q = k.second.nestedParameters()) r += "{" + fullText(*q) + " }"; }
    return r;
}
static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
struct Action { int when; std::string text; std::function<void()> f; };      // actions with a smaller "when" bound come before
// A random interleaving of sequences
static std::vector<Action> interleave(Rng& g, std::vector<std::vector<Action>> seqs) {
    std::vector<Action> r;
    std::vector<size_t> at(seqs.size(), 0);
    while (true) {
        std::vector<unsigned> open; for (unsigned i = 0; i < seqs.size(); ++i) if (at[i] < seqs[i].size()) open.push_back(i);
        if (open.empty()) return r;
        unsigned i = g.pick(open); r.push_back(seqs[i][at[i]++]);
    }
}
template<class T> static void shuffle(Rng& g, std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.u(0, unsigned(i - 1))]); }

// An error norm that needs to know the system: positions count with a weight
struct WeightNorm : ctm::math::ErrorNormCalculator<VD>, ctm::FactoryMixin<WeightNorm, ctm::math::ErrorNormCalculator<VD>> {
    double weight = 1;
    static long uses;
    double errorNorm(const V& e) const override {
        auto f = this->odeRhs();
        if (!f || f->varCount() != e.size()) throw std::runtime_error("the error norm has not been told about the system");
        double r = 0; unsigned n2 = f->secondOrderVarCount(); ++uses;
        for (unsigned i = 0; i < e.size(); ++i) r = std::max(r, std::fabs(e[i]) * (i < n2 ? weight : 1));
        this->errorNormCalculatorObservers(e, r);
        return r;
    }
    Params parameters() const override { Params p; p["weight"] = weight; return p; }
    void setParameters(const Params& p) override { auto it = p.find("weight"); if (it != p.end()) weight = it->second.value<double>(); }
};
long WeightNorm::uses = 0;

// A regularization strategy that only shows what it has been given
struct Shown : ctm::math::NewtonRegularizationStrategy<VD>, ctm::FactoryMixin<Shown, ctm::math::NewtonRegularizationStrategy<VD>> {
    double p = 0; long asked = 0; bool missing = false;
    double regularizationParameter() const override { return p; }
    void setRegularizationParameter(double x) override { p = x; }
    bool adjustRegularizationParameter() override { ++asked; if (!errorEstimator() || !newtonDescentDirection()) missing = true; return false; }
};

static void run(Ctx& ctx) {
    registerAll();
    static WeightNorm::Registrator reg("weighted"); (void)reg;
    static Shown::Registrator reg2("shown"); (void)reg2;
    ctx.expectAtLeast("component changes", 3000); ctx.expectAtLeast("strategies asked", 300);
    auto withNorm = [](Rng& g, SolverSpec s) {
        if ((s.id.substr(0, 5) == "dopri" || s.id == "rosenbrock_sw2_4" || s.id == "extrapolator") && g.chance(.4)) { Params q; if (g.chance(.8)) q["weight"] = g.logu(.01, 100); s.p["enorm"] = PValue("weighted", q); s.text = s.id + textOf(s.p); }
        return s;
    };
    ctx.expectAtLeast("custom error norms computed", 500);
    ctx.rule("twin solvers with the same configuration: one given all parameters at once and then the system, the other in random order, key by key, with other settings, systems and step sizes before the final ones; "
             "both then start from the same state and must agree bit for bit in states, reports and right hand side evaluations; the same for Newton solvers, with components set as objects or by parameters; "
             "non-trivial: at least one decoy and 3 compared steps, or an iteration; distinct by configuration and system");
    for (auto k : {"steps compared", "actions", "decoys", "solutions compared", "iterations compared"}) ctx.expectAtLeast(k, 1000);
    ctx.expectAtLeast("events compared", 200);

    ctx.section("solvers", 2500, 50000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec spec = withNorm(g, randomSpec(g)); WeightNorm::uses = 0;
        c.desc << spec.text << " ||";
        auto A = newSolver(spec.id), B = newSolver(spec.id);
        if (!spec.p.empty()) A->setParameters(spec.p);
        Params full = A->parameters(); full.erase("h_init");       // the step size is set separately
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        double t0 = g.uni(-2, 2), h = g.logu(.005, .2); DV x0 = rndv(g, 2 * n2 + n1, 1.5);
        std::ostringstream sys;
        auto fa = randomHybrid(g, n2, n1, g.u(0, 3), t0, x0, sys), fb = cloneOf(*fa);
        fa->budget = fb->budget = 100000;
        // what is done to B
        std::vector<Action> params, rhs, steps;
        int decoys = 0;
        if (g.chance(.7)) for (int k = 0, m = g.i(1, 2); k < m; ++k) {
            SolverSpec o = withNorm(g, randomSpec(g, spec.id)); if (o.p.empty()) continue;
            if (g.chance(.4)) { auto it = o.p.begin(); std::advance(it, g.u(0, unsigned(o.p.size() - 1))); Params q; q[it->first] = it->second; o.p = q; }
            Params q = o.p; params.push_back(Action{0, "(" + fullText(q) + " )", [B, q] { B->setParameters(q); }}); ++decoys;
        }
        std::vector<Params> parts;
        for (auto& k : full) { if (parts.empty() || g.chance(.6)) parts.push_back(Params()); parts.back()[k.first] = k.second; }
        shuffle(g, parts);
        for (auto& q : parts) params.push_back(Action{0, fullText(q), [B, q] { B->setParameters(q); }});
        if (g.chance(.5)) {
            unsigned m2 = g.u(0, 2), m1 = g.u(m2 ? 0 : 1, 3); DV x = rndv(g, 2 * m2 + m1, 1); double t = g.uni(-1, 1), hh = g.logu(.005, .2); std::ostringstream dummy;
            auto o = randomHybrid(g, m2, m1, g.u(0, 2), t, x, dummy); o->budget = 100000; bool ready = g.chance(.4);
            rhs.push_back(Action{0, ready ? "(another system, state)" : "(another system)", [B, o, ready, t, x, hh] { B->setOdeRhs(o); if (ready) { B->setInitialStepSize(hh); B->setInitialState(t, toV(x)); } }}); ++decoys;
        }
        rhs.push_back(Action{0, "system", [B, fb] { B->setOdeRhs(fb); }});
        if (g.chance(.3)) { double hh = g.logu(.005, .2); steps.push_back(Action{0, "(step size)", [B, hh] { B->setInitialStepSize(hh); }}); ++decoys; }
        steps.push_back(Action{0, "step size", [B, h] { B->setInitialStepSize(h); }});
        // another system that is made ready sets a step size, too: the final one comes after it
        std::vector<std::vector<Action>> seqs = {params};
        if (g.chance(.5)) { rhs.insert(rhs.end(), steps.begin(), steps.end()); seqs.push_back(rhs); } else { steps.insert(steps.begin(), rhs.begin(), rhs.end() - 1); steps.push_back(rhs.back()); seqs.push_back(steps); }
        for (auto& a : interleave(g, seqs)) { c.desc << " [" << a.text << "]"; a.f(); c.count("actions"); }
        c.count("decoys", decoys);
        c.desc << sys.str() << " h=" << h;
        Params now = B->parameters(); now.erase("h_init");
        if (fullText(now) != fullText(full)) c.die("parameters", "the parameters reported are" + fullText(now) + ", those set are" + fullText(full));
        A->setOdeRhs(fa); A->setInitialStepSize(h);
        A->setInitialState(t0, toV(x0)); B->setInitialState(t0, toV(x0));
        StepLog la(A), lb(B);
        long ca = fa->calls, cb = fb->calls; int cmp = 0;
        for (int k = 0, steps = g.i(3, 15); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ", ea, eb;
            try { A->doStep(); } catch (const Runaway&) { ea = "runaway"; } catch (const std::exception& e) { ea = e.what(); }
            try { B->doStep(); } catch (const Runaway&) { eb = "runaway"; } catch (const std::exception& e) { eb = e.what(); }
            if (ea.find("has not been told") != ea.npos) c.die("error-norm", at + ea);
            if (ea != eb) c.die("exception", at + "'" + ea + "' as against '" + eb + "'");
            if (!same(A->initialTime(), B->initialTime()) || !sameV(fromV(A->initialState()), fromV(B->initialState())))
                c.die("state", at + "t=" + num(A->initialTime()) + " " + list(fromV(A->initialState())) + " as against t=" + num(B->initialTime()) + " " + list(fromV(B->initialState())));
            if (la.recs.size() != lb.recs.size()) c.die("attempts", at + std::to_string(la.recs.size()) + " attempts as against " + std::to_string(lb.recs.size()));
            for (size_t j = 0; j < la.recs.size(); ++j) {
                auto &a = la.recs[j], &b = lb.recs[j];
                if (a.posted != b.posted || !same(a.hPre, b.hPre) || (a.posted && (!same(a.h, b.h) || a.accepted != b.accepted || a.changed != b.changed || a.truncated != b.truncated || !same(a.err, b.err) || a.izf != b.izf || a.trans != b.trans)))
                    c.die("report", at + "attempt " + std::to_string(j) + " is reported differently");
                if (a.posted && a.truncated) c.count("events compared");
            }
            la.recs.clear(); lb.recs.clear();
            if (fa->calls - ca != fb->calls - cb) c.die("evaluations", at + std::to_string(fa->calls - ca) + " evaluations as against " + std::to_string(fb->calls - cb));
            c.count("steps compared"); ++cmp;
            if (!ea.empty()) break;
            DV y = fromV(A->initialState());
            if (!finite(y) || maxAbs(y) > 1e6) break;
        }
        c.count("custom error norms computed", WeightNorm::uses);
        if (cmp >= 3 && decoys) c.nontrivial(c.desc.str());
    });

    // The system is exchanged between steps: the solver goes on as a new one that starts there
    ctx.expectAtLeast("exchanged systems", 1000);
    ctx.section("exchange", 2500, 40000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec spec = withNorm(g, randomSpec(g)); WeightNorm::uses = 0;
        if (spec.id == "extrapolator" && g.chance(.3)) { auto r = g.pick(std::vector<std::string>{"i_euler", "rosenbrock_sw2_4", "dopri_45"}); Params q; q["eventctl"] = ""; if (r != "i_euler") q["disable_error_check"] = true; spec.p["reference_solver"] = PValue(r, q); spec.text = spec.id + textOf(spec.p); }
        c.desc << spec.text;
        auto A = newSolver(spec.id);
        if (!spec.p.empty()) A->setParameters(spec.p);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        double t = g.uni(-2, 2), h = g.logu(.005, .2); DV x = rndv(g, 2 * n2 + n1, 1.5);
        auto f = randomHybrid(g, n2, n1, g.u(0, 2), t, x, c.desc); f->budget = 100000;
        A->setOdeRhs(f); A->setInitialStepSize(h); A->setInitialState(t, toV(x));
        c.desc << " h=" << h;
        StepLog la(A);
        int cmp = 0;
        auto step = [&](SolverPtr s) { try { s->doStep(); } catch (const Runaway&) { return std::string("runaway"); } catch (const std::exception& e) { return std::string(e.what()); } return std::string(); };
        for (int round = 0, rounds = g.i(1, 2); round <= rounds; ++round) {
            SolverPtr B; std::shared_ptr<HybridRhs> fb; std::unique_ptr<StepLog> lb; long ca = 0, cb = 0;
            if (round) {
                auto old = f;
                std::ostringstream sys; t = A->initialTime(); x = fromV(A->initialState());
                f = randomHybrid(g, n2, n1, g.u(0, 3), t, x, sys); f->budget = 100000;
                A->setOdeRhs(f);
                t = A->initialTime(); x = fromV(A->initialState());
                c.desc << "; exchanged for" << sys.str();
                B = newSolver(spec.id); if (!spec.p.empty()) B->setParameters(spec.p);
                fb = cloneOf(*f); B->setOdeRhs(fb);
                lb.reset(new StepLog(B));
                c.count("exchanged systems");
            }
            ca = f->calls; if (fb) cb = fb->calls;
            for (int k = 0, steps = g.i(1, 6); k < steps; ++k) {
                std::string at = "step " + std::to_string(k) + " after the exchange: ", ea, eb;
                la.recs.clear(); la.open = false;
                ea = step(A);
                if (!round) { if (!ea.empty()) return; if (!(maxAbs(fromV(A->initialState())) < 1e4)) return; continue; }
                if (!k) { if (la.recs.empty()) return; B->setInitialStepSize(la.recs[0].hPre); B->setInitialState(t, toV(x)); cb = fb->calls; }
                lb->recs.clear();
                eb = step(B);
                if (ea != eb) c.die("exchange-exception", at + "'" + ea + "' as against '" + eb + "' of a new solver");
                if (!same(A->initialTime(), B->initialTime()) || !sameV(fromV(A->initialState()), fromV(B->initialState())))
                    c.die("exchange-state", at + "t=" + num(A->initialTime()) + " " + list(fromV(A->initialState())) + " as against t=" + num(B->initialTime()) + " " + list(fromV(B->initialState())) + " of a new solver");
                if (la.recs.size() != lb->recs.size()) c.die("exchange-attempts", at + std::to_string(la.recs.size()) + " attempts as against " + std::to_string(lb->recs.size()) + " of a new solver");
                for (size_t j = 0; j < la.recs.size(); ++j) {
                    auto &a = la.recs[j], &b = lb->recs[j];
                    if (a.posted != b.posted || !same(a.hPre, b.hPre) || (a.posted && (!same(a.h, b.h) || a.accepted != b.accepted || a.changed != b.changed || a.truncated != b.truncated || !same(a.err, b.err) || a.izf != b.izf || a.trans != b.trans)))
                        c.die("exchange-report", at + "attempt " + std::to_string(j) + " is reported differently");
                    if (a.posted && a.truncated) c.count("events compared");
                }
                c.count("steps compared"); ++cmp;
                if (!ea.empty()) return;
                if (!(maxAbs(fromV(A->initialState())) < 1e4)) return;
            }
        }
        if (cmp >= 2) c.nontrivial(c.desc.str());
    });

    // The configuration is changed between steps (methods that keep nothing from step to step): the solver goes on as a new one with that configuration
    ctx.expectAtLeast("changed configurations", 1000);
    ctx.section("reconfigure", 2000, 30000, [&](Case& c) {
        Rng& g = c.rng;
        std::string id = g.pick(std::vector<std::string>{"euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "extrapolator", "extrapolator", "i_euler"});
        auto draw = [&]() {
            SolverSpec s;
            while (true) {
                s = withNorm(g, randomSpec(g, id));
                if (id == "extrapolator" && s.p["reference_solver"].value<std::string>() == "rosenbrock_w1") continue;
                if (id == "i_euler") { Params a; a["ddir"] = "simple"; if (s.p.count("algsolver")) a = s.p["algsolver"].safeNestedParameters(); a["ddir"] = "simple"; s.p["algsolver"] = PValue("newton", a); }
                return s;
            }
        };
        SolverSpec spec = draw(); WeightNorm::uses = 0;
        c.desc << id << fullText(spec.p);
        auto A = newSolver(id);
        if (!spec.p.empty()) A->setParameters(spec.p);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        double t = g.uni(-2, 2), h = g.logu(.005, .2); DV x = rndv(g, 2 * n2 + n1, 1.5);
        auto f = randomHybrid(g, n2, n1, g.u(0, 2), t, x, c.desc); f->budget = 200000;
        A->setOdeRhs(f); A->setInitialStepSize(h); A->setInitialState(t, toV(x));
        c.desc << " h=" << h;
        StepLog la(A);
        bool events = false; int cmp = 0;
        auto step = [&](SolverPtr s) { try { s->doStep(); } catch (const Runaway&) { return std::string("runaway"); } catch (const std::exception& e) { return std::string(e.what()); } return std::string(); };
        for (int round = 0, rounds = g.i(1, 3); round <= rounds && !events; ++round) {
            SolverPtr B; std::shared_ptr<HybridRhs> fb; std::unique_ptr<StepLog> lb;
            if (round) {
                SolverSpec o = draw();
                Params q; for (auto& k : o.p) if (g.chance(.6)) q[k.first] = k.second;
                if (q.empty()) continue;
                t = A->initialTime(); x = fromV(A->initialState());
                A->setParameters(q);
                c.desc << "; then" << fullText(q);
                if (!same(t, A->initialTime()) || !sameV(x, fromV(A->initialState()))) c.die("reconfigure-moves", "changing the configuration changes the state from " + list(x) + " to " + list(fromV(A->initialState())));
                B = newSolver(id); Params full = A->parameters(); full.erase("h_init"); B->setParameters(full);
                fb = cloneOf(*f); B->setOdeRhs(fb);
                lb.reset(new StepLog(B));
                c.count("changed configurations");
            }
            for (int k = 0, steps = g.i(1, 6); k < steps; ++k) {
                std::string at = "step " + std::to_string(k) + " after the change: ", ea, eb;
                la.recs.clear(); la.open = false;
                ea = step(A);
                if (!round) { for (auto& r : la.recs) events = events || r.truncated; if (!ea.empty() || events || !(maxAbs(fromV(A->initialState())) < 1e4)) return; continue; }
                if (!k) { if (la.recs.empty()) return; B->setInitialStepSize(la.recs[0].hPre); B->setInitialState(t, toV(x)); }
                lb->recs.clear();
                eb = step(B);
                if (ea != eb) c.die("reconfigure-exception", at + "'" + ea + "' as against '" + eb + "' of a new solver");
                if (!same(A->initialTime(), B->initialTime()) || !sameV(fromV(A->initialState()), fromV(B->initialState())))
                    c.die("reconfigure-state", at + "t=" + num(A->initialTime()) + " " + list(fromV(A->initialState())) + " as against t=" + num(B->initialTime()) + " " + list(fromV(B->initialState())) + " of a new solver");
                if (la.recs.size() != lb->recs.size()) c.die("reconfigure-attempts", at + std::to_string(la.recs.size()) + " attempts as against " + std::to_string(lb->recs.size()) + " of a new solver");
                for (size_t j = 0; j < la.recs.size(); ++j) {
                    auto &a = la.recs[j], &b = lb->recs[j];
                    if (a.posted != b.posted || !same(a.hPre, b.hPre) || (a.posted && (!same(a.h, b.h) || a.accepted != b.accepted || a.changed != b.changed || a.truncated != b.truncated || !same(a.err, b.err) || a.izf != b.izf || a.trans != b.trans)))
                        c.die("reconfigure-report", at + "attempt " + std::to_string(j) + " is reported differently");
                    events = events || a.truncated;
                }
                c.count("steps compared"); ++cmp;
                if (!ea.empty() || !(maxAbs(fromV(A->initialState())) < 1e4)) return;
            }
        }
        c.count("custom error norms computed", WeightNorm::uses);
        if (cmp >= 2) c.nontrivial(c.desc.str());
    });

    ctx.section("newton", 4000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        using namespace ctm::math;
        typedef NewtonSolverInterface<VD> NSI;
        auto A = ctm::Factory<NSI>::newInstance("newton"), B = ctm::Factory<NSI>::newInstance("newton");
        auto choose = [&]() {
            Params p, e, j;
            if (g.chance(.8)) p["ddir"] = g.pick(std::vector<std::string>{"simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart"});
            if (g.chance(.6)) p["jacobian"] = g.chance(.5) ? "default" : "sparse";
            if (g.chance(.3)) { if (g.chance(.5)) { j["width"] = g.u(1, 3); p["jtrim"] = PValue("width", j); } else { j["threshold"] = g.logu(1e-3, .3); p["jtrim"] = PValue("threshold", j); } }
            if (g.chance(.5)) { e["abs_tol"] = g.logu(1e-9, 1e-5); if (g.chance(.5)) e["rel_max_threshold"] = g.logu(1e-6, 1e-2); p["err"] = PValue("simple", e); }
            if (g.chance(.3)) p["max_iterations"] = g.u(1, 60);
            if (g.chance(.2)) p["linsearch"] = "simple";
            if (g.chance(.2)) p["itperf"] = "default";
            return p;
        };
        Params want = choose();
        want.erase("itperf");
        A->setParameters(want);
        Params full = A->parameters();
        c.desc << fullText(want) << " ||";
        unsigned n = g.u(1, 7), m = g.u(1, 7);
        auto fa = g.chance(.7) ? dominantMapping(g, n, .4, .5) : randomMapping(g, n, n, .4, true, .6), fo = dominantMapping(g, m, .4, .5);
        auto fb = std::make_shared<std::decay<decltype(*fa)>::type>(*fa);
        fa->budget = fb->budget = fo->budget = 5000;
        int decoys = 0;
        std::vector<Action> params, maps;
        if (g.chance(.7)) for (int k = 0, q = g.i(1, 2); k < q; ++k) { Params p = choose(); if (p.empty()) continue; params.push_back(Action{0, "(" + fullText(p) + " )", [B, p] { B->setParameters(p); }}); ++decoys; }
        // one by one; a trimmer belongs to a provider, so it is set after it
        std::vector<Params> parts; Params trim;
        for (auto& k : full) { if (k.first == "jtrim") { trim[k.first] = k.second; continue; } if (parts.empty() || g.chance(.7)) parts.push_back(Params()); parts.back()[k.first] = k.second; }
        shuffle(g, parts); parts.push_back(trim);
        bool objects = g.chance(.3);
        for (auto& p : parts) params.push_back(Action{0, (objects ? "objects" : "") + fullText(p), [B, p, objects] {
            if (!objects) return B->setParameters(p);
            for (auto& k : p) {
                auto& v = k.second; auto id = v.value<std::string>();
                auto load = [&](ctm::OptionalParameters& o) { if (auto q = v.nestedParameters()) o.setParameters(*q); };
                if (k.first == "ddir") { auto o = ctm::Factory<NewtonDescentDirection<VD>>::newInstance(id); if (auto p = dynamic_cast<ctm::OptionalParameters*>(o.get())) load(*p); B->setComponent(o); }
                else if (k.first == "jacobian") { auto o = ctm::Factory<JacobianProvider<VD>>::newInstance(id); if (auto p = dynamic_cast<ctm::OptionalParameters*>(o.get())) load(*p); B->setComponent(o); }
                else if (k.first == "err") { auto o = ctm::Factory<ErrorEstimator<VD>>::newInstance(id); if (auto p = dynamic_cast<ctm::OptionalParameters*>(o.get())) load(*p); B->setComponent(o); }
                else if (k.first == "linsearch") { auto o = ctm::Factory<NewtonLinearSearch<VD>>::newInstance(id); if (auto p = dynamic_cast<ctm::OptionalParameters*>(o.get())) load(*p); B->setComponent(o); }
                else { Params q; q[k.first] = v; B->setParameters(q); }
            }
        }});
        if (g.chance(.5)) { bool solve = g.chance(.5); DV x = rndv(g, m, 1); maps.push_back(Action{0, solve ? "(another equation, solved)" : "(another equation)", [B, fo, solve, x] { B->setComponent(std::static_pointer_cast<VectorMapping<VD>>(fo)); if (solve) { B->setInitialGuess(toV(x)); try { B->run(); } catch (const std::exception&) {} } }}); ++decoys; }
        maps.push_back(Action{0, "equation", [B, fb] { B->setComponent(std::static_pointer_cast<VectorMapping<VD>>(fb)); }});
        for (auto& a : interleave(g, {params, maps})) { c.desc << " [" << a.text << "]"; a.f(); c.count("actions"); }
        c.count("decoys", decoys);
        if (fullText(B->parameters()) != fullText(full)) c.die("newton-parameters", "the parameters reported are" + fullText(B->parameters()) + ", those set are" + fullText(full));
        A->setComponent(std::static_pointer_cast<VectorMapping<VD>>(fa));
        for (int r = 0, rounds = g.i(1, 3); r < rounds; ++r) {
            DV x = rndv(g, n, 2); bool hard = r == 0 || g.chance(.5);
            std::string ea, eb; int sa = -1, sb = -1;
            std::vector<DV> ia, ib;
            { int k = A->iterationObservers.add([&](unsigned, const NSI* s) { ia.push_back(fromV(s->currentSolution())); return false; });
              A->setInitialGuess(toV(x), hard); try { sa = A->run(); } catch (const std::exception& e) { ea = e.what(); } A->iterationObservers.remove(k); }
            { int k = B->iterationObservers.add([&](unsigned, const NSI* s) { ib.push_back(fromV(s->currentSolution())); return false; });
              B->setInitialGuess(toV(x), hard); try { sb = B->run(); } catch (const std::exception& e) { eb = e.what(); } B->iterationObservers.remove(k); }
            std::string at = "solution " + std::to_string(r) + ": ";
            if (ea != eb) c.die("newton-exception", at + "'" + ea + "' as against '" + eb + "'");
            if (sa != sb) c.die("newton-status", at + std::to_string(sa) + " as against " + std::to_string(sb));
            if (ia.size() != ib.size()) c.die("newton-iterations", at + std::to_string(ia.size()) + " iterations as against " + std::to_string(ib.size()));
            for (size_t k = 0; k < ia.size(); ++k) if (!sameV(ia[k], ib[k])) c.die("newton-iterate", at + "iteration " + std::to_string(k) + " ends at " + list(ia[k]) + " as against " + list(ib[k]));
            c.count("iterations compared", long(ia.size())); c.count("solutions compared");
            if (!ea.empty()) break;
        }
        if (decoys) c.nontrivial(c.desc.str());
    });

    // The parts of the implicit solver are exchanged: the step and what is announced about it are those of the parts in use
    ctx.section("components", 700, 12000, [&](Case& c) {
        Rng& g = c.rng;
        using namespace ctm::math;
        typedef NewtonSolverInterface<VD> NSI;
        typedef OdeSolverImplicitEuler<VD> IE;
        auto A = std::make_shared<IE>(), B = std::make_shared<IE>();
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3), m = n2 + n1;
        auto fa = randomRhs(g, n2, n1, .4, g.uni(.2, 2), g.uni(0, 1), g.uni(0, 2)); fa->notify = false; fa->budget = 100000;
        auto fb = std::make_shared<GenRhs>(*fa);
        double h = g.logu(.005, .1); DV x0 = rndv(g, fa->n(), 1.5);
        int kd = g.i(0, 5); bool sparse = g.chance(.5), ordered = g.chance(.5);
        auto perm = g.perm(m);
        auto order = [&](std::vector<unsigned> q) { auto r = std::make_shared<VectorReorderingMapping<VD>>(); r->setInputOrdering(q); r->setOutputOrdering(q); return r; };
        c.desc << ddirNames[kd] << (sparse ? " sparse" : " dense") << (ordered ? " ordered" : "") << " h=" << h << " " << fa->text() << " x0=" << list(x0) << " ||";
        A->newtonSolver()->setComponent(makeDDir(kd)); A->newtonSolver()->setComponent(makeJProv(sparse));
        if (ordered) A->setReorder(order(perm));
        // the pool of parts for B
        std::vector<std::shared_ptr<NSI>> newtons = {B->newtonSolver(), std::make_shared<Newton>(), std::make_shared<Newton>()};
        std::vector<std::shared_ptr<DDir>> dirs; std::vector<int> kinds;
        for (int k = 0; k < 3; ++k) { kinds.push_back(g.i(0, 5)); dirs.push_back(makeDDir(kinds.back())); }
        kinds[0] = kd; dirs[0] = makeDDir(kd);
        int changes = 0, stepsB = 0;
        bool haveRhs = false; double t = 0;
        auto final = order(perm);
        for (int k = 0, q = g.i(1, 10); k < q; ++k) {
            int op = g.i(0, 8);
            auto nw = B->newtonSolver();
            ++changes;
            if (op == 0) { B->setNewtonSolver(nullptr); c.desc << " [no newton]"; }
            else if (op == 1 || !nw) { int i = g.i(0, 2); if (g.chance(.3) && !nw) { B->setReorder(g.chance(.6) ? (g.chance(.5) ? final : order(g.perm(m))) : nullptr); c.desc << " [ordered without newton]"; } B->setNewtonSolver(newtons[size_t(i)]); c.desc << " [newton " << i << "]"; }
            else if (op == 2) { int i = g.i(0, 2); nw->setComponent(dirs[size_t(i)]); c.desc << " [direction " << i << " " << ddirNames[kinds[size_t(i)]] << "]"; }
            else if (op == 3) { nw->setComponent(std::static_pointer_cast<NewtonIterationPerformer<VD>>(std::make_shared<NewtonIterationPerformerImpl<VD>>())); c.desc << " [performer]"; }
            else if (op == 4) { nw->setComponent(makeJProv(g.chance(.5))); c.desc << " [provider]"; }
            else if (op == 5) { bool on = g.chance(.6); B->setReorder(on ? (g.chance(.5) ? final : order(g.perm(m))) : nullptr); c.desc << (on ? " [ordered]" : " [not ordered]"); }
            else if (op == 6) { B->setOdeRhs(fb); haveRhs = true; c.desc << " [system]"; }
            else if (op == 7) { Params p; p["ddir"] = ddirNames[g.i(0, 5)]; Params q; q["algsolver"] = PValue("newton", p); B->setParameters(q); c.desc << " [newton by parameters]"; }
            else if (haveRhs) { B->setInitialStepSize(h); B->setInitialState(t, toV(x0)); try { B->doStep(); ++stepsB; } catch (const ctm::cxx::exception&) {} c.desc << " [step]"; }
        }
        c.count("component changes", changes);
        // what B ends with; the order of the three does not matter
        std::vector<int> last = {0, 1, 2}; shuffle(g, last);
        bool viaNull = g.chance(.4);
        if (viaNull) B->setNewtonSolver(nullptr);
        auto nb = newtons[g.u(0, 2)];
        for (int q : last) {
            if (q == 0) B->setOdeRhs(fb);
            if (q == 1) B->setReorder(ordered ? final : nullptr);
            if (q == 2) { if (viaNull || g.chance(.5)) B->setNewtonSolver(nb); else { if (!B->newtonSolver()) B->setNewtonSolver(nb); nb = B->newtonSolver(); } nb->setComponent(dirs[0]); nb->setComponent(makeJProv(sparse)); }
            c.desc << (q == 0 ? " system" : q == 1 ? " order" : viaNull ? " newton (there was none)" : " newton");
        }
        A->setOdeRhs(fa);
        for (auto s : {A, B}) { s->setInitialStepSize(h); s->setInitialState(0, toV(x0)); }
        struct Seen { std::vector<std::pair<unsigned, DV>> its; std::vector<bool> refreshes; } sa, sb;
        auto watch = [](std::shared_ptr<IE> s, Seen& w) {
            s->iterationObservers.add([&w](unsigned k, const NSI* q) -> bool { w.its.emplace_back(k, fromV(q->currentSolution())); return false; });
            s->jacobianRefreshObservers.add([&w](bool on) { w.refreshes.push_back(on); });
        };
        watch(A, sa); watch(B, sb);
        for (int k = 0, steps = g.i(2, 6); k < steps; ++k) {
            std::string at = "step " + std::to_string(k) + ": ", ea, eb;
            try { A->doStep(); } catch (const Runaway&) { ea = "runaway"; } catch (const std::exception& e) { ea = e.what(); }
            try { B->doStep(); } catch (const Runaway&) { eb = "runaway"; } catch (const std::exception& e) { eb = e.what(); }
            if (ea != eb) c.die("components-exception", at + "'" + ea + "' as against '" + eb + "'");
            if (!same(A->initialTime(), B->initialTime()) || !sameV(fromV(A->initialState()), fromV(B->initialState()))) c.die("components-state", at + list(fromV(A->initialState())) + " as against " + list(fromV(B->initialState())));
            if (sa.refreshes != sb.refreshes) c.die("components-refresh", at + std::to_string(sa.refreshes.size()) + " Jacobian refresh notifications as against " + std::to_string(sb.refreshes.size()));
            if (sa.its.size() != sb.its.size()) c.die("components-iterations", at + std::to_string(sa.its.size()) + " iterations are announced as against " + std::to_string(sb.its.size()));
            for (size_t j = 0; j < sa.its.size(); ++j) if (sa.its[j].first != sb.its[j].first || !sameV(sa.its[j].second, sb.its[j].second)) c.die("components-iterations", at + "iteration " + std::to_string(j) + " differs");
            c.count("steps compared"); c.count("iterations compared", long(sa.its.size()));
            if (!ea.empty()) break;
        }
        if (g.chance(.3)) { // the parts outlive the solver
            B.reset();
            auto f = dominantMapping(g, 3, .4, .5);
            nb->setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
            nb->setInitialGuess(toV(rndv(g, 3, 1)), true);
            size_t before = sb.its.size();
            nb->run();
            nb->setComponent(makeDDir(0));
            if (sb.its.size() != before) c.die("components-outlive", "iterations are announced by a solver that is no more");
            c.count("parts outlived the solver");
        }
        if (changes >= 2) c.nontrivial(c.desc.str());
    });

    // The parts of the Newton solver know each other, in whatever order they have been put together
    ctx.section("wiring", 1500, 25000, [&](Case& c) {
        Rng& g = c.rng;
        using namespace ctm::math;
        typedef NewtonSolverInterface<VD> NSI;
        Newton ns; NSI& s = ns;
        std::shared_ptr<VectorMapping<VD>> map;
        std::shared_ptr<NewtonRegularizationStrategy<VD>> rs;
        auto ip = s.iterationPerformer(); auto ee = ip->errorEstimator(); auto dd = ip->newtonDescentDirection(); auto ls = ip->newtonLinearSearch(); auto jp = dd->jacobianProvider();
        std::shared_ptr<JacobianTrimmer<VD>> jt;
        unsigned n = g.u(1, 5);
        auto newMap = [&]() { auto f = dominantMapping(g, n, .4, .5); f->budget = 100000; return f; };
        std::shared_ptr<TestMapping> cur;
        for (int k = 0, q = g.i(3, 14); k < q; ++k) {
            int op = g.i(0, 7);
            bool par = op < 6 && g.chance(.4);
            if (par) {
                Params p; const char* keys[] = {"itperf", "err", "ddir", "linsearch", "jacobian", "regularizer"};
                std::string v = op == 0 ? "default" : op == 2 ? ddirNames[g.i(0, 5)] : op == 4 ? (g.chance(.5) ? "default" : "sparse") : op == 5 ? "shown" : "simple";
                p[keys[op]] = v; c.desc << " {" << keys[op] << "=" << v << "}";
                s.setParameters(p);
                auto i = s.iterationPerformer();
                if (!i || !i->newtonDescentDirection()) c.die("wiring", "a part is missing");
                #define VF_RENEWED(var, val) { auto o = val; if (o == var) c.die("wiring-renewed", std::string(keys[op]) + " has not been replaced"); var = o; }
                if (op == 0) VF_RENEWED(ip, i)
                if (op == 1) VF_RENEWED(ee, i->errorEstimator())
                if (op == 2) VF_RENEWED(dd, i->newtonDescentDirection())
                if (op == 3) VF_RENEWED(ls, i->newtonLinearSearch())
                if (op == 4) { VF_RENEWED(jp, i->newtonDescentDirection()->jacobianProvider()) jt = nullptr; }
                if (op == 5) VF_RENEWED(rs, s.regularizationStrategy())
                #undef VF_RENEWED
            }
            else switch (op) {
            case 0: ip = std::make_shared<NewtonIterationPerformerImpl<VD>>(); s.setComponent(ip); c.desc << " performer"; break;
            case 1: ee = std::make_shared<SimpleErrorEstimator<VD>>(); s.setComponent(ee); c.desc << " estimator"; break;
            case 2: dd = makeDDir(g.i(0, 5)); s.setComponent(dd); c.desc << " direction"; break;
            case 3: ls = std::make_shared<SimpleNewtonLinearSearch<VD>>(); s.setComponent(ls); c.desc << " search"; break;
            case 4: jp = makeJProv(g.chance(.5)); jt = nullptr; s.setComponent(jp); c.desc << " provider"; break;
            case 5: if (g.chance(.8)) rs = std::make_shared<Shown>(); else rs = nullptr; s.setComponent(rs); c.desc << (rs ? " strategy" : " no strategy"); break;
            case 6: cur = newMap(); map = cur; s.setComponent(map); c.desc << " equation"; break;
            default: jt = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); { Params p; p["width"] = 10u; jt->setParameters(p); } s.setComponent(jt); c.desc << " trimmer"; break;
            }
            c.count("component changes");
            auto i = s.iterationPerformer();
            if (i != ip) c.die("wiring", "the iteration performer is another one");
            if (i->errorEstimator() != ee) c.die("wiring", "the error estimator is another one");
            if (i->newtonDescentDirection() != dd) c.die("wiring", "the descent direction is another one");
            if (i->newtonLinearSearch() != ls) c.die("wiring", "the line search is another one");
            if (dd->jacobianProvider() != jp) c.die("wiring", "the Jacobian provider is another one");
            if (jp->jacobianTrimmer() != jt) c.die("wiring", "the Jacobian trimmer is another one");
            if (i->mapping() != map || dd->mapping() != map || ls->mapping() != map) c.die("wiring", "a part works on another equation");
            if (map && jp->mapping() != map) c.die("wiring", "the Jacobian is to be that of another equation");
            if (s.regularizationStrategy() != rs) c.die("wiring", "the regularization strategy is another one");
            if (rs && (rs->errorEstimator() != ee || rs->newtonDescentDirection() != dd)) c.die("wiring-strategy", "the regularization strategy has not been told of a part");
            auto p = s.parameters();
            if (bool(rs) != (p["regularizer"].value<std::string>() == "shown")) { if (!rs || p["regularizer"].value<std::string>() != "") c.die("wiring-parameters", "regularizer=" + p["regularizer"].value<std::string>()); }
            if (cur && g.chance(.3)) {
                Newton plain; ns.setIterationCountLimit(100);
                s.setInitialGuess(toV(rndv(g, n, 1)), true);
                auto st = s.run();
                if (st == NSI::Converged) { if (!(maxAbs(cur->eval(fromV(s.currentSolution()))) <= 1e-6 * 1.000001)) c.die("wiring-solution", list(fromV(s.currentSolution()))); c.count("wired solutions"); }
                if (auto q = std::dynamic_pointer_cast<Shown>(rs)) { if (!q->asked) c.die("wiring-strategy", "the regularization strategy is not asked"); if (q->missing) c.die("wiring-strategy", "the regularization strategy has not been told of a part"); c.count("strategies asked"); }
            }
        }
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
