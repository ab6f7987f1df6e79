// Pieces of work with the library that depend on a seed only and record what they produced; used alone, repeatedly and in threads.
#pragma once
#include "cfg_common.h"
#include "lu_common.h"
#include "newton_common.h"
#include "ode_num_int/ode/util/RichardsonErrorCalculator.h"
#include "ode_num_int/util/cxx_str_fmt_num.h"
#include <thread>
#include <locale>
#include <atomic>
namespace vf {
// What a job produced, in order; compared item by item
struct Trace {
    std::vector<std::pair<const char*, uint64_t>> items;
    void d(const char* l, double x) { uint64_t u; if (std::isnan(x)) u = 0x7ff8000000000000ull; else { x += 0.; std::memcpy(&u, &x, 8); } items.push_back({l, u}); }
    void v(const char* l, const DV& x) { i(l, long(x.size())); for (double y : x) d(l, y); }
    void i(const char* l, long x) { items.push_back({l, uint64_t(x)}); }
    void s(const char* l, const std::string& x) { items.push_back({l, hashStr(x)}); }
};
// The order in which the jobs progressed (relaxed: must not order what the jobs do)
static std::atomic<unsigned> turn{0};
static std::atomic<unsigned char> order[8192];

class ThreadRhs : public HybridRhs, public ctm::FactoryMixin<ThreadRhs, Rhs> {
public:
    static const HybridRhs*& current() { static thread_local const HybridRhs* p = nullptr; return p; }
    ThreadRhs() {
        if (!current()) return;
        const HybridRhs& r = *current();
        n2 = r.n2; n1 = r.n1; c = r.c; b = r.b; om = r.om; ph = r.ph; terms = r.terms; budget = r.budget; zf = r.zf; distort = r.distort; faultAt = r.faultAt;
    }
};

struct Job {
    int kind; uint64_t seed; std::string file; std::string text;
    unsigned id = 0; bool threaded = true;
    void pause(Rng& j) const {
        if (!threaded) return;
        unsigned k = turn.fetch_add(1, std::memory_order_relaxed);
        if (k < sizeof order) order[k].store((unsigned char)id, std::memory_order_relaxed);
        int q = j.i(0, 19);
        if (q < 5) std::this_thread::yield();
        else if (q == 5) ::usleep(useconds_t(j.i(1, 120)));
    }
};

// ---- the jobs: every one depends on its seed only
struct SolverJob {
    Rng g, pace; const Job& j; SolverSpec spec; SolverPtr s; std::shared_ptr<HybridRhs> f; double h, t0; DV x0; std::unique_ptr<StepLog> log; std::ostringstream desc;
    SolverJob(const Job& j) : g(j.seed), pace(j.seed ^ j.id ^ 77), j(j) {}
    void make() {
        spec = randomSpec(g);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        t0 = g.uni(-2, 2); x0 = rndv(g, 2 * n2 + n1, 1);
        f = randomHybrid(g, n2, n1, g.u(0, 2), t0, x0, desc); f->budget = 40000;
        h = g.logu(.005, .1);
        s = newSolver(spec.id);
        if (!spec.p.empty()) s->setParameters(spec.p);
    }
    void start() {
        s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t0, toV(x0));
        log.reset(new StepLog(s));
    }
    void steps(Trace& t, int n) {
        for (int k = 0; k < n; ++k) {
            j.pause(pace);
            std::string e;
            try { s->doStep(); } catch (const std::exception& x) { e = x.what(); }
            t.s("exception", e);
            t.d("time", s->initialTime()); t.v("state", fromV(s->initialState()));
            t.i("evaluations", f->calls); t.i("attempts", long(log->recs.size()));
            for (auto& r : log->recs) { t.i("posted", r.posted); if (!r.posted) continue; t.d("size", r.h); t.i("accepted", r.accepted); t.i("truncated", r.truncated); t.d("error", r.err); t.i("function", r.izf); t.i("transition", r.trans); }
            log->recs.clear();
            if (!e.empty()) break;
            if (!(maxAbs(fromV(s->initialState())) < 1e6)) break;
        }
    }
};
inline void solverJob(const Job& j, Trace& t) {
    SolverJob w(j); w.make(); w.start(); w.steps(t, 6); t.s("parameters", textOf(w.s->parameters()));
}
inline void helpOf(const Params& h, Trace& t) { for (auto& k : h) { t.s("help", k.first + "|" + k.second.value<std::string>()); if (auto n = k.second.nestedParameters()) helpOf(*n, t); } }
inline void configJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    SolverSpec sp = randomSpec(g);
    unsigned n2 = g.u(0, 1), n1 = g.u(n2 ? 0 : 1, 2), n = 2 * n2 + n1;
    double t0 = g.uni(-1, 1), h = g.logu(5e-3, .05), T = h * g.uni(.5, 8);
    DV x0 = rndv(g, n, 1); std::ostringstream dummy;
    sp.p["h_init"] = h;
    auto base = randomHybrid(g, n2, n1, g.u(0, 1), t0, x0, dummy);
    for (auto& z : base->zf) z.flags |= Rhs::BothDirections;
    base->budget = 20000;
    ThreadRhs::current() = base.get();
    std::string type = g.pick(std::vector<std::string>{"con_general", "con_solution", "con_solution_columnwise", "stats_full"});
    bool fails = g.chance(.1); long at = g.i(1, 60);
    std::string path = fails && g.chance(.5) ? "/no-such-directory/x" : j.file;
    std::remove(j.file.c_str());
    std::string err;
    {
        Config cfg; Params p, q;
        p["rhs"] = "vft"; p["solver"] = PValue(sp.id, sp.p); p["time"] = T; q["file_name"] = path; p["output_file"] = PValue(type, q);
        try {
            setAll(cfg, p);
            j.pause(pace);
            Components sc = cfg.apply(std::set<unsigned>(), t0, toV(x0));
            if (fails) std::dynamic_pointer_cast<ThreadRhs>(sc.odeRhs())->faultAt = at;
            ctm::math::solveOde(&cfg, &sc);
            t.d("end", sc.solver()->initialTime()); t.v("end-state", fromV(sc.solver()->initialState()));
        } catch (const std::exception& e) { err = e.what(); auto p = err.find(path); if (p != std::string::npos) err = err.substr(0, p); }
        t.s("parameters", textOf([&] { auto r = cfg.parameterProvider()->parameters(); r.erase("output_file"); return r; }()));
        helpOf(cfg.parameterProvider()->helpOnParameters(), t);
    }
    t.s("failure", err);
    std::string out = slurp(j.file);
    for (auto& l : split(out, '\n')) if (l.find("TIMING") == std::string::npos && l.find("time:") == std::string::npos && l.find("Total time") == std::string::npos) t.s("output", l);
    ThreadRhs::current() = nullptr;
}
inline void luJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    for (int r = 0; r < 3; ++r) {
        j.pause(pace);
        auto m = randomMatrix(g, 16);
        LU f; f.setMatrix(m.sparse());
        DV b = ::randomRhs(g, m.n);
        DV y(b);
        f.solve(y.data());
        t.v("solution", y);
        j.pause(pace);
        V v = toV(b), w = toV(y), z = w; z += v; z *= .75; z -= w;
        t.d("norm", z.euclideanNorm()); t.d("dot", z.dot(v)); t.v("vector", fromV(z));
        y = fromV(z);
        f.solve(y.data());
        t.v("again", y);
    }
}
inline void optionsJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    j.pause(pace);
    PValue v("a", Params());
    for (int r = 0; r < 4; ++r) {
        PValue x; double d = g.uni(-1e3, 1e3);
        x = d; t.d("real", x.value<double>()); t.s("text", x.value<std::string>());
        x = g.i(-1000, 1000); t.i("integer", x.value<int>());
        x = std::string("bad" + std::to_string(g.i(0, 9)));
        try { x.value<double>(); t.i("accepted", 1); } catch (const std::exception& e) { t.s("refused", e.what()); }
        j.pause(pace);
    }
    t.s("format", std::string(ctm::cxx::FormatInt(g.i(-99999, 99999))));
}
template<class I> inline void askFactory(const char* name, Trace& t) {
    for (auto& id : ctm::Factory<I>::registeredTypes()) {
        auto p = ctm::Factory<I>::newInstance(id);
        t.s(name, ctm::TypeIdGetter<I>::typeId(p));
        if (auto o = dynamic_cast<ctm::OptionalParameters*>(p.get())) { t.s("defaults", textOf(o->parameters())); helpOf(o->helpOnParameters(), t); }
    }
    try { ctm::Factory<I>::newInstance("none"); t.i("unknown", 1); } catch (const std::exception& e) { t.s("unknown", e.what()); }
}
inline void factoryJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    for (int r = 0; r < 2; ++r) {
        j.pause(pace);
        switch (g.i(0, 4)) {
            case 0: askFactory<Rhs>("rhs", t); break;
            case 1: askFactory<Solver>("solver", t); break;
            case 2: askFactory<ctm::math::NewtonDescentDirection<VD>>("direction", t); break;
            case 3: askFactory<ctm::math::OdeSolverOutputOption<VD>>("output", t); break;
            default: askFactory<ctm::math::JacobianProvider<VD>>("jacobian", t); askFactory<ctm::math::OdeStepSizeController<VD>>("controller", t); break;
        }
    }
}
inline void modelJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    auto ids = ctm::Factory<Rhs>::registeredTypes();
    auto f = ctm::Factory<Rhs>::newInstance(g.pick(std::vector<std::string>(ids.begin(), ids.end())));
    t.s("model", ctm::TypeIdGetter<Rhs>::typeId(f));
    if (dynamic_cast<ThreadRhs*>(f.get())) return;
    unsigned n = f->varCount();
    if (n > 400) return;
    DV x = rndv(g, n, .5);
    V d; double time = g.uni(0, 1);
    for (int r = 0; r < 3; ++r) {
        j.pause(pace);
        try { f->rhs(d, time, toV(x)); t.v("rate", fromV(d)); } catch (const std::exception& e) { t.s("refused", e.what()); }
        if (f->zeroFuncCount()) { V z; try { f->zeroFunctions(z, time, toV(x)); t.v("functions", fromV(z)); } catch (const std::exception& e) { t.s("refused", e.what()); } }
    }
}

// a solver that is used for several systems, fails, and goes on
inline void reuseJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id); std::ostringstream dummy;
    SolverSpec spec = randomSpec(g);
    SolverPtr s = newSolver(spec.id);
    if (!spec.p.empty()) s->setParameters(spec.p);
    for (int round = 0; round < 3; ++round) {
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3); double t0 = g.uni(-2, 2); DV x = rndv(g, 2 * n2 + n1, 1.5);
        auto f = randomHybrid(g, n2, n1, g.u(0, 3), t0, x, dummy);
        f->budget = 20000; if (g.chance(.6)) f->faultAt = g.i(1, g.chance(.5) ? 10 : 150);
        s->setOdeRhs(f); s->setInitialStepSize(g.logu(.005, .2));
        try { s->setInitialState(t0, toV(x)); } catch (const std::exception& e) { t.s("exception", e.what()); continue; }
        for (int k = 0, m = g.i(1, 6); k < m; ++k) {
            j.pause(pace);
            try { s->doStep(); } catch (const std::exception& e) { t.s("exception", e.what()); }
            t.d("time", s->initialTime()); t.v("state", fromV(s->initialState()));
            if (!(maxAbs(fromV(s->initialState())) < 1e6)) break;
            if (g.chance(.1)) try { s->setInitialState(g.uni(-1, 1), toV(rndv(g, f->n(), 1)), true); } catch (const std::exception& e) { t.s("exception", e.what()); break; }
        }
    }
}
inline void newtonJob(const Job& j, Trace& t) {
    using namespace ctm::math;
    Rng g(j.seed), pace(j.seed ^ j.id);
    Newton ns;
    ns.setComponent(makeDDir(g.i(0, 5), g.u(0, 12)));
    ns.setComponent(makeJProv(g.chance(.5)));
    if (g.chance(.3)) { auto w = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); ctm::OptionalParameters::Parameters p; p["width"] = g.u(1, 3); w->setParameters(p); ns.setComponent(std::static_pointer_cast<JacobianTrimmer<VD>>(w)); }
    ns.setIterationCountLimit(g.u(1, 30));
    for (int r = 0; r < 3; ++r) {
        j.pause(pace);
        unsigned n = g.u(1, 8);
        auto f = g.chance(.7) ? dominantMapping(g, n, .4, .5) : randomMapping(g, n, n, .4, true, .6);
        f->budget = 3000;
        ns.setComponent(std::static_pointer_cast<VectorMapping<VD>>(f));
        for (int q = 0; q < 2; ++q) {
            ns.setInitialGuess(toV(rndv(g, n, 2)), q == 0);
            try { t.i("status", int(ns.run())); t.v("solution", fromV(ns.currentSolution())); } catch (const std::exception& e) { t.s("exception", e.what()); }
        }
    }
}
inline void jacobianJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id);
    for (int r = 0; r < 3; ++r) {
        j.pause(pace);
        unsigned n = g.u(1, 10);
        auto f = randomMapping(g, n, n, .3, true);
        auto p = makeJProv(g.chance(.5));
        p->setMapping(f);
        for (int q = 0; q < 2; ++q) {
            DV x = rndv(g, n, 1);
            if (q == 0) p->hardReset();
            p->computeJacobian(toV(x));
            auto& m = p->jacobian();
            for (auto e : m) { t.i("row", e.first.first); t.i("column", e.first.second); t.d("derivative", e.second); }
            V y = toV(rndv(g, n, 1)), z(n);
            z = m * y; t.v("product", fromV(z));
        }
    }
}
inline void richardsonJob(const Job& j, Trace& t) {
    Rng g(j.seed), pace(j.seed ^ j.id); std::ostringstream dummy;
    SolverSpec spec = randomSpec(g, g.pick(std::vector<std::string>{"rk4", "dopri_56", "rosenbrock_w1", "gragg"}));
    spec.p.erase("eventctl");
    SolverPtr s = newSolver(spec.id);
    if (!spec.p.empty()) s->setParameters(spec.p);
    double t0 = g.uni(-1, 1); DV x = rndv(g, 3, 1);
    auto f = randomHybrid(g, 1, 1, g.u(0, 1), t0, x, dummy); f->budget = 20000;
    s->setOdeRhs(f); s->setInitialStepSize(g.logu(.005, .1)); s->setInitialState(t0, toV(x));
    j.pause(pace);
    ctm::math::RichardsonErrorCalculator<VD> r; r.setOdeSolver(s);
    double h = s->initialStepSize();
    r.stepObservers.add([&](double at, double, const V& e) { j.pause(pace); t.d("at", at); t.v("error", fromV(e)); });
    try { auto st = r.calculateError(5.5 * h, h); t.v("mean", fromV(st.errorSum())); } catch (const std::exception& e) { t.s("exception", e.what()); }
}
inline void doJob(const Job& j, Trace& t) {
    switch (j.kind) { case 0: solverJob(j, t); break; case 1: configJob(j, t); break; case 2: luJob(j, t); break; case 3: optionsJob(j, t); break; case 4: factoryJob(j, t); break; case 5: modelJob(j, t); break;
        case 6: reuseJob(j, t); break; case 7: newtonJob(j, t); break; case 8: jacobianJob(j, t); break; default: richardsonJob(j, t); }
}
static const char* const jobNames[] = {"solver", "configuration", "factorization", "parameters", "factory", "model", "reuse", "newton", "jacobian", "richardson"};
enum { jobKinds = 10 };
} // namespace vf
