// C17: what a solver reports while it works is what it does: online checker of the event trace of every solver.
#include "hybrid.h"
using namespace vf;

static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

// The right hand side reports every access to the monitor
class WatchedRhs : public HybridRhs {
public:
    std::function<void(double, unsigned)> onRhs, onZero;
    std::function<void(double, const DV&)> onBefore;
    std::function<void(const std::vector<int>&, double)> onSwitch;
    using Rhs::rhs;
    void rhs(V& dst, double t, const V& x) const override { if (onRhs) onRhs(t, x.size()); HybridRhs::rhs(dst, t, x); }
    void zeroFunctions(V& dst, double t, const V& x) const override { if (onZero) onZero(t, x.size()); HybridRhs::zeroFunctions(dst, t, x); }
    void beforeStep(double t, const V& x) const override { if (onBefore) onBefore(t, fromV(x)); }
    void switchPhaseState(const int* tr, double t, V& x) override { if (onSwitch) onSwitch(std::vector<int>(tr, tr + zf.size()), t); HybridRhs::switchPhaseState(tr, t, x); }
};
static std::shared_ptr<WatchedRhs> watched(const HybridRhs& r) {
    auto f = std::make_shared<WatchedRhs>();
    f->n2 = r.n2; f->n1 = r.n1; f->c = r.c; f->b = r.b; f->om = r.om; f->ph = r.ph; f->terms = r.terms; f->budget = r.budget; f->zf = r.zf; f->notify = r.notify; f->distort = r.distort;
    return f;
}

struct Monitor {
    Case& c; SolverPtr s; std::shared_ptr<WatchedRhs> f; std::string id;
    enum State { Idle, Called, Attempt, Posted } st = Idle;
    double t = 0, h = 0; DV x;                  // what the solution is, by the record so far
    bool accepted = false, refresh = false; int attempts = 0, switches = 0, befores = 0, its = 0; double tSwitch = 0; std::vector<int> tr;
    bool fixedStep = false, smooth = false;
    std::vector<int> calls; // order in which the observers ran
    std::string err, what;
    std::vector<int> ids;
    int iterStop = -1;
    Monitor(Case& c, SolverPtr s, std::shared_ptr<WatchedRhs> f, const std::string& id) : c(c), s(s), f(f), id(id) {
        s->odeSolverPreObservers.add([this](double hh, const Solver* who) {
            calls.push_back(1);
            if (who != this->s.get()) bad("protocol", "the announcement names another solver");
            if (st == Idle) bad("protocol", "announcement outside of a step");
            if (st == Attempt) bad("protocol", "announcement of an attempt while another one is not reported");
            if (st == Posted && accepted) bad("protocol", "another attempt after an accepted one");
            double tt = who->initialTime(); DV xx = fromV(who->initialState());
            if (tt != t || !sameV(xx, x)) bad("start-state", "attempt " + std::to_string(attempts) + " starts at t=" + num(tt) + " " + list(xx) + ", the solution is at t=" + num(t) + " " + list(x));
            if (!(hh > 0)) bad("step-size", "attempt with h=" + num(hh));
            if (fixedStep && hh != this->s->initialStepSize()) bad("step-size", "attempt with h=" + num(hh) + ", h_init is " + num(this->s->initialStepSize()));
            h = hh; st = Attempt; ++attempts; switches = befores = its = 0;
            if (attempts > 2000) throw Runaway("thousands of attempts in one step");
        });
        s->odeSolverPreObservers.add([this](double, const Solver*) { calls.push_back(2); });
        s->odeSolverPostObservers.add([this](const ctm::math::OdeSolverPostObserverArg<VD>& a) {
            calls.push_back(3);
            if (st != Attempt) bad("protocol", "report of an attempt that was not announced");
            st = Posted; accepted = a.stepAccepted();
            if (a.solver() != this->s.get()) bad("protocol", "the report names another solver");
            if (a.stepSize() != h) bad("report", "reported step size " + num(a.stepSize()) + ", announced " + num(h));
            if (refresh) bad("refresh", "the step is reported while the Jacobian is being refreshed");
            double t1 = this->s->initialTime(); DV x1 = fromV(this->s->initialState());
            unsigned nz = unsigned(this->f->zf.size());
            if (!accepted) {
                this->c.count("rejected attempts");
                if (t1 != t || !sameV(x1, x)) bad("rejected", "a rejected attempt moved the solution");
                if (a.stepTruncated() || switches) bad("rejected", "a rejected attempt processed an event");
                if (fixedStep) bad("rejected", "a solver without error check rejected a step");
            } else if (a.stepTruncated()) {
                this->c.count("truncated steps");
                if (!(t1 >= t && t1 <= t + h * (1 + 1e-12))) bad("time", "truncated step of " + num(h) + " from " + num(t) + " ends at " + num(t1));
                if (a.izfTrunc() >= nz || (a.transitionType() != 1 && a.transitionType() != -1)) bad("report", "event of function " + std::to_string(int(a.izfTrunc())) + " direction " + std::to_string(a.transitionType()));
                else {
                    if (switches != 1) bad("switch", std::to_string(switches) + " switches in a truncated step");
                    else if (tr[a.izfTrunc()] != a.transitionType()) bad("report", "the reported transition is not the one switched");
                    if (tSwitch != t1) bad("switch", "switched at t=" + num(tSwitch) + ", the step ends at " + num(t1));
                }
            } else {
                this->c.count("plain steps");
                if (!close(t1, t + h, 1e-15, 0)) bad("time", "step of " + num(h) + " from " + num(t) + " ends at " + num(t1));
                if (switches) bad("switch", "switched in a step not reported as truncated");
                if (a.izfTrunc() != ~0u || a.transitionType() != 0) bad("report", "an event is named in a step without one");
            }
            if (a.errorNorm() < 0) bad("report", "negative error");
            if (!befores && this->id != "extrapolator") bad("before-step", "the right hand side was not told of the attempt");
            t = t1; x = x1;
        });
        s->odeSolverPostObservers.add([this](const ctm::math::OdeSolverPostObserverArg<VD>&) { calls.push_back(4); });
        s->jacobianRefreshObservers.add([this](bool on) {
            this->c.count("refresh notifications");
            if (on == refresh) bad("refresh", on ? "two starts of a refresh without an end" : "end of a refresh that was not started");
            if (st == Idle && this->id.substr(0, 4) != "rose") bad("refresh", "a refresh outside of a step");
            refresh = on;
        });
        s->iterationObservers.add([this](int it, const ctm::math::NewtonSolverInterface<VD>*) -> bool {
            this->c.count("iterations");
            if (st != Attempt) bad("iterations", "an iteration is reported outside of an attempt");
            if (it != its) bad("iterations", "iteration " + std::to_string(it) + " is reported after " + std::to_string(its) + " iterations");
            ++its;
            return false;
        });
        f->onRhs = [this](double tt, unsigned n) {
            this->c.count("evaluations");
            if (n != this->f->n()) bad("argument", "argument of size " + std::to_string(n));
            window(tt, "the right hand side");
        };
        f->onZero = [this](double tt, unsigned n) {
            if (n != this->f->n()) bad("argument", "argument of size " + std::to_string(n));
            window(tt, "the zero functions");
        };
        f->onBefore = [this](double tt, const DV& xx) {
            if (st == Idle) { bad("before-step", "beforeStep outside of a step"); return; }
            if (befores++ == 0 && !smooth && (tt != t || !sameV(xx, x))) bad("before-step", "beforeStep is told t=" + num(tt) + " " + list(xx) + " instead of t=" + num(t) + " " + list(x));
        };
        f->onSwitch = [this](const std::vector<int>& k, double tt) { ++switches; tr = k; tSwitch = tt; if (st != Attempt) bad("switch", "switched outside of an attempt"); };
    }
    void bad(const std::string& k, const std::string& d) { if (err.empty()) { err = k; what = d; } }
    void window(double tt, const std::string& who) {
        if (st != Attempt && st != Posted) return;
        double e = 1e-12 * (1 + std::fabs(t) + h);
        if (st == Attempt && !(tt >= t - e && tt <= t + h * (id == "rosenbrock_sw2_4" ? 5. / 3 : 1) + e)) bad("causality", who + " asked at t=" + num(tt) + " during the step from " + num(t) + " to " + num(t + h));
        if (st == Posted && !(std::fabs(tt - t) <= e)) bad("causality", who + " asked at t=" + num(tt) + " after the step to " + num(t));
    }
    void begin() { st = Called; attempts = 0; accepted = false; calls.clear(); }
    void end(bool threw, const std::string& at) {
        if (!threw) {
            if (st != Posted) bad("protocol", "the call returns in the middle of an attempt");
            if (!accepted) bad("protocol", "the call returns without an accepted step");
            if (refresh) bad("refresh", "a refresh is not ended");
            double tt = s->initialTime(); DV xx = fromV(s->initialState());
            if (tt != t || !sameV(xx, x)) bad("state-after", "the call leaves t=" + num(tt) + " " + list(xx) + ", reported t=" + num(t) + " " + list(x));
            std::vector<int> want; for (int k = 0; k < attempts; ++k) for (int v : {1, 2, 3, 4}) want.push_back(v);
            if (calls != want) bad("observers", "the observers were not each called once, in the order they were added");
        }
        st = Idle;
        if (!err.empty()) c.die(err, at + what);
    }
};

static void run(Ctx& ctx) {
    registerAll();
    ctx.rule("random runs of every solver kind in random configurations on random hybrid systems; the observers and the right hand side feed an online checker of the trace specification; a second solver runs the "
             "same problem without observers; non-trivial: at least one truncated, rejected or implicit step; distinct by configuration and problem");
    ctx.expectAtLeast("plain steps", 5000);
    ctx.expectAtLeast("truncated steps", 300);
    ctx.expectAtLeast("rejected attempts", 100);
    ctx.expectAtLeast("refresh notifications", 1000);
    ctx.expectAtLeast("iterations", 500);

    ctx.section("trace", 2000, 40000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        double h = g.logu(2e-3, .1), t0 = g.chance(.5) ? 0 : g.uni(-1, 1);
        c.desc << sp.text << " h=" << h;
        sp.p["h_init"] = h;
        auto s = newSolver(sp.id), q = newSolver(sp.id);
        s->setParameters(sp.p); q->setParameters(sp.p);
        std::unique_ptr<Monitor> m;
        bool rich = sp.id == "i_euler" || sp.id.substr(0, 4) == "rose";
        int rounds = g.i(1, 2);
        for (int r = 0; r < rounds; ++r) {
            unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
            unsigned n = 2 * n2 + n1;
            DV x0 = rndv(g, n, 1);
            auto base = randomHybrid(g, n2, n1, g.u(0, 3), t0, x0, c.desc);
            auto f = watched(*base); auto fq = cloneOf(*base);
            fq->notify = false;
            s->setOdeRhs(f); q->setOdeRhs(fq);
            if (!m) { m.reset(new Monitor(c, s, f, sp.id)); m->fixedStep = !sp.adaptive && !sp.p.count("h_after_switch"); m->smooth = sp.id == "gragg"; }
            else { auto old = m->f; m->f = f; f->onRhs = old->onRhs; f->onZero = old->onZero; f->onBefore = old->onBefore; f->onSwitch = old->onSwitch; }
            s->setInitialState(t0, toV(x0)); q->setInitialState(t0, toV(x0));
            m->t = t0; m->x = x0;
            // Gragg keeps what it was given in another form
            m->x = fromV(s->initialState());
            if (!(maxDiff(m->x, x0) <= 1e-12 * (1 + maxAbs(x0))) || s->initialTime() != t0) c.die("initial-state", "the state set is " + list(x0) + ", read back " + list(m->x));
            int steps = g.i(3, 25);
            for (int k = 0; k < steps; ++k) {
                std::string at = "round " + std::to_string(r) + " step " + std::to_string(k) + ": ", e1, e2;
                m->begin();
                try { s->doStep(); } catch (const Runaway&) { throw; } catch (const std::exception& e) { e1 = e.what(); if (e1.empty()) e1 = "?"; }
                try { q->doStep(); } catch (const Runaway&) { throw; } catch (const std::exception& e) { e2 = e.what(); if (e2.empty()) e2 = "?"; }
                m->end(!e1.empty(), at);
                if (e1 != e2) c.die("transparency", at + "watched: '" + e1 + "', not watched: '" + e2 + "'");
                if (!e1.empty()) { c.count("failed steps"); m->refresh = false; break; }
                c.count("transparent steps");
                DV xq = fromV(q->initialState());
                if (q->initialTime() != m->t || !sameV(xq, m->x)) c.die("transparency", at + "watched: t=" + num(m->t) + " " + list(m->x) + ", not watched: t=" + num(q->initialTime()) + " " + list(xq));
                if (m->switches || rich) c.nontrivial(c.desc.str());
                if (!(maxAbs(m->x) < 1e6)) break;
            }
        }
    });

    // whatever an observer throws comes out of doStep, and the next run is not affected
    ctx.section("throwing-observers", 500, 8000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        double h = g.logu(5e-3, .1);
        sp.p["h_init"] = h;
        auto s = newSolver(sp.id), q = newSolver(sp.id);
        s->setParameters(sp.p); q->setParameters(sp.p);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 2);
        DV x0 = rndv(g, 2 * n2 + n1, 1);
        c.desc << sp.text << " h=" << h;
        auto f = randomHybrid(g, n2, n1, g.u(0, 1), 0, x0, c.desc);
        auto f2 = cloneOf(*f), fq = cloneOf(*f);
        struct Stop {};
        long countdown = g.i(1, 30); int where = g.i(0, 3);
        c.desc << "; observer " << where << " throws at call " << countdown;
        long left = countdown; bool armed = true;
        auto tick = [&]() { if (armed && --left == 0) throw Stop(); };
        s->setOdeRhs(f);
        if (where == 0) s->odeSolverPreObservers.add([&](double, const Solver*) { tick(); });
        if (where == 1) s->odeSolverPostObservers.add([&](const ctm::math::OdeSolverPostObserverArg<VD>&) { tick(); });
        if (where == 2) f->odeRhsPostObservers.add([&](double, const V&, const V&, const Rhs*) { tick(); });
        if (where == 3) s->jacobianRefreshObservers.add([&](bool) { tick(); });
        bool stopped = false;
        try {
            s->setInitialState(0, toV(x0));
            for (int k = 0; k < 12; ++k) s->doStep();
        } catch (const Stop&) { stopped = true; }
        catch (const ctm::cxx::exception& e) { c.count("failed steps"); }
        if (stopped != (left == 0)) c.die("thrown", stopped ? "?" : "an exception thrown by an observer did not come out of the step");
        if (stopped) { c.count("observers that threw"); c.nontrivial(c.desc.str()); }
        armed = false;
        s->setOdeRhs(f2); q->setOdeRhs(fq);
        s->setInitialState(0, toV(x0)); q->setInitialState(0, toV(x0));
        for (int k = 0; k < 6; ++k) {
            std::string e1, e2;
            try { s->doStep(); } catch (const ctm::cxx::exception& e) { e1 = e.what(); }
            try { q->doStep(); } catch (const ctm::cxx::exception& e) { e2 = e.what(); }
            if (e1 != e2) c.die("after-throw", "used: '" + e1 + "', new: '" + e2 + "'");
            if (!e1.empty()) break;
            if (s->initialTime() != q->initialTime() || !(maxDiff(fromV(s->initialState()), fromV(q->initialState())) <= 1e-9 * (1 + maxAbs(x0)))) c.die("after-throw", "step " + std::to_string(k) + " after the interrupted run gives t=" + num(s->initialTime()) + " " + list(fromV(s->initialState())) + ", a new solver t=" + num(q->initialTime()) + " " + list(fromV(q->initialState())));
            if (!(maxAbs(fromV(s->initialState())) < 1e6)) break;
        }
    });
    ctx.expectAtLeast("observers that threw", 100);
}
VF_MAIN(run)
