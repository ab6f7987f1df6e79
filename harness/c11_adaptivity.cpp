// C11: solvers with step size control accept exactly the steps whose error is small enough, follow the controller, and leave no trace of rejected attempts.
#include "ode_common.h"
#include "step_rule.h"
#include "ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h"
#include "ode_num_int/ode/ErrorInfNormCalculator.h"
using namespace vf;

static bool sameV(const DV& a, const DV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static const std::vector<std::string> rkIds = {"dopri_45", "dopri_56", "dopri_78"};
static std::map<std::string, Tableau> tabs;

// An error norm of the user's own; both kinds record what they were given and what they returned
struct NormCall { DV e; double norm; };
struct WeightedNorm : ctm::math::ErrorInfNormCalculator<VD> {
    DV w; std::vector<NormCall>* calls = nullptr;
    double of(const DV& e) const { double r = 0; for (size_t i = 0; i < e.size(); ++i) { double a = std::fabs(e[i] * w[i % w.size()]); if (!(a <= r)) r = a; if (std::isnan(a)) return a; } return r; }
    double errorNorm(const V& error) const override { DV e = fromV(error); double n = of(e); calls->push_back(NormCall{e, n}); return n; }
};

static void run(Ctx& ctx) {
    registerAll();
    for (auto& id : rkIds) for (auto m : {"low", "high"}) tabs[id + m] = extractTableau(id, m);
    ctx.rule("adaptive integrations (embedded Runge-Kutta in both modes, Rosenbrock, extrapolation) of random systems with slow and fast episodes, kinks, NaN regions and steps near the minimum; every attempted step is "
             "recorded through the observers and judged; non-trivial: a rejection and an increase happened; distinct by solver, parameters and equation");
    ctx.expectAtLeast("rejected attempts", 500);
    ctx.expectAtLeast("increases", 500);
    ctx.expectAtLeast("stopped at the minimum", 30); ctx.expectAtLeast("stopped exactly at the minimum", 200);

    ctx.section("adaptive", 1800, 40000, [&](Case& c) {
        Rng& g = c.rng;
        int kind = g.i(0, 9);
        bool rk = kind < 6;
        std::string id = rk ? rkIds[size_t(kind % 3)] : kind < 8 ? "rosenbrock_sw2_4" : "extrapolator";
        std::string mode = g.chance(.5) ? "low" : "high";
        auto s = newSolver(id);
        StepRule r = randomRule(g);
        if (id != "dopri_78" && id != "dopri_56") r.tol = std::max(r.tol, 1e-7);
        double h0 = g.logu(1e-4, 1), hMin = g.chance(.4) ? g.logu(1e-6, 1e-3) : 1e-14;
        Params p, q;
        q["tolerance"] = r.tol; q["insurance"] = r.ins; q["inc_min_factor"] = r.incMin; q["inc_max_factor"] = r.incMax; q["dec_max_factor"] = r.decMax; q["max_threshold"] = r.maxH;
        p["h_init"] = h0; p["h_min"] = hMin; p["stepsizectl"] = PValue("simple", q);
        bool noCheck = g.chance(.15), force = g.chance(.3);
        p["disable_error_check"] = noCheck;
        double order;
        if (rk) { p["mode"] = mode; p["force_error_calc"] = force; order = id == "dopri_45" ? 4 : id == "dopri_56" ? 5 : 7; }
        else if (id == "rosenbrock_sw2_4") { order = 2; if (g.chance(.5)) p["d"] = g.uni(.5, 1.5); }
        else {
            bool gr = g.chance(.5);
            unsigned st = g.u(2, 6);
            p["max_stages"] = st; p["symmetric"] = gr; p["step_sequence"] = g.pick(std::vector<std::string>{"romberg", "bulirsch", "harmonic"});
            p["reference_solver"] = PValue(std::string(gr ? "gragg" : "euler"));
            order = gr ? 2 + 2 * (st - 1) - 2 : st - 1;
        }
        s->setParameters(p);
        c.desc << id << " " << (rk ? mode : "") << " h_init=" << h0 << " h_min=" << hMin << " " << r.text() << (noCheck ? " no error check" : "") << (force ? " forced" : "");
        std::vector<NormCall> calls;
        auto norms = std::dynamic_pointer_cast<ctm::math::OdeSolverErrorNormCalculator<VD>>(s);
        auto own = std::make_shared<WeightedNorm>();
        own->w = DV(1, 1.); own->calls = &calls;
        c.require(norms && norms->errorNormCalculator(), "norm", "no error norm calculator");
        int idNorm = -1;
        auto standard = norms->errorNormCalculator();
        if (g.chance(.3)) {
            for (unsigned i = g.u(0, 3); i; --i) own->w.push_back(g.logu(.01, 100));
            norms->setErrorNormCalculator(own);
            c.desc << " own norm with weights " << list(own->w); c.count("user-made error norms");
        } else idNorm = standard->errorNormCalculatorObservers.add([&](const V& e, double n) { calls.push_back(NormCall{fromV(e), n}); });
        StepLog log(s);
        std::map<std::string, int> seen;
        for (int round = 0, rounds = g.i(1, 4); round < rounds; ++round) {
            unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 2);
            auto f = randomRhs(g, n2, n1, .4, g.logu(.3, 10), g.uni(0, 1), g.uni(0, 2));
            f->notify = false;
            unsigned hit = g.u(n2, f->n() - 1);
            int feature = g.i(0, 5);
            double where = g.uni(.2, 2), mag = g.logu(1, 50), width = g.logu(1e-3, .2);
            c.desc << "; " << f->text() << " feature " << feature << " at " << where << " mag=" << mag << " width=" << width << " on " << hit;
            if (feature == 0) f->distort = [=](double t, const DV&, DV& d) { if (t > where) d[hit] += mag; };                 // a jump in time
            if (feature == 1) f->distort = [=](double t, const DV&, DV& d) { d[hit] += mag * std::exp(-(t - where) * (t - where) / (width * width)); };   // a short pulse
            if (feature == 2) f->distort = [=](double, const DV& x, DV& d) { if (std::fabs(x[hit]) > where * 3) d[hit] = NAN; };
            if (feature == 3) f->distort = [=](double t, const DV&, DV& d) { d[hit] += 1 / (where - t); };                       // a singularity
            double t0 = g.chance(.3) ? g.uni(-1, 1) * .1 : 0;
            DV x0 = rndv(g, f->n(), 1);
            c.desc << " t0=" << t0 << " x0=" << list(x0);
            f->budget = 400000;
            s->setOdeRhs(f);
            s->setInitialState(t0, toV(x0));
            log.recs.clear(); log.open = false;
            double h = s->initialStepSize();
            bool stopped = false;
            int steps = g.i(3, 25);
            double t = t0; DV x = x0;
            auto F = [&](double tt, const DV& xx) { return f->eval(tt, xx); };
            for (int k = 0; k < steps && !stopped; ++k) {
                size_t first = log.recs.size();
                bool threw = false; std::string what;
                calls.clear();
                try { s->doStep(); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception& e) { threw = true; what = e.what(); }
                std::string at = "round " + std::to_string(round) + " step " + std::to_string(k) + ": ";
                c.require(log.recs.size() > first, "attempts", at + "no attempt has been announced");
                if (log.recs.size() - first > 3000) c.die("attempts", at + "thousands of attempts in one step");
                {   // the norm is asked once in every attempt, and its answer is the error
                    size_t want = noCheck && !(rk && force) ? 0 : log.recs.size() - first;
                    if (calls.size() != want && !(threw && calls.size() + 1 == want)) c.die("norm-calls", at + std::to_string(calls.size()) + " error norms in " + std::to_string(log.recs.size() - first) + " attempts");
                    for (size_t a = 0; a < calls.size(); ++a) {
                        auto& rec = log.recs[first + a];
                        if (!same(calls[a].norm, own->of(calls[a].e))) c.die("norm", at + "the norm of " + list(calls[a].e) + " is said to be " + num(calls[a].norm));
                        if (rec.posted && !same(rec.err, calls[a].norm)) c.die("norm-reported", at + "the reported error is " + num(rec.err) + ", its norm was " + num(calls[a].norm));
                        c.count("error norms");
                    }
                }
                for (size_t a = first; a < log.recs.size(); ++a) {
                    auto& rec = log.recs[a];
                    bool last = a + 1 == log.recs.size();
                    std::string w = at + "attempt " + std::to_string(a - first) + ": ";
                    if (!close(rec.hPre, h, 1e-14, 0)) c.die("step-size-used", w + "starts with h=" + num(rec.hPre) + ", the step size is " + num(h));
                    h = rec.hPre;
                    if (a > first && log.recs[a - 1].posted && !log.recs[a - 1].accepted && !(h > hMin)) c.die("minimum", w + "made with h=" + num(h) + ", not above the minimum " + num(hMin));
                    if (rec.t0 != t || !sameV(rec.x0, x)) c.die("trace-of-attempt", w + "starts from t=" + num(rec.t0) + " " + list(rec.x0) + ", the solution is at t=" + num(t) + " " + list(x));
                    if (!rec.posted) {          // the attempt that ended with the exception
                        if (!(last && threw)) c.die("protocol", w + "no report of the attempt");
                        // the reason must be a step size that fell to the minimum: find it from the estimated error where that is known
                        break;
                    }
                    if (!last && rec.accepted) c.die("one-step", w + "an accepted step is followed by another one in the same call");
                    if (last && !rec.accepted && !threw) c.die("one-step", w + "the call returns without an accepted step");
                    if (rec.h != h) c.die("report-h", w + "reported step size " + num(rec.h) + ", done " + num(h));
                    // the error estimate
                    bool known = rk && (!noCheck || force);
                    if (known) {
                        DV hi = tabs[id + "high"].step(F, t, x, h), lo = tabs[id + "low"].step(F, t, x, h);
                        double e = own->of(sub(hi, lo)), sc = 1 + std::max(maxAbs(x), maxAbs(hi));
                        if (std::isfinite(sc) && sc < 1e6 && !same(e, rec.err) && !(std::fabs(e - rec.err) <= 2e-13 * sc * maxAbs(own->w))) c.die("error-norm", w + "error " + num(rec.err) + " instead of " + num(e));
                        c.count("error estimates recomputed");
                    } else if (noCheck && rec.err != 0) c.die("error-norm", w + "an error of " + num(rec.err) + " is reported though it is not computed");
                    double hNext = last ? -1 : log.recs[a + 1].hPre;
                    if (noCheck) {
                        if (!rec.accepted || rec.changed) c.die("no-check", w + "without error check a step is rejected or resized");
                    } else {
                        if (rec.accepted && !(rec.err <= r.tol * (1 + 1.1e-4))) c.die("tolerance", w + "accepted with error " + num(rec.err) + " above the tolerance " + num(r.tol));
                        // the new step size is visible as that of the next attempt
                        rec.h = h;
                        if (hNext >= 0) {
                            std::string bad = r.judge(h, rec.err, order, rec.accepted, rec.changed, hNext);
                            if (!bad.empty()) c.die("rule", w + bad);
                        }
                    }
                    if (rec.accepted) {
                        if (!close(rec.t1, t + h, 1e-14, 0)) c.die("time", w + "the time becomes " + num(rec.t1) + " instead of " + num(t + h));
                        if (rk) {
                            DV ref = tabs[id + mode].step(F, t, x, h);
                            if (finite(ref) && maxAbs(ref) < 1e6 && !(maxDiff(ref, rec.x1) <= 1e-12 * (1 + maxAbs(ref) + maxAbs(x)))) c.die("solution", w + "accepted state " + list(rec.x1) + " instead of " + list(ref));
                        }
                        if (!noCheck && !finite(rec.x1)) c.die("non-finite", w + "a state with " + list(rec.x1) + " is accepted");
                    } else {
                        c.count("rejected attempts"); ++seen["rej"];
                        if (rec.t1 != t || !sameV(rec.x1, x)) c.die("trace-of-attempt", w + "a rejected attempt changed the solution");
                    }
                    if (rec.changed && rec.accepted) { c.count("increases"); ++seen["inc"]; }
                    // the step size for the next attempt
                    if (!last) h = log.recs[a + 1].hPre;
                }
                if (threw) {
                    c.count("stopped at the minimum");
                    auto& rec = log.recs.back();
                    if (rec.posted) c.die("exception", at + "exception without an attempt: " + what);
                    // the smallest factor allowed must be able to reach the minimum from here
                    double f = r.decMax > 0 ? r.decMax : 0;
                    if (rec.hPre * f > hMin * (1 + 1e-9) && !(r.incMax <= 1)) c.die("exception", at + "gave up at h=" + num(rec.hPre) + " with h_min=" + num(hMin) + ": " + what);
                    if (noCheck) c.die("exception", at + "gave up without error check: " + what);
                    if (rk) { // recompute the error of the attempt: it must have been too big
                        double e = own->of(sub(tabs[id + "high"].step(F, t, x, rec.hPre), tabs[id + "low"].step(F, t, x, rec.hPre)));
                        bool small = e <= r.tol * (1 - 1e-6);
                        double hn = rec.hPre * std::max(f, std::isnan(e) ? 0. : std::pow(r.tol / e, 1 / (order + 1)) * r.ins);
                        if (small && rec.hPre > hMin * (1 + 1e-9) && !(hn <= hMin * (1 + 1e-6))) c.die("exception", at + "gave up although the step was good: " + what);
                        if (!small && hn > hMin * (1 + 1e-6) && e > r.tol * (1 + 1.1e-4)) c.die("exception", at + "gave up although the next step size would be " + num(hn));
                    }
                    stopped = true;
                    break;
                }
                const StepRec rec = log.recs.back();
                t = s->initialTime(); x = fromV(s->initialState());
                if (t != rec.t1 || !sameV(x, rec.x1)) c.die("state-after", at + "the state after the step is not the one reported");
                if (t <= log.recs[first].t0) c.die("time", at + "time does not advance");
                // what the next attempt will use: judged when it is announced
                if (k + 1 < steps && !noCheck) {
                    // ask by doing the next step: remembered in the record
                }
                h = noCheck ? h : -1;
                // peek at the next step size
                if (!noCheck) {
                    struct Peek {}; double hp = -1;
                    int idp = s->odeSolverPreObservers.add([&](double hh, const Solver*) { hp = hh; throw Peek(); });
                    log.open = false;
                    size_t n = log.recs.size();
                    try { s->doStep(); } catch (const Peek&) {}
                    s->odeSolverPreObservers.remove(idp);
                    log.recs.resize(n); log.open = false;
                    std::string bad = r.judge(rec.hPre, rec.err, order, rec.accepted, rec.changed, hp);
                    if (!bad.empty()) c.die("rule", at + bad);
                    h = hp;
                    if (hp <= hMin && rec.changed) c.die("minimum", at + "goes on with h=" + num(hp));
                }
                if (!(maxAbs(x) <= 1e6)) break;
            }
            if (stopped) s->setInitialState(0, toV(x0));
        }
        if (seen["rej"] && seen["inc"]) c.nontrivial(c.desc.str());
        c.require(log.protocol.empty(), "protocol", log.protocol);
        if (idNorm >= 0) standard->errorNormCalculatorObservers.remove(idNorm);
    });
    ctx.expectAtLeast("user-made error norms", 200); ctx.expectAtLeast("error norms", 10000);

    // The minimum: a step size that falls to it exactly is refused, one just above it is used
    ctx.section("minimum", 700, 9000, [&](Case& c) {
        Rng& g = c.rng;
        std::string id = g.pick(std::vector<std::string>{"dopri_45", "dopri_56", "dopri_78", "rosenbrock_sw2_4", "extrapolator"});
        auto f = randomRhs(g, g.u(0, 1), g.u(1, 2), .4, g.logu(.3, 10), g.uni(0, 1), g.uni(0, 2));
        f->notify = false; f->budget = 200000;
        if (g.chance(.5)) { double where = g.uni(.05, 1), mag = g.logu(1, 50); f->distort = [=](double t, const DV&, DV& d) { if (t > where) d[0] += mag; }; }
        StepRule r = randomRule(g);
        r.maxH = 0;
        double h0 = g.logu(1e-3, 1);
        bool gr = g.chance(.5); unsigned st = g.u(2, 4);
        DV x0 = rndv(g, f->n(), 1);
        c.desc << id << " h_init=" << h0 << " " << r.text() << " " << f->text() << " x0=" << list(x0);
        auto make = [&](double hMin) {
            auto s = newSolver(id);
            Params p, q;
            q["tolerance"] = r.tol; q["insurance"] = r.ins; q["inc_min_factor"] = r.incMin; q["inc_max_factor"] = r.incMax; q["dec_max_factor"] = r.decMax; q["max_threshold"] = r.maxH;
            p["h_init"] = h0; p["h_min"] = hMin; p["stepsizectl"] = PValue("simple", q);
            if (id == "extrapolator") { p["max_stages"] = st; p["symmetric"] = gr; p["reference_solver"] = PValue(std::string(gr ? "gragg" : "euler")); }
            s->setParameters(p);
            s->setOdeRhs(f);
            s->setInitialState(0, toV(x0));
            return s;
        };
        auto go = [&](double hMin, size_t most) {      // announced step sizes; true if it ended with an exception
            auto s = make(hMin);
            StepLog log(s);
            bool threw = false;
            try { while (log.recs.size() < most && maxAbs(fromV(s->initialState())) < 1e6) s->doStep(); } catch (const Runaway&) { throw; } catch (const ctm::cxx::exception&) { threw = true; }
            return std::make_pair(log.recs, threw);
        };
        auto all = go(0, 12).first;
        std::vector<size_t> at;
        double least = INFINITY;
        for (size_t k = 0; k < all.size(); ++k) { if (k && all[k].hPre < least) at.push_back(k); least = std::min(least, all[k].hPre); }
        if (at.empty()) { c.count("no decrease"); return; }
        size_t k = g.pick(at);
        double H = all[k].hPre;
        if (!(H > 1e-12)) return;
        for (int v = 0; v < 3; ++v) {
            double hMin = v == 0 ? H : v == 1 ? std::nextafter(H, 0) : std::nextafter(H, 1);
            auto got = go(hMin, k + 1);
            std::string w = "h_min=" + num(hMin) + ", attempt " + std::to_string(k) + " would have h=" + num(H) + ": ";
            size_t want = v == 1 ? k + 1 : k;
            bool seen = got.first.size() > k;
            for (size_t q = 0; q < std::min(want, got.first.size()); ++q) if (got.first[q].hPre != all[q].hPre) c.die("minimum-changes-steps", w + "attempt " + std::to_string(q) + " is made with " + num(got.first[q].hPre) + " instead of " + num(all[q].hPre));
            if (v != 1 && (seen || !got.second)) c.die("minimum-exact", w + (seen ? "the attempt is made" : "no exception"));
            if (v == 1 && !seen) c.die("minimum-exact", w + "the attempt is not made");
            if (got.first.size() < want) c.die("minimum-early", w + "only " + std::to_string(got.first.size()) + " attempts");
            c.count(v == 1 ? "just above the minimum" : "stopped exactly at the minimum");
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("after-switch", 500, 8000, [&](Case& c) {     // the step size is reduced after an event
        Rng& g = c.rng;
        struct EvRhs : GenRhs {
            double level = 1; int fired = 0;
            unsigned zeroFuncCount() const override { return 1; }
            void zeroFunctions(V& dst, double t, const V&) const override { dst.resize(1); dst[0] = t - level; }
            void switchPhaseState(const int*, double, V&) override { ++fired; }
        };
        auto b = randomRhs(g, g.u(0, 1), 1, .4, 1, .5, 1);
        auto f = std::make_shared<EvRhs>();
        static_cast<GenRhs&>(*f) = *b;
        f->level = g.uni(.1, .5);
        f->notify = false;
        auto s = newSolver(g.pick(rkIds));
        double h0 = g.logu(1e-3, .1), ha = g.chance(.3) ? 0 : g.logu(1e-4, .2);
        bool noCheck = g.chance(.5);
        Params p; p["h_init"] = h0; p["h_after_switch"] = ha; p["disable_error_check"] = noCheck;
        s->setParameters(p);
        c.desc << "h=" << h0 << " h_after_switch=" << ha << " level=" << f->level << (noCheck ? " no check" : "") << " " << f->text();
        s->setOdeRhs(f);
        s->setInitialState(0, toV(rndv(g, f->n(), 1)));
        StepLog log(s);
        for (int k = 0; k < 2000 && s->initialTime() < f->level + .2; ++k) s->doStep();
        c.require(f->fired == 1, "events", std::to_string(f->fired) + " events");
        for (size_t a = 0; a + 1 < log.recs.size(); ++a) if (log.recs[a].truncated) {
            double hu = log.recs[a].hPre, next = log.recs[a + 1].hPre;
            c.count("steps after a switch");
            if (ha > 0 && next > ha * (1 + 1e-12)) c.fail("after-switch", "step size " + num(next) + " after the switch");
            if (ha > 0 && noCheck && !close(next, std::min(hu, ha), 1e-12, 0)) c.fail("after-switch", "step size " + num(next) + " after the switch, " + num(hu) + " before");
            if (ha == 0 && noCheck && next != hu) c.fail("after-switch", "step size changed to " + num(next));
            c.nontrivialHash(mix(uint64_t(next * 1e9)));
        }
    });
}
VF_MAIN(run)
