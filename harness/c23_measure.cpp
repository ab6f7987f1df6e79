// C23: error statistics, Richardson error estimates and time measurements.
#include "newton_common.h"
#include "ode_common.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/OdeSolverImplicitEuler.h"
#include "ode_num_int/ode/util/RichardsonErrorCalculator.h"
#include "ode_num_int/util/ErrorStats.h"
#include "ode_num_int/timing/TimingStats.h"
#include "ode_num_int/timing/TimerCalibrator.h"
#include "ode_num_int/lu/LUFactorizer.h"
#include "ode_num_int/infra/cxx_assert.h"
#include "ode_num_int/util/sys_time.h"
#include <x86intrin.h>
using namespace vf;
using namespace ctm;
using namespace ctm::math;

namespace {
typedef OdeSolverImplicitEuler<VD> IE;
typedef long double LD;
bool near(double a, LD b, double rel) { return std::fabs(LD(a) - b) <= rel * fabsl(b) + 1e-300L; }

// ---- ErrorStats ------------------------------------------------------------
struct Ref {
    std::vector<LD> mx, sum, sq; unsigned n = 0;
    explicit Ref(unsigned d = 1) : mx(d), sum(d), sq(d) {}
    void add(const DV& v) { ++n; for (size_t i = 0; i < v.size(); ++i) { LD a = fabsl(v[i]); mx[i] = std::max(mx[i], a); sum[i] += a; sq[i] += a * a; } }
    void merge(const Ref& r) { n += r.n; for (size_t i = 0; i < mx.size(); ++i) { mx[i] = std::max(mx[i], r.mx[i]); sum[i] += r.sum[i]; sq[i] += r.sq[i]; } }
};
DV get(double x) { return DV{x}; }
DV get(const V& x) { return fromV(x); }
double mk(const DV& v, double) { return v[0]; }
V mk(const DV& v, const V&) { return toV(v); }
template<class X> void compare(Case& c, const ErrorStats<X>& s, const Ref& r) {
    c.require(s.sampleCount() == r.n, "count", std::to_string(s.sampleCount()) + " samples instead of " + std::to_string(r.n));
    DV mx = get(s.errorMaxValue()), sum = get(s.errorSum()), sq = get(s.errorSquareSum());
    c.require(mx.size() == r.mx.size(), "size", "the statistics have a wrong number of elements");
    for (size_t i = 0; i < r.mx.size(); ++i) {
        c.require(mx[i] == double(r.mx[i]), "max", num(mx[i]) + " instead of " + num(double(r.mx[i])));
        c.require(near(sum[i], r.sum[i], 1e-13), "sum", num(sum[i]) + " instead of " + num(double(r.sum[i])));
        c.require(near(sq[i], r.sq[i], 1e-13), "square-sum", num(sq[i]) + " instead of " + num(double(r.sq[i])));
    }
    if (r.n) {
        DV mean = get(s.errorMeanValue()), dev = get(s.errorMeanSqareDev());
        for (size_t i = 0; i < r.mx.size(); ++i) {
            c.require(near(mean[i], r.sum[i] / r.n, 1e-13), "mean", num(mean[i]) + " instead of " + num(double(r.sum[i] / r.n)));
            c.require(near(dev[i], sqrtl(r.sq[i] / r.n), 1e-13), "deviation", num(dev[i]) + " instead of " + num(double(sqrtl(r.sq[i] / r.n))));
        }
    }
    c.count("statistics compared");
}
template<class X> void statsHistory(Case& c, unsigned dim, const X& zero, bool scalar) {
    auto& g = c.rng;
    std::vector<ErrorStats<X>> s; std::vector<Ref> r;
    auto fresh = [&] { if (scalar && g.chance(.5)) s.push_back(ErrorStats<X>()); else s.push_back(ErrorStats<X>(zero)); r.push_back(Ref(dim)); };
    fresh(); fresh();
    for (int k = 0; k < 40; ++k) {
        unsigned i = g.u(0, unsigned(s.size() - 1)), j = g.u(0, unsigned(s.size() - 1));
        switch (g.i(0, 6)) {
        case 0: if (s.size() < 5) fresh(); break;
        case 1: s[i] += s[j]; { Ref q = r[j]; r[i].merge(q); } c.count("merges"); break;
        case 2: { auto q = s[i] + s[j]; Ref w = r[i]; w.merge(r[j]); compare(c, q, w); c.count("merges"); break; }
        case 3: { ErrorStats<X> q(s[i].errorMaxValue(), s[i].errorSum(), s[i].errorSquareSum(), s[i].sampleCount()); compare(c, q, r[i]); s[j] = q; r[j] = r[i]; break; }
        default: {
            double scale = g.chance(.2) ? 0 : g.logu(1e-12, 1e6);
            DV v = rndv(g, dim, scale); s[i].addSample(mk(v, zero)); r[i].add(v); c.count("samples");
            c.desc << " " << i << ":" << num(v[0]);
        }
        }
        compare(c, s[i], r[i]); if (j < s.size()) compare(c, s[j], r[j]);
        if (r[i].n > 100000) break;
    }
    c.nontrivial(std::to_string(dim) + "/" + std::to_string(r[0].n) + "/" + num(double(r[0].mx[0])));
}
void stats(Case& c) {
    if (c.rng.chance(.4)) statsHistory<double>(c, 1, 0., true);
    else { unsigned n = c.rng.u(1, 6); statsHistory<V>(c, n, V(n), false); }
}

// ---- Richardson: a scripted solver -----------------------------------------
struct FakeCtl { bool accepted, truncated, changed; };
class FakeSolver : public Solver {
public:
    double t = 0; V x; int p = 1; uint64_t salt = 0; double badShare = 0, changedShare = 0;
    std::vector<std::string> bad; std::vector<std::pair<double, double>> steps; bool disabled = false; long budget = 5000;
    int order() const override { return p; }
    double initialTime() const override { return t; }
    V initialState() const override { return x; }
    void setInitialState(double t0, const V& x0, bool = false) override { t = t0; x = x0; }
    FakeCtl flags(double t, double h) const { Rng g(salt ^ mix(uint64_t(std::llround(t * 1e6)) * 77 + uint64_t(std::llround(h * 1e9)))); bool a = !g.chance(badShare), tr = g.chance(badShare), ch = g.chance(changedShare); return {a, tr, ch}; }
    DV advance(double t, DV v, double h) const { for (size_t i = 0; i < v.size(); ++i) v[i] += h * std::sin(3 * v[(i + 1) % v.size()] + t) + h * h * v[i]; return v; }
    void doStep() override {
        if (--budget < 0) throw Runaway("scripted solver");
        double h = initialStepSize(); auto f = flags(t, h);
        steps.push_back({t, h});
        odeSolverPreObservers(h, this);
        x = toV(advance(t, fromV(x), h)); t += h;
        odeSolverPostObservers(OdeSolverPostObserverArg<VD>(h, f.accepted, f.changed, f.truncated, 0, ~0u, 0, this));
    }
    Params parameters() const override { auto r = Solver::parameters(); r["disable_error_check"] = disabled; return r; }
    void setParameters(const Params& q) override { Solver::setParameters(q); OptionalParameters::maybeLoadParameter(q, "disable_error_check", disabled); }
};
void scripted(Case& c) {
    auto& g = c.rng;
    auto s = std::make_shared<FakeSolver>();
    unsigned n = g.u(1, 4);
    s->p = g.i(1, 9); s->salt = g.u64(); if (g.chance(.5)) s->badShare = g.uni(0, .4); if (g.chance(.15)) s->changedShare = .05;
    double t = g.uni(-1, 1), h = g.logu(1e-3, .3), T = h * g.uni(.3, 25);
    bool exact = g.chance(.3);      // a whole number of intervals without any rounding
    if (exact) { t = g.i(-8, 8) * .125; h = std::ldexp(1., -g.i(2, 8)); T = h * g.i(1, 25); c.count("whole numbers of intervals"); }
    DV x = rndv(g, n, 1);
    s->setInitialState(t, toV(x));
    c.desc << "p=" << s->p << " t=" << t << " h=" << h << " T=" << T << " x=" << list(x) << " bad=" << s->badShare << " changed=" << s->changedShare;
    RichardsonErrorCalculator<VD> rec; rec.setOdeSolver(s);
    struct S { double t, h; DV e; }; std::vector<S> got;
    rec.stepObservers.add([&](double t, double h, const V& e) { got.push_back({t, h, fromV(e)}); });
    // what should happen
    std::vector<S> want; Ref ref(n); double tEnd = t + T, tt = t; DV xx = x; bool throws = false; size_t steps = 0; bool tie = false;
    double fac = std::pow(2., s->p) / (std::pow(2., s->p) - 1);
    do {
        bool skip = false;
        auto one = [&](double at, const DV& v, double h) { auto f = s->flags(at, h); if (throws) return v; ++steps; if (f.changed) throws = true; if (!f.accepted || f.truncated) skip = true; return s->advance(at, v, h); };
        DV a = one(tt, xx, .5 * h); a = one(tt + .5 * h, a, .5 * h);
        DV b = one(tt, xx, h);
        if (throws) break;
        if (!skip) { DV e = sub(a, b); for (auto& v : e) v *= fac; want.push_back({tt, h, e}); ref.add(e); } else c.count("skipped intervals");
        xx = a; tt += h;
        if (std::fabs(tt - tEnd) < 1e-9 * h && !exact) tie = true;
    } while (tt < tEnd);
    auto nobs = [&] { return std::distance(s->odeSolverPostObservers.begin(), s->odeSolverPostObservers.end()); }; auto own = nobs();
    bool thrown = false; std::unique_ptr<ErrorStats<V>> st;
    try { st.reset(new ErrorStats<V>(rec.calculateError(T, h))); } catch (const Runaway&) { throw; } catch (const std::exception&) { thrown = true; }
    if (tie) return;
    c.require(s->disabled, "disable", "the error check of the solver is not disabled");
    c.require(nobs() == own, "observers", "an observer is left in the solver");
    if (thrown != throws) c.die("throw", throws ? "a changed step size is not reported" : "an unexpected exception");
    c.require(s->steps.size() == steps, "steps", std::to_string(s->steps.size()) + " steps instead of " + std::to_string(steps));
    if (got.size() != want.size()) c.die("samples", std::to_string(got.size()) + " error samples instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < got.size(); ++i) {
        double sc = 1e-14 * (1 + maxAbs(xx)) * 40;
        if (!close(got[i].t, want[i].t, 1e-12, 1e-12) || got[i].h != want[i].h || maxDiff(got[i].e, want[i].e) > sc)
            c.die("sample", "sample " + std::to_string(i) + " at " + num(got[i].t) + ": " + list(got[i].e) + " instead of " + list(want[i].e) + " at " + num(want[i].t));
        c.count("scripted samples");
    }
    if (!thrown) {
        c.require(st->sampleCount() == want.size(), "count", "wrong number of samples");
        Ref r2(n); for (auto& q : got) r2.add(q.e);
        compare(c, *st, r2);
    } else c.count("step size changes reported");
    c.nontrivial(std::to_string(s->p) + "/" + std::to_string(want.size()) + "/" + std::to_string(n) + std::to_string(thrown));
}

// ---- Richardson: the estimate is the local error ---------------------------
std::vector<LD> evalLD(const GenRhs& f, LD t, const std::vector<LD>& x) {
    std::vector<LD> r(f.n(), 0);
    unsigned m = f.n2 + f.n1;
    for (unsigned i = 0; i < f.n2; ++i) r[i] = x[f.n2 + i];
    for (unsigned j = 0; j < m; ++j) r[f.n2 + j] = f.c[j] + f.b[j] * sinl(f.om[j] * t + f.ph[j]);
    for (auto& k : f.terms) r[f.n2 + k.j] += k.a * x[k.i] + (k.q != 0 ? k.q * sinl(k.w * x[k.i] + k.p) : 0.L);
    return r;
}
DV exactStep(const GenRhs& f, double t0, const DV& x0, double h, int steps) {
    std::vector<LD> x(x0.begin(), x0.end()); LD t = t0, d = LD(h) / steps;
    auto ax = [](const std::vector<LD>& a, LD s, const std::vector<LD>& b) { auto r = a; for (size_t i = 0; i < r.size(); ++i) r[i] += s * b[i]; return r; };
    for (int k = 0; k < steps; ++k, t += d) {
        auto k1 = evalLD(f, t, x), k2 = evalLD(f, t + d / 2, ax(x, d / 2, k1)), k3 = evalLD(f, t + d / 2, ax(x, d / 2, k2)), k4 = evalLD(f, t + d, ax(x, d, k3));
        for (size_t i = 0; i < x.size(); ++i) x[i] += d / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    }
    return DV(x.begin(), x.end());
}
void real(Case& c) {
    auto& g = c.rng;
    static const std::vector<std::string> solvers{"euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_w1", "rosenbrock_sw2_4", "i_euler"};
    const std::string& id = g.pick(solvers);
    auto s = newSolver(id);
    if (id == "i_euler") {
        auto newton = std::dynamic_pointer_cast<IE>(s)->newtonSolver();
        auto ee = std::make_shared<SimpleErrorEstimator<VD>>();
        ee->setAbsoluteTolerance(1e-11); ee->setRelativeTolerance(1e-11); ee->setAbsoluteMaxThreshold(0); ee->setRelativeMaxThreshold(0);
        newton->setComponent(std::static_pointer_cast<ErrorEstimator<VD>>(ee));
    }
    if (id.substr(0, 5) == "dopri") { Params p; p["mode"] = std::string(g.chance(.5) ? "high" : "low"); s->setParameters(p); }
    int p = s->order();
    double h = p >= 7 ? .12 : p >= 5 ? .05 : p >= 4 ? .03 : p >= 2 ? .004 : .0015;
    double maxDev = 0; (void)maxDev;
    std::vector<double> dev;
    c.desc << id << " order " << p << " h=" << h;
    for (int sys = 0; sys < 5; ++sys) {
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 2);
        auto f = randomRhs(g, n2, n1, .5, 1, .7, .8); f->notify = false;
        double t0 = g.uni(-1, 1); DV x0 = rndv(g, f->n(), 1);
        s->setOdeRhs(f); s->setInitialState(t0, toV(x0));
        RichardsonErrorCalculator<VD> rec; rec.setOdeSolver(s);
        struct S { double t; DV e; }; std::vector<S> got;
        std::vector<StepRec> recs;
        {
            StepLog log(s);
            rec.stepObservers.add([&](double t, double, const V& e) { got.push_back({t, fromV(e)}); });
            rec.calculateError(6.5 * h, h);
            recs = log.recs;
            if (!log.protocol.empty()) c.die("protocol", log.protocol);
        }
        if (got.size() != 7 || recs.size() != 21) c.die("samples", std::to_string(got.size()) + " samples and " + std::to_string(recs.size()) + " steps instead of 7 and 21");
        for (int k = 0; k < 7; ++k) {
            auto& full = recs[3 * k + 2];
            if (full.h != h || recs[3 * k].h != .5 * h || recs[3 * k + 1].h != .5 * h) c.die("step-size", "a step of size " + num(full.h) + " instead of " + num(h));
            if (maxDiff(full.x0, recs[3 * k].x0) != 0 || !close(full.t0, got[k].t, 1e-13, 1e-13)) c.die("start", "the steps do not start at the same point");
            if (k && maxDiff(recs[3 * k].x0, recs[3 * k - 2].x1) != 0) c.die("continue", "the solution is not continued from the more exact one");
            DV e = sub(recs[3 * k + 1].x1, full.x1); double fac = std::pow(2., p) / (std::pow(2., p) - 1); for (auto& v : e) v *= fac;
            if (maxDiff(e, got[k].e) > 1e-12 * maxAbs(e) + 1e-18) c.die("estimate", list(got[k].e) + " instead of " + list(e));
            DV d = sub(exactStep(*f, full.t0, full.x0, h, 60), full.x1);
            double size = maxAbs(d);
            if (size < 3e-13) { c.count("errors too small to compare"); continue; }
            dev.push_back(maxDiff(d, got[k].e) / (size + 1e-13)); c.count("estimates compared with the exact error");
        }
    }
    if (dev.size() >= 12) {
        std::sort(dev.begin(), dev.end());
        if (dev[dev.size() / 2] > (p >= 7 ? .7 : p >= 5 ? .4 : .25)) c.die("accuracy", id + ": the error estimate deviates from the exact error by " + num(dev[dev.size() / 2]) + " of it (median)");
        c.count(id + " judged"); c.nontrivial(id + std::to_string(p) + num(dev[0]));
    }
}

// ---- timing ----------------------------------------------------------------
struct Oops {};
void timing(Case& c) {
    auto& g = c.rng;
    typedef unsigned long long U;
    // arithmetic
    {
        std::vector<sys::TimingStats> s(3); std::vector<std::pair<U, unsigned>> m(3);
        for (int k = 0; k < 30; ++k) {
            unsigned i = g.u(0, 2), j = g.u(0, 2);
            if (g.chance(.6)) { U t = g.chance(.1) ? 0 : g.u64() >> g.i(8, 60); s[i].add(t); m[i].first += t; ++m[i].second; }
            else if (g.chance(.5)) { s[i] += s[j]; auto q = m[j]; m[i].first += q.first; m[i].second += q.second; }
            else { auto q = s[i] + s[j]; c.require(q.time() == m[i].first + m[j].first && q.count() == m[i].second + m[j].second, "sum", "a sum of timings is wrong"); }
            if (m[i].second > 1000000) break;
            c.require(s[i].time() == m[i].first && s[i].count() == m[i].second && s[i].averageTime() == (m[i].second ? m[i].first / m[i].second : 0), "timing", "timing statistics are wrong");
            c.count("timing operations");
        }
        LUFactorizerTimingStats a, b; sys::TimingStats* f[5] = {&a.factorizeTiming, &a.solveTiming, &a.setMatrixTiming, &a.setMatrixFastTiming, &a.updateTiming};
        sys::TimingStats* h[5] = {&b.factorizeTiming, &b.solveTiming, &b.setMatrixTiming, &b.setMatrixFastTiming, &b.updateTiming};
        U x[5], y[5]; for (int k = 0; k < 5; ++k) { x[k] = g.u64() >> 20; y[k] = g.u64() >> 20; f[k]->add(x[k]); h[k]->add(y[k]); }
        auto q = a + b; auto b0 = b; b += a;
        for (auto* r : {&q, &b}) { U z[5] = {r->factorizeTiming.time(), r->solveTiming.time(), r->setMatrixTiming.time(), r->setMatrixFastTiming.time(), r->updateTiming.time()}; for (int k = 0; k < 5; ++k) c.require(z[k] == x[k] + y[k], "lu-sum", "a sum of the LU timings is wrong"); }
        c.require(a.factorizeTiming.time() == x[0] && b0.updateTiming.time() == y[4], "lu-operand", "adding timings changed an operand");
    }
    // measured intervals lie between the ones measured inside and outside
    {
        OpaqueTickCounter tc; volatile double sink = 0;
        auto work = [&] { int n = g.i(0, 2000); for (int k = 0; k < n; ++k) sink = sink + k; };
        for (int r = 0; r < 5; ++r) {
            U o0 = __rdtsc(); tc.Start(); U i0 = __rdtsc();
            int laps = g.i(0, 4);
            for (int l = 0; l <= laps; ++l) {
                work();
                U i1 = __rdtsc(); U got = l == laps ? tc.Stop() : tc.Lap(); U o1 = __rdtsc();
                if (got + 1000 < i1 - i0 || got > o1 - o0 + 1000) c.die("interval", "an interval of " + std::to_string(got) + " ticks, which is between " + std::to_string(i1 - i0) + " and " + std::to_string(o1 - o0));
                o0 = i1; i0 = o1; c.count("intervals");
            }
        }
        sys::TimingStats st; unsigned want = 0; U outer = 0, inner = 0;
        for (int r = 0; r < 10; ++r) {
            U o0 = __rdtsc(), i0 = 0, i1 = 0;
            try { sys::ScopedTimeMeasurer m(st); ++want; i0 = __rdtsc(); work(); i1 = __rdtsc(); if (g.chance(.3)) throw Oops(); } catch (Oops) { c.count("scopes left by an exception"); }
            outer += __rdtsc() - o0; inner += i1 - i0;
            c.require(st.count() == want && st.time() + 10000 >= inner && st.time() <= outer + 10000, "scope", "the time of a scope has not been measured");
        }
    }
    // a solver collects the timings of its parts, under unique names
    {
        struct Part : OdeSolverComponent<VD> {
            std::map<std::string, sys::TimingStats> m; double saved = 0;
            explicit Part(Solver& s) : OdeSolverComponent<VD>(s) {}
            std::map<std::string, sys::TimingStats> timingStats() const override { return m; }
        };
        auto s = newSolver(g.pick(std::vector<std::string>{"euler", "rk4", "dopri_45", "i_euler", "rosenbrock_w1"}));
        c.require(s->timingStats().empty(), "parts", "timings without any");
        std::list<Part> parts; const char* names[] = {"a", "b", "lu", "rhs", "zero", "x", "y"};
        for (int r = 0; r < 6; ++r) {
            if (parts.empty() || g.chance(.6)) {
                parts.emplace_back(*s);
                for (int k = g.i(0, 2); k-- > 0;) { sys::TimingStats t; for (int q = g.i(0, 3); q-- > 0;) t.add(g.u64() >> 30); parts.back().m[names[g.u(0, 6)]] = t; }
            } else { auto it = parts.begin(); std::advance(it, g.u(0, unsigned(parts.size() - 1))); parts.erase(it); }
            std::map<std::string, U> want; bool twice = false;
            for (auto& p : parts) for (auto& k : p.m) if (!want.insert({k.first, k.second.time() * 64 + k.second.count()}).second) twice = true;
            bool refused = false; std::map<std::string, U> got;
            try { for (auto& k : s->timingStats()) got[k.first] = k.second.time() * 64 + k.second.count(); } catch (const ctm::cxx::exception&) { refused = true; }
            if (refused != twice) c.die("parts", refused ? "unique names are refused" : "two timings of the same name");
            if (!twice && got != want) c.die("parts", "the timings are not those of the parts");
            c.count("timings of parts collected");
        }
    }
    // LU: operations are counted
    {
        unsigned n = g.u(1, 5); unsigned cnt[4] = {0, 0, 0, 0}; // set, fast, solve, -
        SM A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i == j || g.chance(.3)) A.at(i, j) = i == j ? 5 + g.u01() : g.uni(-1, 1);
        LUFactorizer<double> lu; unsigned fact = 0; bool dirty = false;
        for (int k = 0; k < 15; ++k) {
            int op = k ? g.i(0, 3) : 0;
            if (op == 0) { lu.setMatrix(A); ++cnt[0]; dirty = true; }
            else if (op == 1) { lu.setMatrixFast(A); ++cnt[1]; dirty = true; }
            else if (op == 2) { DV b = rndv(g, n, 1); lu.solve(b.data()); ++cnt[2]; if (dirty) { ++fact; dirty = false; } }
            else if (g.chance(.2)) { lu.clearTimingStats(); cnt[0] = cnt[1] = cnt[2] = fact = 0; }
            auto t = lu.timingStats();
            if (t.setMatrixTiming.count() != cnt[0] && t.setMatrixTiming.count() > cnt[0] + cnt[1]) c.die("lu-set", "setMatrix() timings are not counted");
            c.require(t.solveTiming.count() == cnt[2] && t.factorizeTiming.count() == fact, "lu-count", "LU operations are not counted: " + std::to_string(t.solveTiming.count()) + " solutions instead of " + std::to_string(cnt[2]) + ", " + std::to_string(t.factorizeTiming.count()) + " factorizations instead of " + std::to_string(fact));
            c.require(t.setMatrixTiming.count() >= cnt[0] && t.setMatrixTiming.count() + t.setMatrixFastTiming.count() >= cnt[0] + cnt[1], "lu-set", "matrix assignments are not counted");
            c.count("LU operations counted");
        }
    }
    c.nontrivial(std::to_string(g.u64() % 1000));
}
void calibrator(Case& c) {
    auto& g = c.rng;
    bool longEnough = g.chance(.6);
    typedef unsigned long long U;
    auto o0 = __rdtsc(); auto om0 = sys::GetClockTimeMsec();
    sys::TimerCalibrator tc;
    auto i0 = __rdtsc(); auto im0 = sys::GetClockTimeMsec();
    c.require(!tc.stopped() && !tc.toMsecAvailable(), "running", "a running calibrator pretends to be ready");
    usleep(longEnough ? 130000 : 2000);
    auto i1 = __rdtsc(); auto im1 = sys::GetClockTimeMsec();
    tc.stop();
    auto o1 = __rdtsc(); auto om1 = sys::GetClockTimeMsec();
    c.require(tc.stopped(), "stopped", "a stopped calibrator pretends to run");
    U q = g.u64() >> g.i(20, 50);
    c.desc << (longEnough ? "long" : "short") << " " << q;
    if (im1 - im0 >= 100) {
        c.require(tc.toMsecAvailable(), "available", "the conversion is not available after " + std::to_string(im1 - im0) + " ms");
        double lo = double(im1 - im0) / double(o1 - o0), hi = (double(om1 - om0) + 2) / double(i1 - i0);
        double got = tc.toMsec(q);
        c.require(got >= q * lo * .999999 && got <= q * hi * 1.000001, "msec", num(got) + " ms for " + std::to_string(q) + " ticks, which is between " + num(q * lo) + " and " + num(q * hi));
        std::ostringstream ms; ms << got;
        std::string a = tc.formatTimeInterval(q), b = tc.formatTimeInterval(q, false);
        c.require(a == ms.str() + " msec" && b == std::to_string(q) + " ticks = " + ms.str() + " msec", "format", "'" + a + "', '" + b + "'");
        c.count("calibrated");
    }
    else if (om1 - om0 < 100) {
        c.require(!tc.toMsecAvailable(), "available", "the conversion is available after " + std::to_string(om1 - om0) + " ms");
        bool thrown = false; try { tc.toMsec(q); } catch (const std::exception&) { thrown = true; }
        c.require(thrown, "short", "a conversion after a short interval");
        c.require(tc.formatTimeInterval(q) == std::to_string(q) + " ticks" && tc.formatTimeInterval(q, false) == std::to_string(q) + " ticks", "format", tc.formatTimeInterval(q));
        c.count("too short to calibrate");
    }
    c.nontrivial(std::to_string(longEnough) + std::to_string(q));
}
void run(Ctx& ctx) {
    registerAll();
    ctx.rule("error statistics over scalars and vectors follow the samples added and merged; the Richardson calculator makes two half steps and a full one from the same point, skips rejected and truncated ones, refuses changed step "
             "sizes, and its estimate is the local error; timings are added, counted and measured");
    ctx.expectAtLeast("statistics compared", 5000); ctx.expectAtLeast("scripted samples", 2000); ctx.expectAtLeast("skipped intervals", 300); ctx.expectAtLeast("estimates compared with the exact error", 1000);
    ctx.expectAtLeast("intervals", 1000); ctx.expectAtLeast("calibrated", 5); ctx.expectAtLeast("timings of parts collected", 500);
    ctx.section("stats", 1500, 60000, stats);
    ctx.expectAtLeast("whole numbers of intervals", 100);
    ctx.section("scripted", 1500, 60000, scripted);
    ctx.section("richardson", 160, 6000, real);
    ctx.section("timing", 300, 15000, timing);
    ctx.section("calibrator", 40, 400, calibrator);
}
}
VF_MAIN(run)
