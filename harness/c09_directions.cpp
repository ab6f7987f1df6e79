// C09: descent directions and line search.
#include "newton_common.h"
using namespace vf;
using namespace ctm::math;

static DV rnd(Rng& g, unsigned n, double s) { DV x(n); for (auto& v : x) v = g.uni(-s, s); return x; }
static double norm2(const DV& v) { double r = 0; for (double x : v) r += x * x; return r; }

static void run(Ctx& ctx) {
    ctx.rule("line search along descent, ascent, zero and non-finite directions of random nonlinear mappings; sequences of descent directions of each method along Newton-like paths with hard "
             "and soft resets, success reports and Jacobian providers, with the Jacobian in use reported by an observer; non-trivial: a line search that had to cut the step, or a sequence with "
             "at least one Jacobian update; distinct by inputs");
    ctx.expectAtLeast("secant updates", 500);
    ctx.expectAtLeast("cut steps", 300);
    ctx.expectAtLeast("no step", 100);

    ctx.section("line-search", 15000, 200000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 7);
        std::shared_ptr<TestMapping> f = g.chance(.5) ? dominantMapping(g, n, .4, .6) : randomMapping(g, n, n, .5, true, .9);
        SimpleNewtonLinearSearch<VD> ls;
        ls.setMapping(f);
        unsigned trunc = g.chance(.6) ? ls.maxStepTruncations() : g.u(1, 14);
        ls.setMaxStepTruncations(trunc);
        if (ls.maxStepTruncations() != trunc) c.die("settings", "");
        DV x0 = rnd(g, n, 2), f0 = f->eval(x0), dir(n);
        int kind = g.i(0, 7);
        DM J = f->jac(x0);
        if (kind <= 4) {
            DV b = f0; for (auto& q : b) q = -q;
            if (!denseSolve(J, b, dir)) return;
            double s = kind <= 1 ? 1. : kind == 2 ? -1. : kind == 3 ? g.logu(1e-3, 1e4) : -g.logu(1e-3, 1e4);
            for (auto& q : dir) q *= s;
        }
        else if (kind == 5) dir = rnd(g, n, 5);
        else if (kind == 6) { dir = rnd(g, n, 2); dir[g.u(0, n - 1)] = g.chance(.5) ? NAN : INFINITY; }
        else dir.assign(n, 0.);
        c.desc << f->text() << " x0=" << list(x0) << " dir=" << list(dir) << " truncations=" << trunc;
        V vd = toV(dir), vx = toV(x0), vf0 = toV(f0), res(n);
        for (unsigned i = 0; i < n; ++i) res[i] = 777;
        struct Try { double alpha, n2; DV f; };
        std::vector<Try> tries;
        ls.lineSearchObservers.add([&](unsigned it, double alpha, const V& d, const V& x, const V& f0v, const V& fv) {
            if (it != tries.size()) c.fail("observer-number", std::to_string(it));
            DV got = fromV(fv), xs = x0;
            for (unsigned i = 0; i < n; ++i) xs[i] += alpha * dir[i];
            DV e = f->eval(xs);
            for (unsigned i = 0; i < n; ++i) {
                if (!close(got[i], e[i], 1e-9, 1e-9 * (1 + maxAbs(e))) && std::isfinite(e[i])) c.fail("observer-value", "f=" + list(got) + ", expected " + list(e) + " at alpha=" + num(alpha));
                if (!same(d[i], dir[i]) || x[i] != x0[i] || f0v[i] != f0[i]) c.fail("observer-arguments", "");
            }
            tries.push_back(Try{alpha, norm2(got), got});
        });
        f->calls = 0; f->budget = 2 * trunc + 1;
        bool want = g.chance(.7);
        double alpha = want ? ls.lineSearch(vd, vx, vf0, &res) : ls.lineSearch(vd, vx, vf0);
        c.desc << " -> " << alpha;
        for (unsigned i = 0; i < n; ++i) if (!same(vd[i], dir[i]) || vx[i] != x0[i] || vf0[i] != f0[i]) c.die("arguments-modified", "");
        if (f->calls != long(tries.size())) c.die("observations", std::to_string(f->calls) + " evaluations, " + std::to_string(tries.size()) + " reported");
        double n0 = norm2(f0);
        const Try* chosen = nullptr;
        for (auto& t : tries) if (t.alpha == alpha) chosen = &t;
        if (alpha == 0) {
            c.count("no step");
            for (auto& t : tries) if (t.n2 < n0 * (1 - 1e-12)) c.die("missed", "a step with ratio " + num(t.alpha) + " reduces the residual from " + num(n0) + " to " + num(t.n2) + ", but no step is returned");
            if (want) for (unsigned i = 0; i < n; ++i) if (res[i] != 777) c.die("residual-of-no-step", "");
        }
        else {
            if (!chosen) c.die("untried", "the returned step ratio has not been tried");
            if (!(chosen->n2 < n0)) c.die("residual-grows", num(n0) + " -> " + num(chosen->n2) + " for " + num(alpha));
            for (auto& t : tries) if (t.n2 < chosen->n2 * (1 - 1e-12)) c.die("not-best", "ratio " + num(t.alpha) + " tried gives " + num(t.n2) + ", the returned one " + num(chosen->n2));
            if (want) for (unsigned i = 0; i < n; ++i) if (!close(res[i], chosen->f[i], 1e-12, 1e-12)) c.die("residual", "the residual returned is not that of the step returned");
            if (std::fabs(alpha) > 1) c.die("too-far", num(alpha));
            if (alpha < 0 && !tries.empty()) for (auto& t : tries) if (t.alpha > 0 && t.n2 < n0 * (1 - 1e-12)) c.die("wrong-way", "");
            if (alpha != 1) { c.count("cut steps"); c.nontrivial(c.desc.str()); }
            if (alpha < 0) c.count("steps backwards");
        }
        // a full step that serves well is taken at once
        if (!tries.empty() && tries[0].alpha == 1 && tries[0].n2 < .5 * n0 && (alpha != 1 || tries.size() != 1)) c.die("full-step", "the full step has reduced the residual to " + num(std::sqrt(tries[0].n2 / n0)) + ", but " + num(alpha) + " is taken");
        // the Newton direction of a solvable equation makes progress
        if (kind <= 1 && trunc >= 10 && n0 > 1e-8 && maxAbs(dir) < 1e3 && f->curvature() * maxAbs(dir) < 20 && alpha == 0) c.count("Newton direction without progress");
    });

    ctx.section("direction", 8000, 100000, [&](Case& c) {
        Rng& g = c.rng;
        int kd = g.i(0, 5);
        bool sparse = g.chance(.5);
        unsigned lazy = g.chance(.4) ? 0 : g.u(1, 6);
        auto dd = makeDDir(kd, lazy);
        c.desc << ddirNames[kd] << (sparse ? " sparse" : " dense") << " lazy=" << lazy;
        unsigned n = g.u(1, 7);
        auto f = dominantMapping(g, n, .4, .4);
        dd->setJacobianProvider(makeJProv(sparse));
        dd->setMapping(f);
        if (dd->jacobianProvider()->mapping() != f) c.die("provider-mapping", "");
        DM J; bool haveJ = false; int refreshes = 0, refreshDepth = 0, jobs = 0; DV seenDir;
        dd->jacobianObservers.add([&](const SMF& m, const V&, const V&) { J = denseOf(m); haveJ = true; ++jobs; });
        dd->jacobianRefreshObservers.add([&](bool start) { refreshDepth += start ? 1 : -1; if (refreshDepth < 0 || refreshDepth > 1) c.fail("refresh-protocol", ""); if (start) ++refreshes; });
        dd->ddirPostObservers.add([&](const V& d) { seenDir = fromV(d); });
        int runs = g.i(1, 4);
        std::set<Idx> pat = f->pattern();
        DM prevJ; DV px, pf; bool prev = false;
        bool computed = false;              // a Jacobian is in hand
        bool lastSuccess = true; unsigned lastIt = 0; bool reported = false;
        std::string hist;
        for (int r = 0; r < runs; ++r) {
            bool hard = r == 0 || g.chance(.4);
            if (hard && r && g.chance(.5)) { n = g.u(1, 7); f = dominantMapping(g, n, .4, .4); pat = f->pattern(); dd->setMapping(f); hist += "m"; }
            c.desc << "; " << (hard ? "hard " : "soft ") << f->text();
            dd->reset(hard);
            if (hard) { computed = false; }
            prev = false;
            hist += hard ? "H" : "S";
            DV x = rnd(g, n, 2);
            unsigned steps = g.u(1, 6);
            DM J0;                          // lazy: the matrix of the beginning and what has been gathered since
            for (unsigned k = 0; k < steps; ++k) {
                DV fx = f->eval(x);
                c.desc << " x=" << list(x);
                haveJ = false; jobs = 0; int before = refreshes; seenDir.clear();
                V d; dd->computeDescentDirection(d, toV(x), toV(fx), k);
                c.count("directions");
                if (refreshDepth) c.die("refresh-protocol", "unbalanced");
                bool refreshed = refreshes != before;
                if (!haveJ || jobs != 1) c.die("jacobian-observer", std::to_string(jobs));
                if (J.r != n || J.c != n) c.die("jacobian-size", "");
                DV dir = fromV(d);
                if (dir.size() != n) c.die("direction-size", "");
                for (unsigned i = 0; i < n; ++i) if (seenDir.size() != n || seenDir[i] != dir[i]) c.die("direction-observer", "");
                // J dir = -f
                DM A = f->jac(x);
                double wellCond = 1e300;
                { double low = 1e300; for (unsigned i = 0; i < n; ++i) { double off = 0; for (unsigned j = 0; j < n; ++j) if (j != i) off += std::fabs(J(i, j)); low = std::min(low, std::fabs(J(i, i)) - off); } wellCond = low; }
                if (wellCond > .05) for (unsigned i = 0; i < n; ++i) {
                    double s = fx[i], m = std::fabs(fx[i]);
                    for (unsigned j = 0; j < n; ++j) { s += J(i, j) * dir[j]; m += std::fabs(J(i, j) * dir[j]); }
                    if (!(std::fabs(s) <= 1e-9 * m + 1e-13)) c.die("direction/" + std::string(ddirNames[kd]), "row " + std::to_string(i) + " of J dir + f is " + num(s) + "; J=" + text(J) + " dir=" + list(dir) + " f=" + list(fx));
                    c.count("rows");
                }
                // the matrix in use
                double tolJ = 2e-6 * f->curvature() + 2e-9 * (1 + maxAbs(fx) + 3 * maxAbs(x));
                auto isJ = [&](const DM& R, const DM& E, double tol, const std::string& key) {
                    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (!(std::fabs(R(i, j) - E(i, j)) <= tol * (1 + std::fabs(E(i, j)))))
                        c.die(key + "/" + ddirNames[kd], "element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(R(i, j)) + ", expected " + num(E(i, j)) + "; J=" + text(R) + " expected " + text(E));
                };
                bool mustRefresh = kd == 0 || !computed || (kd == 4 && k == 0 && reported && !lastSuccess);
                bool dense = kd != 4 || true; (void)dense;
                if (refreshed != mustRefresh && !(kd == 4 && k == 0 && !reported)) c.die("refresh/" + std::string(ddirNames[kd]), refreshed ? "the Jacobian has been computed needlessly" : "the Jacobian has not been computed");
                double scale = 0; for (double q : J.a) scale = std::max(scale, std::fabs(q));
                double tiny = 1e-8 * (1 + scale);
                if (refreshed) { isJ(J, A, tolJ, "fresh"); c.count("fresh Jacobians"); }
                else if (kd == 1) isJ(J, prevJ, 1e-12, "const");
                else if (!prev) {
                    // after a soft reset nothing is learnt from the previous run, but lazy-fake-broyden applies what it has gathered
                    if (kd != 4) isJ(J, prevJ, 1e-9, "kept");
                }
                else if (kd != 4) {
                    DV s(n), y(n), res(n); double ss = 0;
                    for (unsigned i = 0; i < n; ++i) { s[i] = x[i] - px[i]; y[i] = fx[i] - pf[i]; ss += s[i] * s[i]; }
                    DV Js = mul(prevJ, s);
                    for (unsigned i = 0; i < n; ++i) res[i] = y[i] - Js[i];
                    c.count("secant updates");
                    hist += "u";
                    if (kd == 2 || kd == 3) {
                        DM E = prevJ;
                        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (kd == 2 || pat.count(Idx(i, j))) E(i, j) += res[i] * s[j] / ss;
                        isJ(J, E, 1e-9 + 1e-15 * scale * maxAbs(x) / std::sqrt(ss), "update");
                    }
                    else {  // Hart: the secant condition, row by row, where there is something to update
                        DV now = mul(J, s);
                        for (unsigned i = 0; i < n; ++i) {
                            double m = std::fabs(y[i]), step = 0; for (unsigned j = 0; j < n; ++j) { m += std::fabs(J(i, j) * s[j]); if (J(i, j) != 0) step = std::max(step, std::fabs(s[j])); }
                            if (step < 1e-5) continue;
                            if (wellCond > .05 && !(std::fabs(now[i] - y[i]) <= 1e-8 * m + 1e-13)) c.die("secant/hart", "row " + std::to_string(i) + ": J s = " + num(now[i]) + ", y = " + num(y[i]));
                        }
                    }
                }
                else if (k > 0) isJ(J, prevJ, 1e-12, "lazy-changed-in-a-run");
                (void)tiny; (void)J0;
                prevJ = J; px = x; pf = fx; prev = true; computed = true;
                lastIt = k;
                double a = g.chance(.6) ? 1. : g.uni(.2, .9);
                DV nx = x; for (unsigned i = 0; i < n; ++i) nx[i] += a * dir[i];
                if (g.chance(.3)) { nx = x; for (auto& q : nx) q += g.uni(-1, 1); }   // not along the direction
                double ds = 0; for (unsigned i = 0; i < n; ++i) ds = std::max(ds, std::fabs(nx[i] - x[i]));
                if (!(ds > 1e-4) || !(maxAbs(nx) < 50)) break;
                x = nx;
            }
            bool success = g.chance(.7);
            dd->reportSuccess(success); reported = true; lastSuccess = success; (void)lastIt;
            hist += success ? "+" : "-";
        }
        if (hist.find('u') != std::string::npos || kd == 0 || kd == 4) c.nontrivial(hist + ddirNames[kd] + std::to_string(hashPattern(pat, n)));
    });

    // lazy-fake-broyden: what it has gathered in a long run is applied at the beginning of the next one
    ctx.section("lazy", 3000, 40000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 7), lazy = g.u(0, 3);
        auto f = dominantMapping(g, n, .4, .4);
        auto dd = makeDDir(4, lazy);
        dd->setJacobianProvider(makeJProv(g.chance(.5)));
        dd->setMapping(f);
        dd->reset(true);
        c.desc << "lazy_iterations=" << lazy << " " << f->text();
        DM J, prevJ, dJ; bool refreshed = false;
        dd->jacobianObservers.add([&](const SMF& m, const V&, const V&) { J = denseOf(m); });
        dd->jacobianRefreshObservers.add([&](bool s) { if (s) refreshed = true; });
        int runs = g.i(2, 5);
        auto pat = f->pattern();
        bool recompute = true, update = false;
        for (int r = 0; r < runs; ++r) {
            dd->reset(false);
            unsigned steps = g.u(1, 5);
            DV px, pf;
            DV x = rnd(g, n, 2);
            unsigned done = 0;
            for (unsigned k = 0; k < steps; ++k, ++done) {
                DV fx = f->eval(x);
                refreshed = false;
                c.desc << " x=" << list(x);
                V d; dd->computeDescentDirection(d, toV(x), toV(fx), k);
                if (refreshed != (k == 0 && recompute)) c.die("refresh", refreshed ? "needless" : "missing");
                DM E = prevJ;
                double tol = 1e-8;
                if (refreshed) { E = f->jac(x); tol = 2e-6 * f->curvature() + 2e-9 * (1 + maxAbs(fx) + 3 * maxAbs(x)); dJ = DM(n, n); }
                else if (k == 0 && update) { for (size_t q = 0; q < E.a.size(); ++q) E.a[q] += dJ.a[q]; dJ = DM(n, n); c.count("gathered updates applied"); }
                for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (!(std::fabs(J(i, j) - E(i, j)) <= tol * (1 + std::fabs(E(i, j)))))
                    c.die(refreshed ? "fresh" : update && k == 0 ? "applied" : "kept", "element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(J(i, j)) + ", expected " + num(E(i, j)));
                if (k > 0) {
                    DV s(n), res(n); double ss = 0;
                    for (unsigned i = 0; i < n; ++i) { s[i] = x[i] - px[i]; ss += s[i] * s[i]; }
                    DV Js = mul(J, s);
                    for (unsigned i = 0; i < n; ++i) res[i] = fx[i] - pf[i] - Js[i];
                    for (auto& p : pat) dJ(p.first, p.second) += res[p.first] * s[p.second] / ss;
                }
                prevJ = J; px = x; pf = fx;
                for (unsigned i = 0; i < n; ++i) x[i] += g.uni(-1, 1);
            }
            bool ok = g.chance(.8);
            dd->reportSuccess(ok);
            recompute = !ok; update = ok && done > lazy;
            c.desc << (ok ? " success;" : " failure;");
        }
        // gathered updates may make the matrix anything; only the bookkeeping is judged here
        c.nontrivial(c.desc.str());
    });
}
VF_MAIN(run)
