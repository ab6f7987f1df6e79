// C03: secant updates of a factorized matrix
#include "lu_common.h"

static void run(Ctx& ctx) {
    ctx.rule("random matrices and sequences of secant updates (s,y); after each one LU s = y, solve(y) = s, the sparsity profile is kept, rows that already "
             "satisfied the condition are unchanged and, for the least-change update, every changed row moved parallel to its profile part of s; "
             "non-trivial: at least 2 rows changed; distinct by inputs");
    auto body = [&](Case& c, bool hart) {
        Rng& g = c.rng;
        TestMatrix t = randomMatrix(g, 14);
        c.desc << t.text();
        LU lu(t.sparse());
        unsigned n = t.n;
        DM cur = t.a;                       // what the factorizer holds now
        if (g.chance(.5)) { DV b = randomRhs(g, n); lu.solve(b.data()); }
        int updates = g.i(1, 4);
        for (int k = 0; k < updates; ++k) {
            DV s(n), y(n), as;
            for (auto& x : s) x = g.sgn() * g.uni(.3, 2);
            if (hart && g.chance(.3) && n > 1) s[g.u(0, n - 1)] = 0;
            if (hart && g.chance(.15)) for (auto& x : s) if (g.chance(.6)) x = 0;
            as = mul(cur, s);
            // y: a moderate perturbation of A s; some rows exactly consistent as far as rounding allows
            std::vector<char> pert(n);
            for (unsigned i = 0; i < n; ++i) {
                pert[i] = g.chance(.7);
                double mag = 0; for (unsigned j = 0; j < n; ++j) mag += std::fabs(cur(i, j) * s[j]);
                y[i] = as[i] + (pert[i] ? .2 * g.uni(-1, 1) * mag : 0.);
                if (!hart && pert[i]) y[i] = as[i] * g.uni(.6, 1.6);
            }
            // degenerate cases of the method, which it cannot serve, are left out
            bool skip = false;
            std::vector<char> frozen(n);            // the step has no component along the elements of the row
            {
                // L and U of the current matrix
                RefLU ref(cur);
                if (!ref.ok || ref.minPivotRatio < 1e-4) break;
                for (unsigned i = 0; i < n; ++i) {
                    long double aa = 0, mag = 0;
                    for (unsigned j = lu.firstCol(i); j < i; ++j) {
                        long double rj = 0; for (unsigned q = j; q < n; ++q) rj += ref.f[size_t(j) * n + q] * s[q];
                        aa += rj * rj;
                    }
                    for (unsigned j = i; j < n; ++j) if (lu.firstRow(j) <= i) aa += (long double)s[j] * s[j];
                    (void)mag;
                    if (aa == 0) { frozen[i] = true; if (g.chance(.5)) y[i] = as[i] + g.uni(-1, 1); c.count("rows that cannot be updated"); continue; }
                    if (aa < 1e-6) skip = true;
                    if (!hart && std::fabs(as[i]) < 1e-3) skip = true;
                }
            }
            if (skip) { c.count("degenerate updates skipped"); break; }
            c.desc << " | s=" << list(s) << " y=" << list(y);
            RefLU ref0(cur);
            LU before = lu;
            if (hart) lu.secantUpdateHart(s.data(), y.data()); else lu.secantUpdateProportional(s.data(), y.data());
            c.count(hart ? "Hart updates" : "proportional updates");
            // The length of the step does not matter: a step and a difference that are 2^k times as long make the same update
            {
                double p = std::ldexp(1., g.i(-100, 60));
                DV ps = s, py = y;
                for (auto& v : ps) v *= p;
                for (auto& v : py) v *= p;
                LU twin = before;
                if (hart) twin.secantUpdateHart(ps.data(), py.data()); else twin.secantUpdateProportional(ps.data(), py.data());
                for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
                    double a = lu.elementAt(i, j), b = twin.elementAt(i, j);
                    if (a != b && !(a != a && b != b)) c.die("step-length", "element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(a) + ", with a step " + num(p) + " times as long " + num(b));
                }
                if (p < 1e-8) c.count("tiny steps");
            }
            // read the matrix back
            DM now(n, n);
            double scale = 0;
            for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { now(i, j) = lu.elementAt(i, j); scale = std::max(scale, std::fabs(now(i, j))); }
            RefLU ref(now);
            if (!std::isfinite(scale)) c.die("not-finite", "the updated matrix has elements that are not finite");
            // growth of the factors, for the error bound
            for (unsigned i = 0; i < n; ++i) {
                double sum = 0, bound = 0;
                for (unsigned j = 0; j < n; ++j) {
                    sum += now(i, j) * s[j];
                    double g2 = ref.ok ? ref.absLU(i, j) : 0;
                    bound += std::max(g2, std::fabs(now(i, j))) * std::fabs(s[j]);
                }
                double tol = 1e-11 * (n + 4) * (bound + std::fabs(y[i]));
                if (!ref.ok || ref.minPivotRatio < 1e-6) { tol = 1e300; c.count("near-singular results"); }
                if (frozen[i]) {
                    for (unsigned j = 0; j < n; ++j) {
                        bool inProfile = i > j ? j >= lu.firstCol(i) : i >= lu.firstRow(j);
                        if (!inProfile) continue;
                        long double was = ref0.f[size_t(i) * n + j], is = ref.f[size_t(i) * n + j];
                        if (ref.ok && ref.minPivotRatio >= 1e-6 && !(fabsl(was - is) <= 1e-9 * (1 + ref.absLU(i, j)))) c.die("row-spoilt", "row " + std::to_string(i) + " has changed, to no effect");
                    }
                    continue;
                }
                if (!(std::fabs(sum - y[i]) <= tol))
                    c.die("secant", "row " + std::to_string(i) + ": (LU s)_i = " + num(sum) + ", y_i = " + num(y[i]) + " (update " + std::to_string(k) + ")");
            }
            if (!ref.ok || ref.minPivotRatio < 1e-6) break;
            // profile kept
            for (unsigned i = 0; i < n; ++i) {
                if (lu.firstCol(i) != before.firstCol(i) || lu.firstRow(i) != before.firstRow(i)) c.die("profile", "the profile changed");
                for (unsigned j = 0; j < n; ++j) {
                    bool inProfile = i > j ? j >= lu.firstCol(i) : i >= lu.firstRow(j);
                    if (!inProfile && now(i, j) != 0) c.die("outside-profile", "element outside the profile became " + num(now(i, j)));
                }
            }
            // solve(y) = s
            for (unsigned i = 0; i < n; ++i) if (frozen[i]) { y[i] = 0; for (unsigned j = 0; j < n; ++j) y[i] += now(i, j) * s[j]; }
            DV x = y;
            lu.solve(x.data());
            std::string why;
            if (!backwardOk(now, ref, x, y, why)) c.die("solve-after-update", why);
            if (hart) {
                // least change: rows of L and U move along (r, s) restricted to the profile. Recover L, U from the matrices.
                RefLU rb(cur);
                int changed = 0;
                std::vector<long double> r(n, 0);
                for (unsigned i = 0; i < n; ++i) {
                    for (unsigned j = i; j < n; ++j) r[i] += ref.f[size_t(i) * n + j] * s[j];
                }
                for (unsigned i = 0; i < n; ++i) {
                    // direction d over the profile of row i
                    std::vector<long double> d(n, 0), m(n, 0);
                    long double dd = 0, dm = 0, mm = 0, mag = 0;
                    for (unsigned j = 0; j < n; ++j) {
                        bool in = i > j ? j >= lu.firstCol(i) : i >= lu.firstRow(j);
                        if (!in) continue;
                        d[j] = j < i ? r[j] : (long double)s[j];
                        m[j] = ref.f[size_t(i) * n + j] - rb.f[size_t(i) * n + j];
                        mag += fabsl(ref.f[size_t(i) * n + j]) + fabsl(rb.f[size_t(i) * n + j]);
                        dd += d[j] * d[j]; dm += d[j] * m[j]; mm += m[j] * m[j];
                    }
                    if (sqrtl(mm) > 1e-7 * mag) {
                        ++changed;
                        // Cauchy-Schwarz equality
                        if (!(dm * dm >= dd * mm * (1 - 1e-5) - 1e-16 * mag * mag * dd))
                            c.die("not-least-change", "row " + std::to_string(i) + " did not move along the secant direction: cos^2 = " + num(double(dm * dm / (dd * mm))));
                        if (!pert[i]) {
                            // the row was consistent with respect to the old factors, but factors above may have changed: allowed only then
                            bool above = false; for (unsigned j = lu.firstCol(i); j < i; ++j) above |= pert[j] != 0 || r[j] != 0;
                            if (!above) c.die("needless-change", "row " + std::to_string(i) + " changed although it satisfied the condition");
                        }
                    }
                }
                if (changed >= 2) c.nontrivial(c.desc.str());
            }
            else if (n >= 2) c.nontrivial(c.desc.str());
            cur = now;
        }
    };
    ctx.section("hart", 4000, 60000, [&](Case& c) { body(c, true); });
    ctx.section("proportional", 2000, 30000, [&](Case& c) { body(c, false); });
    ctx.expectAtLeast("Hart updates", 3000);
    ctx.expectAtLeast("proportional updates", 800);
    ctx.expectAtLeast("tiny steps", 500);
}
VF_MAIN(run)
