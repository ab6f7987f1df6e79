// C01: the solution returned by the LU factorizer solves the system
#include "lu_common.h"

static void checkElements(Case& c, const LU& lu, const TestMatrix& t, const RefLU& ref, const char* when, bool exact) {
    for (unsigned r = 0; r < t.n; ++r)
        for (unsigned j = 0; j < t.n; ++j) {
            double x = lu.elementAt(r, j), e = t.a(r, j);
            double tol = exact ? 0 : 8. * (t.n + 4) * 2.3e-16 * ref.absLU(r, j) + 1e-290;
            if (!(std::fabs(x - e) <= tol))
                c.die(std::string("element-") + when, "element (" + std::to_string(r) + "," + std::to_string(j) + ") reads " + num(x) + ", the matrix has " + num(e));
        }
}

static void run(Ctx& ctx) {
    ctx.rule("random square matrices (10 stencil shapes: sparse, band, arrows, dense, cyclic, triangular, blocks, long rows and columns; "
             "diagonally dominant or integer LU products; explicit zeros; badly scaled rows), several right hand sides each; "
             "non-trivial: the stencil produces fill-in or has at least 3 rows; distinct by stencil and values");
    ctx.assumption("the oracle demands the componentwise backward error bound of elimination without pivoting; matrices whose pivots come close to zero are not generated");

    ctx.section("solve", 6000, 120000, [&](Case& c) {
        TestMatrix t = randomMatrix(c.rng, ctx.thorough() && c.rng.chance(.1) ? 60 : 24);
        c.desc << t.text();
        RefLU ref(t.a);
        SM m = t.sparse();
        LU lu;
        int how = c.rng.i(0, 4);
        c.desc << " via " << how;
        SM tr;          // keep alive
        if (how == 0) lu.setMatrix(m);
        else if (how == 1) { auto v = t.triplets(c.rng); lu.setMatrix(v.begin(), v.end()); }
        else if (how == 2) { LU l2(m); lu = l2; }
        else if (how == 3) { SMF f; f = m; lu.setMatrix(f); }
        else { tr = SM(t.n, t.n); for (auto& i : t.stencil) tr.at(i.second, i.first) = t.a(i.first, i.second);
            auto v = tr.transposed(); lu.setMatrix(v.begin(), v.end()); }
        c.require(!lu.empty() && lu.size() == t.n, "size", "size() is " + std::to_string(lu.size()));
        c.require(!lu.isFactorized(), "factorized-early", "isFactorized() right after setMatrix()");
        bool checkEl = c.rng.chance(.4);
        if (checkEl) checkElements(c, lu, t, ref, "before-solve", true);
        for (unsigned r = 0; r < t.n && checkEl; ++r) {
            unsigned fc = t.n, fr = t.n;
            for (auto& i : t.stencil) { if (i.first == r) fc = std::min(fc, i.second); if (i.second == r) fr = std::min(fr, i.first); }
            c.require(lu.firstCol(r) == fc && lu.firstRow(r) == fr, "profile", "firstCol/firstRow of " + std::to_string(r));
        }
        int k = c.rng.i(1, 3);
        for (int s = 0; s < k; ++s) {
            DV b = randomRhs(c.rng, t.n), x = b;
            lu.solve(x.data());
            std::string why;
            c.count("solves");
            if (!backwardOk(t.a, ref, x, b, why)) c.die("residual", why);
        }
        c.require(lu.isFactorized(), "not-factorized", "isFactorized() is false after solve()");
        if (checkEl) {
            checkElements(c, lu, t, ref, "after-solve", false);
            auto back = ctm::math::luToMatrix(lu);
            c.require(back.size() == Idx(t.n, t.n), "to-matrix-size", "");
            for (unsigned r = 0; r < t.n; ++r) for (unsigned j = 0; j < t.n; ++j) {
                double tol = 8. * (t.n + 4) * 2.3e-16 * ref.absLU(r, j) + 1e-290;
                if (!(std::fabs(back.get(r, j) - t.a(r, j)) <= tol)) c.die("to-matrix", "luToMatrix differs at " + std::to_string(r) + "," + std::to_string(j));
            }
            c.count("matrices read back");
        }
        if (hasFillIn(t)) c.count("matrices with fill-in");
        c.count("stencil " + t.kind);
        if (t.n >= 3 || hasFillIn(t)) c.nontrivialHash(mix(t.patternHash() ^ hashStr(t.text())));
    });

    // exactly representable problems: the solution is an integer vector and must be returned exactly
    ctx.section("exact", 2000, 30000, [&](Case& c) {
        unsigned n = c.rng.u(1, 9);
        DM l(n, n), u(n, n);
        for (unsigned i = 0; i < n; ++i) {
            l(i, i) = 1; u(i, i) = c.rng.sgn() * (1 << c.rng.i(0, 2));
            for (unsigned j = 0; j < i; ++j) { if (c.rng.chance(.4)) l(i, j) = c.rng.i(-2, 2); if (c.rng.chance(.4)) u(j, i) = c.rng.i(-2, 2); }
        }
        DM a(n, n);
        SM m(n, n);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            for (unsigned k = 0; k < n; ++k) a(i, j) += l(i, k) * u(k, j);
            if (a(i, j) != 0 || i == j) m.at(i, j) = a(i, j);
        }
        DV x(n);
        for (auto& v : x) v = c.rng.i(-4, 4);
        DV b = mul(a, x), y = b;
        c.desc << "n=" << n << " A=" << list(a.a) << " x=" << list(x);
        LU lu(m);
        lu.solve(y.data());
        for (unsigned i = 0; i < n; ++i) if (y[i] != x[i]) c.die("exact", "expected " + list(x) + ", got " + list(y));
        c.count("exact solves");
        if (n >= 3) c.nontrivial(c.desc.str());
    });

    ctx.section("rejected", 1500, 10000, [&](Case& c) {
        // stencils that must be refused: not square, empty row or column, diagonal outside the profile
        unsigned n = c.rng.u(2, 8);
        std::vector<char> in(n * n, 0);
        for (unsigned k = 0, mm = c.rng.u(1, 2 * n); k < mm; ++k) in[c.rng.u(0, n * n - 1)] = 1;
        if (c.rng.chance(.5)) for (unsigned i = 0; i < n; ++i) in[i * n + i] = !c.rng.chance(.2);
        unsigned nr = 0, nc = 0;
        std::vector<unsigned> p(n, n), q(n, n);
        SM m(n, n);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (in[i * n + j]) {
            m.at(i, j) = i == j ? 5 + i : 1; nr = std::max(nr, i + 1); nc = std::max(nc, j + 1);
            p[i] = std::min(p[i], j); q[j] = std::min(q[j], i);
        }
        bool bad = nr != nc;
        for (unsigned i = 0; i < nr && !bad; ++i) if (p[i] > i || q[i] > i) bad = true;
        c.desc << "n=" << n << " stencil "; for (char x : in) c.desc << int(x);
        LU lu;
        bool thrown = false;
        try { lu.setMatrix(m); } catch (const std::exception&) { thrown = true; }
        if (bad != thrown) c.die(bad ? "bad-stencil-accepted" : "good-stencil-refused", "");
        c.count(bad ? "refused stencils" : "accepted stencils");
        if (bad) c.nontrivial(c.desc.str());
    });
    ctx.expectAtLeast("solves", 4000);
    ctx.expectAtLeast("matrices with fill-in", 500);
}
VF_MAIN(run)
