// C02: a factorizer that has been used before behaves like a fresh one
#include "lu_common.h"

// a matrix over the same size whose stencil is: 0 the same, 1 a subset, 2 a superset, 3 unrelated
static TestMatrix related(Rng& g, const TestMatrix& t, int rel) {
    for (;;) {
        TestMatrix r;
        r.n = t.n;
        std::vector<char> in(size_t(t.n) * t.n, 0);
        for (auto& i : t.stencil) in[size_t(i.first) * t.n + i.second] = 1;
        if (rel == 1) { for (unsigned i = 0; i < t.n; ++i) for (unsigned j = 0; j < t.n; ++j) if (i != j && g.chance(.4)) in[size_t(i) * t.n + j] = 0; }
        if (rel == 2) { for (unsigned k = 0, m = g.u(1, t.n); k < m; ++k) in[size_t(g.u(0, t.n - 1)) * t.n + g.u(0, t.n - 1)] = 1; }
        for (unsigned i = 0; i < t.n; ++i) in[size_t(i) * t.n + i] = 1;
        stencilFromDense(r, in);
        auto st = r.stencil;
        r.kind = "related" + std::to_string(rel);
        fillValues(g, r);
        if (rel != 0 || r.stencil == st) {
            RefLU ref(r.a);
            if (ref.ok && ref.minPivotRatio > 1e-6) return r;
        }
    }
}

static void run(Ctx& ctx) {
    ctx.rule("random histories of setMatrix / setMatrixFast (same, smaller, larger or unrelated stencil, other size) / rejected setMatrix / secant update / "
             "copy / solve / element reads on one factorizer; after every step the factorizer must describe the matrix set last; "
             "non-trivial: at least two successful set operations with solves in between; distinct by the history");
    ctx.section("history", 5000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        LU lu;
        TestMatrix cur;
        bool have = false, dirty = false;         // dirty: updated by a secant update, or a rejected matrix was offered
        bool factored = false;
        int steps = g.i(3, 12), sets = 0;
        std::ostringstream h;
        for (int s = 0; s < steps; ++s) {
            int op = g.i(0, 9);
            if (!have || (dirty && op > 5)) op = g.i(0, 4);
            if (op <= 4) {
                TestMatrix t;
                int rel = have ? g.i(0, 4) : 4;
                t = rel == 4 ? randomMatrix(g, 12) : related(g, cur, rel);
                bool fast = op >= 2;
                h << (fast ? "setMatrixFast(" : "setMatrix(") << "rel" << rel << " " << t.text() << "); ";
                c.desc.str(""); c.desc << h.str();
                SM m = t.sparse();
                if (g.chance(.3)) { SMF f; f = m; if (fast) lu.setMatrixFast(f); else lu.setMatrix(f); }
                else { if (fast) lu.setMatrixFast(m); else lu.setMatrix(m); }
                cur = t; have = true; dirty = false; factored = false; ++sets;
                c.count(fast ? "setMatrixFast" : "setMatrix");
                if (lu.size() != cur.n) c.die("size", "size() is " + std::to_string(lu.size()) + " after a matrix of " + std::to_string(cur.n) + " was set; history " + h.str());
                if (lu.isFactorized()) c.die("factorized-early", h.str());
            }
            else if (op == 5) {
                // a stencil that has to be refused
                unsigned n = g.u(2, 10);
                SM m(n, n);
                int how = g.i(0, 2);
                for (unsigned i = 0; i < n; ++i) m.at(i, i) = 1 + i;
                if (how == 0) m.removeAt(Idx(n - 1, n - 1));
                if (how == 0) m.at(n - 1, 0) = 1;          // not square
                if (how == 1) { m.removeAt(Idx(0, 0)); m.at(0, 1) = 1; m.at(1, 0) = 1; }     // diagonal not covered
                if (how == 2) { m.removeAt(Idx(n / 2, n / 2)); if (n / 2 == n - 1) { m.at(n - 1, 0) = 1; } }
                h << "refuse(" << how << ", n=" << n << "); ";
                c.desc.str(""); c.desc << h.str();
                bool thrown = false;
                try { if (g.chance(.5)) lu.setMatrix(m); else lu.setMatrixFast(m); } catch (const std::exception&) { thrown = true; }
                // (with setMatrixFast an incomplete stencil that fits into the old profile is legitimate)
                if (thrown) c.count("refused"); else c.count("accepted within the old profile");
                dirty = true;
            }
            else if (op == 6) {
                DV sv(cur.n), y(cur.n);
                for (auto& x : sv) x = g.sgn() * g.uni(.5, 2);
                for (auto& x : y) x = g.uni(-2, 2);
                h << "secantUpdateHart(); ";
                c.desc.str(""); c.desc << h.str();
                lu.secantUpdateHart(sv.data(), y.data());
                dirty = true;
            }
            else if (op == 7) {
                h << "copy; ";
                LU other(lu);
                LU third; third.setMatrix(randomMatrix(g, 5).sparse());
                third = other;
                lu = third;
            }
            else {
                DV b = randomRhs(g, cur.n), x = b;
                h << "solve; ";
                c.desc.str(""); c.desc << h.str();
                lu.solve(x.data());
                std::string why;
                RefLU ref(cur.a);
                c.count("solves");
                if (!backwardOk(cur.a, ref, x, b, why)) c.die("stale", why);
                factored = true;
                if (g.chance(.3)) {
                    for (unsigned r = 0; r < cur.n; ++r) for (unsigned j = 0; j < cur.n; ++j)
                        if (!(std::fabs(lu.elementAt(r, j) - cur.a(r, j)) <= 8. * (cur.n + 4) * 2.3e-16 * ref.absLU(r, j) + 1e-290))
                            c.die("stale-element", "element " + std::to_string(r) + "," + std::to_string(j) + " reads " + num(lu.elementAt(r, j)));
                }
            }
        }
        c.desc.str(""); c.desc << h.str();
        if (sets >= 2) { c.nontrivial(h.str()); c.count("histories with several matrices"); }
        if (factored && g.chance(.5)) {
            // timing statistics can be read and cleared at any time
            auto ts = lu.timingStats(); (void)ts; lu.clearTimingStats();
        }
    });
    ctx.expectAtLeast("setMatrixFast", 2000);
    ctx.expectAtLeast("solves", 2000);
    ctx.expectAtLeast("refused", 200);
}
VF_MAIN(run)
