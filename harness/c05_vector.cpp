// C05: vectors and their views against plain arrays
#include "common.h"
#include "ode_num_int/la/VectorTemplate.h"
using namespace vf;
using namespace ctm::math;
typedef VectorTemplate<VectorData<double>> Vec;

template<class V> static void compare(Case& c, const V& v, const DV& m, const char* what) {
    std::string w = what;
    c.count("comparisons");
    if (v.size() != m.size() || v.empty() != m.empty()) c.die("size/" + w, "size " + std::to_string(v.size()) + " vs " + std::to_string(m.size()));
    for (unsigned i = 0; i < m.size(); ++i) {
        if (!same(v[i], m[i])) c.die("index/" + w, "[" + std::to_string(i) + "] reads " + num(v[i]) + ", expected " + num(m[i]));
        if (!same(v.at(i), m[i])) c.die("at/" + w, "at(" + std::to_string(i) + ")");
    }
    size_t k = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++k) if (k >= m.size() || !same(*it, m[k])) c.die("iterate/" + w, "position " + std::to_string(k));
    if (k != m.size()) c.die("iterate-count/" + w, std::to_string(k));
    k = 0;
    for (auto it = v.begin(), b = it; !(it == v.end()); ++it, ++k) {      // positions are equal to themselves only
        if (k >= m.size()) c.die("iterator-end/" + w, "");
        decltype(it) copy(it);
        if (!(copy == it) || copy != it || !same(*copy, m[k]) || (b == it) != (k == 0) || (b != it) == (k == 0)) c.die("iterator-equal/" + w, "position " + std::to_string(k));
    }
    if (k != m.size()) c.die("iterator-end/" + w, std::to_string(k) + " of " + std::to_string(m.size()));
    k = 0;
    for (auto it = v.cbegin(); it != v.cend(); ++it, ++k) if (k >= m.size() || !same(*it, m[k])) c.die("citerate/" + w, "");
    double inf = 0, one = 0, sq = 0;
    for (double x : m) { inf = std::max(inf, std::fabs(x)); one += std::fabs(x); sq += x * x; }
    if (!close(v.infNorm(), inf, 0, 0)) c.die("infNorm/" + w, num(v.infNorm()) + " vs " + num(inf));
    if (!close(v.oneNorm(), one, 1e-13, 0)) c.die("oneNorm/" + w, num(v.oneNorm()) + " vs " + num(one));
    if (!close(v.euclideanNormSquare(), sq, 1e-13, 0)) c.die("euclideanNormSquare/" + w, "");
    if (!close(v.euclideanNorm(), std::sqrt(sq), 1e-13, 0)) c.die("euclideanNorm/" + w, "");
    auto cl = v.clone();
    if (cl.size() != m.size()) c.die("clone/" + w, "");
    for (unsigned i = 0; i < m.size(); ++i) if (!same(cl[i], m[i])) c.die("clone/" + w, "");
    Vec a(v), b(3), d; b[0] = 9; b = v; d = v;
    for (unsigned i = 0; i < m.size(); ++i) if (!same(a[i], m[i]) || !same(b[i], m[i]) || !same(d[i], m[i])) c.die("copy/" + w, "component " + std::to_string(i));
    if (a.size() != m.size() || b.size() != m.size() || d.size() != m.size()) c.die("copy-size/" + w, "");
    // the clone owns its elements
    if (!m.empty()) { cl[0] = m[0] + 1; if (!same(v[0], m[0])) c.die("clone-aliases/" + w, ""); a[0] = m[0] + 2; if (!same(v[0], m[0]) || !same(b[0], m[0])) c.die("copy-aliases/" + w, ""); }
}

static DV randomDV(Rng& g, unsigned n) {
    DV v(n);
    for (auto& x : v) { int k = g.i(0, 9); x = k == 0 ? 0. : k < 5 ? double(g.i(-9, 9)) : g.uni(-1, 1) * g.logu(1e-6, 1e6); }
    return v;
}
static Vec make(const DV& m) { Vec v(m.size()); for (unsigned i = 0; i < m.size(); ++i) v[i] = m[i]; return v; }

static std::string refString(const DV& m, unsigned lim) {
    std::ostringstream s; s << '[';
    size_t n = m.size();
    bool cut = lim != ~0u && n > 2 * size_t(lim);
    bool first = true;
    for (size_t i = 0; i < n; ++i) {
        if (cut && i == lim) { s << (first ? "..." : ", ..."); first = false; i = n - lim; if (lim == 0) break; }
        s << (first ? "" : ", ") << m[i]; first = false;
    }
    s << ']'; return s.str();
}

static void run(Ctx& ctx) {
    ctx.rule("random histories on a vector (element writes, resize, clear, arithmetic with vectors, blocks, nested blocks, const blocks and scaled views, assignments to and "
             "from views, member-wise functions, printing) mirrored in a plain array; non-trivial: at least 4 operations on at least 2 elements; distinct by history");
    ctx.section("history", 10000, 150000, [&](Case& c) {
        Rng& g = c.rng;
        DV m = randomDV(g, g.u(0, 12));
        Vec v = make(m);
        c.desc << "start " << list(m);
        int steps = g.i(2, 10);
        for (int q = 0; q < steps; ++q) {
            int op = g.i(0, 19);
            unsigned n = unsigned(m.size());
            unsigned from = g.u(0, n), len = g.u(0, n - from);
            auto sub = [&](const DV& x) { return DV(x.begin() + from, x.begin() + from + len); };
            if (op == 0 && n) { unsigned i = g.u(0, n - 1); double x = g.uni(-9, 9); if (g.chance(.5)) v[i] = x; else v.at(i) = x; m[i] = x; c.desc << "; [" << i << "]=" << x; }
            else if (op == 1) { unsigned k = g.u(0, 15); v.resize(k); m.resize(k, 0.); c.desc << "; resize(" << k << ")"; }
            else if (op == 2) { v.clear(); std::fill(m.begin(), m.end(), 0.); c.desc << "; clear"; for (auto& x : m) { (void)x; } if (n) { v[0] = 3; m[0] = 3; } }
            else if (op == 3 || op == 4) {
                DV b = randomDV(g, n); double f = op == 3 ? 1 : -1;
                c.desc << (op == 3 ? "; +=" : "; -=") << list(b);
                Vec w = make(b);
                int how = g.i(0, 3);
                if (how == 0) { if (f > 0) v += w; else v -= w; }
                else if (how == 1) { double s = g.i(-3, 3); if (f > 0) v += w.scaled(s); else v -= w.scaled(s); for (auto& x : b) x *= s; }
                else if (how == 2) { DV big = randomDV(g, n + 4); for (unsigned i = 0; i < n; ++i) big[i + 3] = b[i]; Vec bg = make(big); if (f > 0) v += bg.block(3, n); else v -= bg.block(3, n); }
                else { Vec r = f > 0 ? v + w : v - w; compare(c, v, m, "operand"); v = r; }
                for (unsigned i = 0; i < n; ++i) m[i] += f * b[i];
            }
            else if (op == 5 && n && g.chance(.4)) {          // the factor is an element of the vector itself
                unsigned i = g.u(0, n - 1); double s = m[i];
                c.count("scalings by an own element");
                if (g.chance(.5)) { v *= v[i]; for (auto& x : m) x *= s; c.desc << "; *=[" << i << "]"; }
                else { auto bl = v.block(from, len); bl *= v[i]; for (unsigned k = 0; k < len; ++k) m[from + k] *= s; c.desc << "; block(" << from << "," << len << ")*=[" << i << "]"; }
            }
            else if (op == 5) { double s = g.uni(-2, 2); v *= s; for (auto& x : m) x *= s; c.desc << "; *=" << s; }
            else if (op == 6) {
                DV b = randomDV(g, n); Vec w = make(b); double want = 0, mag = 0; for (unsigned i = 0; i < n; ++i) { want += m[i] * b[i]; mag += std::fabs(m[i] * b[i]); }
                if (!close(v.dot(w), want, 0, 1e-13 * mag)) c.die("dot", num(v.dot(w)) + " vs " + num(want));
                if (!close(w.scaled(2).dot(v), 2 * want, 0, 2e-13 * mag)) c.die("dot-scaled", "");
                if (!close(v.dot(v), v.euclideanNormSquare(), 1e-13, 0)) c.die("dot-self", "");
            }
            else if (op == 7) { auto b = v.block(from, len); compare(c, b, sub(m), "block"); const Vec& cv = v; compare(c, cv.block(from, len), sub(m), "const-block");
                unsigned f2 = g.u(0, len), l2 = g.u(0, len - f2); DV s2 = sub(m); compare(c, b.block(f2, l2), DV(s2.begin() + f2, s2.begin() + f2 + l2), "nested-block"); }
            else if (op == 8) { double s = g.uni(-3, 3); DV e = m; for (auto& x : e) x *= s; compare(c, v.scaled(s), e, "scaled"); auto b = v.block(from, len); DV eb = sub(e); compare(c, b.scaled(s), eb, "scaled-block"); }
            else if (op == 9 && len) { unsigned i = g.u(0, len - 1); double x = g.uni(-9, 9); auto b = v.block(from, len); if (g.chance(.5)) b[i] = x; else b.at(i) = x; m[from + i] = x; c.desc << "; block(" << from << "," << len << ")[" << i << "]=" << x; }
            else if (op == 10) { DV b = randomDV(g, len); Vec w = make(b); c.desc << "; block(" << from << "," << len << ")=" << list(b); auto bl = v.block(from, len); 
                int how = g.i(0, 2); double s = 1;
                if (how == 0) bl = w; else if (how == 1) { s = g.i(-3, 3); bl = w.scaled(s); } else { Vec o = make(b); auto ob = o.block(0, len); bl = ob; }
                for (unsigned i = 0; i < len; ++i) m[from + i] = s * b[i]; }
            else if (op == 11) { DV b = randomDV(g, len); Vec w = make(b); auto bl = v.block(from, len); double f = g.chance(.5) ? 1 : -1; c.desc << "; block+-=" << list(b); if (f > 0) bl += w; else bl -= w; for (unsigned i = 0; i < len; ++i) m[from + i] += f * b[i]; }
            else if (op == 12) { double s = g.uni(-2, 2); auto bl = v.block(from, len); bl *= s; for (unsigned i = 0; i < len; ++i) m[from + i] *= s; c.desc << "; block*=" << s; }
            else if (op == 13) { auto bl = v.block(from, len); bl.clear(); for (unsigned i = 0; i < len; ++i) m[from + i] = 0; c.desc << "; block(" << from << "," << len << ").clear"; }
            else if (op == 14) {
                unsigned lim = g.chance(.3) ? ~0u : g.u(0, 8);
                std::string s = lim == ~0u && g.chance(.5) ? v.toString() : v.toString(lim), want = refString(m, lim);
                if (s != want) c.die("toString", "toString(" + std::to_string(lim) + ") is " + s + ", expected " + want);
                std::ostringstream os; os << v; if (os.str() != refString(m, ~0u)) c.die("print", os.str());
            }
            else if (op == 15) {
                DV b = randomDV(g, n); Vec w = make(b);
                Vec mx = std::max(v, w), ab = std::fabs(v);
                for (unsigned i = 0; i < n; ++i) { if (mx[i] != std::max(m[i], b[i])) c.die("max", ""); if (ab[i] != std::fabs(m[i])) c.die("fabs", ""); }
                Vec sr = std::sqrt(ab); for (unsigned i = 0; i < n; ++i) if (!close(sr[i], std::sqrt(std::fabs(m[i])), 1e-15, 0)) c.die("sqrt", "");
                Vec u = vectorMemberwiseUnaryOp(v, [](double x) { return 2 * x + 1; }); for (unsigned i = 0; i < n; ++i) if (u[i] != 2 * m[i] + 1) c.die("unary", "");
                Vec bi = vectorMemberwiseBinaryOp(v, w, [](double x, double y) { return x - 3 * y; }); for (unsigned i = 0; i < n; ++i) if (bi[i] != m[i] - 3 * b[i]) c.die("binary", "");
                if (mx.size() != n || ab.size() != n || u.size() != n || bi.size() != n) c.die("memberwise-size", "");
            }
            else if (op == 16) {
                unsigned i = n + g.u(0, 3); bool t1 = false, t2 = false;
                try { v[i] = 1; } catch (const std::out_of_range&) { t1 = true; }
                try { const Vec& cv = v; volatile double x = cv.at(i); (void)x; } catch (const std::out_of_range&) { t2 = true; }
                if (!t1 || !t2) c.die("bounds", "access to element " + std::to_string(i) + " of " + std::to_string(n) + " was not refused");
                c.count("refused accesses");
            }
            else if (op == 17) { DV b = randomDV(g, g.u(0, 9)); Vec w = make(b); w.swap(v); compare(c, w, m, "swap"); m = b; c.desc << "; swap " << list(b); }
            else if (op == 18) { DV b = randomDV(g, g.u(0, 9)); Vec w = make(b); v = w; m = b; if (!b.empty()) { w[0] = b[0] + 5; } c.desc << "; =" << list(b); v = *&v;
                Vec z(VectorData<double>(std::vector<double>(b.begin(), b.end()))); compare(c, z, b, "from-data"); if (v.data() != b) c.die("data", ""); }
            else if (op == 19) { Vec z(n); compare(c, z, DV(n, 0.), "fresh"); Vec e; compare(c, e, DV(), "default"); if (g.chance(.3)) { v -= v.scaled(2); for (auto& x : m) x -= 2 * x; c.desc << "; -=2self"; } else { v += v; for (auto& x : m) x += x; c.desc << "; +=self"; } if (n >= 2) { // shift left within one vector
                    auto dst = v.block(0, n - 1); auto src = v.block(1, n - 1); dst = src; for (unsigned i = 0; i + 1 < n; ++i) m[i] = m[i + 1]; c.desc << "; shift"; } }
            compare(c, v, m, "vector");
        }
        if (steps >= 4 && m.size() >= 2) c.nontrivial(c.desc.str());
    });
    ctx.expectAtLeast("comparisons", 30000);

    ctx.section("not-finite", 1500, 15000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 12);
        DV m = randomDV(g, n);
        unsigned k = g.u(0, n - 1);
        bool inf = g.chance(.3);
        m[k] = inf ? g.sgn() * INFINITY : NAN;
        c.desc << list(m);
        Vec v = make(m);
        c.count("not-finite");
        if (n >= 2) c.nontrivial(std::to_string(n) + "/" + std::to_string(k) + (inf ? "i" : "n"));
        auto ok = [&](double x) { return inf ? x == INFINITY : std::isnan(x); };
        if (!ok(v.infNorm())) c.die("infNorm", num(v.infNorm()));
        if (!ok(v.oneNorm())) c.die("oneNorm", num(v.oneNorm()));
        if (!ok(v.euclideanNormSquare())) c.die("euclideanNormSquare", num(v.euclideanNormSquare()));
        auto b = v.block(0, n);
        if (!ok(b.infNorm())) c.die("infNorm/block", num(b.infNorm()));
    });
}
VF_MAIN(run)
