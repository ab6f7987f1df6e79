// C04: sparse matrices and their views against a dense reference model, over histories of operations.
// All values are small integers (or dyadic fractions), so the arithmetic is exact in any order.
#include "common.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
#include <iostream>
using namespace vf;
using namespace ctm::math;
using namespace ctm::math::sparse;
typedef SparseMatrix<double> SM;
typedef SparseMatrixTemplate<SparseMatrixFastData<double>> SMF;
typedef SparseMatrixFastData<double> SMFD;
typedef VectorTemplate<VectorData<double>> Vec;
typedef std::pair<unsigned, unsigned> Idx;

struct Model {
    unsigned r = 0, c = 0;
    std::map<Idx, double> e;
    double get(unsigned i, unsigned j) const { auto it = e.find(Idx(i, j)); return it == e.end() ? 0. : it->second; }
    std::string text() const {
        std::ostringstream s; s << r << "x" << c << "{";
        for (auto& x : e) s << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " ";
        s << "}"; return s.str();
    }
};

static Model mulM(const Model& a, const Model& b) {
    Model m; m.r = a.r; m.c = b.c;
    for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < b.c; ++j) {
        double s = 0;
        for (unsigned k = 0; k < a.c; ++k) s += a.get(i, k) * b.get(k, j);
        if (s != 0) m.e[Idx(i, j)] = s;
    }
    return m;
}
static Model transposeM(const Model& a) { Model m; m.r = a.c; m.c = a.r; for (auto& x : a.e) m.e[Idx(x.first.second, x.first.first)] = x.second; return m; }
static Model blockM(const Model& a, unsigned r0, unsigned c0, unsigned nr, unsigned nc) {
    Model m; m.r = nr; m.c = nc;
    for (auto& x : a.e) if (x.first.first >= r0 && x.first.first < r0 + nr && x.first.second >= c0 && x.first.second < c0 + nc) m.e[Idx(x.first.first - r0, x.first.second - c0)] = x.second;
    return m;
}
static Model scaleM(const Model& a, double f) { Model m = a; for (auto& x : m.e) x.second *= f; return m; }

static double U = 1;     // unit of the stored values, a power of two (results stay exact)
static void fillRandom(Rng& g, Model& m, SM& s, unsigned r, unsigned c, double unit = 0) {
    if (!unit) unit = U;
    m = Model(); m.r = r; m.c = c; s = SM(r, c);
    unsigned k = r && c ? g.u(0, std::min(r * c, 12u)) : 0;
    while (k--) { Idx i(g.u(0, r - 1), g.u(0, c - 1)); double v = g.i(-4, 4) * unit; m.e[i] = v; s.at(i) = v; }
}

template<class I> typename std::enable_if<std::is_copy_assignable<I>::value>::type assignIf(I& a, const I& b) { a = b; }
template<class I> typename std::enable_if<!std::is_copy_assignable<I>::value>::type assignIf(I&, const I&) {}
// Compares what can be read through any matrix type (structural zeros may differ for product results only)
template<class M>
static void compare(Case& c, Rng& g, const M& m, const Model& ref, const char* what, bool structure = true) {
    std::string w = what;
    c.count("comparisons");
    if (m.size() != Idx(ref.r, ref.c)) c.die("size/" + w, "size is " + std::to_string(m.size().first) + "x" + std::to_string(m.size().second) + ", expected " + ref.text());
    for (unsigned i = 0; i < ref.r; ++i) for (unsigned j = 0; j < ref.c; ++j) {
        double e = ref.get(i, j);
        auto bad = [&](const char* f, double got) { c.die(std::string(f) + "/" + w, "(" + std::to_string(i) + "," + std::to_string(j) + ") reads " + num(got) + ", expected " + num(e) + " in " + ref.text()); };
        if (m.get(Idx(i, j)) != e) bad("get", m.get(Idx(i, j)));
        if (m.get(i, j) != e) bad("get-rc", m.get(i, j));
        if (m[Idx(i, j)] != e) bad("index", m[Idx(i, j)]);
        auto cg = m.checkedGet(Idx(i, j));
        if (cg.first != e) bad("checkedGet", cg.first);
        if (structure) {
            bool in = ref.e.count(Idx(i, j)) != 0;
            if (m.hasIndex(Idx(i, j)) != in) bad("hasIndex", in);
            if (cg.second != in) bad("checkedGet-flag", in);
        }
    }
    // iteration visits each stored element once
    std::map<Idx, double> seen;
    double inf = 0, one = 0, sq = 0;
    size_t visits = 0;
    for (auto v : m) {
        double x = v.second;
        ++visits;
        if (!seen.insert(std::make_pair(Idx(v.first), x)).second) c.die("iterate-twice/" + w, "");
        inf = std::max(inf, std::fabs(x)); one += std::fabs(x); sq += x * x;
    }
    if (structure) {
        if (seen != ref.e) c.die("iterate/" + w, "iteration over " + std::to_string(seen.size()) + " elements disagrees with " + ref.text());
        if (m.count() != ref.e.size() || m.empty() != ref.e.empty()) c.die("count/" + w, "count " + std::to_string(m.count()));
    }
    else for (auto& x : ref.e) if (!seen.count(x.first) || seen[x.first] != x.second) c.die("iterate/" + w, "");
    if (visits != m.count()) c.die("count-visits/" + w, "");
    // iterators: a position equals itself and no other, copies and assigned iterators stay where they were
    {
        auto a = m.begin(), b = m.begin(), q = m.begin(); size_t n = 0;
        for (; !(a == m.end()); ++a, ++n) {
            typename M::const_iterator k(a); assignIf(q, a);
            if (n > visits) break;
            if (std::is_copy_assignable<decltype(q)>::value && (q != a || Idx(q->first) != Idx(a->first) || double(q->second) != double(a->second))) c.die("iterator-assign/" + w, "position " + std::to_string(n));
            if (!(a == b) || a != b || !(k == b) || k != b) c.die("iterator-equal/" + w, "position " + std::to_string(n));
            if (Idx(a->first) != Idx((*a).first) || double(a->second) != double((*a).second) || Idx(k->first) != Idx(a->first) || double(k->second) != double(a->second)) c.die("iterator-arrow/" + w, "position " + std::to_string(n));
            auto it = seen.find(Idx(a->first));
            if (it == seen.end() || it->second != double(a->second)) c.die("iterator-value/" + w, "position " + std::to_string(n));
            ++b;
            if (a == b || !(k != b)) c.die("iterator-distinct/" + w, "position " + std::to_string(n));
            if (Idx(k->first) != Idx(a->first)) c.die("iterator-copy/" + w, "");
        }
        if (n != visits || a != m.end() || !(b == a)) c.die("iterator-end/" + w, std::to_string(n) + " positions");
        if (m.cbegin() != m.begin() || m.cend() != m.end()) c.die("iterator-const/" + w, "");
        c.count("iterator positions", long(n));
    }
    double i2 = 0, o2 = 0, s2 = 0;
    for (auto& x : ref.e) { i2 = std::max(i2, std::fabs(x.second)); o2 += std::fabs(x.second); s2 += x.second * x.second; }
    if (m.infNorm() != i2) c.die("infNorm/" + w, num(m.infNorm()) + " vs " + num(i2));
    if (m.oneNorm() != o2) c.die("oneNorm/" + w, num(m.oneNorm()) + " vs " + num(o2));
    if (m.euclideanNormSquare() != s2 || !close(m.euclideanNorm(), std::sqrt(s2), 1e-14, 0)) c.die("euclideanNorm/" + w, "");
    // products with vectors
    Vec x(ref.c), y(ref.r);
    for (auto& v : x) v = g.i(-3, 3);
    for (auto& v : y) v = g.i(-3, 3);
    Vec mx = m * x, ym = y * m;
    if (mx.size() != ref.r || ym.size() != ref.c) c.die("product-size/" + w, "");
    for (unsigned i = 0; i < ref.r; ++i) { double s = 0; for (unsigned j = 0; j < ref.c; ++j) s += ref.get(i, j) * x[j]; if (mx[i] != s) c.die("times-vector/" + w, "component " + std::to_string(i) + ": " + num(mx[i]) + " vs " + num(s)); }
    for (unsigned j = 0; j < ref.c; ++j) { double s = 0; for (unsigned i = 0; i < ref.r; ++i) s += ref.get(i, j) * y[i]; if (ym[j] != s) c.die("vector-times/" + w, "component " + std::to_string(j) + ": " + num(ym[j]) + " vs " + num(s)); }
    DV raw(ref.r, 7.);
    m.mulVectRight(x.begin(), raw.begin());
    for (unsigned i = 0; i < ref.r; ++i) if (raw[i] != mx[i]) c.die("mulVectRight/" + w, "");
    DV raw2(ref.c, 7.);
    m.mulVectLeft(y.begin(), raw2.begin());
    for (unsigned i = 0; i < ref.c; ++i) if (raw2[i] != ym[i]) c.die("mulVectLeft/" + w, "");
    // copies
    SM copy(m);
    SM asg(1, 1); asg.at(0, 0) = 5; asg = m;
    SMF fast; fast = m;
    SMF fast2(m);
    for (unsigned i = 0; i < ref.r; ++i) for (unsigned j = 0; j < ref.c; ++j)
        if (copy.get(i, j) != ref.get(i, j) || asg.get(i, j) != ref.get(i, j) || fast.get(i, j) != ref.get(i, j) || fast2.get(Idx(i, j)) != ref.get(i, j))
            c.die("copy/" + w, "(" + std::to_string(i) + "," + std::to_string(j) + ") copies read " + num(copy.get(i, j)) + " " + num(asg.get(i, j)) + " " + num(fast.get(i, j)) + " " + num(fast2.get(i, j)) + ", expected " + num(ref.get(i, j)));
    if (copy.size() != m.size() || asg.size() != m.size() || fast.size() != m.size() || fast2.size() != m.size()) c.die("copy-size/" + w, "");
    if (fast.count() != m.count() || copy.count() != m.count()) c.die("copy-count/" + w, "");
    for (auto& e : ref.e) {
        if (fast.at(e.first) != e.second) c.die("fast-at/" + w, "");
        if (!fast.hasIndex(e.first) || !fast.checkedGet(e.first).second) c.die("fast-hasIndex/" + w, "");
    }
    auto cl = m.clone();
    if (cl.size() != m.size()) c.die("clone/" + w, "");
    for (auto& e : ref.e) if (cl.get(e.first) != e.second) c.die("clone/" + w, "");
    if (g.chance(.3) && U == 1) {
        std::ostringstream os; os << m;
        std::istringstream is(os.str());
        for (unsigned i = 0; i < ref.r; ++i) for (unsigned j = 0; j < ref.c; ++j) { double x = 1e99; is >> x; if (x != ref.get(i, j)) c.die("print/" + w, os.str()); }
        std::string rest; if (is >> rest) c.die("print-rest/" + w, os.str());
        unsigned lines = 0; for (char ch : os.str()) lines += ch == '\n';
        if (lines != ref.r) c.die("print-lines/" + w, os.str());
    }
}

static void chooseUnit(Case& c) {
    static const int e[] = {-70, 40, -400};
    U = c.rng.chance(.8) ? 1 : std::ldexp(1., e[c.rng.i(0, 2)]);
    if (U != 1) { c.desc << "values in units of " << U << "; "; c.count("unusual magnitudes"); }
}

static void run(Ctx& ctx) {
    ctx.expectAtLeast("unusual magnitudes", 300);
    ctx.rule("random histories of element writes, removals, resizes, arithmetic, products, copies between storage types, and reads/writes through block, transposed and "
             "scaled views, mirrored in a dense model; after each step every accessor is compared; non-trivial: at least 4 operations on a nonempty matrix; distinct by history");
    ctx.assumption("values are small integers (or small integers times one power of two), so results are exact in every summation order; a view is not assigned to the very matrix it looks at");

    ctx.section("history", 4000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        Model m; SM s;
        chooseUnit(c);
        unsigned r = g.u(0, 7), k = g.chance(.4) ? r : g.u(0, 7);
        fillRandom(g, m, s, r, k);
        c.desc << "start " << m.text();
        int steps = g.i(2, 9);
        for (int q = 0; q < steps; ++q) {
            int op = g.i(0, 21);
            bool ne = m.r && m.c;
            if (op == 0 && ne) { Idx i(g.u(0, m.r - 1), g.u(0, m.c - 1)); double v = g.i(-5, 5) * U; c.desc << "; at(" << i.first << "," << i.second << ")=" << v; s.at(i.first, i.second) = v; m.e[i] = v; }
            else if (op == 1 && ne) { Idx i(g.u(0, m.r - 1), g.u(0, m.c - 1)); c.desc << "; removeAt(" << i.first << "," << i.second << ")"; s.removeAt(i); m.e.erase(i); }
            else if (op == 2) { unsigned a = g.u(0, 8), b = g.u(0, 8); c.desc << "; resize(" << a << "," << b << ")"; s.resize(a, b); Model x = blockM(m, 0, 0, a, b); m = x; }
            else if (op == 3) { c.desc << "; makeZero"; s.makeZero(); for (auto& x : m.e) x.second = 0; }
            else if (op == 4 && m.r == m.c) { double f = g.i(-3, 3); c.desc << "; addScaledIdentity(" << f << ")"; if (f == 1 && U == 1) s.addIdentity(); else s.addScaledIdentity(f * U); for (unsigned i = 0; i < m.r; ++i) m.e[Idx(i, i)] += f * U; }
            else if (op == 5 || op == 6) {
                Model b; SM sb; fillRandom(g, b, sb, m.r, m.c);
                double sg = op == 5 ? 1 : -1;
                int how = g.i(0, 4);
                c.desc << "; " << (sg > 0 ? "+=" : "-=") << how << " " << b.text();
                if (how == 0) { if (sg > 0) s += sb; else s -= sb; }
                else if (how == 1) { SMF f; f = sb; if (sg > 0) s += f; else s -= f; }
                else if (how == 2) { double f = g.i(-2, 3); if (sg > 0) s += sb.scaled(f); else s -= sb.scaled(f); b = scaleM(b, f); }
                else if (how == 3) { SM t(b.c, b.r); for (auto& x : b.e) t.at(x.first.second, x.first.first) = x.second; if (sg > 0) s += t.transposed(); else s -= t.transposed(); }
                else { SM big(b.r + 2, b.c + 3); for (auto& x : b.e) big.at(x.first.first + 1, x.first.second + 2) = x.second; big.at(0, 0) = 9 * U; big.at(b.r + 1, b.c + 2) = 8;
                    if (sg > 0) s += big.block(1, 2, b.r, b.c); else s -= big.block(1, 2, b.r, b.c); }
                for (auto& x : b.e) m.e[x.first] += sg * x.second;
            }
            else if (op == 7) {
                Model b; SM sb; unsigned k2 = g.u(0, 6); fillRandom(g, b, sb, m.c, k2, 1);
                Model p = mulM(m, b);
                int how = g.i(0, 4);
                c.desc << "; product" << how << " " << b.text();
                if (how == 0) compare(c, g, s * sb, p, "product", false);
                else if (how == 1) { SMF f; f = sb; compare(c, g, s * f, p, "product-fast", false); }
                else if (how == 2) compare(c, g, s.scaled(2) * sb, scaleM(p, 2), "product-scaled", false);
                else if (how == 3) { SM t; t = sb.transposed(); compare(c, g, s * t.transposed(), p, "product-transposed", false); }
                else if (how == 4) { SM big(b.r + 1, b.c + 1); for (auto& x : b.e) big.at(x.first.first + 1, x.first.second) = x.second; big.at(0, 0) = 3; compare(c, g, s * big.block(1, 0, b.r, b.c), p, "product-block", false); }
            }
            else if (op == 8 && m.r == m.c && m.r) {
                Model b; SM sb; fillRandom(g, b, sb, m.r, m.c, 1);
                double big = 0; for (auto& x : m.e) big = std::max(big, std::fabs(x.second));
                if (big < 1e6 * U) { c.desc << "; *= " << b.text(); s *= sb; m = mulM(m, b); for (auto v : s) if (v.second == 0) m.e.insert(std::make_pair(Idx(v.first), 0.)); }
            }
            else if (op >= 9 && op <= 12) {          // block views
                unsigned r0 = g.u(0, m.r), c0 = g.u(0, m.c), nr = g.u(0, m.r - r0), nc = g.u(0, m.c - c0);
                c.desc << "; block(" << r0 << "," << c0 << "," << nr << "," << nc << ")";
                auto b = s.block(r0, c0, nr, nc);
                Model bm = blockM(m, r0, c0, nr, nc);
                compare(c, g, b, bm, "block");
                if (op == 10 && nr && nc) {
                    Idx i(g.u(0, nr - 1), g.u(0, nc - 1)); double v = g.i(-5, 5) * U;
                    c.desc << ".at(" << i.first << "," << i.second << ")=" << v;
                    if (g.chance(.5)) b.at(i) = v; else b.at(i.first, i.second) = v;
                    m.e[Idx(i.first + r0, i.second + c0)] = v;
                }
                else if (op == 11) {
                    if (g.chance(.5)) { c.desc << ".clear()"; b.clear(); for (auto& x : bm.e) m.e.erase(Idx(x.first.first + r0, x.first.second + c0)); }
                    else if (nr && nc) { Idx i(g.u(0, nr - 1), g.u(0, nc - 1)); c.desc << ".removeAt"; b.removeAt(i); m.e.erase(Idx(i.first + r0, i.second + c0)); }
                }
                else if (op == 12) {
                    Model z; SM sz; fillRandom(g, z, sz, nr, nc);
                    int how = g.i(0, 5);
                    c.desc << " op" << how << " " << z.text();
                    if (how > 2) {      // from a block of another matrix (the same type as the target)
                        SM big(nr + 2, nc + 1); for (auto& x : z.e) big.at(x.first.first + 1, x.first.second) = x.second;
                        big.at(0, 0) = 9 * U; big.at(nr + 1, nc) = 8 * U;
                        auto zb = big.block(1, 0, nr, nc);
                        if (how == 3) b = zb; else if (how == 4) b += zb; else b -= zb;
                        compare(c, g, zb, z, "source-block");
                        how -= 3;
                        if (how == 0) { for (auto& x : bm.e) m.e.erase(Idx(x.first.first + r0, x.first.second + c0)); for (auto& x : z.e) m.e[Idx(x.first.first + r0, x.first.second + c0)] = x.second; }
                        else for (auto& x : z.e) m.e[Idx(x.first.first + r0, x.first.second + c0)] += how == 1 ? x.second : -x.second;
                    } else
                    if (how == 0) { b = sz; for (auto& x : bm.e) m.e.erase(Idx(x.first.first + r0, x.first.second + c0)); for (auto& x : z.e) m.e[Idx(x.first.first + r0, x.first.second + c0)] = x.second; }
                    else if (how == 1) { b += sz; for (auto& x : z.e) m.e[Idx(x.first.first + r0, x.first.second + c0)] += x.second; }
                    else { b -= sz; for (auto& x : z.e) m.e[Idx(x.first.first + r0, x.first.second + c0)] -= x.second; }
                }
                else {
                    // block of a block, rows of a block product
                    unsigned r1 = g.u(0, nr), c1 = g.u(0, nc), nr1 = g.u(0, nr - r1), nc1 = g.u(0, nc - c1);
                    auto bb = b.block(r1, c1, nr1, nc1);
                    Model bbm = blockM(bm, r1, c1, nr1, nc1);
                    for (unsigned i = 0; i < nr1; ++i) for (unsigned j = 0; j < nc1; ++j) if (bb.get(Idx(i, j)) != bbm.get(i, j)) c.die("block-of-block", "");
                    auto bt = b.transposed();
                    Model btm = transposeM(bm);
                    for (unsigned i = 0; i < nc; ++i) for (unsigned j = 0; j < nr; ++j) if (bt.get(i, j) != btm.get(i, j)) c.die("transposed-block", "");
                    for (unsigned i = 0; i < nr; ++i) {
                        std::map<Idx, double> row;
                        for (auto it = b.rowBegin(i), e = b.rowEnd(i); it != e; ++it) row[it->first] = it->second;
                        std::map<Idx, double> want;
                        for (auto& x : bm.e) if (x.first.first == i) want[x.first] = x.second;
                        // (the row range of the source may end with elements to the right of the block, which belong to the next row of the block)
                        for (auto& x : want) if (!row.count(x.first) || row[x.first] != x.second) c.die("block-row", "");
                        for (auto& x : row) if (x.first.first == i && !want.count(x.first)) c.die("block-row-extra", "");
                    }
                }
            }
            else if (op >= 13 && op <= 15) {         // transposed view
                c.desc << "; transposed";
                auto t = s.transposed();
                compare(c, g, t, transposeM(m), "transposed");
                if (op == 14 && ne) { Idx i(g.u(0, m.c - 1), g.u(0, m.r - 1)); double v = g.i(-5, 5) * U; c.desc << ".at(" << i.first << "," << i.second << ")=" << v; if (g.chance(.5)) t.at(i) = v; else t.at(i.first, i.second) = v; m.e[Idx(i.second, i.first)] = v; }
                if (op == 13 && g.chance(.4)) {      // sums into the transposed view
                    Model z; SM sz; fillRandom(g, z, sz, m.c, m.r);
                    int how = g.i(0, 1);
                    c.desc << " op" << how << " " << z.text();
                    if (how == 0) t += sz; else t -= sz;
                    for (auto& x : z.e) m.e[Idx(x.first.second, x.first.first)] += how == 0 ? x.second : -x.second;
                }
                if (op == 15 && ne) { if (g.chance(.7)) { Idx i(g.u(0, m.c - 1), g.u(0, m.r - 1)); c.desc << ".removeAt"; t.removeAt(i); m.e.erase(Idx(i.second, i.first)); } else { c.desc << ".clear"; t.clear(); m.e.clear(); } }
            }
            else if (op == 16) { double f = g.i(-3, 3) * .5; c.desc << "; scaled(" << f << ")"; compare(c, g, s.scaled(f), scaleM(m, f), "scaled"); }
            else if (op == 17) { c.desc << "; clear"; s.clear(); m.e.clear(); fillRandom(g, m, s, m.r, m.c); c.desc << " refilled " << m.text(); }
            else if (op == 18) {
                // copies are independent
                SM copy(s), asg; asg = s; Model cm = m;
                if (ne) { s.at(0, 0) = 77 * U; m.e[Idx(0, 0)] = 77 * U; c.desc << "; at(0,0)=77"; }
                compare(c, g, copy, cm, "independent-copy"); compare(c, g, asg, cm, "independent-assigned");
                s = *&s;
            }
            else if (op == 19) {
                Idx d(0, 0); for (auto& x : m.e) { d.first = std::max(d.first, x.first.first + 1); d.second = std::max(d.second, x.first.second + 1); }
                if (s.sizeFromData() != d) c.die("sizeFromData", "");
                if (g.chance(.5)) { c.desc << "; resizeFromData"; s.resizeFromData(); m.r = d.first; m.c = d.second; }
                SparseMatrixData<double> raw; for (auto& x : m.e) raw.at(x.first) = x.second;
                SM a(raw); if (a.size() != d) c.die("size-of-data", "");
                SMFD fd(raw), fd2; fd2 = raw; SMFD fd3(fd);
                if (fd.count() != m.e.size() || fd2.count() != m.e.size() || fd3.count() != m.e.size()) c.die("fast-data-size", "");
                for (auto& x : m.e) if (fd.get(x.first) != x.second || fd2.get(x.first) != x.second || fd3.get(x.first) != x.second || !fd.hasIndex(x.first)) c.die("fast-data", "");
                raw = *&raw; if (SM(raw).count() != m.e.size()) c.die("data-self-assignment", "");
            }
            else if (op == 20) {
                for (unsigned i = 0; i < m.r; ++i) {
                    std::vector<std::pair<Idx, double>> row, want;
                    for (auto it = s.rowBegin(i), e = s.rowEnd(i); it != e; ++it) row.push_back(std::make_pair(it->first, it->second));
                    for (auto& x : m.e) if (x.first.first == i) want.push_back(x);
                    if (row != want) c.die("row", "row " + std::to_string(i));
                }
                auto sc = s.scaled(3);
                for (unsigned i = 0; i < m.r; ++i) { double sum = 0, want = 0; for (auto it = sc.rowBegin(i), e = sc.rowEnd(i); it != e; ++it) sum += it->second; for (auto& x : m.e) if (x.first.first == i) want += 3 * x.second; if (sum != want) c.die("scaled-row", ""); }
                std::ostringstream os; printScilabMatrix(os, s, "A");
                size_t lines = 0; for (char ch : os.str()) lines += ch == '\n';
                if (lines != m.e.size() + 1) c.die("scilab", os.str());
                for (auto& x : m.e) { std::ostringstream l; l << "A(" << x.first.first + 1 << ", " << x.first.second + 1 << ") = " << x.second << ";"; if (os.str().find(l.str()) == std::string::npos) c.die("scilab", os.str()); }
            }
            else if (op == 21) {
                unsigned n = g.u(0, 6); double f = g.i(-4, 4); Model id; id.r = id.c = n; for (unsigned i = 0; i < n; ++i) id.e[Idx(i, i)] = f;
                compare(c, g, SM::scaledIdentity(n, f), id, "scaledIdentity");
                for (auto& x : id.e) x.second = 1;
                compare(c, g, SM::identity(n), id, "identity");
            }
            compare(c, g, s, m, "matrix");
        }
        if (steps >= 4 && !m.e.empty()) c.nontrivial(c.desc.str());
    });

    ctx.section("fast", 2500, 30000, [&](Case& c) {
        Rng& g = c.rng;
        chooseUnit(c);
        Model m; SM s; fillRandom(g, m, s, g.u(1, 7), g.u(1, 7));
        SMF f; f = s;
        c.desc << "start " << m.text();
        for (int q = 0, n = g.i(2, 8); q < n; ++q) {
            int op = g.i(0, 8);
            Idx i(g.u(0, m.r - 1), g.u(0, m.c - 1));
            if (op == 0) {
                double v = g.i(-4, 4) * U;
                c.desc << "; at(" << i.first << "," << i.second << ")=" << v;
                bool thrown = false;
                try { f.at(i) = v; } catch (const std::exception&) { thrown = true; }
                if (thrown != (m.e.count(i) == 0)) c.die("fast-at-presence", "");
                if (!thrown) m.e[i] = v;
            }
            else if (op == 1) { c.desc << "; makeZero"; f.makeZero(); for (auto& x : m.e) x.second = 0; }
            else if (op == 2 || op == 3) {
                Model b; b.r = m.r; b.c = m.c; SM sb(m.r, m.c);
                for (auto& x : m.e) if (g.chance(.5)) { double v = g.i(-3, 3) * U; b.e[x.first] = v; sb.at(x.first) = v; }
                c.desc << "; " << (op == 2 ? "+=" : "-=") << b.text();
                if (op == 2) f += sb; else f -= sb;
                for (auto& x : b.e) m.e[x.first] += (op == 2 ? 1 : -1) * x.second;
            }
            else if (op == 4) { Model b; SM sb; fillRandom(g, b, sb, g.u(1, 7), g.u(1, 7)); c.desc << "; =" << b.text(); f = sb; m = b; }
            else if (op == 5) { Model b; SM sb; fillRandom(g, b, sb, g.u(1, 7), g.u(1, 7)); c.desc << "; =transposed " << b.text(); f = sb.transposed(); m = transposeM(b); }
            else if (op == 6) { SMF o(f); SMF p; p = f; f = o; compare(c, g, p, m, "fast-copy"); }
            else if (op == 7) compare(c, g, f.transposed(), transposeM(m), "fast-transposed");
            else { unsigned r0 = g.u(0, m.r), c0 = g.u(0, m.c), nr = g.u(0, m.r - r0), nc = g.u(0, m.c - c0);
                compare(c, g, f.block(r0, c0, nr, nc), blockM(m, r0, c0, nr, nc), "fast-block"); compare(c, g, f.scaled(2), scaleM(m, 2), "fast-scaled"); }
            compare(c, g, f, m, "fast");
            for (auto it = f.begin(), pr = it; it != f.end(); pr = it, ++it) if (it != f.begin() && !(pr->first < it->first)) c.die("fast-order", "");
        }
        if (!m.e.empty()) c.nontrivial(c.desc.str());
    });
    ctx.expectAtLeast("comparisons", 20000);
}
VF_MAIN(run)
