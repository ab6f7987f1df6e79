// C24: lexical classes, number formatting, integer and cubic helpers, variable names.
#include "common.h"
#include "ode_num_int/infra/cxx_assert.h"
#include "ode_num_int/infra/cxx_zeroinit.h"
#include "ode_num_int/util/lex_idnum.h"
#include "ode_num_int/util/m_inline.h"
#include "ode_num_int/util/m_const.h"
#include "ode_num_int/util/m_tolerance.h"
#include "ode_num_int/util/foreachindex.h"
#include "ode_num_int/util/cxx_str_fmt_num.h"
#include "ode_num_int/util/sys_time.h"
#include "ode_num_int/ode/OdeVarNameGenerator.h"
#include <deque>
#include <list>
using namespace vf;
using namespace ctm;
using namespace ctm::math;

namespace {
typedef long double LD;
// ---- lexical classes: hand-written automata --------------------------------
bool dig(char c) { return c >= '0' && c <= '9'; }
bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
bool isId(const std::string& s) { if (s.empty() || !letter(s[0])) return false; for (char c : s) if (!letter(c) && !dig(c)) return false; return true; }
bool isInt(const std::string& s) { size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (i == s.size()) return false; for (; i < s.size(); ++i) if (!dig(s[i])) return false; return true; }
bool isHex(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!dig(c) && !(c >= 'a' && c <= 'f') && !(c >= 'A' && c <= 'F')) return false; return true; }
bool isNum(const std::string& s) {
    size_t i = 0, a = 0, b = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    while (i < s.size() && dig(s[i])) ++i, ++a;
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) ++i, ++b; }
    if (!a && !b) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        size_t e = 0; while (i < s.size() && dig(s[i])) ++i, ++e;
        if (!e) return false;
    }
    return i == s.size();
}
std::string randomText(Rng& g) {
    std::string s;
    int kind = g.i(0, 6);
    if (kind == 0) { for (int n = g.i(0, 8); n-- > 0;) s += char(g.i(1, 255)); }
    else if (kind == 1) { const char* a = "0123456789+-.eE"; for (int n = g.i(0, 9); n-- > 0;) s += a[g.i(0, 14)]; }
    else if (kind == 2) { const char* a = "abzAZ_09gGfF[]^`\\@{/:"; for (int n = g.i(0, 8); n-- > 0;) s += a[g.i(0, 20)]; }
    else if (kind == 3) { char b[64]; std::snprintf(b, sizeof b, g.chance(.5) ? "%.*g" : "%.*e", g.i(0, 17), g.sgn() * g.logu(1e-300, 1e300)); s = b; }
    else if (kind == 4) { s = std::to_string(long(g.u64()) >> g.i(0, 63)); }
    else if (kind == 5) { char b[64]; std::snprintf(b, sizeof b, g.chance(.5) ? "%llx" : "%llX", (unsigned long long)(g.u64() >> g.i(0, 63))); s = b; }
    else { const char* ok = "abcxyz_ABCXYZ0123456789"; s += ok[g.i(0, 12)]; for (int n = g.i(0, 12); n-- > 0;) s += ok[g.i(0, 22)]; }
    if (g.chance(.3) && !s.empty()) { size_t p = g.u(0, unsigned(s.size() - 1)); switch (g.i(0, 3)) { case 0: s.erase(p, 1); break; case 1: s[p] = char(g.i(1, 255)); break; case 2: s.insert(p, 1, char(g.i(32, 126))); break; default: s.insert(p, 1, s[p]); } }
    if (g.chance(.05)) s += "\n"; if (g.chance(.03)) s = "\n" + s;
    return s;
}
void lexical(Case& c) {
    auto& g = c.rng;
    for (int k = 0; k < 3; ++k) {
        std::string s = randomText(g);
        c.desc << " '" << s << "'";
        bool a[4] = {lang::IsIdentifier(s.c_str()), lang::IsNumber(s.c_str()), lang::IsIntegerNumber(s.c_str()), lang::IsHexIntegerNumber(s.c_str())};
        bool b[4] = {isId(s), isNum(s), isInt(s), isHex(s)};
        const char* names[4] = {"identifier", "number", "integer", "hexadecimal"};
        std::string hex; for (unsigned char x : s) { char q[8]; std::snprintf(q, sizeof q, " %02x", x); hex += q; }
        for (int q = 0; q < 4; ++q) {
            c.require(a[q] == b[q], names[q], "the text with codes" + hex + (a[q] ? " is accepted as " : " is not accepted as ") + names[q]);
            c.count(std::string(names[q]) + (b[q] ? " accepted" : " refused"));
        }
        if (b[1]) { char* e; std::strtod(s.c_str(), &e); c.require(!*e, "number-strtod", "a number that strtod() does not read"); }
        c.nontrivial(s);
    }
}
// ---- arithmetic ------------------------------------------------------------
void arithmetic(Case& c) {
    auto& g = c.rng;
    for (int k = 0; k < 50; ++k) {
        double x = g.chance(.1) ? 0. : g.sgn() * g.logu(1e-8, 2e9), y = g.chance(.1) ? x : g.sgn() * g.logu(1e-8, 2e9);
        if (g.chance(.3)) { x = g.i(-50, 50) * .5; y = g.i(-50, 50) * .25; }
        c.require(sqr(x) == x * x, "sqr", num(x)); c.require(Sgn(x) == (x < 0 ? -1. : 1.), "sgn", num(x));
        c.require(Min(x, y) == std::min(x, y) && Max(x, y) == std::max(x, y), "minmax", num(x) + " " + num(y));
        int a = g.i(-100000, 100000), b = g.i(-100000, 100000);
        c.require(Min(a, b) == std::min(a, b) && Max(a, b) == std::max(a, b) && sqr(a % 1000) == double(a % 1000) * (a % 1000), "minmax-int", std::to_string(a) + " " + std::to_string(b));
        // nearest integer: ties away from zero
        LD fr = fabsl(fabsl(LD(x)) - floorl(fabsl(LD(x))) - .5L);
        if (fr == 0 || fr > 1e-6) c.require(LD(roundi(x)) == roundl(x), "round", num(x) + " is rounded to " + std::to_string(roundi(x)));
        // modulus
        int v; unsigned m;
        switch (g.i(0, 4)) {
        case 0: v = int(g.u64()); m = unsigned(g.u64()) | 1; break;
        case 1: v = g.chance(.5) ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max(); m = g.chance(.5) ? unsigned(g.u64()) | 1 : g.u(1, 10); break;
        default: v = g.i(-30, 30); m = g.u(1, 12);
        }
        long long want = ((long long)v % (long long)m + (long long)m) % (long long)m;
        c.require((long long)modp(v, m) == want, "modp", std::to_string(v) + " modulo " + std::to_string(m) + " is " + std::to_string(modp(v, m)));
        double period = g.logu(1e-3, 1e3), bias = g.chance(.4) ? 0 : g.uni(-100, 100), z = g.sgn() * g.logu(1e-6, 1e5);
        double r = modd(z, period, bias), tol = 1e-14 * (std::fabs(z) + std::fabs(bias) + period);
        LD turns = (LD(r) - z) / period;
        c.require(r >= bias - tol && r <= bias + period + tol, "modd-range", num(z) + " in the range of " + num(period) + " from " + num(bias) + " is " + num(r));
        c.require(fabsl(turns - roundl(turns)) * period <= 4 * tol, "modd", num(z) + " in the range of " + num(period) + " from " + num(bias) + " is " + num(r));
        c.count("arithmetic checks");
    }
    c.nontrivial(num(g.u01()));
}
void cubics(Case& c) {
    auto& g = c.rng; using namespace cubic;
    double L = g.chance(.3) ? 1 : g.logu(.01, 100), f0 = g.uni(-2, 2), f1 = g.uni(-2, 2), d0 = g.uni(-2, 2), d1 = g.uni(-2, 2);
    c.desc << "L=" << L << " f=" << f0 << "," << f1 << " df=" << d0 << "," << d1;
    // p(x) with p(0)=f0, p'(0)=d0, p(L)=f1, p'(L)=d1
    LD c2 = (3 * (LD(f1) - f0) / L - 2 * LD(d0) - d1) / L, c3 = (2 * (LD(f0) - f1) / L + d0 + d1) / LD(L) / L;
    for (int k = 0; k < 12; ++k) {
        double x = L * (k == 0 ? 0 : k == 1 ? 1 : g.uni(-.2, 1.2)); LD X = x;
        LD p[3] = {f0 + X * (d0 + X * (c2 + X * c3)), d0 + X * (2 * c2 + 3 * c3 * X), 2 * c2 + 6 * c3 * X};
        double sc = (std::fabs(f0) + std::fabs(f1)) + (std::fabs(d0) + std::fabs(d1)) * L + 1e-9;
        double q[3] = {f0 * f00(x, L) + f1 * f01(x, L) + d0 * f10(x, L) + d1 * f11(x, L), f0 * df00(x, L) + f1 * df01(x, L) + d0 * df10(x, L) + d1 * df11(x, L), f0 * d2f00(x, L) + f1 * d2f01(x, L) + d0 * d2f10(x, L) + d1 * d2f11(x, L)};
        for (int d = 0; d < 3; ++d) if (fabsl(q[d] - p[d]) * std::pow(L, d) > 1e-12 * sc) c.die("hermite", "derivative " + std::to_string(d) + " at " + num(x) + " is " + num(q[d]) + " instead of " + num(double(p[d])));
        double t = x / L, T[3] = {f0 * f00(t) + f1 * f01(t) + L * (d0 * f10(t) + d1 * f11(t)), f0 * df00(t) + f1 * df01(t) + L * (d0 * df10(t) + d1 * df11(t)), f0 * d2f00(t) + f1 * d2f01(t) + L * (d0 * d2f10(t) + d1 * d2f11(t))};
        double U[4] = {CalcCubicPolynom(f0, d0 * L, f1, d1 * L, t), CalcCubicPolynomD(f0, d0 * L, f1, d1 * L, t), CalcCubicPolynomD2(f0, d0 * L, f1, d1 * L, t), CalcCubicPolynomD3(f0, d0 * L, f1, d1 * L, t)};
        for (int d = 0; d < 3; ++d) {
            LD w = p[d] * powl(L, d);
            if (fabsl(T[d] - w) > 1e-12 * sc) c.die("unit", "derivative " + std::to_string(d) + " at " + num(t) + " is " + num(T[d]) + " instead of " + num(double(w)));
            if (fabsl(U[d] - w) > 1e-12 * sc) c.die("polynom", "derivative " + std::to_string(d) + " at " + num(t) + " is " + num(U[d]) + " instead of " + num(double(w)));
        }
        if (fabsl(U[3] - 6 * c3 * L * L * L) > 1e-12 * sc) c.die("polynom", "the third derivative is " + num(U[3]));
        c.count("cubic points");
    }
    c.nontrivial(c.desc.str());
}
// ---- texts and names -------------------------------------------------------
typedef VectorData<double> VD; typedef VectorTemplate<VD> V;
struct NamedRhs : OdeRhs<VD> {
    unsigned a, b; std::vector<unsigned> idv;
    NamedRhs(unsigned a, unsigned b) : a(a), b(b) {}
    unsigned secondOrderVarCount() const override { return a; }
    unsigned firstOrderVarCount() const override { return b; }
    void rhs(V&, double, const V&) const override {}
};
template<class C> void each(Case& c, C items) {
    std::vector<std::pair<int, unsigned>> got;
    foreachIndex(items, [&](int v, unsigned i) { got.push_back({v, i}); });
    unsigned i = 0;
    c.require(got.size() == items.size(), "foreach", "a wrong number of items is visited");
    for (auto v : items) { c.require(got[i].first == v && got[i].second == i, "foreach", "item " + std::to_string(i) + " is visited with another index or in another order"); ++i; }
}
void texts(Case& c) {
    auto& g = c.rng;
    int v = g.chance(.1) ? std::numeric_limits<int>::min() : g.chance(.1) ? std::numeric_limits<int>::max() : int(g.u64()) >> g.i(0, 31);
    char b[64]; std::snprintf(b, sizeof b, "%d", v); c.require(cxx::FormatInt(v) == b, "format-int", cxx::FormatInt(v));
    unsigned long ms = g.u64() >> g.i(20, 63); 
    std::snprintf(b, sizeof b, "%lu:%02lu:%02lu.%03lu", ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000);
    if (ms / 3600000 < 1000000) {
        c.require(sys::FormatTimeSpanMsec(ms) == b, "format-time", sys::FormatTimeSpanMsec(ms) + " instead of " + b);
        std::string s(b); c.require(sys::FormatTimeSpanSec(ms / 1000) == s.substr(0, s.size() - 4), "format-time", sys::FormatTimeSpanSec(ms / 1000) + " for " + b);
        c.count("time spans");
    }
    std::vector<int> items; for (int n = g.i(0, 20); n-- > 0;) items.push_back(g.i(-99, 99));
    each(c, items); each(c, std::list<int>(items.begin(), items.end())); each(c, std::deque<int>(items.begin(), items.end()));
    // variable names: unique, equally long within one system, numbered by the index
    unsigned n2 = g.chance(.3) ? g.u(0, 4) : g.u(0, 60), n1 = g.chance(.3) ? g.pick(std::vector<unsigned>{1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001}) : g.u(0, 12);
    NamedRhs f(n2, n1); if (!f.varCount()) return;
    c.desc << "n2=" << n2 << " n1=" << n1;
    OdeVarNameGenerator<VD> gen(f); std::set<std::string> seen; size_t len = 0; std::string last;
    auto ids = f.varIds();
    c.require(ids.size() == f.varCount() && f.varCount() == 2 * n2 + n1, "var-count", "a system of " + std::to_string(n2) + " second order and " + std::to_string(n1) + " first order variables has " + std::to_string(f.varCount()) + " variables and " + std::to_string(ids.size()) + " identifiers");
    for (unsigned i = 0; i < f.varCount(); ++i) {
        std::string s = gen.varNameByIndex(i);
        c.require(seen.insert(s).second, "name-unique", "name " + s + " is given to two variables");
        if (i) { c.require(s.size() == len, "name-length", s + " after " + last); c.require(last < s, "name-order", s + " after " + last); }
        c.require(s.compare(0, 8, "UNNAMED_") == 0 && isInt(s.substr(8)) && std::stoul(s.substr(8)) == i, "name", s + " for the variable " + std::to_string(i));
        c.require(lang::IsIdentifier(s.c_str()), "name-identifier", s);
        c.require(gen.varIdByIndex(i) == ids[i], "name-id", s);
        if (i > 40 && i + 30 < f.varCount() && g.chance(.9)) i += g.u(0, 20);
        len = s.size(); last = s; c.count("names");
    }
    c.nontrivial(std::to_string(n2) + "," + std::to_string(n1));
}
// ---- zero-initialised types: histories of operations mirrored on a plain number -----------------
template<class X> void zeroOps(Case& c, const char* what, bool integral) {
    auto& g = c.rng;
    alignas(cxx::zero_init<X>) unsigned char mem[sizeof(cxx::zero_init<X>)];
    std::memset(mem, 0x5a, sizeof mem);                      // the memory held something before
    auto* z = new (mem) cxx::zero_init<X>; X v = 0;
    auto same = [&](X got, const char* op) { if (!(got == v)) c.die(std::string("zero-init/") + what, std::string(op) + " gives " + num(double(got)) + " instead of " + num(double(v)) + " after" + c.desc.str()); };
    same(*z, "the initial value");
    { cxx::zero_init<X> copy(*z); X k = X(g.i(0, 9)); cxx::zero_init<X> from(k); c.require(X(copy) == v && X(from) == k, std::string("zero-init/") + what, "a copy has another value"); *z = from; v = k; same(*z, "assignment of an object"); }
    for (int q = g.i(2, 15); q-- > 0;) {
        X a = X(g.i(1, 9)); int op = g.i(0, 11);
        c.desc << " " << op << "(" << double(a) << ")";
        double mag = std::fabs(double(v));
        switch (op) {
        case 0: { X r = (*z = a); v = a; same(r, "="); break; }
        case 1: if (mag > 100) break; { X r = (*z += a); v += a; same(r, "+="); break; }
        case 2: if (mag > 100) break; { X r = (*z -= a); v -= a; same(r, "-="); break; }
        case 3: if (mag > 11) break; { X r = (*z *= a); v *= a; same(r, "*="); break; }
        case 4: { X r = (*z /= a); v /= a; same(r, "/="); break; }
        case 5: if (mag > 100) break; { X r = ++*z; ++v; same(r, "++x"); break; }
        case 6: if (mag > 100) break; { X r = --*z; --v; same(r, "--x"); break; }
        case 7: if (mag > 100) break; { X old = v; X r = (*z)++; if (!(r == old)) c.die(std::string("zero-init/") + what, "x++ gives another value"); ++v; break; }
        case 8: if (mag > 100) break; { X old = v; X r = (*z)--; if (!(r == old)) c.die(std::string("zero-init/") + what, "x-- gives another value"); --v; break; }
        case 9: if (mag < 50) { (*z += a) += a; v += a; v += a; } break;         // the result is the object itself
        case 10: if (mag < 50) { ++(*z = a); v = a; ++v; } break;
        default: if (mag < 50) { --(++*z); ++v; --v; } break;
        }
        same(*z, "the value");
        c.count("zero-initialised operations");
    }
    (void)integral;
}
template<class X> void zeroBits(Case& c, const char* what) {
    auto& g = c.rng; cxx::zero_init<X> z; X v = 0;
    for (int q = g.i(2, 15); q-- > 0;) {
        X a = X(g.i(1, 100)); X r = 0; int op = g.i(0, 3);
        if (op == 0) { r = (z &= a); v &= a; } else if (op == 1) { r = (z |= a); v |= a; } else if (op == 2) { r = (z %= a); v %= a; } else { r = (z = a); v = a; }
        if (r != v || X(z) != v) c.die(std::string("zero-init/") + what, "operation " + std::to_string(op) + " gives " + num(double(X(z))) + " instead of " + num(double(v)));
        c.count("zero-initialised operations");
    }
}
void zeroInit(Case& c) {
    auto& g = c.rng; int kind = g.i(0, 7);
    switch (kind) {
    case 0: zeroOps<int>(c, "int", true); zeroBits<int>(c, "int"); break;
    case 1: zeroOps<long>(c, "long", true); zeroBits<long>(c, "long"); break;
    case 2: zeroOps<double>(c, "double", false); break;
    case 3: zeroOps<float>(c, "float", false); break;
    case 4: { cxx::uint0 z; zeroBits<unsigned>(c, "unsigned"); c.require(z == 0u, "zero-init/unsigned", "not zero"); cxx::ulong0 l; zeroBits<unsigned long>(c, "unsigned long"); c.require(l == 0ul, "zero-init/unsigned long", "not zero"); break; }
    case 5: { zeroOps<char>(c, "char", true); zeroBits<unsigned char>(c, "unsigned char"); break; }
    case 6: { alignas(cxx::bool0) unsigned char mem[sizeof(cxx::bool0)]; std::memset(mem, 1, sizeof mem); auto* z = new (mem) cxx::bool0; c.require(!*z, "zero-init/bool", "not false");
        bool v = false; for (int q = 0; q < 10; ++q) { bool a = g.chance(.5); int op = g.i(0, 2); if (op == 0) { *z = a; v = a; } else if (op == 1) { *z |= a; v |= a; } else { *z &= a; v &= a; } c.require(bool(*z) == v, "zero-init/bool", "another value"); c.count("zero-initialised operations"); } break; }
    default: {
        std::vector<std::pair<int, int>> items(20); for (int i = 0; i < 20; ++i) items[i].first = i;
        alignas(cxx::zero_init_ptr<std::pair<int, int>>) unsigned char mem[sizeof(cxx::zero_init_ptr<std::pair<int, int>>)]; std::memset(mem, 0x5a, sizeof mem);
        auto& p = *new (mem) cxx::zero_init_ptr<std::pair<int, int>>;
        c.require(!static_cast<std::pair<int, int>*>(p), "zero-init/pointer", "not null");
        int at = 10; p = &items[at];
        for (int q = g.i(2, 15); q-- > 0;) {
            int op = g.i(0, 6), was = at; std::pair<int, int>* r = 0; int want = 0; unsigned a = g.u(0, 3);
            switch (op) {
            case 0: r = ++p; want = ++at; break;
            case 1: r = --p; want = --at; break;
            case 2: r = p++; want = was; ++at; break;
            case 3: r = p--; want = was; --at; break;
            case 4: r = (p += a); want = at += int(a); break;
            case 5: r = (p -= a); want = at -= int(a); break;
            default: at = g.i(3, 16); r = (p = &items[at]); want = at; break;
            }
            c.require(r == &items[0] + want && static_cast<std::pair<int, int>*>(p) == &items[0] + at, "zero-init/pointer", "operation " + std::to_string(op) + " leads elsewhere");
            if (at < 3 || at > 16) { at = 10; p = &items[at]; }
            c.require(p->first == at && (*p).first == at, "zero-init/pointer", "another item");
            cxx::zero_init_ptr<std::pair<int, int>> copy(p); c.require(copy->first == at, "zero-init/pointer", "a copy points elsewhere");
            c.count("zero-initialised operations");
        } }
    }
    c.nontrivial(std::to_string(kind) + c.desc.str() + (kind == 6 || kind == 4 || kind == 7 ? std::to_string(c.index()) : ""));
}
void run(Ctx& ctx) {
    ctx.rule("random and mutated texts are classified as by hand-written automata; arithmetic helpers agree with exact integer and long double arithmetic; cubic basis functions interpolate values and slopes; names of variables are unique and ordered");
    for (auto s : {"identifier accepted", "identifier refused", "number accepted", "number refused", "integer accepted", "integer refused", "hexadecimal accepted", "hexadecimal refused"}) ctx.expectAtLeast(s, 300);
    ctx.expectAtLeast("arithmetic checks", 10000); ctx.expectAtLeast("cubic points", 5000); ctx.expectAtLeast("names", 5000);
    ctx.section("lexical", 1500, 40000, lexical);
    ctx.section("arithmetic", 2000, 200000, arithmetic);
    ctx.section("cubics", 2000, 200000, cubics);
    ctx.section("texts", 1500, 60000, texts);
    ctx.section("zero-init", 1500, 40000, zeroInit);
    ctx.expectAtLeast("zero-initialised operations", 3000);
}
}
VF_MAIN(run)
