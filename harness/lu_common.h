#pragma once
#include "common.h"
#include "ode_num_int/lu/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"

using namespace vf;
typedef ctm::math::LUFactorizer<double> LU;
typedef ctm::math::sparse::SparseMatrix<double> SM;
typedef ctm::math::sparse::SparseMatrixTemplate<ctm::math::sparse::SparseMatrixFastData<double>> SMF;
typedef std::pair<unsigned, unsigned> Idx;

// A square matrix together with its stencil (which may contain explicit zeros)
struct TestMatrix {
    unsigned n = 0;
    DM a;
    std::vector<Idx> stencil;       // row-major sorted
    std::string kind;
    SM sparse() const {
        SM m(n, n);
        for (auto& i : stencil) m.at(i) = a(i.first, i.second);
        return m;
    }
    std::vector<std::pair<Idx, double>> triplets(Rng& g) const {
        std::vector<std::pair<Idx, double>> t;
        auto p = g.perm(unsigned(stencil.size()));
        for (unsigned k : p) t.push_back(std::make_pair(stencil[k], a(stencil[k].first, stencil[k].second)));
        return t;
    }
    std::string text() const {
        std::ostringstream s;
        s << std::setprecision(17) << "n=" << n << " " << kind << " {";
        for (auto& i : stencil) s << "(" << i.first << "," << i.second << ")=" << a(i.first, i.second) << " ";
        s << "}";
        return s.str();
    }
    uint64_t patternHash() const {
        uint64_t h = mix(n);
        for (auto& i : stencil) h = mix(h ^ (uint64_t(i.first) << 32 | i.second));
        return h;
    }
};

// LU without pivoting in extended precision. Returns false when a pivot is not well away from zero
struct RefLU {
    unsigned n; std::vector<long double> f; std::vector<double> growth;   // growth = |L||U|
    bool ok = true; double minPivotRatio = 1e300;
    explicit RefLU(const DM& a) : n(a.r), f(a.a.begin(), a.a.end()) {
        auto at = [&](unsigned i, unsigned j) -> long double& { return f[size_t(i) * n + j]; };
        for (unsigned k = 0; k < n && ok; ++k) {
            long double rowmax = 0;
            for (unsigned j = 0; j < n; ++j) rowmax = std::max(rowmax, fabsl(at(k, j)));
            if (!(fabsl(at(k, k)) > 0)) { ok = false; break; }
            minPivotRatio = std::min<double>(minPivotRatio, double(fabsl(at(k, k)) / rowmax));
            for (unsigned i = k + 1; i < n; ++i) {
                long double l = at(i, k) / at(k, k);
                at(i, k) = l;
                if (l != 0) for (unsigned j = k + 1; j < n; ++j) at(i, j) -= l * at(k, j);
            }
        }
    }
    // (|L||U| |x|)_i
    DV absLUx(const DV& x) const {
        DV ux(n, 0.), r(n, 0.);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = i; j < n; ++j) ux[i] += double(fabsl(f[size_t(i) * n + j])) * std::fabs(x[j]);
        for (unsigned i = 0; i < n; ++i) { r[i] = ux[i]; for (unsigned j = 0; j < i; ++j) r[i] += double(fabsl(f[size_t(i) * n + j])) * ux[j]; }
        return r;
    }
    double absLU(unsigned r, unsigned c) const {
        double s = 0;
        for (unsigned k = 0; k <= std::min(r, c); ++k) {
            double l = k == r ? 1. : double(fabsl(f[size_t(r) * n + k]));
            s += l * double(fabsl(f[size_t(k) * n + c]));
        }
        return s;
    }
};

inline void stencilFromDense(TestMatrix& t, const std::vector<char>& in) {
    t.stencil.clear();
    for (unsigned i = 0; i < t.n; ++i) for (unsigned j = 0; j < t.n; ++j) if (in[size_t(i) * t.n + j]) t.stencil.push_back(Idx(i, j));
}

// Random stencil of many shapes; always covers the diagonal
inline std::vector<char> randomStencil(Rng& g, unsigned n, std::string& kind) {
    std::vector<char> in(size_t(n) * n, 0);
    auto set = [&](unsigned i, unsigned j) { if (i < n && j < n) in[size_t(i) * n + j] = 1; };
    for (unsigned i = 0; i < n; ++i) set(i, i);
    switch (g.i(0, 9)) {
    case 0: kind = "sparse"; for (unsigned k = 0, m = g.u(0, 3 * n); k < m; ++k) set(g.u(0, n - 1), g.u(0, n - 1)); break;
    case 1: { kind = "band"; unsigned lo = g.u(0, 3), up = g.u(0, 3);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i <= j + lo && j <= i + up) set(i, j); break; }
    case 2: kind = "arrow-down"; for (unsigned i = 0; i < n; ++i) { set(n - 1, i); set(i, n - 1); } break;
    case 3: kind = "arrow-up"; for (unsigned i = 0; i < n; ++i) { set(0, i); set(i, 0); } break;
    case 4: kind = "dense"; for (unsigned i = 0; i < n * n; ++i) in[i] = 1; break;
    case 5: kind = "cyclic"; for (unsigned i = 0; i < n; ++i) { set(i, (i + 1) % n); if (g.chance(.5)) set(i, (i + n - 1) % n); } break;
    case 6: kind = "lower"; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) if (g.chance(.4)) set(i, j); break;
    case 7: kind = "upper"; for (unsigned i = 0; i < n; ++i) for (unsigned j = i; j < n; ++j) if (g.chance(.4)) set(i, j); break;
    case 8: { kind = "blocks"; unsigned b = g.u(1, 4); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i / b == j / b) set(i, j);
        for (unsigned k = 0, m = g.u(0, n); k < m; ++k) set(g.u(0, n - 1), g.u(0, n - 1)); break; }
    default: { kind = "tails"; // a few long rows and columns: much fill-in
        for (unsigned k = 0; k < 3; ++k) { unsigned r = g.u(0, n - 1), c = g.u(0, n - 1);
            for (unsigned j = 0; j < n; ++j) { if (g.chance(.3)) set(r, j); if (g.chance(.3)) set(j, c); } }
        for (unsigned k = 0, m = g.u(0, n); k < m; ++k) set(g.u(0, n - 1), g.u(0, n - 1)); } }
    return in;
}

// Fill with values so that elimination without pivoting is well defined
inline void fillValues(Rng& g, TestMatrix& t) {
    unsigned n = t.n;
    t.a = DM(n, n);
    double zeroProb = g.chance(.3) ? .2 : 0;
    bool dominant = g.chance(.6);
    if (!dominant) t.kind += "/integer-LU"; else t.kind += "/dominant";
    double scaleSpread = g.chance(.2) ? 6 : 0;
    for (auto& i : t.stencil)
        t.a(i.first, i.second) = g.chance(zeroProb) ? 0. : (g.chance(.5) ? g.uni(-1, 1) : double(g.i(-3, 3)));
    if (dominant) {
        for (unsigned i = 0; i < n; ++i) {
            double s = 0;
            for (unsigned j = 0; j < n; ++j) if (j != i) s += std::fabs(t.a(i, j));
            t.a(i, i) = g.sgn() * (s * g.uni(1.05, 2) + g.uni(.1, 2));
        }
        if (scaleSpread > 0)
            for (unsigned i = 0; i < n; ++i) { double f = std::pow(10., g.uni(-scaleSpread, scaleSpread)); for (unsigned j = 0; j < n; ++j) t.a(i, j) *= f; }
    }
    else {
        // A = L U with small integers inside the profile of the stencil: pivots are +-1, +-2, +-4
        std::vector<unsigned> p(n, n), q(n, n);
        for (auto& i : t.stencil) { p[i.first] = std::min(p[i.first], i.second); q[i.second] = std::min(q[i.second], i.first); }
        DM l(n, n), u(n, n);
        for (unsigned i = 0; i < n; ++i) {
            l(i, i) = 1;
            for (unsigned j = p[i]; j < i; ++j) l(i, j) = g.chance(.5) ? g.i(-2, 2) : 0;
            for (unsigned r = q[i]; r < i; ++r) u(r, i) = g.chance(.5) ? g.i(-2, 2) : 0;
            u(i, i) = g.sgn() * (1 << g.i(0, 2));
        }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            double s = 0;
            for (unsigned k = 0; k <= std::min(i, j); ++k) s += l(i, k) * u(k, j);
            t.a(i, j) = s;
        }
        // the stencil is what is nonzero, plus what it takes to keep the profile's corners
        std::vector<char> in(size_t(n) * n, 0);
        for (auto& i : t.stencil) in[size_t(i.first) * n + i.second] = 1;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            bool keep = in[size_t(i) * n + j] && g.chance(.5);
            in[size_t(i) * n + j] = t.a(i, j) != 0 || (keep && (i == j || true));
        }
        for (unsigned i = 0; i < n; ++i) {       // the diagonal element may be an implicit zero only if the profile covers it
            bool rowOk = false, colOk = false;
            for (unsigned j = 0; j <= i; ++j) { rowOk |= in[size_t(i) * n + j] != 0; colOk |= in[size_t(j) * n + i] != 0; }
            if (!rowOk || !colOk) in[size_t(i) * n + i] = 1;
        }
        stencilFromDense(t, in);
    }
}

inline TestMatrix randomMatrix(Rng& g, unsigned nmax = 24) {
    TestMatrix t;
    for (int attempt = 0; ; ++attempt) {
        t = TestMatrix();
        t.n = g.chance(.15) ? g.u(1, 3) : g.u(1, nmax);
        auto in = randomStencil(g, t.n, t.kind);
        stencilFromDense(t, in);
        fillValues(g, t);
        RefLU ref(t.a);
        double big = maxAbs(t.a.a);
        if (ref.ok && ref.minPivotRatio > 1e-6 && std::isfinite(big)) return t;
    }
}

inline DV randomRhs(Rng& g, unsigned n) {
    DV b(n);
    double sc = g.chance(.2) ? g.logu(1e-12, 1e12) : 1;
    for (auto& x : b) x = g.chance(.2) ? 0. : sc * g.uni(-5, 5);
    return b;
}

// x = A^-1 b is backward stable with respect to A (componentwise bound of elimination without pivoting)
inline bool backwardOk(const DM& a, const RefLU& ref, const DV& x, const DV& b, std::string& why) {
    unsigned n = a.r;
    DV bound = ref.absLUx(x);
    for (unsigned i = 0; i < n; ++i) {
        long double r = b[i];
        for (unsigned j = 0; j < n; ++j) r -= (long double)a(i, j) * x[j];
        double tol = 16. * (n + 4) * 2.3e-16 * (bound[i] + std::fabs(b[i])) + 1e-290;
        if (!(std::fabs(double(r)) <= tol)) {
            why = "row " + std::to_string(i) + ": |b - A x| = " + num(std::fabs(double(r))) + " exceeds " + num(tol) + "; x=" + list(x) + " b=" + list(b);
            return false;
        }
    }
    return true;
}

inline bool hasFillIn(const TestMatrix& t) {
    // does the profile of U hold an element to the right of the last stencil column of its row?
    std::vector<unsigned> q(t.n, t.n), s(t.n, 0);
    for (auto& i : t.stencil) { q[i.second] = std::min(q[i.second], i.first); s[i.first] = std::max(s[i.first], i.second); }
    for (unsigned c = 0; c < t.n; ++c) for (unsigned r = q[c]; r < c; ++r) if (s[r] < c) return true;
    return false;
}
