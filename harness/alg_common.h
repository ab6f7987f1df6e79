// Synthetic vector mappings with a known analytic Jacobian and call accounting.
#pragma once
#include "common.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
#include "ode_num_int/alg/interfaces/VectorMapping.h"

namespace vf {
typedef ctm::math::VectorData<double> VD;
typedef ctm::math::VectorTemplate<VD> V;
typedef ctm::math::sparse::SparseMatrix<double> SM;
typedef ctm::math::sparse::SparseMatrixTemplate<ctm::math::sparse::SparseMatrixFastData<double>> SMF;
typedef std::pair<unsigned, unsigned> Idx;

inline V toV(const DV& x) { V r(unsigned(x.size())); for (unsigned i = 0; i < x.size(); ++i) r[i] = x[i]; return r; }
inline DV fromV(const V& x) { DV r(x.size()); for (unsigned i = 0; i < x.size(); ++i) r[i] = x[i]; return r; }

// f_j(x) = c_j + sum_i ( a_ji x_i + q_ji sin( w_ji x_i + p_ji ) )
struct Term { unsigned j, i; double a, q, w, p; };
class TestMapping : public ctm::math::VectorMapping<VD> {
public:
    unsigned nin = 0, nout = 0;
    DV c;
    std::vector<Term> terms;
    std::vector<unsigned> idsIn, idsOut;
    mutable long calls = 0;
    long budget = 2000000;
    unsigned inputSize() const override { return nin; }
    unsigned outputSize() const override { return nout; }
    std::vector<unsigned> inputIds() const override { return idsIn.empty() ? ctm::math::VectorMapping<VD>::inputIds() : idsIn; }
    std::vector<unsigned> outputIds() const override { return idsOut.empty() ? ctm::math::VectorMapping<VD>::outputIds() : idsOut; }
    using ctm::math::VectorMapping<VD>::map;
    void map(V& dst, const V& x) const override {
        if (++calls > budget) throw Runaway("mapping evaluated " + std::to_string(calls) + " times");
        vectorMappingPreObservers(x, this);
        DV r = eval(fromV(x));
        dst.resize(nout);
        for (unsigned j = 0; j < nout; ++j) dst[j] = r[j];
        vectorMappingPostObservers(x, dst, this);
    }
    DV eval(const DV& x) const {
        DV r = c;
        for (auto& t : terms) r[t.j] += t.a * x[t.i] + t.q * std::sin(t.w * x[t.i] + t.p);
        return r;
    }
    DM jac(const DV& x) const {
        DM m(nout, nin);
        for (auto& t : terms) m(t.j, t.i) += t.a + t.q * t.w * std::cos(t.w * x[t.i] + t.p);
        return m;
    }
    double curvature() const { double r = 0; for (auto& t : terms) r = std::max(r, std::fabs(t.q) * t.w * t.w); return r; }
    std::set<Idx> pattern() const { std::set<Idx> s; for (auto& t : terms) s.insert(Idx(t.j, t.i)); return s; }
    std::string text() const {
        std::ostringstream s; s << std::setprecision(17) << "mapping " << nout << "x" << nin << " c=" << list(c) << " terms";
        for (auto& t : terms) s << " f" << t.j << "+=" << t.a << "*x" << t.i << "+" << t.q << "*sin(" << t.w << "*x" << t.i << "+" << t.p << ")";
        return s.str();
    }
};

// The derivative of every term keeps away from zero: |q w| <= 0.6 |a|
inline std::shared_ptr<TestMapping> randomMapping(Rng& g, unsigned nout, unsigned nin, double density, bool diagonal, double nonlin = 0.6) {
    auto m = std::make_shared<TestMapping>();
    m->nin = nin; m->nout = nout; m->c.assign(nout, 0);
    for (auto& x : m->c) x = g.uni(-2, 2);
    int shape = g.i(0, 3);
    for (unsigned j = 0; j < nout; ++j) for (unsigned i = 0; i < nin; ++i) {
        bool in = shape == 0 ? g.chance(density) : shape == 1 ? std::abs(int(i) - int(j)) <= 1 : shape == 2 ? (i == 0 || j == 0 || g.chance(density / 3)) : g.chance(density / 2);
        if (diagonal && i == j) in = true;
        if (!in) continue;
        double a = g.sgn() * g.uni(.5, 3);
        double w = g.uni(.3, 2);
        m->terms.push_back(Term{j, i, a, g.chance(.7) ? nonlin * g.uni(-1, 1) * a / w : 0., w, g.uni(-3, 3)});
    }
    return m;
}
// Well-conditioned: dominant diagonal, mild nonlinearity; has exactly one root
inline std::shared_ptr<TestMapping> dominantMapping(Rng& g, unsigned n, double density, double nonlin) {
    auto m = std::make_shared<TestMapping>();
    m->nin = m->nout = n; m->c.assign(n, 0);
    for (auto& x : m->c) x = g.uni(-2, 2);
    for (unsigned j = 0; j < n; ++j) {
        double sum = 0;
        for (unsigned i = 0; i < n; ++i) if (i != j && g.chance(density)) {
            double a = g.sgn() * g.uni(.2, 1), w = g.uni(.3, 2), q = g.chance(.7) ? nonlin * g.uni(-1, 1) * a / w : 0.;
            sum += std::fabs(a) + std::fabs(q * w);
            m->terms.push_back(Term{j, i, a, q, w, g.uni(-3, 3)});
        }
        double w = g.uni(.3, 2), a = g.sgn() * (g.uni(1.5, 2.5) * sum + g.uni(.5, 2));
        m->terms.push_back(Term{j, j, a, .3 * nonlin * g.uni(-1, 1) * a / w, w, g.uni(-3, 3)});
    }
    return m;
}
inline DM denseOf(const SMF& m) { DM d(m.size().first, m.size().second); for (auto e : m) d(e.first.first, e.first.second) = e.second; return d; }
inline DM denseOf(const SM& m) { DM d(m.size().first, m.size().second); for (auto e : m) d(e.first.first, e.first.second) = e.second; return d; }
inline std::string text(const DM& m) { std::ostringstream s; s << m.r << "x" << m.c << "["; for (unsigned i = 0; i < m.r; ++i) { s << (i ? "; " : ""); for (unsigned j = 0; j < m.c; ++j) s << (j ? " " : "") << std::setprecision(8) << m(i, j); } s << "]"; return s.str(); }
inline uint64_t hashPattern(const std::set<Idx>& p, uint64_t h = 7) { for (auto& x : p) h = mix(h ^ (uint64_t(x.first) << 32 | x.second)); return h; }
} // namespace vf
