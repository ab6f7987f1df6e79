// C07: mapping adaptors (narrowing, reordering, diagonal, inverse, normalizing) against their definitions.
#include "alg_common.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/computeJacobian.h"
#include "ode_num_int/alg/MappingNormalizer.h"
#include "ode_num_int/alg/DiagonalMapping.h"
#include "ode_num_int/alg/interfaces/VectorBijectiveMapping.h"
#include "ode_num_int/ode/interfaces/OdeRhsVectorMapping.h"
using namespace vf;
using namespace ctm::math;

// A time-dependent system for the mapping of its right hand side
struct TimedRhs : OdeRhs<VD>, ctm::FactoryMixin<TimedRhs, OdeRhs<VD>> {
    unsigned n2, n1; double k;
    TimedRhs(unsigned n2 = 0, unsigned n1 = 1, double k = 1) : n2(n2), n1(n1), k(k) {}
    unsigned secondOrderVarCount() const override { return n2; }
    unsigned firstOrderVarCount() const override { return n1; }
    static DV eval(unsigned n2, unsigned n1, double k, double t, const DV& x) { DV r(2 * n2 + n1); for (unsigned i = 0; i < r.size(); ++i) r[i] = i < n2 ? x[n2 + i] : std::sin(k * t + i) - x[i] * x[(i + 1) % r.size()]; return r; }
    void rhs(V& dst, double t, const V& x) const override { this->odeRhsPreObservers(t, x, this); toV(eval(n2, n1, k, t, fromV(x))).swap(dst); this->odeRhsPostObservers(t, x, dst, this); }
    std::vector<unsigned> varIds() const override { std::vector<unsigned> r; for (unsigned i = 0; i < 2 * n2 + n1; ++i) r.push_back(7 * i + n2); return r; }
};

static DV rnd(Rng& g, unsigned n) { DV x(n); for (auto& v : x) v = g.uni(-3, 3); return x; }
static void eq(Case& c, const DV& got, const DV& ref, const std::string& key, double rel = 1e-12) {
    c.count("vectors");
    if (got.size() != ref.size()) c.die(key, "size " + std::to_string(got.size()) + ", expected " + std::to_string(ref.size()));
    double s = 1e-300 + rel * (1 + maxAbs(ref));
    for (unsigned i = 0; i < ref.size(); ++i) if (!(std::fabs(got[i] - ref[i]) <= s)) c.die(key, list(got) + ", expected " + list(ref));
}
static void eqI(Case& c, const std::vector<unsigned>& got, const std::vector<unsigned>& ref, const std::string& key) {
    if (got != ref) c.die(key, list(got) + ", expected " + list(ref));
}
template<class T> static T dropped(const T& x, const std::set<unsigned>& dis) { T r; for (unsigned i = 0; i < x.size(); ++i) if (!dis.count(i)) r.push_back(x[i]); return r; }
static std::vector<unsigned> ids(Rng& g, unsigned n) { std::vector<unsigned> r(n); for (auto& x : r) x = g.u(0, 50); return r; }
static std::vector<unsigned> randomIndices(Rng& g, unsigned n, std::set<unsigned>& s) {
    std::vector<unsigned> r;
    s.clear();
    if (g.chance(.15) || n == 0) return r;
    double p = g.chance(.1) ? 1. : g.uni(.05, .9);
    for (unsigned i = 0; i < n; ++i) if (g.chance(p)) { s.insert(i); r.push_back(i); if (g.chance(.2)) r.push_back(i); }
    auto perm = g.perm(unsigned(r.size()));
    std::vector<unsigned> q;
    for (auto k : perm) q.push_back(r[k]);
    return q;
}

static void run(Ctx& ctx) {
    ctx.rule("random nonlinear mappings of n inputs and m outputs wrapped by adaptors with random index sets (duplicates, any order, empty, everything), orderings and scales, re-set "
             "in the course of a history; every conversion and every evaluation is compared with its definition; non-trivial: an index set that is neither empty nor full, or a "
             "permutation that is not the identity; distinct by index sets");
    ctx.expectAtLeast("vectors", 2000);

    ctx.section("narrowing", 6000, 80000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned ni = g.u(1, 10), no = g.u(1, 10);
        auto f = randomMapping(g, no, ni, .5, false);
        f->idsIn = ids(g, ni); f->idsOut = ids(g, no);
        VectorNarrowingMapping<VD> nm;
        nm.setMapping(f);
        std::set<unsigned> di, dout;
        DV state(ni, 0.);
        int steps = g.i(1, 5);
        c.desc << "in=" << ni << " out=" << no;
        for (int k = 0; k < steps; ++k) {
            if (k == 0 ? g.chance(.9) : g.chance(.6)) { auto v = randomIndices(g, ni, di); state = rnd(g, ni); nm.setInputNarrowing(v, toV(state)); c.desc << "; input narrowing " << list(v) << " state " << list(state); }
            if (k == 0 ? g.chance(.9) : g.chance(.6)) { auto v = randomIndices(g, no, dout); nm.setOutputNarrowing(v); c.desc << "; output narrowing " << list(v); }
            if (g.chance(.15)) {
                std::vector<unsigned> bad{ni + g.u(0, 3)};
                if (g.chance(.5) && ni) bad.insert(bad.begin(), 0);
                bool thrown = false;
                try { nm.setInputNarrowing(bad, toV(rnd(g, ni))); } catch (const std::exception&) { thrown = true; }
                if (!thrown) c.die("invalid-index", "accepted");
                thrown = false;
                try { nm.setOutputNarrowing({no + g.u(0, 3)}); } catch (const std::exception&) { thrown = true; }
                if (!thrown) c.die("invalid-index", "accepted (output)");
                c.count("rejected");
            }
            eqI(c, nm.disabledInputIndices(), std::vector<unsigned>(di.begin(), di.end()), "disabled-input");
            eqI(c, nm.disabledOutputIndices(), std::vector<unsigned>(dout.begin(), dout.end()), "disabled-output");
            if (nm.inputSize() != ni - di.size() || nm.outputSize() != no - dout.size()) c.die("sizes", "");
            eqI(c, nm.inputIds(), dropped(f->idsIn, di), "input-ids");
            eqI(c, nm.outputIds(), dropped(f->idsOut, dout), "output-ids");
            DV full = rnd(g, ni), fo = rnd(g, no), x = rnd(g, ni - unsigned(di.size()));
            eq(c, fromV(nm.narrowInput(toV(full))), dropped(full, di), "narrowInput", 0);
            eq(c, fromV(nm.narrowOutput(toV(fo))), dropped(fo, dout), "narrowOutput", 0);
            DV wide(ni);
            for (unsigned i = 0, j = 0; i < ni; ++i) wide[i] = di.count(i) ? state[i] : x[j++];
            eq(c, fromV(nm.widenInput(toV(x))), wide, "widenInput", 0);
            eq(c, fromV(nm.narrowInput(nm.widenInput(toV(x)))), x, "narrow-widen", 0);
            V dst(g.u(0, 12)); V in = toV(x);
            nm.map(dst, in);
            eq(c, fromV(in), x, "argument-modified", 0);
            eq(c, fromV(dst), dropped(f->eval(wide), dout), "map");
            eq(c, fromV(nm(in)), dropped(f->eval(wide), dout), "call");
            if ((di.size() && di.size() < ni) || (dout.size() && dout.size() < no)) c.nontrivial(list(nm.disabledInputIndices()) + list(nm.disabledOutputIndices()) + std::to_string(ni) + "/" + std::to_string(no));
        }
    });

    ctx.section("reordering", 5000, 60000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned ni = g.u(1, 10), no = g.u(1, 10);
        auto f = randomMapping(g, no, ni, .5, false);
        f->idsIn = ids(g, ni); f->idsOut = ids(g, no);
        VectorReorderingMapping<VD> rm;
        rm.setMapping(f);
        int steps = g.i(1, 3);
        for (int k = 0; k < steps; ++k) {
            auto pi = g.perm(ni), po = g.perm(no);
            rm.setInputOrdering(pi); rm.setOutputOrdering(po);
            c.desc << "; orderings " << list(pi) << " " << list(po);
            eqI(c, rm.inputOrdering(), pi, "input-ordering"); eqI(c, rm.outputOrdering(), po, "output-ordering");
            if (rm.inputSize() != ni || rm.outputSize() != no) c.die("sizes", "");
            auto ord = [](const DV& x, const std::vector<unsigned>& p) { DV r(x.size()); for (unsigned i = 0; i < x.size(); ++i) r[i] = x[p[i]]; return r; };
            auto unord = [](const DV& x, const std::vector<unsigned>& p) { DV r(x.size()); for (unsigned i = 0; i < x.size(); ++i) r[p[i]] = x[i]; return r; };
            DV x = rnd(g, ni), y = rnd(g, no);
            eq(c, fromV(rm.orderInput(toV(x))), ord(x, pi), "orderInput", 0);
            eq(c, fromV(rm.unorderInput(toV(x))), unord(x, pi), "unorderInput", 0);
            eq(c, fromV(rm.orderOutput(toV(y))), ord(y, po), "orderOutput", 0);
            eq(c, fromV(rm.unorderOutput(toV(y))), unord(y, po), "unorderOutput", 0);
            eq(c, fromV(rm.unorderInput(rm.orderInput(toV(x)))), x, "round-trip", 0);
            eq(c, rm.orderInput(x), ord(x, pi), "orderInput-container", 0);
            V d(g.u(0, 5)); rm.unorderOutput(d, toV(y)); eq(c, fromV(d), unord(y, po), "unorderOutput-dst", 0);
            std::vector<unsigned> a(ni), b(no);
            for (unsigned i = 0; i < ni; ++i) a[i] = f->idsIn[pi[i]];
            for (unsigned i = 0; i < no; ++i) b[i] = f->idsOut[po[i]];
            eqI(c, rm.inputIds(), a, "input-ids"); eqI(c, rm.outputIds(), b, "output-ids");
            eq(c, fromV(rm(toV(x))), ord(f->eval(unord(x, pi)), po), "map");
            // orderings that are found when they are first needed, whatever is asked first
            struct Lazy : VectorReorderingMapping<VD> {
                std::vector<unsigned> pi, po; int inits = 0;
                void maybeInit() override { if (inits++) return; this->setInputOrdering(pi); this->setOutputOrdering(po); }
            };
            Lazy lz; lz.setMapping(f); lz.pi = pi; lz.po = po;
            V dd(g.u(0, 3)); VectorReorderingMapping<VD>& lr = lz;
            switch (int q = g.i(0, 11)) {
            case 0: eqI(c, lr.inputOrdering(), pi, "lazy-input-ordering"); break;
            case 1: eqI(c, lr.outputOrdering(), po, "lazy-output-ordering"); break;
            case 2: eq(c, fromV(lr.orderInput(toV(x))), ord(x, pi), "lazy-orderInput", 0); break;
            case 3: eq(c, fromV(lr.unorderInput(toV(x))), unord(x, pi), "lazy-unorderInput", 0); break;
            case 4: eq(c, fromV(lr.orderOutput(toV(y))), ord(y, po), "lazy-orderOutput", 0); break;
            case 5: eq(c, fromV(lr.unorderOutput(toV(y))), unord(y, po), "lazy-unorderOutput", 0); break;
            case 6: lr.orderInput(dd, toV(x)); eq(c, fromV(dd), ord(x, pi), "lazy-orderInput-dst", 0); break;
            case 7: lr.unorderInput(dd, toV(x)); eq(c, fromV(dd), unord(x, pi), "lazy-unorderInput-dst", 0); break;
            case 8: lr.orderOutput(dd, toV(y)); eq(c, fromV(dd), ord(y, po), "lazy-orderOutput-dst", 0); break;
            case 9: lr.unorderOutput(dd, toV(y)); eq(c, fromV(dd), unord(y, po), "lazy-unorderOutput-dst", 0); break;
            case 10: eqI(c, lr.inputIds(), a, "lazy-input-ids"); break;
            default: (void)q; eq(c, fromV(lr(toV(x))), ord(f->eval(unord(x, pi)), po), "lazy-map");
            }
            bool ident = true;
            for (unsigned i = 0; i < ni; ++i) ident = ident && pi[i] == i;
            if (!ident) c.nontrivial(list(pi) + list(po));
        }
    });

    ctx.section("scaling", 4000, 50000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 9);
        DV d(n);
        for (auto& x : d) x = g.sgn() * g.logu(1e-3, 1e3);
        DiagonalMapping<VD> dm(toV(d));
        DV x = rnd(g, n), r(n), u(n);
        for (unsigned i = 0; i < n; ++i) { r[i] = d[i] * x[i]; u[i] = x[i] / d[i]; }
        c.desc << "d=" << list(d) << " x=" << list(x);
        const VectorMapping<VD>& vm = dm;
        if (dm.inputSize() != n || dm.outputSize() != n) c.die("sizes", "");
        eq(c, fromV(vm.map(toV(x))), r, "diag-map"); eq(c, fromV(dm.VectorBijectiveMapping<VD>::unmap(toV(x))), u, "diag-unmap");
        auto inv = dm.inv();
        const VectorBijectiveMapping<VD>& ib = inv;
        if (inv.inputSize() != n || inv.outputSize() != n) c.die("sizes", "inverse");
        eq(c, fromV(ib.VectorMapping<VD>::map(toV(x))), u, "inverse-map"); eq(c, fromV(ib.VectorBijectiveMapping<VD>::unmap(toV(x))), r, "inverse-unmap");

        // x -> D f(D x)
        auto f = randomMapping(g, n, n, .5, true);
        c.desc << " " << f->text();
        MappingNormalizer<VD> nm;
        nm.setMapping(f);
        f->idsIn = ids(g, n); f->idsOut = ids(g, n);
        nm.setDiagonalMapping(std::make_shared<DiagonalMapping<VD>>(toV(d)));
        auto expect = [&](const DV& d, const DV& x) { DV t(n); for (unsigned i = 0; i < n; ++i) t[i] = d[i] * x[i]; t = f->eval(t); for (unsigned i = 0; i < n; ++i) t[i] *= d[i]; return t; };
        eqI(c, nm.inputIds(), f->idsIn, "norm-ids"); eqI(c, nm.outputIds(), f->idsOut, "norm-ids");
        long pre = 0, post = 0;
        nm.vectorMappingPreObservers.add([&](const V& a, const VectorMapping<VD>* m) { ++pre; if (m != &nm || fromV(a) != x) c.fail("pre-observer", ""); });
        nm.vectorMappingPostObservers.add([&](const V& a, const V& b, const VectorMapping<VD>* m) { ++post; if (m != &nm || fromV(a) != x || b.size() != n) c.fail("post-observer", ""); });
        eq(c, fromV(nm.VectorMapping<VD>::map(toV(x))), expect(d, x), "norm-map");
        if (pre != 1 || post != 1) c.die("norm-observers", std::to_string(pre) + " " + std::to_string(post));
        // normalize: the diagonal of the scaled Jacobian is +-1
        DV x0 = rnd(g, n);
        DM J = f->jac(x0);
        nm.normalize(toV(x0));
        auto dmp = nm.diagonalMapping();
        V one(n); for (unsigned i = 0; i < n; ++i) one[i] = 1;
        const VectorMapping<VD>& dv = *dmp;
        DV d2 = fromV(dv.map(one));
        for (unsigned i = 0; i < n; ++i) {
            double ref = 1 / std::sqrt(std::fabs(J(i, i)));
            // the derivative is a finite difference: allow for its truncation and rounding errors
            double relTol = (2e-6 * f->curvature() + 2e-9 * (1 + maxAbs(f->eval(x0)))) / std::fabs(J(i, i)) + 1e-12;
            if (!(std::fabs(d2[i] - ref) <= relTol * ref)) c.die("normalize", "scale " + std::to_string(i) + " is " + num(d2[i]) + ", expected " + num(ref));
        }
        eq(c, fromV(nm.VectorMapping<VD>::map(toV(x))), expect(d2, x), "norm-map-2");
        c.count("normalized");
        if (n >= 2) c.nontrivial(f->text());
        // no diagonal element: reported, and the old scaling stays
        unsigned z = g.u(0, n - 1);
        std::vector<Term> t;
        for (auto& q : f->terms) if (!(q.j == z && q.i == z)) t.push_back(q);
        f->terms = t;
        bool thrown = false;
        try { nm.normalize(toV(x0)); } catch (const std::exception&) { thrown = true; }
        if (!thrown) c.die("zero-diagonal", "accepted");
        if (nm.diagonalMapping() != dmp) c.die("zero-diagonal", "the scaling has been lost");
    });

    // adaptors of adaptors
    ctx.section("stack", 3000, 40000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(2, 9);
        auto f = randomMapping(g, n, n, .5, true);
        std::set<unsigned> di, dout;
        auto vi = randomIndices(g, n, di); auto vo = randomIndices(g, n, dout);
        DV state = rnd(g, n);
        auto nm = std::make_shared<VectorNarrowingMapping<VD>>();
        nm->setMapping(f); nm->setInputNarrowing(vi, toV(state)); nm->setOutputNarrowing(vo);
        unsigned ni = nm->inputSize(), no = nm->outputSize();
        auto rm = std::make_shared<VectorReorderingMapping<VD>>();
        rm->setMapping(nm);
        auto pi = g.perm(ni), po = g.perm(no);
        rm->setInputOrdering(pi); rm->setOutputOrdering(po);
        c.desc << f->text() << " narrowing " << list(vi) << list(vo) << " ordering " << list(pi) << list(po);
        DV x = rnd(g, ni), t(ni);
        for (unsigned i = 0; i < ni; ++i) t[pi[i]] = x[i];
        DV wide(n);
        for (unsigned i = 0, j = 0; i < n; ++i) wide[i] = di.count(i) ? state[i] : t[j++];
        DV y = dropped(f->eval(wide), dout), z(no);
        for (unsigned i = 0; i < no; ++i) z[i] = y[po[i]];
        eq(c, fromV(rm->VectorMapping<VD>::operator()(toV(x))), z, "map");
        if (di.size() && di.size() < n) c.nontrivial(list(vi) + list(vo) + list(pi) + list(po));
        c.count("stacks");
    });

    // the right hand side of a system at a moment as a mapping
    ctx.section("system", 1500, 20000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n2 = 0, n1 = 0; double k = 0, t = g.uni(-3, 3);
        std::shared_ptr<TimedRhs> f;
        auto other = [&] { n2 = g.u(0, 3); n1 = g.u(n2 ? 0 : 1, 3); k = g.uni(.5, 3); f = std::make_shared<TimedRhs>(n2, n1, k); c.desc << " system " << n2 << "," << n1 << "," << k; };
        other();
        c.desc << " t=" << t;
        std::shared_ptr<OdeRhsVectorMapping<VD>> m;
        int how = g.i(0, 2);
        if (how == 0) m = makeOdeRhsVectorMapping<VD>(f, t);
        else if (how == 1) m = std::make_shared<OdeRhsVectorMapping<VD>>(f, t);
        else { m = std::make_shared<OdeRhsVectorMapping<VD>>(); if (m->time() != 0) c.die("time", ""); m->setOdeRhs(f); m->setTime(t); }
        for (int q = 0, n = g.i(2, 6); q < n; ++q) {
            if (q && g.chance(.4)) { t = g.uni(-3, 3); m->setTime(t); c.desc << " t=" << t; }
            if (q && g.chance(.3)) { other(); m->setOdeRhs(f); }
            unsigned size = 2 * n2 + n1;
            c.require(m->time() == t && m->odeRhs() == f, "system", "");
            c.require(m->inputSize() == size && m->outputSize() == size, "size", "");
            eqI(c, m->inputIds(), f->varIds(), "ids"); eqI(c, m->outputIds(), f->varIds(), "ids");
            DV x = rnd(g, size), ref = TimedRhs::eval(n2, n1, k, t, x);
            V dst(size); static_cast<const VectorMapping<VD>&>(*m).map(dst, toV(x));
            eq(c, fromV(dst), ref, "system-map", 0); eq(c, fromV(m->VectorMapping<VD>::map(toV(x))), ref, "system-map", 0); eq(c, fromV((*m)(toV(x))), ref, "system-map", 0);
            auto J = computeJacobian(*m, toV(x));
            for (unsigned i = 0; i < size; ++i) for (unsigned j = 0; j < size; ++j) {
                DV y = x; y[j] += 1e-6; DV z = TimedRhs::eval(n2, n1, k, t, y);
                if (!(std::fabs((z[i] - ref[i]) / 1e-6 - J.get(i, j)) <= 1e-4)) c.die("system-jacobian", "(" + std::to_string(i) + "," + std::to_string(j) + ") " + num(J.get(i, j)) + " instead of " + num((z[i] - ref[i]) / 1e-6));
            }
            c.count("system mappings");
        }
        c.nontrivial(c.desc.str());
    });
    ctx.expectAtLeast("system mappings", 1000);
}
VF_MAIN(run)
