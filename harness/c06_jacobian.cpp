// C06: numerically computed Jacobians (dense, sparse with column grouping, providers, trimmers) against analytic ones.
#include "alg_common.h"
#include "ode_num_int/alg/computeJacobian.h"
#include "ode_num_int/alg/SparseJacobianCalculator.h"
#include "ode_num_int/alg/DefaultJacobianProvider.h"
#include "ode_num_int/alg/SparseJacobianProvider.h"
#include "ode_num_int/alg/JacobianWidthBasedTrimmer.h"
#include "ode_num_int/alg/JacobianThresholdBasedTrimmer.h"
using namespace vf;
using namespace ctm::math;
using ctm::OptionalParameters;

static DV randomPoint(Rng& g, unsigned n) { DV x(n); double s = g.chance(.2) ? 20 : 2; for (auto& v : x) v = g.chance(.1) ? 0. : g.uni(-s, s); return x; }

template<class M>
static void checkJ(Case& c, const M& J, const TestMapping& f, const DV& x, const std::string& what, const std::function<bool(unsigned, unsigned)>& keep = nullptr) {
    DM e = f.jac(x);
    c.count("jacobians");
    if (J.size() != Idx(f.nout, f.nin)) c.die("size/" + what, "size " + std::to_string(J.size().first) + "x" + std::to_string(J.size().second));
    DM got = denseOf(J);
    double fm = maxAbs(f.eval(x));
    double tol = 2e-6 * f.curvature() + 2e-9 * (1 + fm + 3 * maxAbs(x));
    for (unsigned j = 0; j < e.r; ++j) for (unsigned i = 0; i < e.c; ++i) {
        double ref = keep && !keep(j, i) ? 0. : e(j, i);
        c.count("entries");
        if (!(std::fabs(got(j, i) - ref) <= tol)) c.die("entry/" + what, "d f" + std::to_string(j) + "/d x" + std::to_string(i) + " = " + num(got(j, i)) + ", the derivative is " + num(ref) + " at x=" + list(x) + "; J=" + text(got) + " expected " + text(e));
    }
}

static void run(Ctx& ctx) {
    ctx.rule("random sparse nonlinear mappings with analytic derivatives (banded, arrow, random and empty patterns); Jacobians by every entry point at sequences of points, "
             "with trimmers attached, changed and removed and mappings replaced; non-trivial: at least 2 structural elements; distinct by pattern");
    ctx.assumption("at the first point of a sparse provider every structural element has a nonzero derivative (the provider takes its pattern from there)");
    ctx.expectAtLeast("grouped", 200);

    ctx.section("direct", 2500, 40000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 10);
        auto f = randomMapping(g, n, n, g.uni(.05, .8), g.chance(.5));
        DV x0 = randomPoint(g, n);
        c.desc << f->text() << " x0=" << list(x0);
        V x = toV(x0);
        auto J = computeJacobian(*f, x);
        if (fromV(x) != x0) c.die("argument-modified", list(fromV(x)));
        checkJ(c, J, *f, x0, "dense");
        if (f->terms.size() >= 2) c.nontrivialHash(hashPattern(f->pattern(), n));
        // nothing is stored outside of the pattern
        auto p = f->pattern();
        for (auto e : J) if (!p.count(Idx(e.first))) c.die("outside-pattern", "");
    });

    ctx.section("sparse", 2500, 40000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 12), nr = g.chance(.7) ? n : g.u(1, 12);
        auto f = randomMapping(g, nr, n, g.uni(.05, .6), g.chance(.5));
        c.desc << f->text();
        SM stencil(nr, n);
        for (auto& p : f->pattern()) stencil.at(p) = g.uni(-5, 5);
        int extra = g.i(0, 3);      // the stencil may have room for elements that are identically zero
        for (int k = 0; k < extra; ++k) stencil.at(Idx(g.u(0, nr - 1), g.u(0, n - 1))) = 1;
        SMF J; J = stencil;
        size_t cnt = J.count();
        SparseJacobianCalculator<VD> calc(&J);
        unsigned need = calc.mappingEvaluationsRequired();
        // no fewer evaluations than the fullest row needs, no more than one per column
        std::vector<unsigned> inRow(nr, 0);
        for (auto e : J) ++inRow[e.first.first];
        unsigned rmax = 0;
        for (unsigned k : inRow) rmax = std::max(rmax, k);
        if (need > n + 1 || need < rmax + 1) c.die("evaluations-bound", std::to_string(need) + " evaluations for " + std::to_string(n) + " columns");
        // a group can always be found for a column among one more than it has conflicting columns
        std::vector<std::set<unsigned>> rowCols(nr);
        for (auto e : J) rowCols[e.first.first].insert(e.first.second);
        std::vector<std::set<unsigned>> conflicts(n);
        for (auto& r : rowCols) for (auto a : r) for (auto b : r) if (a != b) conflicts[a].insert(b);
        unsigned most = 0;
        for (auto& k : conflicts) most = std::max(most, unsigned(k.size()));
        if (need > most + 2) c.die("grouping", std::to_string(need) + " evaluations though no column has more than " + std::to_string(most) + " others to avoid");
        if (need < n + 1) c.count("grouped");
        int np = g.i(1, 4);
        for (int k = 0; k < np; ++k) {
            DV x0 = randomPoint(g, n);
            V x = toV(x0);
            double delta = g.pick(std::vector<double>{1e-6, 1e-6, 2e-6});
            long before = f->calls;
            calc.calculate(*f, x, delta);
            if (f->calls - before != long(need)) c.die("evaluations", std::to_string(f->calls - before) + " evaluations, announced " + std::to_string(need));
            if (fromV(x) != x0) c.die("argument-modified", "");
            if (J.count() != cnt) c.die("structure-changed", "");
            checkJ(c, J, *f, x0, "sparse");
        }
        DV x0 = randomPoint(g, n);
        computeSparseJacobian(J, *f, toV(x0), 1e-6);
        checkJ(c, J, *f, x0, "computeSparseJacobian");
        if (f->terms.size() >= 2) c.nontrivialHash(hashPattern(f->pattern(), n + 1000));
    });

    ctx.section("trimmer", 2500, 30000, [&](Case& c) {
        Rng& g = c.rng;
        unsigned n = g.u(1, 9);
        SM J(n, n);
        unsigned k = g.u(0, 3 * n);
        while (k--) J.at(g.u(0, n - 1), g.u(0, n - 1)) = g.chance(.1) ? 0. : g.sgn() * g.logu(1e-4, 10);
        DM before = denseOf(J);
        c.desc << text(before);
        double jmax = maxAbs(before.a);
        unsigned width = g.u(0, n + 1);
        double th = g.chance(.2) ? 0. : g.logu(1e-4, 1.5);
        JacobianWidthBasedTrimmer<VD> wt;
        JacobianThresholdBasedTrimmer<VD> tt;
        OptionalParameters::Parameters p;
        p["width"] = width; p["threshold"] = th;
        wt.setParameters(p); tt.setParameters(p);
        c.desc << " width=" << width << " threshold=" << th;
        if (wt.parameters()["width"].value<unsigned>() != width || tt.parameters()["threshold"].value<double>() != th) c.die("parameters", "");
        SM w = wt.trimJacobian(J), t = tt.trimJacobian(J);
        if (denseOf(J).a != before.a) c.die("argument-modified", "");
        c.count("trims", 2);
        if (w.size() != J.size() || t.size() != J.size()) c.die("trim-size", "");
        size_t kw = 0, kt = 0;
        for (auto e : J) {
            unsigned i = e.first.first, j = e.first.second;
            bool inW = width == 0 || unsigned(std::abs(int(i) - int(j))) < width;
            bool inT = th == 0 || jmax == 0 || i == j || std::fabs(e.second) >= th * jmax;
            kw += inW; kt += inT;
            if (w.hasIndex(Idx(i, j)) != inW || (inW && w.get(i, j) != e.second)) c.die("width", "element (" + std::to_string(i) + "," + std::to_string(j) + ") width " + std::to_string(width));
            if (std::fabs(std::fabs(e.second) - th * jmax) < 1e-12 * jmax) { kt = size_t(-1) / 2; continue; }
            if (t.hasIndex(Idx(i, j)) != inT || (inT && t.get(i, j) != e.second)) c.die("threshold", "element (" + std::to_string(i) + "," + std::to_string(j) + ")=" + num(e.second) + " threshold " + num(th) + " max " + num(jmax));
        }
        if (w.count() != kw) c.die("width-extra", "");
        if (kt < size_t(-1) / 4 && t.count() != kt) c.die("threshold-extra", "");
        if (J.count() >= 2 && (kw < J.count() || kt < J.count())) { c.count("trimmed-something"); c.nontrivial(c.desc.str()); }
    });

    ctx.section("provider", 2000, 30000, [&](Case& c) {
        Rng& g = c.rng;
        bool sparse = g.chance(.7);
        std::shared_ptr<JacobianProvider<VD>> jp;
        if (sparse) jp = std::make_shared<SparseJacobianProvider<VD>>(); else jp = std::make_shared<DefaultJacobianProvider<VD>>();
        c.desc << (sparse ? "sparse" : "default");
        unsigned n = g.u(1, 9);
        std::shared_ptr<TestMapping> f;
        auto newMapping = [&]() { f = randomMapping(g, n, n, g.uni(.05, .6), g.chance(.5)); c.desc << "; " << f->text(); jp->setMapping(f); };
        newMapping();
        unsigned width = 0;
        int steps = g.i(2, 10);
        std::string hist;
        bool known = false;             // a Jacobian of this mapping has been computed by this provider
        for (int k = 0; k < steps; ++k) {
            int op = g.i(0, 9);
            if (op == 0) { n = g.u(1, 9); c.desc << "; new mapping, hard reset"; newMapping(); jp->hardReset(); known = false; hist += "M"; }
            else if (op == 1) {
                if (g.chance(.6)) {
                    width = g.u(1, 4);
                    auto t = std::make_shared<JacobianWidthBasedTrimmer<VD>>();
                    OptionalParameters::Parameters p; p["width"] = width; t->setParameters(p);
                    jp->setJacobianTrimmer(t);
                    if (t->mapping() != f) c.die("trimmer-mapping", "the trimmer does not know the mapping");
                    c.desc << "; trimmer " << width; hist += "T";
                }
                else { jp->setJacobianTrimmer(nullptr); width = 0; c.desc << "; no trimmer"; hist += "t"; }
            }
            else if (op == 2) { jp->hardReset(); c.desc << "; hard reset"; hist += "H"; if (!jp->jacobian().empty()) c.die("hardReset", "the Jacobian is still there"); known = false; }
            else {
                DV x0 = randomPoint(g, n);
                V x = toV(x0);
                c.desc << "; J at " << list(x0);
                jp->computeJacobian(x);
                if (fromV(x) != x0) c.die("argument-modified", "");
                std::function<bool(unsigned, unsigned)> keep;
                if (width) keep = [width](unsigned i, unsigned j) { return unsigned(std::abs(int(i) - int(j))) < width; };
                checkJ(c, jp->jacobian(), *f, x0, sparse ? "provider-sparse" : "provider-default", keep);
                if (known) c.count("recomputed");
                known = true; hist += "J";
            }
        }
        if (f->terms.size() >= 2) c.nontrivial(hist + std::to_string(hashPattern(f->pattern(), n)));
    });
}
VF_MAIN(run)
