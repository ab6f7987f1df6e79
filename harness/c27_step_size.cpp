// C27: the step size controller follows its rule for every step size, error, order and parameter set.
#include "common.h"
#include "step_rule.h"
#include "ode_num_int/ode/OdeStepSizeSimpleController.h"
#include "ode_num_int/ode/ErrorInfNormCalculator.h"
#include "ode_num_int/la/VectorTemplate.h"
using namespace vf;
typedef ctm::math::VectorData<double> VD;
typedef ctm::math::VectorTemplate<VD> V;

static void run(Ctx& ctx) {
    ctx.rule("one controller object asked about long runs of step sizes, errors (zero, tiny, around the tolerance, huge, infinite, NaN) and orders, with parameters changed in between; "
             "every answer is judged against the rule; non-trivial: all; distinct by decision kind and magnitudes");
    ctx.expectAtLeast("accepted unchanged", 1000);
    ctx.expectAtLeast("accepted increased", 1000);
    ctx.expectAtLeast("rejected", 1000);
    ctx.section("controller", 200, 4000, [&](Case& c) {
        Rng& g = c.rng;
        ctm::math::OdeStepSizeSimpleController<VD> ctl;
        StepRule r;
        for (int round = 0; round < 4; ++round) {
            if (round || g.chance(.7)) {
                r = g.chance(.2) ? StepRule() : randomRule(g);
                ctm::OptionalParameters::Parameters p;
                p["tolerance"] = r.tol; p["insurance"] = r.ins; p["inc_min_factor"] = r.incMin; p["inc_max_factor"] = r.incMax; p["dec_max_factor"] = r.decMax; p["max_threshold"] = r.maxH;
                ctl.setParameters(p);
                auto q = ctl.parameters();
                for (auto& k : p) c.require(q.count(k.first) && q[k.first].value<std::string>() == k.second.value<std::string>(), "parameters", k.first + " is not kept");
            }
            c.desc << "; " << r.text();
            double h = g.logu(1e-6, 1);
            for (int k = 0; k < 700; ++k) {
                double order = g.i(0, 9);
                double err;
                switch (g.i(0, 9)) {
                    case 0: err = 0; break;
                    case 1: err = r.tol; break;
                    case 2: err = r.tol * (1 + g.uni(-1, 1) * g.logu(1e-12, .5)); break;
                    case 3: err = g.chance(.5) ? INFINITY : 1e300; break;
                    case 4: err = NAN; break;
                    case 5: err = g.logu(1e-300, 1e-30); break;
                    case 6: { double f = g.chance(.5) ? r.incMin : r.incMax; if (f <= 0) f = 3; err = r.tol / std::pow(f / r.ins * (1 + g.uni(-1, 1) * g.logu(1e-8, .1)), order + 1); break; }
                    case 7: { double f = r.decMax > 0 ? r.decMax : .05; err = r.tol / std::pow(f / r.ins * (1 + g.uni(-1, 1) * g.logu(1e-8, .1)), order + 1); break; }
                    default: err = r.tol * g.logu(1e-6, 1e6);
                }
                if (g.chance(.5)) h = r.maxH > 0 && g.chance(.5) ? r.maxH * (g.chance(.3) ? 1 : g.uni(.4, 1.3)) : g.logu(1e-6, 1);
                auto res = ctl.controlStepSize(h, err, order);
                std::string bad = r.judge(h, err, order, res.acceptStep, res.changeStepSize, res.newStepSize);
                if (!bad.empty()) c.die("rule", bad + " " + r.text());
                if (std::isfinite(h) && !(res.newStepSize >= 0 && (res.newStepSize > 0 || std::isnan(err) || err > 1e280) && std::isfinite(res.newStepSize)) && !(r.incMax == 0 && err < 1e-20)) c.die("sane", "new step size " + num(res.newStepSize));
                c.count(!res.acceptStep ? "rejected" : res.changeStepSize ? "accepted increased" : "accepted unchanged");
                c.nontrivialHash(mix(uint64_t(res.acceptStep) * 2 + res.changeStepSize) ^ mix(uint64_t(int(std::log10(err + 1e-300)) + 1000) * 131 + uint64_t(order)) ^ mix(uint64_t(int(std::log10(r.tol)) + 50) * 100 + uint64_t(10 * r.ins)));
                if (res.newStepSize > 1e-7 && res.newStepSize < 1e3) h = res.newStepSize;
            }
        }
    });
    ctx.section("norm", 2000, 20000, [&](Case& c) {
        Rng& g = c.rng;
        ctm::math::ErrorInfNormCalculator<VD> e;
        unsigned n = g.u(1, 12);
        V x(n);
        for (unsigned i = 0; i < n; ++i) x[i] = g.sgn() * g.logu(1e-12, 1e12);
        if (g.chance(.2)) x[g.u(0, n - 1)] = NAN;
        if (g.chance(.1)) x[g.u(0, n - 1)] = g.sgn() * INFINITY;
        DV d(x.begin(), x.end());
        c.desc << list(d);
        int seen = 0; double told = 0;
        e.errorNormCalculatorObservers.add([&](const V& v, double r) { ++seen; told = r; });
        double r = e.errorNorm(x);
        c.require(same(r, maxAbs(d)), "value", "norm " + num(r) + " instead of " + num(maxAbs(d)));
        c.require(seen == 1 && same(told, r), "observer", "the observers are not told the norm once");
        c.nontrivialHash(mix(n) ^ mix(uint64_t(d[0] * 1e6)));
    });
}
VF_MAIN(run)
