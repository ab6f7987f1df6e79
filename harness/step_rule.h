// The step size rule of the "simple" controller, stated independently.
#pragma once
#include "common.h"
namespace vf {
struct StepRule {
    double tol = 1e-6, ins = .8, incMin = 1.3, incMax = 2, decMax = .1, maxH = 0;
    std::string text() const { std::ostringstream s; s << std::setprecision(17) << "tol=" << tol << " ins=" << ins << " inc_min=" << incMin << " inc_max=" << incMax << " dec_max=" << decMax << " max=" << maxH; return s.str(); }
    // Judges a decision; order: the order of the error estimate. Returns an empty string if it is right.
    // Near a threshold (relative distance below 1e-9) both sides are allowed.
    std::string judge(double h, double err, double order, bool accepted, bool changed, double hNew) const {
        const double E = 1e-9;
        auto hs = [&]() { return " (h=" + num(h) + " err=" + num(err) + " order=" + num(order) + ": " + (accepted ? "accepted" : "rejected") + (changed ? ", new h=" + num(hNew) : "") + ")"; };
        if (!changed && hNew != h) return "the step size changes without being reported as changed" + hs();
        if (err == 0) return accepted && !changed ? "" : "a step without error must be accepted with the step size unchanged" + hs();
        double q = std::isnan(err) ? 0 : std::pow(tol / err, 1 / (order + 1));     // the factor that would bring the error to the tolerance
        if (q < 1 - 1.1e-5 && accepted) return "a step with an error above the tolerance is accepted" + hs();
        if (q > 1 + E && !accepted) return "a step with an error below the tolerance is rejected" + hs();
        if (accepted) {
            double f = q * ins;
            if (!changed) {
                // right if the increase would be small, or the limit forbids it
                if (q <= 1 + E) return "";
                double g = f;
                if (maxH > 0 && f * h > maxH) g = maxH / h;
                if (g < 1 + E && maxH > 0 && f * h > maxH * (1 - E)) return "";
                if (incMin > 0 && g < incMin * (1 + E)) return "";
                return "the step size must be increased" + hs();
            }
            double g = f;
            if (maxH > 0 && f * h > maxH) { g = maxH / h; if (g < 1 - E) return "a step size above the limit must be left alone" + hs(); }
            if (incMin > 0 && g < incMin * (1 - E)) return "an increase too small to be worth it is made" + hs();
            if (incMax > 0) g = std::min(g, incMax);
            if (!close(hNew, h * g, 1e-9, 0)) return "the new step size must be " + num(h * g) + hs();
            return "";
        }
        if (!changed) return "a rejected step must change the step size" + hs();
        double f = q * ins;
        if (decMax > 0) f = std::max(f, decMax);
        if (!close(hNew, h * f, 1e-9, 0)) return "the new step size must be " + num(h * f) + hs();
        return "";
    }
};
inline StepRule randomRule(Rng& g) {
    StepRule r;
    r.tol = g.logu(1e-10, 1e-2);
    if (g.chance(.5)) r.ins = g.uni(.3, .99);
    if (g.chance(.4)) r.incMin = g.chance(.3) ? 0 : g.uni(1.01, 2);
    if (g.chance(.4)) r.incMax = g.chance(.3) ? 0 : g.uni(1.5, 6);
    if (g.chance(.4)) r.decMax = g.chance(.3) ? 0 : g.uni(.02, .6);
    if (g.chance(.4)) r.maxH = g.logu(1e-3, .5);
    return r;
}
} // namespace vf
