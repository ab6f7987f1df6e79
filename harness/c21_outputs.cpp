// C21: a configured solution stops where it should and its reports are the run that took place.
#include "cfg_common.h"
#include <chrono>
#include <thread>
using namespace vf;

static bool numIs(const std::string& s, double v, double rel) {
    char* e = nullptr;
    double x = std::strtod(s.c_str(), &e);
    if (s.empty() || *e) return false;
    return close(x, v, rel, 0);
}
// is a step reported at time t due, having reported at `last`? 1 yes, -1 no, 0 too close to call
static int due(double t, double last, double every) {
    if (every <= 0 || last == -INFINITY) return 1;
    double d = (t - last) / every - 1, e = 1e-9 * (1 + (std::fabs(t) + std::fabs(last)) / every);
    return d > e ? 1 : d < -e ? -1 : 0;
}
struct Out { std::string type, file; unsigned half = 5, maxSteps = 10; bool con() const { return file.empty(); } };

static void checkSolution(Case& c, const std::string& text, const Out& o, const RunRec& r, unsigned n2, unsigned n1, double t0, const DV& x0, double every) {
    double rel = o.con() ? 6e-6 : 2e-15;
    std::vector<unsigned> idx; std::string head = "time";
    auto group = [&](unsigned from, unsigned n, const char* name) {
        for (unsigned i = 0; i < n; ++i) if (n <= 2 * o.half || i < o.half || i >= n - o.half) { idx.push_back(from + i); head += std::string("\t") + name + std::to_string(i); }
    };
    if (n2 == 0) group(0, n1, "x"); else { group(0, n2, "x"); group(n2, n2, "v"); group(2 * n2, n1, "z"); }
    auto lines = split(text, '\n');
    if (lines.empty() || lines[0] != head) c.die("solution/header", "header is '" + (lines.empty() ? "" : lines[0]) + "', expected '" + head + "'");
    auto row = [&](size_t k, double t, const DV& x) -> bool {
        auto v = split(lines[k], '\t');
        if (v.size() != idx.size() + 1 || !numIs(v[0], t, rel)) return false;
        for (size_t i = 0; i < idx.size(); ++i) if (!numIs(v[i + 1], x[idx[i]], rel)) return false;
        return true;
    };
    if (lines.size() < 2 || !row(1, t0, x0)) c.die("solution/initial", "the first row is not the initial state");
    size_t k = 2; double last = -INFINITY;
    for (auto& s : r.steps) {
        if (!s.posted || !s.accepted) continue;
        int d = due(s.t1, last, every);
        bool is = k < lines.size() && row(k, s.t1, s.x1);
        if (d > 0 && !is) c.die("solution/missing", "row " + std::to_string(k) + " is '" + (k < lines.size() ? lines[k] : "absent") + "', expected t=" + num(s.t1) + " " + list(s.x1));
        if (d >= 0 && is) { ++k; last = s.t1; c.count("solution rows"); }
    }
    if (k != lines.size()) c.die("solution/extra", "row '" + lines[k] + "' belongs to no step that is due");
}
static void checkColumns(Case& c, const std::string& text, const Out& o, const RunRec& r, unsigned n, double t0, const DV& x0, double every) {
    double rel = o.con() ? 6e-6 : 2e-15;
    auto lines = split(text, '\n');
    if (lines.size() != n + 2) c.die("columns/size", std::to_string(lines.size()) + " lines for " + std::to_string(n) + " variables");
    std::vector<std::vector<std::string>> m;
    for (auto& l : lines) m.push_back(split(l, '\t'));
    size_t cols = m[0].size() - 2;
    for (auto& l : m) if (l.size() != cols + 2) c.die("columns/shape", "rows of different lengths");
    if (m[0][0] != "index" || m[0][1] != "name" || m[1][0] != "-1" || m[1][1] != "time") c.die("columns/header", lines[0]);
    std::string width = std::to_string(n);
    for (unsigned i = 0; i < n; ++i) {
        std::string s = std::to_string(i); while (s.size() < width.size()) s = "0" + s;
        if (m[i + 2][0] != std::to_string(i) || m[i + 2][1] != "UNNAMED_" + s) c.die("columns/name", "row " + std::to_string(i) + " is called " + m[i + 2][0] + " " + m[i + 2][1]);
    }
    for (size_t k = 0; k < cols; ++k) if (m[0][k + 2] != "n" + std::to_string(k)) c.die("columns/header", m[0][k + 2]);
    auto col = [&](size_t k, double t, const DV& x) -> bool {
        if (!numIs(m[1][k + 2], t, rel)) return false;
        for (unsigned i = 0; i < n; ++i) if (!numIs(m[i + 2][k + 2], x[i], rel)) return false;
        return true;
    };
    size_t k = 0; double last = t0;
    if (o.maxSteps > 0) { if (cols < 1 || !col(0, t0, x0)) c.die("columns/initial", "the first column is not the initial state"); k = 1; }
    for (auto& s : r.steps) {
        if (!s.posted || !s.accepted || k >= o.maxSteps) continue;
        int d = due(s.t1, last, every);
        bool is = k < cols && col(k, s.t1, s.x1);
        if (d > 0 && !is) c.die("columns/missing", "column " + std::to_string(k) + " of " + std::to_string(cols) + " is not t=" + num(s.t1));
        if (d >= 0 && is) { ++k; last = s.t1; c.count("solution columns"); }
    }
    if (k != cols) c.die("columns/extra", "column " + std::to_string(k) + " belongs to no step that is due");
}
static void checkGeneral(Case& c, const std::string& text, const Out& o, const RunRec& r, double every) {
    double rel = o.con() ? 6e-6 : 2e-15;
    std::vector<std::string> lines; long newton = 0; size_t before = 0;
    for (auto& l : split(text, '\n')) {
        if (l.substr(0, 12) == "  Newton it.") {
            if (newton < r.iterations) {
                auto& it = r.its[size_t(newton)];
                std::string a = "  Newton it. " + std::to_string(it.number + 1) + ", alpha=", z = ", " + it.status;
                if (l.size() < a.size() + z.size() || l.compare(0, a.size(), a) || l.compare(l.size() - z.size(), z.size(), z) || !numIs(l.substr(a.size(), l.size() - a.size() - z.size()), it.alpha, rel))
                    c.die("general/iteration", "'" + l + "' instead of iteration " + std::to_string(it.number) + " alpha=" + num(it.alpha) + " " + it.status);
                if (before >= it.attempt) c.die("general/iteration", "an iteration of attempt " + std::to_string(it.attempt) + " is listed after step " + std::to_string(before));
                c.count("iteration lines");
            }
            ++newton;
        } else {
            lines.push_back(l);
            before = size_t(std::strtoul(l.c_str() + std::min<size_t>(5, l.size()), nullptr, 10));
            if (newton < r.iterations && before >= r.its[size_t(newton)].attempt) c.die("general/iteration", "step " + std::to_string(before) + " is listed before the iterations of attempt " + std::to_string(r.its[size_t(newton)].attempt));
        }
    }
    if (newton != r.iterations) c.die("general/iterations", std::to_string(newton) + " iterations are listed, " + std::to_string(r.iterations) + " were made");
    size_t k = 0; double last = -INFINITY; unsigned n = 0;
    for (auto& s : r.steps) {
        if (!s.posted) continue;
        ++n;
        std::string tail = s.accepted ? ", accepted" : ", rejected";
        if (s.changed) tail += ", step size changed";
        if (s.truncated) tail += s.izf == ~0u ? ", step truncated" : ", step truncated due to function-" + std::to_string(s.izf) + (s.trans > 0 ? " +" : " -");
        auto is = [&]() -> bool {
            if (k >= lines.size()) return false;
            const std::string& l = lines[k];
            std::string a = "step " + std::to_string(n) + ", time = ";
            size_t ph = l.find(", h = "), pe = l.find(", err = ");
            if (l.compare(0, a.size(), a) || ph == std::string::npos || pe == std::string::npos) return false;
            size_t pt = l.find(", ", pe + 2);
            if (pt == std::string::npos || l.substr(pt) != tail) return false;
            return numIs(l.substr(a.size(), ph - a.size()), s.t1, rel) && numIs(l.substr(ph + 6, pe - ph - 6), s.h, rel) && numIs(l.substr(pe + 8, pt - pe - 8), s.err, rel);
        };
        int d = s.truncated ? 1 : due(s.t1, last, every);
        bool ok = is();
        if (d > 0 && !ok) c.die("general/missing", "line '" + (k < lines.size() ? lines[k] : "absent") + "' instead of step " + std::to_string(n) + " t=" + num(s.t1) + " h=" + num(s.h) + " err=" + num(s.err) + tail);
        if (d >= 0 && ok) { ++k; last = s.t1; c.count("step lines"); if (s.truncated && s.izf == ~0u) c.count("truncated by the system itself"); }
    }
    if (k != lines.size()) c.die("general/extra", "line '" + lines[k] + "' belongs to no attempt that is due");
}
static void checkStats(Case& c, const std::string& text, const Out& o, const RunRec& r, double passed) {
    double rel = o.con() ? 6e-6 : 1e-13;
    long n = 0, rej = 0, chg = 0, trunc = 0; double sum = 0;
    for (auto& s : r.steps) if (s.posted) { ++n; if (!s.accepted) ++rej; if (s.changed) ++chg; if (s.truncated) ++trunc; if (s.accepted) sum += s.h; }
    auto lines = split(text, '\n');
    auto value = [&](const std::string& key) -> std::string {
        int hits = 0; std::string v;
        for (auto& l : lines) if (l.compare(0, key.size() + 2, key + ": ") == 0) { ++hits; v = l.substr(key.size() + 2); }
        if (hits != 1) c.die("stats/line", "'" + key + "' appears " + std::to_string(hits) + " times");
        return v;
    };
    auto exact = [&](const std::string& key, const std::string& want) { std::string v = value(key); if (v != want) c.die("stats/" + key, "reported " + v + ", counted " + want); };
    auto share = [&](const std::string& key, long k) {
        std::string v = value(key); size_t p = v.find(" (");
        if (p == std::string::npos || v.substr(0, p) != std::to_string(k)) c.die("stats/" + key, "reported " + v + ", counted " + std::to_string(k));
        if (n) { std::string q = v.substr(p + 2); size_t e = q.find("%)"); if (e == std::string::npos || !numIs(q.substr(0, e), 100. * double(k) / double(n), rel)) c.die("stats/" + key, "reported " + v); }
    };
    exact("Number of ODE RHS evaluations to refresh Jacobian", std::to_string(r.evalsJ));
    exact("Total number of ODE RHS evaluations", std::to_string(r.evals) + " = " + std::to_string(r.evals - r.evalsJ) + " + " + std::to_string(r.evalsJ));
    exact("Total steps", std::to_string(n));
    share("Rejected steps", rej); share("Step changes", chg); share("Truncated steps", trunc);
    if (n > rej && !numIs(value("Average step size"), sum / double(n - rej), rel)) c.die("stats/average", "reported " + value("Average step size") + ", counted " + num(sum / double(n - rej)));
    auto timing = [&](const std::string& key, long k) {
        if (!k) return;
        std::string v = value(key), w = ", count = " + std::to_string(k);
        if (v.size() < w.size() || v.substr(v.size() - w.size()) != w) c.die("stats/" + key, v + " instead of count " + std::to_string(k));
    };
    timing("TIMING: Jacobian", r.refreshes); timing("TIMING: ODE RHS", r.evals);
    std::string total = value("Total time");
    if (total.size() > 5 && total.substr(total.size() - 5) == " msec") {
        std::string sp = value("Speed (real time / CPU time)");
        double tv = std::strtod(total.c_str(), nullptr);
        if (!numIs(sp, passed * 1000 / tv, o.con() ? 2e-5 : 1e-4)) c.die("stats/speed", "reported " + sp + " for " + num(passed) + " in " + total);
        c.count("speeds");
    }
    c.count("statistics");
}

static void run(Ctx& ctx) {
    registerAll(); registerCfgRhs();
    ctx.rule("configured solutions of random hybrid systems by every solver kind with random outputs in the three output slots, output timing, limits, duration, start, and injected failures; the files and the console text "
             "are compared with an independent record made through the observers, the end state with a solver driven by hand; non-trivial: at least 3 steps and 2 outputs; distinct by configuration and problem");
    for (auto k : {"solution rows", "solution columns", "step lines"}) ctx.expectAtLeast(k, 1000);
    ctx.expectAtLeast("statistics", 100); ctx.expectAtLeast("failed solutions", 30); ctx.expectAtLeast("hand driven steps", 1000); ctx.expectAtLeast("refused files", 20); ctx.expectAtLeast("exact ends", 30); ctx.expectAtLeast("truncated by the system itself", 30); ctx.expectAtLeast("speeds", 5); ctx.expectAtLeast("iteration lines", 100);

    ctx.section("solve", 1100, 16000, [&](Case& c) {
        Rng& g = c.rng;
        SolverSpec sp = randomSpec(g);
        unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3);
        if (g.chance(.15)) { n2 = g.u(3, 7); n1 = g.u(0, 14); }
        unsigned n = 2 * n2 + n1;
        double t0 = g.chance(.5) ? 0 : g.uni(-3, 3), h = g.logu(2e-3, .05), T = g.chance(.1) ? g.uni(-1, 0) : h * g.uni(.5, 30), every = g.chance(.4) ? 0 : h * g.logu(.3, 10);
        DV x0 = rndv(g, n, 1);
        sp.p["h_init"] = h;
        c.desc << sp.text << " h=" << h << " time=" << T << " output_timing=" << every;
        bool exact = !sp.adaptive && sp.id != "extrapolator" && g.chance(.25);      // the steps hit the end exactly
        if (exact) { h = std::ldexp(1, -g.i(5, 8)); t0 = h * g.i(-40, 40); T = h * g.i(1, 25); sp.p["h_init"] = h; c.desc << "; exactly h=" << h << " time=" << T; }
        auto hyb = randomHybrid(g, n2, n1, exact ? 0 : g.u(0, 2), t0, x0, c.desc);
        CfgRhs::current() = hyb;
        std::shared_ptr<CfgRhs> base = std::make_shared<CfgRhs>();
        if (base->zf.empty() && !exact && g.chance(.5)) { base->barrier0 = t0 + h * g.uni(.2, 4); base->period = h * g.uni(.3, 5); c.desc << " ending steps at " << base->barrier0 << " + k*" << base->period; }
        bool slow = g.chance(.025);
        for (auto& z : base->zf) z.flags |= Rhs::BothDirections;    // (a switch must take a function watched in one direction off its surface, or the same event comes again and again)
        base->budget = 60000;
        if (n > 8) for (auto& t : base->terms) { t.a *= .2; t.q *= .2; }
        int failure = g.chance(.2) ? g.i(1, 200) : 0;
        if (failure) { base->faultAt = failure; c.desc << "; evaluation " << failure << " fails"; }
        CfgRhs::current() = base;
        Config cfg;
        Params p;
        p["rhs"] = "vf"; p["solver"] = PValue(sp.id, sp.p); p["time"] = T; p["output_timing"] = every;
        std::vector<Out> outs; int used = 0; bool conUsed = false, refuse = g.chance(.08);
        for (auto slot : {"output_stats", "output_con", "output_file"}) if (g.chance(.75)) {
            Out o; o.type = g.pick(std::vector<std::string>{"stats_full", "con_general", "con_solution", "con_solution_columnwise"});
            Params q;
            if (g.chance(.15) && !conUsed) conUsed = true; else o.file = c.outDir() + "/out" + std::to_string(used);
            if (refuse && used == 1) o.file = c.outDir() + "/no-such-directory/out";
            ++used;
            if (!o.file.empty()) std::remove(o.file.c_str());
            q["file_name"] = o.file;
            if (o.type == "con_solution" && g.chance(.6)) q["size_half_lim"] = o.half = g.u(0, 4);
            if (o.type == "con_solution_columnwise" && g.chance(.6)) q["max_steps"] = o.maxSteps = g.u(0, 25);
            p[slot] = PValue(o.type, q);
            c.desc << "; " << slot << "=" << o.type << textOf(q);
            outs.push_back(o);
        }
        if (refuse && used < 2) refuse = false;
        bool spec = g.chance(.5);
        if (spec) { Params q; q["size"] = int(n); q["time"] = t0; for (unsigned i = 0; i < n; ++i) q["x" + std::to_string(i)] = x0[i]; p["init_state"] = PValue("specified", q); }
        setAll(cfg, p);
        Components sc = spec ? cfg.apply(std::set<unsigned>(), t0 + 1, V(0)) : cfg.apply(std::set<unsigned>(), t0, toV(x0));
        auto s = sc.solver();
        if (!s || s->odeRhs() != sc.odeRhs() || s != cfg.parameterProvider()->solver()) c.die("components", "the components are not those of the configuration");
        DV xs = fromV(s->initialState());
        if (s->initialTime() != t0 || !(maxDiff(xs, x0) <= 1e-14 * (1 + maxAbs(x0)))) c.die("initial-state", "t=" + num(s->initialTime()) + " " + list(xs) + " instead of t=" + num(t0) + " " + list(x0));
        auto f = std::dynamic_pointer_cast<CfgRhs>(sc.odeRhs());
        f->faultAt = failure ? f->calls + failure : -1;
        int sleeper = -1;
        if (slow) { sleeper = f->odeRhsPreObservers.add([&slow](double, const V&, const Rhs*) { if (slow) { slow = false; std::this_thread::sleep_for(std::chrono::milliseconds(125)); } }); c.desc << "; slow"; }
        RunRec rec(s);
        std::ostringstream con; std::streambuf* old = std::cout.rdbuf(con.rdbuf());
        std::string err; bool fault = false;
        try { ctm::math::solveOde(&cfg, &sc); }
        catch (const Fault&) { fault = true; err = "fault"; }
        catch (const Runaway&) { std::cout.rdbuf(old); c.count("abandoned"); return; }
        catch (const std::exception& e) { err = e.what(); }
        std::cout.rdbuf(old);
        if (sleeper != -1) f->odeRhsPreObservers.remove(sleeper);
        std::vector<std::string> texts;
        auto text = [&](const Out& o) { return o.con() ? con.str() : slurp(o.file); };
        if (refuse) {
            if (err.empty()) c.die("refused-file", "an output file that cannot be opened was not reported");
            if (!rec.steps.empty()) c.die("refused-file", "steps were made");
            c.count("refused files");
            outs.resize(1);             // the output prepared before it is finished
        }
        if (!refuse) {
        // where it stopped
        double end = t0 + T; long acc = 0; double prev = t0;
        for (size_t k = 0; k < rec.steps.size(); ++k) { auto& r = rec.steps[k]; if (!r.posted || !r.accepted) continue; if (acc && prev >= end) c.die("end", "a step was made after the end of the interval at " + num(end)); prev = r.t1; ++acc; }
        if (err.empty() && !(prev >= end)) c.die("end", "stopped at " + num(prev) + ", the end is " + num(end));
        if (err.empty() && !acc) c.die("end", "no step");
        if (err.empty() && prev == end) c.count("exact ends");
        if (!err.empty()) { c.count("failed solutions"); if (!failure && err == "fault") c.die("failure", "?"); }
        if (failure && f->calls >= f->faultAt && !fault && err.empty()) c.die("failure", "the failure of the right hand side was not reported");
        // by hand
        CfgRhs::current()->faultAt = -1;
        auto q = newSolver(sp.id); q->setParameters(sp.p);
        auto fq = std::make_shared<CfgRhs>(); q->setOdeRhs(fq); q->setInitialState(t0, toV(x0));
        for (long k = 0; k < acc; ++k) { q->doStep(); c.count("hand driven steps"); }
        if (err.empty() && (q->initialTime() != s->initialTime() || maxDiff(fromV(q->initialState()), fromV(s->initialState())) > 1e-13 * (1 + maxAbs(fromV(s->initialState()))))) c.die("end-state", "solveOde ends at t=" + num(s->initialTime()) + " " + list(fromV(s->initialState())) + ", the same steps by hand at t=" + num(q->initialTime()) + " " + list(fromV(q->initialState())));
        }
        for (auto& o : outs) {
            std::string t = text(o); texts.push_back(t);
            if (o.type == "con_solution") checkSolution(c, t, o, rec, n2, n1, t0, xs, every);
            else if (o.type == "con_solution_columnwise") checkColumns(c, t, o, rec, n, t0, xs, every);
            else if (o.type == "con_general") checkGeneral(c, t, o, rec, every);
            else checkStats(c, t, o, rec, s->initialTime() - t0);
        }
        if (rec.steps.size() >= 3 && outs.size() >= 2) c.nontrivial(c.desc.str());
        // the outputs are closed: further steps do not appear in them
        f->faultAt = -1;
        con.str(""); old = std::cout.rdbuf(con.rdbuf());
        try { s->doStep(); s->doStep(); } catch (const std::exception&) {}
        std::cout.rdbuf(old);
        if (!con.str().empty()) c.die("closed", "a step after the solution is written: " + con.str());
        for (size_t k = 0; k < outs.size(); ++k) if (!outs[k].con() && slurp(outs[k].file) != texts[k]) c.die("closed", "a step after the solution is written to " + outs[k].type);
    });
}
VF_MAIN(run)
