// C26: solvers, configurations and factorizations used by different threads at the same time do not notice each other.
#include "jobs.h"
using namespace vf;

static void compare(Case& c, const Job& j, const Trace& alone, const Trace& par, const std::string& how) {
    for (size_t k = 0; k < std::min(alone.items.size(), par.items.size()); ++k)
        if (alone.items[k] != par.items[k]) c.die(std::string(jobNames[j.kind]) + "/" + alone.items[k].first, "job " + std::to_string(j.id) + " (" + jobNames[j.kind] + " " + std::to_string(j.seed) + "), item " + std::to_string(k) + ": " + how + " differs from alone");
    if (alone.items.size() != par.items.size()) c.die(std::string(jobNames[j.kind]) + "/length", how + " differs from alone");
    c.count("items compared", long(alone.items.size()));
}
// Starts all threads at once
static void together(unsigned n, const std::function<void(unsigned)>& body) {
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts; std::vector<std::exception_ptr> ex(n);
    for (unsigned k = 0; k < n; ++k) ts.emplace_back([&, k] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        try { body(k); } catch (...) { ex[k] = std::current_exception(); }
    });
    for (auto& t : ts) t.join();
    for (auto& e : ex) if (e) std::rethrow_exception(e);
}
static void countOrder(Case& c) {
    unsigned n = std::min<unsigned>(turn.load(), sizeof order), sw = 0; uint64_t h = 7;
    for (unsigned k = 0; k < n; ++k) { h = mix(h ^ order[k].load()); if (k && order[k] != order[k - 1]) ++sw; }
    c.count("progress events", n); c.count("changes of thread in progress", sw);
    if (sw) c.nontrivialHash(h);
}

// Storage cells nobody has used before
template<int K> struct CellTag {};
struct Cell { std::atomic<long> n{0}; double pad[3] = {0, 0, 0}; Cell(); };
struct Inner { std::atomic<long> made{0}; };
Cell::Cell() { ctm::PerTypeStorage::value<Cell, Inner>().made++; std::this_thread::yield(); }
typedef Cell* (*CellGetter)();
template<int K> static Cell* cellAt() { return &ctm::PerTypeStorage::value<CellTag<K>, Cell>(); }
template<int K> struct FillCells { static void fill(std::vector<CellGetter>& v) { FillCells<K - 1>::fill(v); v.push_back(&cellAt<K>); } };
template<> struct FillCells<-1> { static void fill(std::vector<CellGetter>&) {} };

static void run(Ctx& ctx) {
    registerAll();
    { static ThreadRhs::Registrator r("vft"); (void)r; }
    // the C++ library's own cache of character conversions (used by std::regex) is filled without synchronisation; it is not what is judged
    { std::locale l; auto& f = std::use_facet<std::ctype<char>>(l); for (int k = 0; k < 256; ++k) { f.narrow(char(k), 0); f.narrow(char(k), '?'); f.widen(char(k)); } }
    ctx.rule("2 to 5 threads run random jobs at the same time (solvers on hybrid systems, configured solutions with output files, factorizations and vectors, parameters, factories, models), each with its own objects, with injected yields and delays, "
             "first in parallel and then alone; a job must give the same bits either way, and ThreadSanitizer sees no race; non-trivial: the threads' progress interleaves; distinct by the observed interleaving");
    ctx.expectAtLeast("jobs compared", 1000);
    ctx.expectAtLeast("changes of thread in progress", 2000);

    // components whose type is known to no factory, interfaces without any implementation, first use in threads
    ctx.section("first-use", 8, 64, [&](Case& c) {
        Rng& g = c.rng; unsigned n = g.u(2, 5);
        uint64_t seed = g.u64();
        turn = 0;
        std::vector<Trace> tr(n);
        std::vector<Job> js(n);
        int kind = g.i(0, jobKinds - 1);
        for (unsigned k = 0; k < n; ++k) { js[k].kind = kind; js[k].seed = seed; js[k].id = k; js[k].file = c.outDir() + "/f" + std::to_string(k); }
        c.desc << n << " threads, the same " << jobNames[kind] << " job " << seed;
        together(n, [&](unsigned k) { doJob(js[k], tr[k]); });
        countOrder(c);
        Trace alone; Job a = js[0]; a.threaded = false; doJob(a, alone);
        for (unsigned k = 0; k < n; ++k) { compare(c, js[k], alone, tr[k], "in parallel with the same job"); c.count("jobs compared"); }
    });

    ctx.expectAtLeast("new cells", 500);
    ctx.section("cells", 96, 96, [&](Case& c) {
        static const std::vector<CellGetter> getters = [] { std::vector<CellGetter> v; FillCells<249>::fill(v); FillCells<249>::fill(v); v.resize(250); return v; }();
        static unsigned next = 0;
        Rng& g = c.rng; unsigned n = g.u(2, 5), m = g.u(4, 10);
        std::vector<unsigned> ids; for (unsigned k = 0; k < m; ++k) ids.push_back(next++ % unsigned(getters.size()));
        bool fresh = next <= getters.size();
        std::vector<std::vector<unsigned>> orders(n); std::vector<std::vector<Cell*>> got(n, std::vector<Cell*>(m, nullptr));
        for (auto& o : orders) o = g.chance(.5) ? g.perm(m) : std::vector<unsigned>(); 
        for (auto& o : orders) if (o.empty()) for (unsigned k = 0; k < m; ++k) o.push_back(k);
        std::vector<long> before(m, 0); if (!fresh) for (unsigned k = 0; k < m; ++k) before[k] = getters[ids[k]]()->n;
        c.desc << n << " threads, " << m << " cells from " << ids[0];
        together(n, [&](unsigned t) { for (unsigned k : orders[t]) { Cell* q = getters[ids[k]](); got[t][k] = q; q->n++; } });
        for (unsigned k = 0; k < m; ++k) {
            Cell* q = getters[ids[k]]();
            for (unsigned t = 0; t < n; ++t) if (got[t][k] != q) c.die("cell", "thread " + std::to_string(t) + " got another cell " + std::to_string(ids[k]));
            if (q->n != before[k] + long(n)) c.die("cell-value", "cell " + std::to_string(ids[k]) + " holds " + std::to_string(q->n.load()) + " after " + std::to_string(n) + " increments of " + std::to_string(before[k]));
            for (unsigned j = 0; j < k; ++j) if (ids[j] != ids[k] && getters[ids[j]]() == q) c.die("cell-shared", "two types share a cell");
            if (fresh) c.count("new cells");
        }
        c.nontrivial(c.desc.str());
    });

    ctx.section("jobs", 700, 12000, [&](Case& c) {
        Rng& g = c.rng; unsigned n = g.u(2, 5);
        std::vector<std::vector<Job>> js(n); std::vector<std::vector<Trace>> tr(n);
        int common = g.chance(.4) ? g.i(0, jobKinds - 1) : -1;
        for (unsigned k = 0; k < n; ++k) {
            c.desc << "; thread " << k << ":";
            for (int r = 0, m = g.i(1, 4); r < m; ++r) {
                Job j; j.kind = common >= 0 ? common : g.chance(.5) ? 0 : g.i(1, jobKinds - 1); j.seed = g.u64(); j.id = k; j.file = c.outDir() + "/t" + std::to_string(k);
                c.desc << " " << jobNames[j.kind] << " " << j.seed;
                js[k].push_back(j);
            }
            tr[k].resize(js[k].size());
        }
        turn = 0;
        together(n, [&](unsigned k) { for (size_t r = 0; r < js[k].size(); ++r) doJob(js[k][r], tr[k][r]); });
        countOrder(c);
        for (unsigned k = 0; k < n; ++k) for (size_t r = 0; r < js[k].size(); ++r) {
            Trace alone; Job a = js[k][r]; a.threaded = false; doJob(a, alone);
            compare(c, js[k][r], alone, tr[k][r], "in parallel");
            c.count("jobs compared"); c.count(std::string("jobs: ") + jobNames[js[k][r].kind]);
        }
    });

    // one solver handed from thread to thread (properly synchronised), while others are busy
    ctx.section("handover", 250, 4000, [&](Case& c) {
        Rng& g = c.rng; unsigned n = g.u(2, 4); int rounds = g.i(2, 4);
        std::vector<Job> js(n); std::vector<Trace> tr(n); std::vector<std::unique_ptr<SolverJob>> ws(n);
        for (unsigned k = 0; k < n; ++k) { js[k].kind = 0; js[k].seed = g.u64(); js[k].id = k; c.desc << " " << js[k].seed; ws[k].reset(new SolverJob(js[k])); }
        turn = 0;
        auto perm = g.perm(n);
        together(n, [&](unsigned k) { ws[perm[k]]->make(); });
        perm = g.perm(n);
        together(n, [&](unsigned k) { ws[perm[k]]->start(); });
        for (int r = 0; r < rounds; ++r) { perm = g.perm(n); together(n, [&](unsigned k) { ws[perm[k]]->steps(tr[perm[k]], 2); }); }
        countOrder(c);
        for (unsigned k = 0; k < n; ++k) {
            Job a = js[k]; a.threaded = false;
            SolverJob w(a); Trace alone; w.make(); w.start();
            for (int r = 0; r < rounds; ++r) w.steps(alone, 2);
            compare(c, js[k], alone, tr[k], "handed from thread to thread"); c.count("jobs compared"); c.count("handed over");
        }
    });
}
VF_MAIN(run)
