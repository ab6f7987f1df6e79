// C25: whatever the library is used for, it reads no memory it has not set, touches none it does not own, and gives everything back.
#include "jobs.h"
#include <valgrind/memcheck.h>
#include <dirent.h>
#include <malloc.h>
using namespace vf;

// live allocations made by operator new (not under memcheck, which has its own)
static std::atomic<long> live{0}, liveBytes{0};
#ifndef VF_PLAIN
static void* take(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live.fetch_add(1, std::memory_order_relaxed); liveBytes.fetch_add(long(malloc_usable_size(p)), std::memory_order_relaxed); return p; }
static void give(void* p) { if (!p) return; live.fetch_sub(1, std::memory_order_relaxed); liveBytes.fetch_sub(long(malloc_usable_size(p)), std::memory_order_relaxed); std::free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
#endif

static int openFiles() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}
static void undefined(Case& c, const Trace& t, const char* kind) {
    for (auto& i : t.items) if (VALGRIND_CHECK_MEM_IS_DEFINED(&i.second, sizeof i.second)) c.die(std::string("undefined/") + kind + "/" + i.first, "the value depends on memory that has not been set");
    if (RUNNING_ON_VALGRIND) c.count("values known to be defined", long(t.items.size()));
}

static void run(Ctx& ctx) {
    registerAll();
    { static ThreadRhs::Registrator r("vft"); (void)r; }
    ctx.rule("random jobs over the whole library (solvers on hybrid systems, failures and reuse, configured solutions with output files, Newton solutions, Jacobians, factorizations, error estimates, parameters, help, factories, models), each made twice or more; "
             "AddressSanitizer and UBSan, or memcheck, watch every access; every value produced must be defined; the repeated job gives the same bits (whatever fresh memory holds) and leaves no allocation and no open file behind; "
             "non-trivial: the job produced at least 5 values; distinct by job");
    ctx.expectAtLeast("jobs", 300);
    ctx.expectAtLeast("allocations balanced", 300);
    ctx.section("jobs", 3200, 60000, [&](Case& c) {
        Rng& g = c.rng;
        Job j; j.kind = g.chance(.4) ? 0 : g.i(0, jobKinds - 1); j.seed = g.u64(); j.file = c.outDir() + "/f"; j.threaded = false;
        c.desc << jobNames[j.kind] << " job " << j.seed;
        size_t values = 0; uint64_t first = 0;
        int files = openFiles();
        // fresh memory holds something else in every repetition
        long d = 0, b = 0;
        for (int r = 0; r < 3; ++r) {
            mallopt(M_PERTURB, r == 0 ? 0 : r == 1 ? 0x5a : 0xff);
            long l0 = live, b0 = liveBytes;
            uint64_t h = 7;
            { Trace t; doJob(j, t); undefined(c, t, jobNames[j.kind]); values = t.items.size(); for (auto& i : t.items) h = mix(h ^ i.second ^ hashStr(i.first)); }
            d = live - l0; b = liveBytes - b0;
            if (r == 0) first = h;
            else if (h != first) c.die(std::string("repeat/") + jobNames[j.kind], "the same work gives other results when it is repeated");
            if (r && d == 0) break;
        }
        mallopt(M_PERTURB, 0);
        if (d) c.die(std::string("memory/") + jobNames[j.kind], std::to_string(d) + " allocations (" + std::to_string(b) + " bytes) are left behind every time");
#ifndef VF_PLAIN
        c.count("allocations balanced");
#endif
        int now = openFiles();
        if (now > files) c.die(std::string("files/") + jobNames[j.kind], std::to_string(now - files) + " files are left open");
        c.count("jobs"); c.count(std::string("jobs: ") + jobNames[j.kind]); c.count("values", long(values));
        if (values >= 5) c.nontrivialHash(mix(j.seed) ^ uint64_t(j.kind));
    });
}
VF_MAIN(run)
