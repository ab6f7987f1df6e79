// Shared runtime of the monitors: deterministic case generation, progress
// reporting (so that the driver can attribute a crash or hang to a case),
// verdict recording and coverage counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <memory>
#include <algorithm>

namespace vf {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

class Rng {
public:
    explicit Rng(uint64_t s = 1) : s_(s) {}
    uint64_t u64() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
    double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int i(int lo, int hi) { return lo + int(u64() % uint64_t(hi - lo + 1)); }
    unsigned u(unsigned lo, unsigned hi) { return lo + unsigned(u64() % uint64_t(hi - lo + 1)); }
    bool chance(double p) { return u01() < p; }
    double sgn() { return chance(.5) ? 1 : -1; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
    std::vector<unsigned> perm(unsigned n) {
        std::vector<unsigned> p(n);
        for (unsigned k = 0; k < n; ++k) p[k] = k;
        for (unsigned k = n; k > 1; --k) std::swap(p[k - 1], p[u64() % k]);
        return p;
    }
private:
    uint64_t s_;
};

inline std::string jsonEsc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

// Thrown to abandon the current case after a failure has been recorded.
struct CaseAbort {};
// Thrown by workload code (for example by a right hand side that has been called too often):
// deterministic, logical-step watchdog.
struct Runaway : std::runtime_error { explicit Runaway(const std::string& s) : std::runtime_error(s) {} };

class Ctx;
class Case {
public:
    Case(Ctx& ctx, const std::string& section, uint64_t idx, uint64_t seed) :
        rng(seed), ctx_(ctx), section_(section), idx_(idx) {}
    Rng rng;
    std::ostringstream desc;             // human readable description of the input
    // Record a violation (key identifies the oracle; detail the values seen)
    void fail(const std::string& key, const std::string& detail);
    void require(bool ok, const std::string& key, const std::string& detail) { if (!ok) fail(key, detail); }
    // Record and abandon the case
    void die(const std::string& key, const std::string& detail) { fail(key, detail); throw CaseAbort(); }
    void count(const std::string& name, long n = 1);
    // Mark the case as non-trivial with a signature (distinct signatures are counted)
    void nontrivial(const std::string& signature);
    void nontrivialHash(uint64_t h);
    bool failed() const { return failed_; }
    const std::string& section() const { return section_; }
    uint64_t index() const { return idx_; }
    std::string outDir() const;
private:
    Ctx& ctx_;
    std::string section_;
    uint64_t idx_;
    bool failed_ = false;
    friend class Ctx;
};

class Ctx {
public:
    Ctx(int argc, char** argv) {
        for (int k = 1; k < argc; ++k) {
            std::string a = argv[k];
            auto next = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
            if (a == "--seed") seed_ = std::strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier") thorough_ = next() == "thorough";
            else if (a == "--out") out_ = next();
            else if (a == "--shard") { shard_ = std::atoi(next().c_str()); nshards_ = std::atoi(next().c_str()); }
            else if (a == "--only") { onlySection_ = next(); onlyIdx_ = std::strtoll(next().c_str(), nullptr, 10); }
            else if (a == "--resume") { resumeSection_ = next(); resumeIdx_ = std::strtoll(next().c_str(), nullptr, 10); resuming_ = true; }
            else if (a == "--scale") scale_ = std::atof(next().c_str());
            else if (a == "--verbose") verbose_ = true;
        }
        progressFd_ = ::open((out_ + "/progress").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
        viol_ = std::fopen((out_ + "/violations.jsonl").c_str(), "a");
    }
    bool thorough() const { return thorough_; }
    bool verbose() const { return verbose_; }
    const std::string& outDir() const { return out_; }
    uint64_t seed() const { return seed_; }
    void assumption(const std::string& s) { assumptions_.push_back(s); }
    void rule(const std::string& s) { rule_ = s; }

    // Runs nQuick (or nThorough) cases; body may throw: any exception that escapes is a violation.
    void section(const std::string& name, long nQuick, long nThorough, const std::function<void(Case&)>& body) {
        long n = thorough_ ? nThorough : nQuick;
        if (scale_ != 1) n = std::max<long>(1, long(n * scale_));
        if (!onlySection_.empty() && onlySection_ != name) return;
        long& ran = ran_[name];
        for (long k = 0; k < n; ++k) {
            if (!onlySection_.empty() && k != onlyIdx_) continue;
            if (nshards_ > 1 && onlySection_.empty() && uint64_t(mix(k + hashStr(name))) % nshards_ != uint64_t(shard_)) continue;
            if (resuming_) {
                if (name == resumeSection_ && k == resumeIdx_) resuming_ = false;
                continue;
            }
            Case c(*this, name, uint64_t(k), mix(mix(seed_ ^ hashStr(name)) + uint64_t(k)));
            c.desc << std::setprecision(17);
            current_ = &c;
            writeProgress(name, k);
            try { body(c); }
            catch (const CaseAbort&) {}
            catch (const Runaway& e) { c.fail("no-progress", std::string("the logical step budget ran out: ") + e.what()); }
            catch (const std::exception& e) { c.fail("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what()); }
            current_ = nullptr;
            ++ran;
            if (samples_.size() < 4 && !c.desc.str().empty() && (k < 2 || samples_.size() < 3)) {
                std::string d = c.desc.str();
                if (d.size() > 900) d = d.substr(0, 900) + "...";
                samples_.push_back(name + "#" + std::to_string(k) + ": " + d);
            }
            if (verbose_) std::fprintf(stderr, "%s#%ld: %s\n", name.c_str(), k, c.desc.str().c_str());
        }
    }

    // Fails the run (as inconclusive) if a counter has not reached the minimum: the monitor must have observed something.
    void expectAtLeast(const std::string& counter, long quickMin) {
        minimum_[counter] = quickMin;
    }

    int finish() {
        std::ofstream f(out_ + "/summary.json");
        long total = 0;
        f << "{\"complete\": " << (resuming_ ? "false" : "true") << ", \"sections\": {";
        bool first = true;
        for (auto& r : ran_) { f << (first ? "" : ", ") << "\"" << jsonEsc(r.first) << "\": " << std::to_string(r.second); first = false; total += r.second; }
        f << "}, \"evaluations\": " << std::to_string(total);
        f << ", \"distinct\": [";
        first = true;
        for (auto h : distinct_) { f << (first ? "" : ",") << std::to_string(h); first = false; }
        f << "], \"counters\": {";
        first = true;
        for (auto& r : counters_) { f << (first ? "" : ", ") << "\"" << jsonEsc(r.first) << "\": " << std::to_string(r.second); first = false; }
        f << "}, \"minimum\": {";
        first = true;
        for (auto& r : minimum_) { f << (first ? "" : ", ") << "\"" << jsonEsc(r.first) << "\": " << std::to_string(r.second); first = false; }
        f << "}, \"samples\": [";
        first = true;
        for (auto& s : samples_) { f << (first ? "" : ", ") << "\"" << jsonEsc(s) << "\""; first = false; }
        f << "], \"assumptions\": [";
        first = true;
        for (auto& s : assumptions_) { f << (first ? "" : ", ") << "\"" << jsonEsc(s) << "\""; first = false; }
        f << "], \"rule\": \"" << jsonEsc(rule_) << "\", \"violations\": " << std::to_string(nviol_) << "}\n";
        f.close();
        if (viol_) std::fclose(viol_);
        return nviol_ ? 1 : 0;
    }

    void count(const std::string& name, long n) { counters_[name] += n; }
    Case* current() { return current_; }

private:
    friend class Case;
    struct Dummy {};
    void writeProgress(const std::string& name, long k) {
        char b[256];
        int n = std::snprintf(b, sizeof b, "%-80s %12ld\n", name.c_str(), k);
        if (progressFd_ >= 0) { if (::pwrite(progressFd_, b, size_t(n), 0) < 0) {} }
    }
    void record(Case& c, const std::string& key, const std::string& detail) {
        ++nviol_;
        long& perKey = perKey_[c.section_ + "/" + key];
        ++perKey;
        if (perKey <= 5 && viol_) {
            std::string d = c.desc.str();
            if (d.size() > 6000) d = d.substr(0, 6000) + "...";
            std::fprintf(viol_, "{\"section\": \"%s\", \"index\": %llu, \"key\": \"%s\", \"detail\": \"%s\", \"input\": \"%s\"}\n",
                jsonEsc(c.section_).c_str(), (unsigned long long)c.idx_, jsonEsc(c.section_ + "/" + key).c_str(),
                jsonEsc(detail).c_str(), jsonEsc(d).c_str());
            std::fflush(viol_);
        }
        if (verbose_) std::fprintf(stderr, "FAIL %s#%llu %s: %s\n  input: %s\n", c.section_.c_str(), (unsigned long long)c.idx_, key.c_str(), detail.c_str(), c.desc.str().c_str());
    }
    uint64_t seed_ = 1;
    bool thorough_ = false, verbose_ = false;
    double scale_ = 1;
    std::string out_ = ".";
    int shard_ = 0, nshards_ = 1;
    std::string onlySection_; long onlyIdx_ = 0;
    std::string resumeSection_; long resumeIdx_ = 0; bool resuming_ = false;
    int progressFd_ = -1;
    FILE* viol_ = nullptr;
    long nviol_ = 0;
    std::map<std::string, long> perKey_, ran_, counters_, minimum_;
    std::unordered_set<uint64_t> distinct_;
    std::vector<std::string> samples_, assumptions_;
    std::string rule_;
    Case* current_ = nullptr;
};

inline void Case::fail(const std::string& key, const std::string& detail) { failed_ = true; ctx_.record(*this, key, detail); }
inline void Case::count(const std::string& name, long n) { ctx_.count(name, n); }
inline void Case::nontrivial(const std::string& s) { nontrivialHash(hashStr(s)); }
inline void Case::nontrivialHash(uint64_t h) { if (ctx_.distinct_.size() < 400000) ctx_.distinct_.insert(h >> 11); }
inline std::string Case::outDir() const { return ctx_.outDir(); }

// --- small numeric helpers -------------------------------------------------
inline std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
template<class It> std::string list(It b, It e) {
    std::string r = "[";
    bool f = true;
    for (; b != e; ++b) { if (!f) r += ", "; r += num(double(*b)); f = false; }
    return r + "]";
}
template<class C> std::string list(const C& c) { return list(c.begin(), c.end()); }

typedef std::vector<double> DV;
struct DM {                                 // plain dense matrix
    unsigned r = 0, c = 0;
    std::vector<double> a;
    DM() {}
    DM(unsigned r, unsigned c) : r(r), c(c), a(size_t(r) * c, 0.) {}
    double& operator()(unsigned i, unsigned j) { return a[size_t(i) * c + j]; }
    double operator()(unsigned i, unsigned j) const { return a[size_t(i) * c + j]; }
};
inline DV mul(const DM& m, const DV& x) { DV y(m.r, 0.); for (unsigned i = 0; i < m.r; ++i) for (unsigned j = 0; j < m.c; ++j) y[i] += m(i, j) * x[j]; return y; }
// Gaussian elimination with full row pivoting, long double
inline bool denseSolve(DM m, DV b, DV& x) {
    unsigned n = m.r;
    std::vector<long double> A(m.a.begin(), m.a.end()), B(b.begin(), b.end());
    auto at = [&](unsigned i, unsigned j) -> long double& { return A[size_t(i) * n + j]; };
    for (unsigned k = 0; k < n; ++k) {
        unsigned p = k;
        for (unsigned i = k + 1; i < n; ++i) if (fabsl(at(i, k)) > fabsl(at(p, k))) p = i;
        if (at(p, k) == 0) return false;
        if (p != k) { for (unsigned j = 0; j < n; ++j) std::swap(at(p, j), at(k, j)); std::swap(B[p], B[k]); }
        for (unsigned i = k + 1; i < n; ++i) {
            long double f = at(i, k) / at(k, k);
            if (f == 0) continue;
            for (unsigned j = k; j < n; ++j) at(i, j) -= f * at(k, j);
            B[i] -= f * B[k];
        }
    }
    for (unsigned i = n; i-- > 0;) {
        for (unsigned j = i + 1; j < n; ++j) B[i] -= at(i, j) * B[j];
        B[i] /= at(i, i);
    }
    x.assign(n, 0.);
    for (unsigned i = 0; i < n; ++i) x[i] = double(B[i]);
    return true;
}
inline double maxAbs(const DV& v) { double r = 0; for (double x : v) { if (std::isnan(x)) return x; if (std::fabs(x) > r) r = std::fabs(x); } return r; }
inline bool close(double a, double b, double rel, double abs) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
// bit-identical, treating all NaN as equal
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

} // namespace vf

#define VF_MAIN(fn) int main(int argc, char** argv) { vf::Ctx ctx(argc, argv); fn(ctx); return ctx.finish(); }
