// Shared monitor runtime: deterministic randomness, violation/coverage recording, crash context.
#pragma once
#include <atomic>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
namespace fs = std::filesystem;

namespace vh {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) { s = next() ^ (seed << 32); s = next(); } // hashed: streams of nearby seeds must not overlap
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return static_cast<double>(next() >> 11) * 0x1.0p-53; } // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    float f() { return static_cast<float>(next() >> 40) * 0x1.0p-24f; }
    // log-uniform
    double lu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    int i(int a, int b) { return a + static_cast<int>(below(static_cast<std::uint64_t>(b - a + 1))); }
    bool chance(double p) { return u() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    double gauss()
    {
        double a = 1.0 - u(), b = u();
        return std::sqrt(-2.0 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
};

struct Viol { std::string detail; std::uint64_t n = 0; };
struct State {
    std::mutex m;
    std::map<std::string, Viol> viol;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::uint64_t evals = 0;
    char* cur = nullptr;
    std::string out, scratch;
    std::uint64_t seed = 1;
    bool thorough = false;
    double mult = 1.0;
};
inline State& st() { static State* s = new State; return *s; }
inline constexpr std::size_t CUR_TEXT = 4096, CUR_BIN = 1 << 20;

inline void on_alarm(int)
{
    const char m[] = "VH-HANG: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(97);
}

inline void init()
{
    auto& s = st();
    auto env = [](const char* n, const char* d) { const char* v = getenv(n); return std::string(v ? v : d); };
    s.seed = std::strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
    s.thorough = env("VERIF_TIER", "quick") == "thorough";
    s.out = env("VH_OUT", "/dev/stdout");
    s.scratch = env("VH_SCRATCH", "/tmp");
    std::string cur = env("VH_CUR", "");
    if (!cur.empty()) {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, CUR_TEXT + 8 + CUR_BIN) == 0) {
            void* p = mmap(nullptr, CUR_TEXT + 8 + CUR_BIN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.cur = static_cast<char*>(p);
        }
        if (fd >= 0) close(fd);
    }
    if (!getenv("VH_VERBOSE")) {
        std::cerr.setstate(std::ios::badbit); // the library logs every thrown error to cerr
        std::cout.setstate(std::ios::badbit);
    }
    signal(SIGVTALRM, on_alarm);
}
inline std::uint64_t seed() { return st().seed; }
inline bool thorough() { return st().thorough; }
inline long n(long quick, long thor) { return thorough() ? thor : quick; }
inline std::string scratch(const std::string& name) { return st().scratch + "/" + name; }

// CPU-time watchdog for one case (0 disarms)
inline void watchdog(int cpu_seconds)
{
    itimerval t{};
    t.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...)
{
    char buf[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    return buf;
}
// what is being executed now, for crash reports
__attribute__((format(printf, 1, 2))) inline void cur(const char* f, ...)
{
    if (!st().cur) return;
    std::lock_guard<std::mutex> g(st().m);
    va_list a;
    va_start(a, f);
    vsnprintf(st().cur, CUR_TEXT, f, a);
    va_end(a);
}
inline void cur_bytes(const void* p, std::size_t len)
{
    if (!st().cur) return;
    std::uint64_t L = std::min(len, CUR_BIN);
    std::memcpy(st().cur + CUR_TEXT, &L, 8);
    std::memcpy(st().cur + CUR_TEXT + 8, p, L);
}
inline void ev(std::uint64_t k = 1) { auto& s = st(); std::lock_guard<std::mutex> g(s.m); s.evals += k; }
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) { return Rng(h ^ (v * 0xD6E8FEB86659FD93ull)).next(); }
template <class... A> std::uint64_t hash(A... a)
{
    std::uint64_t h = 0x51;
    auto one = [&](auto v) {
        std::uint64_t b = 0;
        static_assert(sizeof(v) <= 8);
        std::memcpy(&b, &v, sizeof v);
        h = mix(h, b);
    };
    (one(a), ...);
    return h;
}
inline std::uint64_t hash_bytes(const void* p, std::size_t n)
{
    auto* c = static_cast<const unsigned char*>(p);
    std::uint64_t h = 1469598103934665603ull;
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
// record one distinct, non-trivial case
inline void distinct(std::uint64_t h) { auto& s = st(); std::lock_guard<std::mutex> g(s.m); s.distinct.insert(h); }
inline void count(const std::string& k, std::uint64_t v = 1) { auto& s = st(); std::lock_guard<std::mutex> g(s.m); s.counters[k] += v; }
inline void sample(const std::string& t)
{
    auto& s = st();
    std::lock_guard<std::mutex> g(s.m);
    if (s.samples.size() < 12) s.samples.push_back(t);
}
inline void fail(const std::string& key, const std::string& detail)
{
    auto& s = st();
    std::lock_guard<std::mutex> g(s.m);
    auto& v = s.viol[key];
    if (v.n++ == 0) { v.detail = detail; if (s.cur && s.cur[0]) v.detail += std::string(" | at: ") + s.cur; }
}
#define VH_FAIL(key, ...) ::vh::fail(key, ::vh::fmt(__VA_ARGS__))
#define VH_CHECK(cond, key, ...) do { if (!(cond)) VH_FAIL(key, __VA_ARGS__); } while (0)

inline std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
inline int finish()
{
    watchdog(0);
    auto& s = st();
    std::lock_guard<std::mutex> g(s.m);
    FILE* f = fopen(s.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\": %llu, \"distinct\": %llu,\n \"counters\": {", (unsigned long long)s.evals, (unsigned long long)s.distinct.size());
    bool first = true;
    for (auto& [k, v] : s.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\n \"samples\": [");
    first = true;
    for (auto& v : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(v).c_str()); first = false; }
    fprintf(f, "],\n \"violations\": [");
    first = true;
    for (auto& [k, v] : s.viol) { fprintf(f, "%s{\"key\": \"%s\", \"count\": %llu, \"detail\": \"%s\"}", first ? "" : ",\n  ", esc(k).c_str(), (unsigned long long)v.n, esc(v.detail).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

template <class F> bool throws(F&& f)
{
    try { f(); return false; } catch (const std::exception&) { return true; }
}
inline bool near(double a, double b, double rel, double abs_ = 0)
{
    if (!(std::isfinite(a) && std::isfinite(b))) return a == b;
    return std::fabs(a - b) <= std::max(abs_, rel * std::max(std::fabs(a), std::fabs(b)));
}

} // namespace vh
// Runs BODY as the harness; an escaped exception is reported as a violation of key "escaped-exception".
#define VH_MAIN(BODY)                                                                              \
    int main()                                                                                     \
    {                                                                                              \
        vh::init();                                                                                \
        try { BODY; }                                                                              \
        catch (const std::exception& e) { VH_FAIL("escaped-exception", "%s while: %s", e.what(), vh::st().cur ? vh::st().cur : "?"); }  \
        int rc = vh::finish();                                                                     \
        fflush(nullptr);                                                                           \
        return rc;                                                                                 \
    }
