// Core of the monitoring harness: deterministic cases, forked workers, shared
// counters, violation records.
#ifndef VERIF_CORE_H
#define VERIF_CORE_H
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>
#include <map>

typedef std::string Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // 0 .. n-1
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // a .. b inclusive
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template <class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
    // a length with emphasis on small and "interesting" values
    int64_t len(int64_t max);
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hashBytes(s.data(), s.size(), h); }

struct CaseAbort {};

struct Case {
    std::string suite;
    uint64_t idx;
    uint64_t seed;
    bool thorough;
    bool verbose;
    Rng rng;
    std::string note; // description of the case, used in reports and samples
    bool failed;
    Case() : idx(0), seed(0), thorough(false), verbose(false), failed(false) {}
    // records a violation and aborts the case
    [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // records a violation and carries on
    void report(const std::string& key, const std::string& msg);
    void count(const char* name, uint64_t n = 1);
    void maxof(const char* name, uint64_t n);
    void distinct(uint64_t h);   // a non-trivial observed behaviour
    void sample(const std::string& s);
};
#define REQ(c, cond, key, ...) do { if (!(cond)) (c).fail(key, __VA_ARGS__); } while (0)

struct Suite {
    std::string name;
    uint64_t quick, thorough;   // number of cases
    std::function<void(Case&)> run;
    double cpuLimit;            // seconds of CPU per case before it is a suspected hang
    int maxWorkers;             // 0: all
};
struct Need { std::string counter; uint64_t least; };  // below: inconclusive

extern std::vector<Suite> g_suites;
extern std::vector<Need> g_needs;
extern std::string g_rule;
extern std::vector<std::string> g_assumptions;
void addSuite(const std::string& name, uint64_t quick, uint64_t thorough, std::function<void(Case&)> f,
    double cpuLimit = 60, int maxWorkers = 0);
void need(const std::string& counter, uint64_t least);
// implemented by each property's harness
void registerSuites();
// a scratch directory, private to this worker process
const std::string& scratchDir();
extern std::string g_dataDir;   // /verif/corpus

std::string hex(const Bytes& b, size_t max = 64);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#endif
