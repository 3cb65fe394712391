#include "streams.h"
#include <strigi/subinputstream.h>
#include "giant.h"
#include <strigi/stringstream.h>
using namespace Strigi;
static void window(Case& c) {
    Bytes d = randomContent(c.rng, 30000);
    int64_t p = c.rng.below(d.size() + 1);
    if (c.rng.chance(1, 5)) p = 0;
    int64_t left = d.size() - p, n;
    switch (c.rng.below(5)) {
    case 0: n = -1; break;
    case 1: n = left; break;
    case 2: n = 0; break;
    default: n = c.rng.below(left + 1);
    }
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, d, pol);
    // move the parent to its starting point in some way
    if (p) { if (c.rng.chance(1, 2)) in.skip(p); else { const char* q; int64_t t = p; while (t > 0) { int32_t k = in.read(q, 1, (int32_t)t); t -= k; } } }
    c.note = fmt("window [%lld,%s) of %zu bytes, %s", (long long)p, n < 0 ? "end" : fmt("%lld", (long long)(p + n)).c_str(), d.size(), pol.str().c_str());
    Bytes want = n < 0 ? d.substr(p) : d.substr(p, n);
    SubInputStream s(&in, n);
    if (n >= 0) REQ(c, s.size() == n, "sub:size", "declared size %lld, reported %lld", (long long)n, (long long)s.size());
    MonOpts o; o.maxMin = 100000;
    o.errorAfterFarReset = false;
    int64_t far = 0;
    Mon<char> m(c, &s, want, n < 0 ? "sub-open" : "sub", o);
    m.run(c.rng, 4 + (int)c.rng.below(60));
    // explicit limits
    if (c.rng.chance(1, 2)) {
        far = want.size() + c.rng.below(200);
        m.reset(far); m.read(1, 0);
        m.reset(0); m.skip(far); m.read(1 + (int)c.rng.below(5), 0);
        if (want.size()) { m.reset(want.size() - 1); m.read(3, 0); }
        c.count("limit_probes");
    }
    c.count(n < 0 ? "open_windows" : "limited_windows");
    c.sample(c.note);
}
static void nested(Case& c) {
    Bytes d = randomContent(c.rng, 8000);
    int64_t p1 = c.rng.below(d.size() + 1), n1 = c.rng.chance(1, 4) ? -1 : (int64_t)c.rng.below(d.size() - p1 + 1);
    Bytes w1 = n1 < 0 ? d.substr(p1) : d.substr(p1, n1);
    int64_t p2 = c.rng.below(w1.size() + 1), n2 = c.rng.chance(1, 4) ? -1 : (int64_t)c.rng.below(w1.size() - p2 + 1);
    Bytes w2 = n2 < 0 ? w1.substr(p2) : w1.substr(p2, n2);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, d, pol);
    in.skip(p1);
    SubInputStream a(&in, n1);
    if (p2) a.skip(p2);
    SubInputStream b(&a, n2);
    c.note = fmt("window %lld+%lld in window %lld+%lld of %zu bytes, %s", (long long)p2, (long long)n2, (long long)p1, (long long)n1, d.size(), pol.str().c_str());
    Mon<char> m(c, &b, w2, "sub-nested");
    m.run(c.rng, 4 + (int)c.rng.below(40));
    c.count("nested_windows");
}
static void shortParent(Case& c) {
    Bytes d = randomContent(c.rng, 6000);
    int64_t p = c.rng.below(d.size() + 1);
    int64_t n = d.size() - p + 1 + c.rng.len(5000);
    if (c.rng.chance(1, 10)) n += 1LL << 33;
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, d, pol);
    in.skip(p);
    c.note = fmt("window [%lld,%lld) of only %zu bytes, %s", (long long)p, (long long)(p + n), d.size(), pol.str().c_str());
    SubInputStream s(&in, n);
    MonOpts o; o.end = MonOpts::MustError; o.maxMin = 20000;
    Mon<char> m(c, &s, d.substr(p), "sub-short", o);
    m.run(c.rng, (int)c.rng.below(30));
    c.count("short_parents");
}
static void memory(Case& c) {
    // over an in-memory stream, sharing the parent with a second window created later
    Bytes d = randomContent(c.rng, 3000);
    StringInputStream in(d.data(), (int32_t)d.size(), false);
    int64_t at = 0;
    while (at < (int64_t)d.size()) {
        int64_t n = 1 + c.rng.below(d.size() - at);
        SubInputStream s(&in, n);
        Mon<char> m(c, &s, d.substr(at, n), "sub-mem");
        m.run(c.rng, 1 + (int)c.rng.below(10));
        REQ(c, s.status() == Eof, "sub-mem:end", "not at the end");
        at += n;
        in.reset(at);
        c.count("consecutive_windows");
    }
}
// windows far beyond 32 bits
static void giant(Case& c) {
    int64_t p = giantNumber(c.rng, 1LL << 61), n = giantNumber(c.rng, (1LL << 62) - p), after = c.rng.chance(1, 3) ? 0 : (int64_t)c.rng.len(100000);
    if (c.rng.chance(1, 5)) p = c.rng.below(3);
    bool open = c.rng.chance(1, 4), lacks = !open && c.rng.chance(1, 5);
    int64_t have = lacks ? n - 1 - (int64_t)c.rng.len(n - 2) : n;
    GiantInput in(c, p + have + (lacks || open ? 0 : after), 70000);
    in.skip(p);
    SubInputStream s(&in, open ? -1 : n);
    c.note = fmt("window %lld+%lld%s of %lld bytes", (long long)p, (long long)n, open ? " (open)" : "", (long long)in.total);
    if (!lacks && !open && c.rng.chance(1, 3)) { // a window in it
        int64_t q = giantNumber(c.rng, n), m = giantNumber(c.rng, n - q);
        s.skip(q);
        SubInputStream t(&s, m);
        c.note += fmt(", window %lld+%lld in it", (long long)q, (long long)m);
        GiantMon g(c, &t, in, p + q, m, "sub-giant");
        g.history(5 + (int)c.rng.below(40)); g.end();
        c.distinct(g.dig); c.count("giant_windows");
        return;
    }
    GiantMon g(c, &s, in, p, n, "sub-giant", have);
    g.history(5 + (int)c.rng.below(40)); g.end();
    c.distinct(g.dig); c.count("giant_windows"); c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one parent (hostile chunking, any reset ability), one window (limited, unlimited, empty, nested, consecutive, or longer than the parent) and one random history including resets and skips at and beyond the limits; every call is checked against the window's bytes. Non-trivial: distinct (content, history, outcomes).";
    addSuite("window", 12000, 250000, window);
    addSuite("nested", 4000, 80000, nested);
    addSuite("short", 3000, 60000, shortParent);
    addSuite("consecutive", 1000, 20000, memory);
    addSuite("giant", 4000, 100000, giant);
    need("giant_windows", 3000);
    need("open_windows", 1000); need("limited_windows", 4000); need("short_parents", 1000); need("limit_probes", 2000); need("resets_in_segment", 3000);
}
