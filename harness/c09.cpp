#include "streams.h"
#include "giant.h"
#include <strigi/stringterminatedsubstream.h>
using namespace Strigi;
static Bytes terminator(Rng& r) {
    switch (r.below(6)) {
    case 0: return Bytes(1, (char)r.below(256));
    case 1: return "aab";
    case 2: return Bytes(1 + r.below(6), 'a');
    case 3: return "\r\n--boundary";
    case 4: { Bytes b; int n = 1 + (int)r.below(12); for (int i = 0; i < n; ++i) b += (char)('a' + r.below(2)); return b; }
    default: { Bytes b; int n = 1 + (int)r.below(40); for (int i = 0; i < n; ++i) b += (char)r.next(); return b; }
    }
}
static Bytes body(Rng& r, const Bytes& t, int64_t max) {
    // content rich in prefixes and near misses of the terminator
    Bytes b;
    int64_t n = r.len(max);
    while ((int64_t)b.size() < n) {
        switch (r.below(4)) {
        case 0: b += t.substr(0, r.below(t.size())); break;
        case 1: b += t.substr(r.below(t.size())).substr(0, t.size() > 1 ? t.size() - 1 : 0); break;
        case 2: b += (char)('a' + r.below(3)); break;
        default: b += textContent(r, r.below(30)); break;
        }
    }
    return b;
}
static void one(Case& c) {
    Bytes t = terminator(c.rng);
    Bytes pre = c.rng.chance(1, 2) ? Bytes() : body(c.rng, t, 2000);
    Bytes d = body(c.rng, t, 8000);
    int nt = (int)c.rng.below(3);
    for (int i = 0; i < nt; ++i) d += t + body(c.rng, t, 500);
    if (c.rng.chance(1, 8)) d = t + d;
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, pre + d, pol);
    if (pre.size()) in.skip(pre.size());
    size_t at = d.find(t);
    Bytes want = at == d.npos ? d : d.substr(0, at);
    c.note = fmt("terminator %s at %lld of %zu bytes after a prefix of %zu, %s", hex(t, 12).c_str(), at == d.npos ? -1LL : (long long)at, d.size(), pre.size(), pol.str().c_str());
    StringTerminatedSubStream s(&in, t);
    REQ(c, s.offset() == (int64_t)pre.size(), "term:offset", "offset() is %lld, expected %zu", (long long)s.offset(), pre.size());
    {
        MonOpts o; o.maxMin = 20000;
        Mon<char> m(c, &s, want, "term", o);
        if (c.rng.chance(1, 2)) m.run(c.rng, 4 + (int)c.rng.below(40));
        else { m.drain(c.rng); c.distinct(mix(hashStr(t), hashStr(pre + d))); }
        REQ(c, s.status() == Eof, "term:end", "no end of stream");
        REQ(c, s.offset() == (int64_t)pre.size(), "term:offset", "offset() changed to %lld", (long long)s.offset());
    }
    // the parent can be read on right after the terminator
    if (at != d.npos) {
        REQ(c, in.position() == (int64_t)(pre.size() + at + t.size()), "term:parent", "parent is at %lld, terminator ends at %zu", (long long)in.position(), pre.size() + at + t.size());
        c.count("terminated");
        if (c.rng.chance(1, 2)) {
            Bytes rest = d.substr(at + t.size());
            size_t a2 = rest.find(t);
            StringTerminatedSubStream s2(&in, t);
            REQ(c, s2.offset() == (int64_t)(pre.size() + at + t.size()), "term:offset2", "offset() is %lld", (long long)s2.offset());
            Mon<char> m(c, &s2, a2 == rest.npos ? rest : rest.substr(0, a2), "term2");
            m.run(c.rng, 4);
            c.count("second_windows");
        }
    } else c.count("unterminated");
    c.sample(c.note);
}
// default arguments of read()
static void defaults(Case& c) {
    Bytes t = terminator(c.rng);
    Bytes d = body(c.rng, t, 3000);
    d += t + body(c.rng, t, 100);
    HostileInput in(c, d, randomPolicy(c.rng, false));
    StringTerminatedSubStream s(&in, t);
    c.note = fmt("read() with default arguments, %zu bytes, terminator %s", d.size(), hex(t, 12).c_str());
    Bytes got; const char* p; int32_t n;
    while ((n = s.read(p)) > 0) { got.append(p, n); REQ(c, got.size() <= d.size(), "term-default:too-long", "too much data"); if (c.rng.chance(1, 5)) { int64_t k = c.rng.below(n + 1); s.reset(got.size() - k); got.resize(got.size() - k); } }
    REQ(c, n == -1 && s.status() == Eof, "term-default:end", "ended with %d", n);
    REQ(c, got == d.substr(0, d.find(t)), "term-default:content", "got %zu bytes, expected %zu", got.size(), d.find(t));
    c.count("default_reads");
}
static void failing(Case& c) {
    Bytes t = terminator(c.rng);
    Bytes d = body(c.rng, t, 3000);
    InputPolicy pol = randomPolicy(c.rng, false);
    if (pol.chunk == 0) pol.chunk = 2;
    HostileInput in(c, d, pol);
    in.failAt = c.rng.below(30);
    StringTerminatedSubStream s(&in, t);
    size_t at = d.find(t);
    Bytes want = at == d.npos ? d : d.substr(0, at);
    c.note = fmt("input fails at call %lld", (long long)in.failAt);
    MonOpts o; o.end = MonOpts::EofOrError;
    Mon<char> m(c, &s, want, "term-fail", o);
    while (true) { int32_t mn = 1 + (int32_t)c.rng.below(20); if (m.read(mn, mn + 5) < 0) break; }
    if (in.failed && s.status() == Eof) REQ(c, m.pos == (int64_t)want.size(), "term-fail:early-end", "end at %lld of %zu after an input error", (long long)m.pos, want.size());
    if (s.status() == Error) { REQ(c, in.failed, "term-fail:spurious", "error without input error"); c.count("failing_parents"); }
}
// far into the parent; giantSearch: with a terminator that is far away, too
static void far(Case& c, int64_t k, int64_t chunk) {
    static const char* const ts[] = { "@@#", "\r\n--boundary", "$$$$", "@", "@a@a@@" };
    Bytes t = ts[c.rng.below(5)];
    int64_t p = c.rng.chance(1, 6) ? (int64_t)c.rng.below(5) : giantNumber(c.rng, 1LL << 61), after = c.rng.len(100000);
    bool none = c.rng.chance(1, 6);
    GiantInput in(c, p + k + (none ? 0 : (int64_t)t.size() + after), chunk);
    if (chunk > 100000) in.chunk = chunk - c.rng.below(100000);
    for (int i = 0; i < 6 && k > 40; ++i) { int64_t at = p + c.rng.below(k - 20); auto n = in.parts.lower_bound(at - 20); if (n == in.parts.end() || n->first > at + 20) in.parts[at] = t.substr(0, t.size() - 1); }
    if (!none) in.parts[p + k] = t;
    if (!none && after > 100) in.parts[p + k + t.size() + 50] = t;
    in.skip(p);
    StringTerminatedSubStream s(&in, t);
    c.note = fmt("%s %lld bytes behind %lld in %lld", none ? "no terminator in" : hex(t).c_str(), (long long)k, (long long)p, (long long)in.total);
    REQ(c, s.offset() == p, "term-giant:offset", "offset() is %lld, expected %lld", (long long)s.offset(), (long long)p);
    GiantMon g(c, &s, in, p, k, "term-giant");
    if (chunk > 100000) { g.read(10, 0); g.skip(giantNumber(c.rng, k)); g.read(1, 0); g.reset(c.rng.len(1000000)); g.read(100, 0); g.reset(giantNumber(c.rng, k)); g.read(1, 1); }
    else g.history((int)c.rng.below(20));
    g.end();
    if (!none) REQ(c, in.position() == p + k + (int64_t)t.size(), "term-giant:parent", "the parent is at %lld, the terminator ends at %lld", (long long)in.position(), (long long)(p + k + t.size()));
    c.distinct(mix(g.dig, p)); c.sample(c.note);
}
static void giant(Case& c) { far(c, c.rng.len(300000), 70000); c.count("giant_offsets"); }
static void giantSearch(Case& c) { far(c, c.idx % 2 ? 0x100000000LL + 100 - (int64_t)c.rng.below(200) : 0x80000000LL + 100 - (int64_t)c.rng.below(200), 8000000); c.count("giant_searches"); }
void registerSuites() {
    g_rule = "one case = one terminator (single bytes, self-overlapping, boundary-like, random), one content rich in partial terminators, one hostile chunking and one random history; contents, ends, offset() and the parent's final position are checked. Non-trivial: distinct (content, history, outcomes).";
    addSuite("history", 12000, 250000, one);
    addSuite("defaults", 2000, 30000, defaults);
    addSuite("giant", 3000, 60000, giant);
    addSuite("giantsearch", 6, 60, giantSearch, 200);
    need("giant_offsets", 2000); need("giant_searches", 4);
    addSuite("failing", 2000, 30000, failing);
    need("terminated", 4000); need("unterminated", 1000); need("second_windows", 1000); need("default_reads", 1000); need("failing_parents", 200); need("resets_in_segment", 2000);
}
