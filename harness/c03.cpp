#include "streams.h"
#include "giant.h"
#include <strigi/bufferedstream.h>
using namespace Strigi;
struct Triple { char a, b, c; };
template <class T> class Producer : public BufferedStream<T> {
public:
    Case& c; Rng rng; std::basic_string<T> data; size_t at; int policy; bool ended; int zeros; int64_t failAt; int64_t fills; bool scribble; int32_t lastSpace;
    Producer(Case& cc, const std::basic_string<T>& d, int pol, bool size, int minbuf, int64_t fail)
        : c(cc), rng(cc.rng.next()), data(d), at(0), policy(pol), ended(false), zeros(0), failAt(fail), fills(0), scribble(cc.rng.chance(1, 2)), lastSpace(0) {
        if (size) this->m_size = d.size();
        if (minbuf >= 0) this->setMinBufSize(minbuf);
    }
    void again(const std::basic_string<T>& d, int minbuf) {
        data = d; at = 0; ended = false; failAt = -1;
        this->resetBuffer();
        if (minbuf >= 0) this->setMinBufSize(minbuf);
    }
    int32_t fillBuffer(T* start, int32_t space) {
        ++fills;
        c.count("fills");
        REQ(c, !ended, "producer:asked-after-end", "fillBuffer called again after it reported the end or an error");
        REQ(c, start && space > 0, "producer:bad-space", "fillBuffer(%p, %d)", (void*)start, space);
        if (failAt >= 0 && (int64_t)at >= failAt) { ended = true; this->m_status = Error; this->m_error = "producer failed"; return -1; }
        size_t left = data.size() - at;
        if (left == 0) { ended = true; return -1; }
        size_t n = space;
        switch (policy) {
        case 0: n = space; break;
        case 1: n = 1; break;
        case 2: n = 1 + rng.below(space); break;
        case 3: n = 1 + rng.below(7); break;
        case 4: if (zeros < 3 && rng.chance(1, 3)) { ++zeros; c.count("empty_fills"); return 0; } zeros = 0; n = 1 + rng.below(space); break;
        }
        if (n > (size_t)space) n = space;
        if (n > left) n = left;
        if (failAt >= 0 && (int64_t)(at + n) > failAt) n = failAt - at;
        memcpy(start, data.data() + at, n * sizeof(T));
        // the producer may use all the space it was given
        if (scribble && space > (int32_t)n) memset((char*)(start + n), 0x77, sizeof(T) * ((size_t)space - n < 100000 ? space - n : 100000));
        else if (space > (int32_t)n) start[space - 1] = start[0];
        at += n;
        return (int32_t)n;
    }
};
template <class T> static std::basic_string<T> gen(Rng& r, int64_t max) {
    std::basic_string<T> d(r.len(max), T());
    for (size_t i = 0; i < d.size(); ++i) d[i] = (T)(r.next());
    return d;
}
static int minBuf(Rng& r) { switch (r.below(5)) { case 0: return -1; case 1: return 0; case 2: return 1 + (int)r.below(10); case 3: return 262; default: return (int)r.len(100000); } }
template <class T> static void one(Case& c) {
    std::basic_string<T> d = gen<T>(c.rng, 30000);
    int pol = (int)c.rng.below(5), mb = minBuf(c.rng);
    bool sz = c.rng.chance(1, 2) && !d.empty();
    c.note = fmt("producer policy %d, minbuf %d, size %s, %zu items of %zu bytes", pol, mb, sz ? "known" : "unknown", d.size(), sizeof(T));
    Producer<T> p(c, d, pol, sz, mb, -1);
    MonOpts o; o.maxMin = 200000;
    {
        Mon<T> m(c, &p, d, "buffered", o);
        if (c.rng.chance(1, 3)) m.skip(1 + c.rng.len(d.size() + 10));
        m.run(c.rng, 4 + (int)c.rng.below(80));
        REQ(c, p.at == d.size(), "buffered:lost", "producer delivered %zu of %zu", p.at, d.size());
    }
    if (c.rng.chance(1, 3)) {
        d = gen<T>(c.rng, 3000);
        p.again(d, minBuf(c.rng));
        Mon<T> m(c, &p, d, "buffered-reused", o);
        m.run(c.rng, 4 + (int)c.rng.below(20));
        c.count("reused");
    }
    c.sample(c.note);
}
template <class T> static void failing(Case& c) {
    std::basic_string<T> d = gen<T>(c.rng, 8000);
    int64_t f = c.rng.below(d.size() + 1);
    int mb = minBuf(c.rng), pol = (int)c.rng.below(5);
    c.note = fmt("producer fails at %lld of %zu, policy %d, minbuf %d", (long long)f, d.size(), pol, mb);
    Producer<T> p(c, d, pol, c.rng.chance(1, 2) && !d.empty(), mb, f);
    MonOpts o; o.end = MonOpts::MustError; o.maxMin = 20000;
    Mon<T> m(c, &p, d, "failing", o);
    m.run(c.rng, (int)c.rng.below(40));
    REQ(c, m.pos <= f, "failing:beyond", "delivered %lld items, producer made %lld", (long long)m.pos, (long long)f);
    const T* q;
    REQ(c, p.read(q, 1, 0) == -2 && !strcmp(p.error(), "producer failed"), "failing:message", "error lost: '%s'", p.error());
    c.count("failing_producers");
}
// exhaustive small world: all op sequences of bounded depth over a tiny content
static void smallWorld(Case& c, uint64_t i) {
    const uint64_t all = i;
    // idx encodes: content length 0..6, producer step 1..3, minbuf choice, op sequence drawn systematically
    int n = i % 7; i /= 7;
    int step = i % 3; i /= 3;   // policy
    int mb = (int[]){ -1, 1, 3 }[i % 3]; i /= 3;
    std::string d("abcdefg", n);
    struct Op { char k; int a, b; };
    static const Op ops[] = { { 'r', 1, 0 }, { 'r', 1, 1 }, { 'r', 2, 2 }, { 'r', 3, 0 }, { 's', 1, 0 }, { 's', 3, 0 }, { 'z', 0, 0 }, { 'b', 1, 0 }, { 'b', 2, 0 } };
    // the rest of the index selects 5 operations in base 9
    Producer<char> p(c, d, step == 2 ? 0 : step == 1 ? 3 : 1, i & 1, mb, -1);
    if (n == 0 && (i & 1)) return;
    i /= 2;
    Mon<char> m(c, &p, d, "small");
    for (int k = 0; k < 5; ++k) {
        const Op& o = ops[i % 9]; i /= 9;
        if (o.k == 'r') m.read(o.a, o.b);
        else if (o.k == 's') m.skip(o.a);
        else if (o.k == 'z') m.reset(0);
        else m.reset(m.pos >= o.a ? m.pos - o.a : 0);
    }
    m.drain(c.rng);
    c.distinct(mix(all, 77));
    c.count("small_world");
}
class GiantProducer : public BufferedInputStream {
public:
    int64_t at, total, piece;
    GiantProducer(Rng& r, int64_t n) : at(0), total(n), piece(300000 + r.below(3000000)) { if (r.chance(1, 2)) m_size = n; setMinBufSize(r.chance(1, 2) ? 1000000 : 50000); }
    int32_t fillBuffer(char* start, int32_t space) {
        int64_t n = space < piece ? space : piece;
        if (n > total - at) n = total - at;
        if (n == 0) return -1;
        memcpy(start, giantPattern().data() + at % GP, n);
        at += n;
        return (int32_t)n;
    }
};
static void giant(Case& c) {
    int64_t n = giantLength(c.rng);
    GiantProducer p(c.rng, n);
    GiantInput ref(c, n, 10);
    c.note = fmt("%lld bytes", (long long)n);
    GiantMon g(c, &p, ref, 0, n, "buffered-giant");
    giantForward(g);
}
void registerSuites() {
    g_rule = "one case = one scripted producer (items per fill: full, one, random, few, with empty fills; with or without declared size and minimum buffer) under one random consumer history, every call and every fillBuffer call checked; plus failing producers and an enumeration of 5-operation histories over tiny contents. Non-trivial: distinct (content, history, outcomes).";
    addSuite("bytes", 8000, 150000, one<char>);
    addSuite("wide", 4000, 80000, one<wchar_t>);
    addSuite("shorts", 2000, 40000, one<char16_t>);
    addSuite("giant", 24, 600, giant, 100);
    need("giant_streams", 20);
    addSuite("failing", 4000, 60000, failing<char>);
    addSuite("failingwide", 1000, 20000, failing<wchar_t>);
    // 7*3*3*2*9^5 = 7.4M sequences: quick samples a prefix with all operations mixed
    const uint64_t total = 7ULL * 3 * 3 * 2 * 59049;
    addSuite("small", 60000, total, [total](Case& c) { smallWorld(c, c.thorough ? c.idx : (c.idx * 7919 + c.seed * 31) % total); });
    need("fills", 50000); need("empty_fills", 500); need("resets_in_segment", 3000); need("failing_producers", 1000); need("small_world", 10000); need("skips", 3000);
}
