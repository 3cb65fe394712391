// Inputs of up to 2^62 bytes that exist only as a rule, and the monitor for streams over them.
#ifndef VERIF_GIANT_H
#define VERIF_GIANT_H
#include "streams.h"
#include <map>
static const int64_t GP = 8388593;    // period of the content
inline const Bytes& giantPattern() { // two periods
    static Bytes* b = 0;
    if (!b) {
        b = new Bytes(2 * GP, 0);
        uint64_t x = 88172645463325252ULL;
        for (int64_t i = 0; i < GP; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (*b)[i] = (*b)[i + GP] = (char)('a' + (x >> 20) % 23); }
    }
    return *b;
}
class GiantInput : public InputStream {
public:
    Case& c; const Bytes* pat; int64_t period, total, chunk; bool eager, known; std::map<int64_t, Bytes> parts; char* buf; int64_t calls;
    // two: two periods of the content
    GiantInput(Case& cc, int64_t t, int64_t maxChunk, const Bytes& two = giantPattern()) : c(cc), pat(&two), period(two.size() / 2), total(t), buf(0), calls(0) {
        chunk = 1 + (int64_t)c.rng.len(maxChunk); eager = c.rng.chance(1, 2); known = c.rng.chance(1, 2);
        if (known) m_size = total;
    }
    ~GiantInput() { free(buf); }
    // is this the content at [at, at + n)?
    bool equal(const char* p, int64_t at, int64_t n) const {
        auto i = parts.upper_bound(at);
        if (i != parts.begin()) { --i; if (i->first + (int64_t)i->second.size() <= at) ++i; }
        int64_t e = at + n;
        while (at < e) {
            int64_t k;
            if (i != parts.end() && i->first <= at) {
                k = i->first + i->second.size() - at;
                if (k > e - at) k = e - at;
                if (memcmp(p, i->second.data() + (at - i->first), k)) return false;
                ++i;
            } else {
                k = i != parts.end() && i->first < e ? i->first - at : e - at;
                if (k > period) k = period;
                if (memcmp(p, pat->data() + at % period, k)) return false;
            }
            p += k; at += k;
        }
        return true;
    }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        ++calls;
        if (m_status == Error) return -2;
        if (m_status == Eof || m_position == total) { m_status = Eof; m_size = total; return -1; }
        int64_t n = min > chunk ? min : chunk;
        if (max >= min && n > max) n = max;
        if (n > total - m_position) n = total - m_position;
        if (n > 0x7fffffff) n = 0x7fffffff;
        auto i = parts.lower_bound(m_position - 1000);
        bool plain = n <= period && (i == parts.end() || i->first >= m_position + n);
        if (plain && n > 100000) start = pat->data() + m_position % period;
        else {
            free(buf); buf = (char*)malloc(n);
            for (int64_t k = 0; k < n;) { int64_t m = n - k < period ? n - k : period; memcpy(buf + k, pat->data() + (m_position + k) % period, m); k += m; }
            for (; i != parts.end() && i->first < m_position + n; ++i)
                for (size_t k = 0; k < i->second.size(); ++k) { int64_t q = i->first + k - m_position; if (q >= 0 && q < n) buf[q] = i->second[k]; }
            start = buf;
        }
        m_position += n;
        if (m_position == total && (eager || n < min)) { m_status = Eof; m_size = total; }
        return (int32_t)n;
    }
    int64_t skip(int64_t n) {
        ++calls;
        if (m_status == Error) return -2;
        if (m_position == total) { m_status = Eof; m_size = total; return -1; }
        if (n > total - m_position) n = total - m_position;
        if (n < 0) n = 0;
        m_position += n;
        if (m_position == total && eager) { m_status = Eof; m_size = total; }
        return n;
    }
    int64_t reset(int64_t p) {
        ++calls;
        if (m_status == Error) return -2;
        m_position = p > total ? total : p;
        m_status = m_position == total && eager ? Eof : Ok;
        if (m_status == Eof) m_size = total;
        return m_position;
    }
};
// positions at which narrow arithmetic would show
inline int64_t giantNumber(Rng& r, int64_t max) {
    static const int64_t at[] = { 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 0x17fffffffLL, 0x180000000LL, 0x1ffffffffLL, 0x200000000LL, 1LL << 40, 1LL << 53, 1LL << 61 };
    int64_t v = at[r.below(11)] - 3 + (int64_t)r.below(7);
    if (r.chance(1, 4)) v += r.len(100000);
    if (r.chance(1, 8)) v = (int64_t)(r.next() >> (2 + r.below(30)));
    if (v > max) v = max > 10 ? max - (int64_t)r.below(10) : max;
    return v < 0 ? 0 : v;
}
// random reads, skips and resets over N bytes, content at base + position
struct GiantMon {
    Case& c; InputStream* s; GiantInput& in; int64_t base, N, pos; std::string name; uint64_t dig; bool mustError, past; int64_t reach;
    // N: length; reach: how much of it there is (less: it has to fail)
    GiantMon(Case& cc, InputStream* st, GiantInput& i, int64_t b, int64_t n, const char* nm, int64_t have = -1) : c(cc), s(st), in(i), base(b), N(n), pos(st->position()), name(nm), dig(7), past(false), reach(have < 0 ? n : have) {
        mustError = reach < N;
        REQ(c, pos == 0, name + ":position", "a new stream is at %lld", (long long)pos);
    }
    bool state(const std::string& w) {
        dig = mix(dig, mix(pos, s->status()));
        if (s->status() == Error) { REQ(c, mustError, name + ":error", "%s: error '%s'", w.c_str(), s->error()); past = true; return false; }
        REQ(c, s->position() == pos, name + ":position", "%s: position %lld, expected %lld", w.c_str(), (long long)s->position(), (long long)pos);
        REQ(c, pos <= reach, name + ":beyond", "%s: at %lld of %lld", w.c_str(), (long long)pos, (long long)reach);
        REQ(c, s->size() == -1 || s->size() == N, name + ":size", "%s: size %lld, expected %lld", w.c_str(), (long long)s->size(), (long long)N);
        if (s->status() == Eof) REQ(c, pos == N, name + ":early-end", "%s: ended at %lld of %lld", w.c_str(), (long long)pos, (long long)N);
        return true;
    }
    bool read(int32_t min, int32_t max) {
        const char* p = 0;
        int32_t k = s->read(p, min, max);
        std::string w = fmt("read(%d,%d)=%d at %lld", min, max, k, (long long)pos);
        if (k > 0) {
            REQ(c, k <= reach - pos, name + ":too-long", "%s: only %lld are left", w.c_str(), (long long)(reach - pos));
            if (max >= min) REQ(c, k <= max, name + ":above-max", "%s", w.c_str());
            REQ(c, in.equal(p, base + pos, k), name + ":content", "%s delivered other bytes", w.c_str());
            pos += k;
            c.count("giant_bytes", k);
            if (k < min && s->status() != Error) REQ(c, s->status() == Eof && pos == N, name + ":below-min", "%s: status %s, %lld bytes", w.c_str(), statusName(s->status()), (long long)N);
        } else if (k == -1) REQ(c, pos == N && s->status() == Eof, name + ":early-end", "%s: status %s, the end is at %lld", w.c_str(), statusName(s->status()), (long long)N);
        else REQ(c, k == -2 && s->status() == Error, name + ":bad-return", "%s, status %s", w.c_str(), statusName(s->status()));
        c.count("giant_reads");
        return state(w);
    }
    bool skip(int64_t n) {
        int64_t k = s->skip(n), want = n < reach - pos ? n : reach - pos;
        std::string w = fmt("skip(%lld)=%lld at %lld", (long long)n, (long long)k, (long long)pos);
        if (s->status() != Error) { REQ(c, want > 0 ? k == want : k <= 0, name + ":skip", "%s: expected %lld", w.c_str(), (long long)want); if (k > 0) pos += k; }
        c.count("giant_skips");
        return state(w);
    }
    bool reset(int64_t p) {
        int64_t k = s->reset(p), want = p < reach ? p : reach;
        std::string w = fmt("reset(%lld)=%lld at %lld", (long long)p, (long long)k, (long long)pos);
        if (s->status() != Error) { REQ(c, k == want, name + ":reset", "%s: expected %lld", w.c_str(), (long long)want); pos = want; if (pos < reach) REQ(c, s->status() == Ok, name + ":reset-status", "%s: status %s", w.c_str(), statusName(s->status())); }
        c.count("giant_resets");
        return state(w);
    }
    void minMax(int32_t& min, int32_t& max) {
        min = 1 + (int32_t)c.rng.len(c.rng.chance(1, 6) ? 100000 : 500);
        switch (c.rng.below(4)) { case 0: max = 0; break; case 1: max = min; break; case 2: max = min + (int32_t)c.rng.len(100000); break; default: max = c.rng.chance(1, 2) ? -1 : 0x7fffffff; }
    }
    void history(int ops) {
        for (int i = 0; i < ops && s->status() != Error; ++i) {
            int32_t min, max; minMax(min, max);
            switch (c.rng.below(7)) {
            case 0: skip(giantNumber(c.rng, 0x7fffffffffffffffLL)); break;
            case 1: skip(c.rng.len(1000)); break;
            case 2: reset(giantNumber(c.rng, N)); break;
            case 3: reset(c.rng.chance(1, 2) ? N - (int64_t)c.rng.below(N < 50 ? N + 1 : 50) : pos - (int64_t)c.rng.below(pos < 50 ? pos + 1 : 50)); break;
            default: read(min, max);
            }
        }
    }
    // jumps close to the end and reads the rest
    void end() {
        if (s->status() == Error) return;
        if (!reset(reach - (int64_t)c.rng.below(reach < 3000 ? reach + 1 : 3000))) return;
        for (int i = 0; i < 100000; ++i) {
            int32_t min, max; minMax(min, max);
            int64_t was = pos;
            if (!read(min, max)) break;
            if (pos == was) break;
        }
        if (mustError) REQ(c, s->status() == Error, name + ":false-end", "no error although only %lld of %lld bytes are there (status %s)", (long long)reach, (long long)N, statusName(s->status()));
        else REQ(c, s->status() == Eof && pos == N, name + ":end", "status %s at %lld of %lld", statusName(s->status()), (long long)pos, (long long)N);
    }
};
// a stream that cannot go back: reads, peeks, giant skips, resets out of reach
inline void giantForward(GiantMon& g) {
    Rng& r = g.c.rng;
    while (g.s->status() == Strigi::Ok) {
        int32_t min, max; g.minMax(min, max);
        switch (r.below(8)) {
        case 0: case 1: g.skip(giantNumber(r, g.N - g.pos)); break;
        case 2: { int64_t at = g.pos; if (g.read(min, max) && g.pos > at) { int64_t to = at + (int64_t)r.below(g.pos - at + 1); g.reset(to); } break; }
        case 3: { // may or may not be possible, but has to say where it is
            int64_t k = g.s->reset(r.chance(1, 2) ? 0 : r.below(g.N + 1));
            REQ(g.c, k == g.s->position() && k >= 0 && k <= g.N, g.name + ":reset", "reset gives %lld, position is %lld", (long long)k, (long long)g.s->position());
            g.pos = k; g.state("far reset"); break; }
        case 4: if (g.N - g.pos > 1000000) g.skip(g.N - g.pos - (int64_t)r.below(1000000)); break;
        default: g.read(min, max);
        }
    }
    REQ(g.c, g.s->status() == Strigi::Eof && g.pos == g.N, g.name + ":end", "status %s at %lld of %lld", statusName(g.s->status()), (long long)g.pos, (long long)g.N);
    g.read(1, 0);
    g.dig = mix(g.dig, g.N);
    g.c.distinct(g.dig);
    g.c.count("giant_streams");
}
inline int64_t giantLength(Rng& r) { return (r.chance(1, 2) ? 0x100000000LL : 0x80000000LL) - 5000 + (int64_t)r.len(300000); }
#endif
