// Hostile inputs and the stream-contract monitor.
#ifndef VERIF_STREAMS_H
#define VERIF_STREAMS_H
#include "core.h"
#include <strigi/streambase.h>
#include <string.h>
#include <stdlib.h>
#include <memory>

using Strigi::StreamBase;
using Strigi::InputStream;
using Strigi::Ok;
using Strigi::Eof;
using Strigi::Error;

inline Bytes narrow(const Bytes& b) { return b; }
inline const char* statusName(Strigi::StreamStatus s) { return s == Ok ? "Ok" : s == Eof ? "Eof" : s == Error ? "Error" : "?"; }

// How a HostileInput behaves. Everything here is allowed by the documentation
// of StreamBase.
struct InputPolicy {
    int chunk;        // 0: as much as allowed, 1: exactly min, 2: random, 3: fixed size (n) but at least min
    int64_t n;
    bool knowSize;
    bool eagerEof;    // Eof status as soon as the last byte was delivered
    int reset;        // 0: any position, 1: only inside the last segment
    bool freshBuf;    // every read returns a fresh exact-size heap block, freed at the next call
    uint64_t seed;
    InputPolicy() : chunk(0), n(0), knowSize(true), eagerEof(true), reset(0), freshBuf(true), seed(1) {}
    std::string str() const;
};
InputPolicy randomPolicy(Rng& r, bool fullReset);

template <class T>
class HostileStream : public StreamBase<T> {
public:
    std::basic_string<T> data;
    InputPolicy pol;
    Case* c;
    Rng rng;
    int64_t failAt;      // fail from this call on (-1: never)
    int64_t calls, reads, skips, resets, budget, delivered, asked, badArgs;
    bool failed, quietBudget;   // quietBudget: running out just ends the case
    bool* deletedFlag;
private:
    T* seg; int64_t segStart, segLen;
    void dropSeg() { if (pol.freshBuf) free(seg); seg = 0; segLen = 0; }
    bool step() {
        ++calls;
        if (budget >= 0 && calls > budget) {
            budget = -1;
            if (quietBudget) { c->count("cases_out_of_budget"); throw CaseAbort(); }
            c->fail("work-budget", "more than the allowed number of calls on the input (%lld; input has %lld items, at %lld)",
                (long long)calls, (long long)data.size(), (long long)this->m_position);
        }
        if (failed) return false;
        if (failAt >= 0 && calls > failAt) {
            failed = true;
            this->m_status = Error;
            this->m_error = "injected fault";
            return false;
        }
        return true;
    }
public:
    HostileStream(Case& cc, const std::basic_string<T>& d, const InputPolicy& p)
        : data(d), pol(p), c(&cc), rng(p.seed), failAt(-1), calls(0), reads(0), skips(0), resets(0), budget(-1), delivered(0), asked(0), badArgs(0), failed(false), quietBudget(false), deletedFlag(0), seg(0), segStart(0), segLen(0) {
        this->m_size = p.knowSize ? (int64_t)d.size() : -1;
    }
    ~HostileStream() { dropSeg(); if (deletedFlag) *deletedFlag = true; }
    int64_t length() const { return (int64_t)data.size(); }
    void eof() { this->m_status = Eof; this->m_size = length(); }
    int32_t read(const T*& start, int32_t min, int32_t max) {
        ++reads;
        if (!step()) return -2;
        if (this->m_status == Error) return -2;
        if (this->m_status == Eof) return -1;
        bool unlimited = max < min || max < 1;
        if (min < 1) { ++badArgs; min = 1; }
        int64_t left = length() - this->m_position;
        dropSeg();
        if (left == 0) { eof(); return -1; }
        int64_t hi = unlimited ? left : (max < left ? max : left);
        int64_t lo = min < left ? min : left;
        if (hi < lo) hi = lo;
        asked += lo;
        int64_t k = hi;
        switch (pol.chunk) {
        case 0: k = hi; break;
        case 1: k = lo; break;
        case 2: k = rng.chance(1, 3) ? lo : rng.range(lo, hi > lo + 5000 && rng.chance(1, 2) ? lo + 5000 : hi); break;
        case 3: { // boundaries at multiples of n where possible
            int64_t b = pol.n - this->m_position % pol.n;
            while (b < lo) b += pol.n;
            k = b > hi ? hi : b;
            break; }
        }
        // an unknown-size stream that cannot tell yet that it ended
        if (pol.freshBuf) {
            seg = (T*)malloc(k * sizeof(T) ? k * sizeof(T) : 1);
            memcpy(seg, data.data() + this->m_position, k * sizeof(T));
        } else seg = const_cast<T*>(data.data()) + this->m_position;
        segStart = this->m_position; segLen = k;
        start = seg;
        this->m_position += k;
        delivered += k;
        if (this->m_position == length() && (pol.eagerEof || k < min)) eof();
        return (int32_t)k;
    }
    int64_t skip(int64_t n) {
        ++skips;
        if (!step()) return -2;
        if (this->m_status == Error) return -2;
        if (n <= 0) return 0;
        dropSeg();
        int64_t left = length() - this->m_position;
        int64_t k = n < left ? n : left;
        this->m_position += k;
        if (k < n || (pol.eagerEof && this->m_position == length())) eof();
        return k;
    }
    int64_t reset(int64_t p) {
        ++resets;
        if (!step()) return -2;
        if (this->m_status == Error) return -2;
        if (seg && p >= segStart && p <= segStart + segLen) {
            // stays valid
        } else if (pol.reset == 1 && p != this->m_position) {
            return this->m_position;
        } else {
            if (p < 0) p = 0;
            if (p > length()) p = length();
            if (p != this->m_position) dropSeg();
        }
        this->m_position = p;
        this->m_status = (p == length() && pol.eagerEof) ? Eof : Ok;
        if (this->m_status == Eof) this->m_size = length();
        return p;
    }
};
typedef HostileStream<char> HostileInput;

struct MonOpts {
    bool fullSeek;       // every reset inside the stream must succeed
    bool seekNeverFails; // unused
    enum End { ExactEof, MustError, EofOrError } end;
    bool sizeMayBeKnown;
    const char* prefix;  // counter prefix
    bool errorAfterFarReset; // a reset outside the last segment may put the stream in error
    int64_t maxMin;      // largest min asked for
    MonOpts() : fullSeek(false), seekNeverFails(false), end(ExactEof), sizeMayBeKnown(true), prefix(""), errorAfterFarReset(false), maxMin(1 << 20) {}
};

// Watches every call on a stream and compares it with the model "the content is ref".
template <class T>
class Mon {
public:
    Case& c;
    StreamBase<T>* s;
    std::basic_string<T> ref;
    int64_t N;
    std::string name;
    MonOpts o;
    int64_t pos;
    bool ended, errored;
    uint64_t dig;
    const T* seg; int64_t segStart, segLen;
    int64_t nread, nskip, nreset, nbytes;
    Mon(Case& cc, StreamBase<T>* st, const std::basic_string<T>& r, const std::string& nm, const MonOpts& oo = MonOpts())
        : c(cc), s(st), ref(r), N((int64_t)r.size()), name(nm), o(oo), pos(0), ended(false), errored(false), dig(7), seg(0), segStart(0), segLen(0),
          nread(0), nskip(0), nreset(0), nbytes(0) {
        pos = s->position();
        REQ(c, pos == 0, name + ":position", "a new stream is at position %lld", (long long)pos);
        checkState("after construction");
    }
    ~Mon() {
        c.count("reads", nread); c.count("skips", nskip); c.count("resets", nreset); c.count("bytes", nbytes);
        if (ended) c.count("ends_seen");
        if (errored) c.count("errors_seen");
    }
    void checkState(const char* when) {
        Strigi::StreamStatus st = s->status();
        if (st == Error) {
            if (o.end == MonOpts::ExactEof) c.fail(name + ":error", "error status %s at %lld of %lld: '%s'", when, (long long)pos, (long long)N, s->error());
            errored = true;
            REQ(c, s->error() && *s->error(), name + ":no-message", "error status without a message (%s)", when);
            return;
        }
        REQ(c, st == Ok || st == Eof, name + ":status", "strange status %d", (int)st);
        REQ(c, s->position() == pos, name + ":position", "position %lld %s, expected %lld (size %lld)", (long long)s->position(), when, (long long)pos, (long long)N);
        if (st == Eof) {
            if (o.end == MonOpts::MustError) c.fail(name + ":false-end", "end of stream %s at %lld, an error was due (reference has %lld)", when, (long long)pos, (long long)N);
            REQ(c, pos == N, name + ":early-end", "end of stream %s at %lld but the content has %lld items", when, (long long)pos, (long long)N);
            REQ(c, s->size() == N, name + ":size", "size %lld at the end %s, content has %lld", (long long)s->size(), when, (long long)N);
            ended = true;
        } else if (o.end != MonOpts::MustError) {
            REQ(c, s->size() == -1 || s->size() == N, name + ":size", "size %lld %s, content has %lld", (long long)s->size(), when, (long long)N);
        }
    }
    // compares a delivered segment
    void compare(const T* p, int64_t at, int64_t n, const char* when) {
        REQ(c, at + n <= N, name + ":too-long", "%s: delivered up to %lld, the content has only %lld items", when, (long long)(at + n), (long long)N);
        if (n && memcmp(p, ref.data() + at, n * sizeof(T)) != 0) {
            int64_t i = 0;
            while (p[i] == ref[at + i]) ++i;
            c.fail(name + ":content", "%s: item %lld is %#lx, expected %#lx (segment at %lld, %lld items, content %lld)", when, (long long)(at + i),
                (unsigned long)p[i], (unsigned long)ref[at + i], (long long)at, (long long)n, (long long)N);
        }
    }
    int64_t read(int32_t min, int32_t max) {
        ++nread;
        Strigi::StreamStatus before = s->status();
        const T* p = 0;
        int32_t r = s->read(p, min, max);
        std::string w = fmt("after read(%d,%d)=%d at %lld", min, max, r, (long long)pos);
        seg = 0; segLen = 0;
        if (before == Error) {
            REQ(c, r == -2, name + ":error-not-sticky", "%s in error status", w.c_str());
            REQ(c, s->status() == Error, name + ":error-not-sticky", "%s: status %s after an error", w.c_str(), statusName(s->status()));
            errored = true;
            return r;
        }
        if (before == Eof && !(o.end == MonOpts::EofOrError && r == -2)) REQ(c, r == -1, name + ":read-at-end", "%s although the stream had ended", w.c_str());
        if (r > 0) {
            REQ(c, p, name + ":null", "%s: null pointer", w.c_str());
            if (max >= min) REQ(c, r <= max, name + ":above-max", "%s", w.c_str());
            compare(p, pos, r, w.c_str());
            segStart = pos; seg = p; segLen = r;
            pos += r; nbytes += r;
            if (r < min && s->status() != Error) {
                REQ(c, pos == N, name + ":below-min", "%s: less than min but the content has %lld", w.c_str(), (long long)N);
                REQ(c, s->status() == Eof, name + ":below-min-status", "%s: less than min but status is %s", w.c_str(), statusName(s->status()));
            }
        } else if (r == -1) {
            REQ(c, pos == N || s->status() == Error, name + ":early-end", "%s, content has %lld", w.c_str(), (long long)N);
            REQ(c, s->status() == Eof, name + ":end-status", "%s: status is %s", w.c_str(), statusName(s->status()));
        } else if (r == -2) {
            REQ(c, s->status() == Error, name + ":error-status", "%s: status is %s", w.c_str(), statusName(s->status()));
        } else {
            c.fail(name + ":bad-return", "%s", w.c_str());
        }
        checkState(w.c_str());
        return r;
    }
    int64_t skip(int64_t n) {
        ++nskip;
        Strigi::StreamStatus before = s->status();
        int64_t r = s->skip(n);
        std::string w = fmt("after skip(%lld)=%lld at %lld", (long long)n, (long long)r, (long long)pos);
        seg = 0; segLen = 0;
        if (before == Error) {
            REQ(c, r <= 0 && s->status() == Error, name + ":error-not-sticky", "%s in error status", w.c_str());
            return r;
        }
        int64_t left = N - pos;
        int64_t want = n < left ? n : left;
        if (s->status() == Error) {
            pos = s->position();
            checkState(w.c_str());
            return r;
        }
        if (o.end == MonOpts::ExactEof || r > 0) {
            if (want > 0) REQ(c, r == want || (o.end != MonOpts::ExactEof && r < want), name + ":skip", "%s: expected to skip %lld (content has %lld)", w.c_str(), (long long)want, (long long)N);
            else REQ(c, r <= 0, name + ":skip", "%s: skipped beyond the end %lld", w.c_str(), (long long)N);
        }
        if (r > 0) pos += r;
        checkState(w.c_str());
        return r;
    }
    int64_t reset(int64_t p) {
        ++nreset;
        Strigi::StreamStatus before = s->status();
        bool in = seg && p >= segStart && p <= segStart + segLen;
        int64_t r = s->reset(p);
        std::string w = fmt("after reset(%lld)=%lld at %lld", (long long)p, (long long)r, (long long)pos);
        if (before == Error) {
            REQ(c, s->status() == Error, name + ":error-not-sticky", "%s in error status: now %s", w.c_str(), statusName(s->status()));
            return r;
        }
        if (in && o.end != MonOpts::ExactEof && s->status() == Error) {
            seg = 0; segLen = 0;   // the input failed
            pos = s->position();
            checkState(w.c_str());
            return r;
        } else if (in) {
            REQ(c, r == p, name + ":reset-in-segment", "%s: segment is [%lld,%lld]", w.c_str(), (long long)segStart, (long long)(segStart + segLen));
            pos = p;
            compare(seg, segStart, segLen, "segment after reset into it");
            c.count("resets_in_segment");
        } else {
            seg = 0; segLen = 0;
            if (s->status() == Error) {
                REQ(c, o.errorAfterFarReset || o.end != MonOpts::ExactEof, name + ":reset-error", "%s: error '%s'", w.c_str(), s->error());
                checkState(w.c_str());
                return r;
            }
            int64_t q = s->position();
            REQ(c, r == q, name + ":reset-return", "%s: position is %lld", w.c_str(), (long long)q);
            if (p <= N && o.fullSeek) REQ(c, r == p, name + ":reset-seek", "%s: a seekable stream must reach any position", w.c_str());
            REQ(c, q >= 0 && q <= N, name + ":reset-range", "%s: position outside the content (%lld)", w.c_str(), (long long)N);
            REQ(c, q == p || q == pos || q == N || o.fullSeek || o.end != MonOpts::ExactEof, name + ":reset-moved", "%s: moved to neither the old nor the new position", w.c_str());
            if (q != pos) c.count("resets_far_ok");
            pos = q;
        }
        if (pos < N) REQ(c, s->status() == Ok, name + ":reset-status", "%s: status %s but %lld items are left", w.c_str(), statusName(s->status()), (long long)(N - pos));
        checkState(w.c_str());
        return r;
    }
    void randomMinMax(Rng& r, int32_t& min, int32_t& max) {
        int64_t cap = o.maxMin;
        min = (int32_t)(1 + (r.chance(1, 2) ? 0 : r.len(r.chance(1, 8) ? cap - 1 : (N + 20 < cap ? N + 20 : cap - 1))));
        switch (r.below(4)) {
        case 0: max = 0; break;
        case 1: max = min; break;
        case 2: max = min + (int32_t)r.len(100000); break;
        default: max = r.chance(1, 4) ? -1 : min + (int32_t)r.below(16); break;
        }
        // "everything at once" and "no limit" as callers write them
        if (r.chance(1, 40)) { min = 0x7fffffff - (r.chance(1, 3) ? (int32_t)r.below(70000) : 0); max = r.chance(1, 2) ? 0 : 0x7fffffff; }
        else if (r.chance(1, 40)) max = 0x7fffffff - (r.chance(1, 2) ? (int32_t)r.below(5) : 0);
    }
    // a random history of at most ops operations
    void history(Rng& r, int ops) {
        int style = (int)r.below(5);
        for (int i = 0; i < ops; ++i) {
            int w = (int)r.below(20);
            int32_t min, max;
            randomMinMax(r, min, max);
            if (style == 0) w = 0;                 // reads only
            if (style == 1 && w >= 10) w = 12;     // reads and peeks
            if (w < 9) read(min, max);
            else if (w < 12) skip(r.chance(1, 30) ? 0x7fffffffffffffffLL - (int64_t)r.below(3) : r.len(r.chance(1, 5) ? N + 10000 : 600));
            else if (w < 15) {                     // peek
                int64_t at = pos;
                int64_t k = read(min, max);
                if (k > 0) reset(at);
            } else if (w < 17) {
                if (seg) reset(r.range(segStart, segStart + segLen));
                else read(min, max);
            } else if (w < 18) reset(r.below(N + 1));
            else if (w < 19) reset(r.chance(1, 2) ? 0 : N + r.below(100));
            else reset(pos > 0 ? pos - (int64_t)r.below(pos < 40 ? pos + 1 : 40) : 0);
            dig = mix(dig, hashBytes(&pos, sizeof pos) + s->status());
            if (style == 0 && s->status() != Ok) break;
        }
    }
    // reads to the end and makes sure the end behaves
    void drain(Rng& r) {
        int64_t guard = 0;
        while (true) {
            int32_t min = 1, max = 0;
            switch (r.below(3)) {
            case 0: min = 1; max = 0; break;
            case 1: randomMinMax(r, min, max); break;
            default: min = 1 + (int32_t)r.len(3000); max = min; break;
            }
            int64_t k = read(min, max);
            if (k < 0) break;
            REQ(c, ++guard < N + 100000, name + ":no-end", "reading does not end");
        }
        if (o.end == MonOpts::MustError) REQ(c, s->status() == Error, name + ":false-end", "no error at the end (status %s)", statusName(s->status()));
        if (s->status() == Eof) REQ(c, pos == N, name + ":early-end", "ended at %lld of %lld", (long long)pos, (long long)N);
        for (int i = 0; i < 2; ++i) read(1, 0);
    }
    void run(Rng& r, int ops) {
        history(r, ops);
        drain(r);
        if (r.chance(1, 2) && s->status() != Error) {
            history(r, ops / 2 + 1);
            drain(r);
        }
        c.distinct(mix(dig, mix(hashBytes(ref.data(), ref.size() * sizeof(T)), nread * 1000003 + nskip * 1009 + nreset)));
    }
};

// Reads a stream to its end without checks; used where only the outcome matters.
struct ReadResult { Bytes data; Strigi::StreamStatus status; std::string error; int32_t last; bool sticky; ReadResult() : status(Ok), last(0), sticky(true) {} };
ReadResult readAll(Case& c, InputStream* s, Rng& r, int64_t maxBytes, int mode = -1);

// content generators
Bytes randomContent(Rng& r, int64_t maxLen);
Bytes textContent(Rng& r, int64_t len);
#endif
