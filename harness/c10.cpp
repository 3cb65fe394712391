#include "streams.h"
#include "giant.h"
#include <strigi/dataeventinputstream.h>
using namespace Strigi;
struct Recorder : public DataEventHandler {
    Case& c; const Bytes& ref; std::string name; int64_t declineAfter; int64_t calls; int ends; bool declined; int64_t got;
    Recorder(Case& cc, const Bytes& r, const std::string& n, int64_t d) : c(cc), ref(r), name(n), declineAfter(d), calls(0), ends(0), declined(false), got(0) {}
    bool handleData(const char* data, uint32_t size) {
        ++calls; c.count("data_events");
        REQ(c, !declined, name + ":after-decline", "data event %lld after the handler declined", (long long)calls);
        REQ(c, ends == 0, name + ":after-end", "data event after the end event");
        REQ(c, got + size <= ref.size(), name + ":too-much", "events cover %lld bytes, the content has %zu", (long long)(got + size), ref.size());
        REQ(c, memcmp(data, ref.data() + got, size) == 0, name + ":content", "event %lld at %lld (%u bytes) differs from the content", (long long)calls, (long long)got, size);
        REQ(c, size > 0, name + ":empty", "empty data event");
        got += size;
        if (declineAfter >= 0 && calls > declineAfter) { declined = true; c.count("declined"); return false; }
        return true;
    }
    void handleEnd() {
        ++ends; c.count("end_events");
        REQ(c, ends == 1, name + ":two-ends", "end event %d", ends);
        REQ(c, declined || got == (int64_t)ref.size(), name + ":early-end", "end event after %lld of %zu bytes", (long long)got, ref.size());
    }
};
static void one(Case& c) {
    Bytes d = randomContent(c.rng, 20000);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, d, pol);
    int depth = 1 + (int)c.rng.below(3);
    std::vector<Recorder*> h;
    std::vector<DataEventInputStream*> st;
    struct Free { std::vector<Recorder*>& h; std::vector<DataEventInputStream*>& s; ~Free() { for (auto x : s) delete x; for (auto x : h) delete x; } } fr = { h, st };
    InputStream* top = &in;
    std::string dd;
    for (int i = 0; i < depth; ++i) {
        int64_t decl = c.rng.chance(1, 3) ? (int64_t)c.rng.below(6) : -1;
        dd += decl >= 0 ? fmt(" declines after %lld", (long long)decl) : " stays";
        h.push_back(new Recorder(c, d, "handler", decl));
        st.push_back(new DataEventInputStream(top, *h.back()));
        top = st.back();
    }
    c.note = fmt("%zu bytes, %d handlers (%s), %s", d.size(), depth, dd.c_str(), pol.str().c_str());
    MonOpts o; o.maxMin = 50000;
    Mon<char> m(c, top, d, "events", o);
    m.run(c.rng, 4 + (int)c.rng.below(50));
    for (int i = 0; i < depth; ++i) {
        if (!h[i]->declined) REQ(c, h[i]->got == (int64_t)d.size(), "handler:missing", "handler %d saw %lld of %zu bytes", i, (long long)h[i]->got, d.size());
        bool below = true;
        for (int k = i + 1; k < depth; ++k) if (h[k]->declined) below = false; // a later stage may skip without reading
        if (!h[i]->declined && below) REQ(c, h[i]->ends == 1, "handler:no-end", "handler %d got %d end events", i, h[i]->ends);
    }
    c.sample(c.note);
}
static void failing(Case& c) {
    Bytes d = randomContent(c.rng, 5000);
    InputPolicy pol = randomPolicy(c.rng, false);
    pol.chunk = 3; pol.n = 1 + c.rng.below(300);
    HostileInput in(c, d, pol);
    in.failAt = c.rng.below(2 + d.size() / pol.n);
    Recorder r(c, d, "handler-fail", -1);
    DataEventInputStream s(&in, r);
    c.note = fmt("input fails at call %lld", (long long)in.failAt);
    MonOpts o; o.end = MonOpts::EofOrError;
    Mon<char> m(c, &s, d, "events-fail", o);
    while (m.read(1 + (int)c.rng.below(10), 0) > 0) {}
    if (in.failed) {
        REQ(c, s.status() == Error, "events-fail:lost", "input error lost: %s", statusName(s.status()));
        REQ(c, r.ends == 0, "events-fail:end", "end event although the input failed");
        c.count("failing_inputs");
    }
}
struct GiantRecorder : public DataEventHandler {
    Case& c; GiantInput& in; int64_t got; int ends;
    GiantRecorder(Case& cc, GiantInput& i) : c(cc), in(i), got(0), ends(0) {}
    bool handleData(const char* d, uint32_t n) {
        REQ(c, ends == 0 && n > 0 && n <= in.total - got, "handler-giant:event", "%u bytes at %lld of %lld", n, (long long)got, (long long)in.total);
        REQ(c, in.equal(d, got, n), "handler-giant:content", "%u bytes at %lld are others", n, (long long)got);
        got += n; c.count("giant_events");
        return true;
    }
    void handleEnd() { ++ends; }
};
static void giant(Case& c) {
    int64_t n = (c.idx % 2 ? 0x100000000LL : 0x80000000LL) - 5000 + (int64_t)c.rng.len(200000);
    GiantInput in(c, n, 1000);
    in.chunk = 500000 + c.rng.below(8000000 - 500000);
    in.parts[n - 1000] = "the end is near";
    c.note = fmt("%lld bytes in pieces of %lld", (long long)n, (long long)in.chunk);
    GiantRecorder r(c, in);
    DataEventInputStream s(&in, r);
    GiantMon g(c, &s, in, 0, n, "events-giant");
    int back = 1 + (int)c.rng.below(3);
    for (int i = 0; i < back; ++i) {
        if (i) g.reset(c.rng.below(g.pos + 1));   // read again: no second events
        int32_t min, max; g.minMax(min, max);
        g.read(min, max);
        int64_t to = (int64_t)((double)n * (i + 1) / (back + 1));
        if (c.rng.chance(1, 2)) g.skip(to > g.pos ? to - g.pos : 1); else g.reset(to);
    }
    g.history(3); g.end();
    REQ(c, r.got == n && r.ends == 1, "handler-giant:end", "events for %lld of %lld bytes, %d end events", (long long)r.got, (long long)n, r.ends);
    c.count("giant_event_streams"); c.distinct(g.dig);
}
void registerSuites() {
    g_rule = "one case = one content, 1-3 chained event streams whose handlers stay or decline after some events, one hostile chunking, one random history; each handler checks every event against the content online (order, exactly once, end last and once) while the stream contract is checked on top. Non-trivial: distinct (content, history, outcomes).";
    addSuite("history", 10000, 200000, one);
    addSuite("giant", 24, 400, giant, 100);
    need("giant_event_streams", 20);
    addSuite("failing", 2000, 30000, failing);
    need("data_events", 20000); need("end_events", 5000); need("declined", 1000); need("failing_inputs", 300); need("resets_in_segment", 2000);
}
