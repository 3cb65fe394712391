#include "streams.h"
#include "codecs.h"
#include "gzipcompressstream.h"
using namespace Strigi;
static void one(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 20) ? 400000 : 30000);
    int level = (int)c.rng.range(-2, 11);
    InputPolicy pol = randomPolicy(c.rng, false);
    c.note = fmt("%zu bytes, level %d, %s", d.size(), level, pol.str().c_str());
    {
        HostileInput in(c, d, pol);
        GZipCompressInputStream s(&in, level);
        ReadResult r = readAll(c, &s, c.rng, 1 << 30, 1 + (int)c.rng.below(2));
        REQ(c, r.status == Eof && r.last == -1, "compress:end", "status %s after %zu bytes: %s", statusName(r.status), r.data.size(), r.error.c_str());
        bool complete = false;
        Bytes back = zlibDecode(r.data, complete);
        REQ(c, complete, "compress:incomplete", "the encoding is not one complete zlib stream (%zu bytes)", r.data.size());
        REQ(c, back == d, "compress:content", "decompresses to %zu bytes which differ from the %zu source bytes", back.size(), d.size());
    }
    {   // any consumer history sees the same bytes; they are only fixed once they were delivered
        HostileInput in(c, d, pol);
        GZipCompressInputStream s(&in, level);
        Bytes got;
        int64_t pos = 0, resets = 0;
        while (true) {
            const char* p = 0;
            int32_t min = 1 + (int32_t)c.rng.len(c.rng.chance(1, 4) ? 100000 : 500), max = c.rng.chance(1, 2) ? 0 : min + (int32_t)c.rng.below(100);
            int32_t n = s.read(p, min, max);
            if (n <= 0) { REQ(c, n == -1 && s.status() == Eof, "compress:end", "read gives %d, status %s", n, statusName(s.status())); break; }
            if (max >= min) REQ(c, n <= max, "compress:above-max", "%d bytes, at most %d were asked for", n, max);
            for (int32_t i = 0; i < n; ++i) {
                if (pos + i < (int64_t)got.size()) REQ(c, got[pos + i] == p[i], "compress:reread", "byte %lld changed when it was read again", (long long)(pos + i));
                else got += p[i];
            }
            int64_t start = pos;
            pos += n;
            REQ(c, s.position() == pos, "compress:position", "position %lld, expected %lld", (long long)s.position(), (long long)pos);
            if (n < min) REQ(c, s.status() == Eof, "compress:below-min", "%d of at least %d bytes, status %s", n, min, statusName(s.status()));
            if (resets < 200 && c.rng.chance(1, 3)) {
                int64_t to = c.rng.range(start, pos);
                REQ(c, s.reset(to) == to, "compress:reset", "reset into the last segment fails");
                REQ(c, memcmp(p, got.data() + start, n) == 0, "compress:reset-content", "the segment changed by a reset into it");
                pos = to; ++resets; c.count("resets_in_segment");
            }
        }
        REQ(c, s.size() == (int64_t)got.size(), "compress:size", "size %lld after %zu bytes", (long long)s.size(), got.size());
        bool complete = false;
        Bytes back = zlibDecode(got, complete);
        REQ(c, complete && back == d, "compress:history", "the bytes read under another history decompress to %zu bytes%s, expected %zu", back.size(), complete ? "" : " (incomplete)", d.size());
        c.distinct(mix(hashStr(got), resets));
    }
    c.count("compressed");
    c.sample(c.note);
}
static void failing(Case& c) {
    Bytes d = randomContent(c.rng, 30000);
    InputPolicy pol = randomPolicy(c.rng, false);
    if (pol.chunk == 0) pol.chunk = 3;
    HostileInput in(c, d, pol);
    in.failAt = c.rng.below(c.rng.chance(1, 2) ? 3 : 1 + d.size() / pol.n);
    c.note = fmt("%zu bytes, source fails at call %lld, %s", d.size(), (long long)in.failAt, pol.str().c_str());
    GZipCompressInputStream s(&in, 6);
    ReadResult r = readAll(c, &s, c.rng, 1 << 30, 1);
    if (!in.failed) return;
    REQ(c, r.status == Error && !r.error.empty(), "compress:fault-lost", "status %s although the source failed", statusName(r.status));
    bool complete = false;
    Bytes back = zlibDecode(r.data, complete);
    REQ(c, back.size() <= d.size() && memcmp(back.data(), d.data(), back.size()) == 0, "compress:fault-content", "the encoding delivered before the fault is wrong");
    const char* p;
    REQ(c, s.read(p, 1, 0) == -2, "compress:fault-sticky", "read after the error");
    c.count("failing_sources");
}
void registerSuites() {
    g_rule = "one case = one source (content, chunking), one level; the produced bytes are decompressed with zlib directly and compared with the source, then a second stream over the same source is read under a random history of reads and resets, must repeat bytes exactly and again decompress to the source; plus sources failing at a random call. Non-trivial: distinct (content, history, outcomes).";
    addSuite("compress", 2500, 40000, one);
    addSuite("failing", 1500, 20000, failing);
    need("compressed", 1500); need("resets_in_segment", 1000); need("failing_sources", 500);
}
