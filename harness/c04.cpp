#include "streams.h"
#include "codecs.h"
#include "giantcodec.h"
#include <strigi/gzipinputstream.h>
using namespace Strigi;
static void one(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 30) ? 1500000 : 60000);
    GzOpts o = randomGz(c.rng);
    int f = (int)(c.idx % 3);
    if (f == 2 && o.wbits == 8) o.wbits = 9;
    Bytes e = f == 0 ? gzEncode(d, o) : f == 1 ? zlibEncode(d, o) : rawDeflate(d, o);
    Bytes trail;
    if (c.rng.chance(1, 3)) trail = c.rng.chance(1, 3) ? e : randomContent(c.rng, 3000);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, e + trail, pol);
    static const char* fn[] = { "gzip", "zlib", "deflate" };
    static const GZipInputStream::ZipFormat ff[] = { GZipInputStream::GZIPFORMAT, GZipInputStream::ZLIBFORMAT, GZipInputStream::ZIPFORMAT };
    c.note = fmt("%s %zu->%zu bytes, trailing %zu, level %d strategy %d wbits %d flush %d%s%s%s%s, %s", fn[f], d.size(), e.size(), trail.size(), o.level, o.strategy, o.wbits, o.flushEvery,
        o.extra ? " extra" : "", o.name ? " name" : "", o.comment ? " comment" : "", o.hcrc ? " hcrc" : "", pol.str().c_str());
    {
        GZipInputStream s(&in, ff[f]);
        MonOpts mo; mo.maxMin = 300000;
        Mon<char> m(c, &s, d, fn[f], mo);
        if (c.rng.chance(1, 4)) m.skip(1 + c.rng.len(d.size() + 10));
        m.run(c.rng, 3 + (int)c.rng.below(40));
    }
    // the caller can go on right after the compressed data
    if (in.status() != Error && pol.reset == 0 && c.rng.chance(1, 2)) {
        if (in.position() == (int64_t)e.size()) c.count("input_left_after_data");
    }
    c.count(fn[f]);
    if (trail.size()) c.count("with_trailing");
    c.sample(c.note);
}
static void badMagic(Case& c) {
    Bytes e = gzEncode(randomContent(c.rng, 500), randomGz(c.rng));
    switch (c.rng.below(3)) {
    case 0: e.resize(c.rng.below(2)); break;
    case 1: e[c.rng.below(2)] ^= (char)(1 + c.rng.below(255)); break;
    default: e = randomContent(c.rng, 200); if (e.size() > 1 && e[0] == 0x1f) e[0] = 0; break;
    }
    HostileInput in(c, e, randomPolicy(c.rng, false));
    GZipInputStream s(&in);
    c.note = "no gzip magic: " + hex(e, 8);
    REQ(c, s.status() == Error && *s.error(), "badmagic:status", "status %s error '%s'", statusName(s.status()), s.error());
    const char* p;
    REQ(c, s.read(p, 1, 0) == -2, "badmagic:read", "data from a stream without gzip header");
    c.count("bad_magic");
}
// contents of more than 2 or 4 GB
static void giant(Case& c) {
    int64_t n = giantLength(c.rng);
    int f = (int)c.rng.below(3);

    GiantInput ref(c, n, 10, giantFlat());
    giantMarks(c, ref);
    Bytes e = giantGzip(ref, f == 0 ? 31 : f == 1 ? 15 : -15);
    c.note = fmt("%lld bytes as %zu", (long long)n, e.size());
    HostileInput in(c, e, randomPolicy(c.rng, false));
    GZipInputStream s(&in, f == 0 ? GZipInputStream::GZIPFORMAT : f == 1 ? GZipInputStream::ZLIBFORMAT : GZipInputStream::ZIPFORMAT);
    GiantMon g(c, &s, ref, 0, n, "gzip-giant");
    giantForward(g);
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one content, one independent encoding (zlib library; gzip with random header fields, zlib, raw deflate; random level, strategy, window, flush points; optional trailing bytes), one hostile input chunking and one random consumer history, every call checked. Non-trivial: distinct (content, history, outcomes).";
    addSuite("giant", 8, 100, giant, 400);
    need("giant_streams", 8);
    addSuite("decode", 6000, 120000, one);
    addSuite("badmagic", 600, 5000, badMagic);
    need("gzip", 1000); need("zlib", 1000); need("deflate", 1000); need("with_trailing", 500); need("ends_seen", 4000); need("bad_magic", 300);
}
