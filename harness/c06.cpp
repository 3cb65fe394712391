#include "streams.h"
#include "codecs.h"
#include "giantcodec.h"
#include <strigi/lzmainputstream.h>
using namespace Strigi;
static void one(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 30) ? 1200000 : 40000);
    LzOpts o = randomLz(c.rng);
    // the header form with a known size is only supported for contents larger than the dictionary
    if (o.known) { if (o.dict > 8192) o.dict = 4096; if (d.size() <= o.dict) d += textContent(c.rng, o.dict - d.size() + 1 + c.rng.len(3000)); }
    Bytes e = lzmaEncode(d, o);
    Bytes trail;
    if (c.rng.chance(1, 4)) trail = randomContent(c.rng, 3000);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, e + trail, pol);
    c.note = fmt("lzma %zu->%zu bytes, dict %u, size %s, trailing %zu, %s", d.size(), e.size(), o.dict, o.known ? "known" : "unknown", trail.size(), pol.str().c_str());
    {
        LZMAInputStream s(&in);
        MonOpts mo; mo.maxMin = 300000;
        Mon<char> m(c, &s, d, o.known ? "lzma-known" : "lzma-unknown", mo);
        if (o.known) REQ(c, s.size() == (int64_t)d.size(), "lzma-known:size", "size %lld", (long long)s.size());
        if (c.rng.chance(1, 4)) m.skip(1 + c.rng.len(d.size() + 10));
        m.run(c.rng, 3 + (int)c.rng.below(40));
    }
    c.count(o.known ? "known_size" : "unknown_size");
    c.sample(c.note);
}
// tiny output requests, so that the decoder stops in the middle of matches
static void tiny(Case& c) {
    LzOpts o = randomLz(c.rng);
    o.dict = 4096;
    Bytes d = randomContent(c.rng, 200) + textContent(c.rng, 4200);
    for (int i = 0; i < 6; ++i) d += d.substr(c.rng.below(3000), c.rng.below(600));
    d.append(c.rng.below(600), d[d.size() - 1]);
    Bytes e = lzmaEncode(d, o);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, e, pol);
    c.note = fmt("lzma %zu->%zu bytes, size %s, read in small steps near the end, %s", d.size(), e.size(), o.known ? "known" : "unknown", pol.str().c_str());
    LZMAInputStream s(&in);
    Mon<char> m(c, &s, d, o.known ? "lzma-known" : "lzma-unknown");
    int32_t first = (int32_t)(262144 + 1 + c.rng.below(10));
    (void)first;
    int step = 1 + (int)c.rng.below(7);
    while (true) { int64_t k = m.read(step, step); if (k < 0) break; }
    m.drain(c.rng);
    c.count("small_steps");
    c.distinct(hashStr(e));
}
// symbols no compressor would choose: distances up to the edge of the dictionary,
// repeats at any place, matches of every length
static void symbols(Case& c) {
    LzSyms e = lzmaSymbols(c.rng, c.rng.chance(1, 10) ? 60000 : 12000, 0);
    HostileInput in(c, e.encoded, randomPolicy(c.rng, false));
    c.note = fmt("lzma symbols %zu->%zu bytes, dict %u, size %s", e.content.size(), e.encoded.size(), e.dict, e.known ? "known" : "unknown");
    LZMAInputStream s(&in);
    MonOpts mo; mo.maxMin = 300000;
    Mon<char> m(c, &s, e.content, e.known ? "lzma-known" : "lzma-unknown", mo);
    if (c.rng.chance(1, 3)) { int step = 1 + (int)c.rng.below(50); while (m.read(step, step) >= 0) {} }
    m.run(c.rng, 2 + (int)c.rng.below(20));
    c.count("symbol_streams"); if (e.content.size() > e.dict) c.count("full_dictionaries");
    c.distinct(hashStr(e.encoded)); c.sample(c.note);
}
static void badMagic(Case& c) {
    LzOpts o = randomLz(c.rng);
    o.known = false;
    Bytes e = lzmaEncode(randomContent(c.rng, 5000), o);
    switch (c.rng.below(3)) {
    case 0: e.resize(c.rng.below(13)); break;
    case 1: e[c.rng.below(2)] ^= (char)(1 + c.rng.below(255)); break;
    default: e = randomContent(c.rng, 200); if (e.size() > 1 && e[0] == 0x5d) e[0] = 0; break;
    }
    HostileInput in(c, e, randomPolicy(c.rng, false));
    c.note = "no lzma header: " + hex(e, 14);
    LZMAInputStream s(&in);
    REQ(c, s.status() == Error && *s.error(), "badmagic:status", "status %s error '%s'", statusName(s.status()), s.error());
    const char* p;
    REQ(c, s.read(p, 1, 0) == -2, "badmagic:read", "data from a stream without lzma header");
    c.count("bad_magic");
}
// contents of more than 2 or 4 GB
static void giant(Case& c) {
    int64_t n = giantLength(c.rng);
    if (!c.thorough) n = 0x80000000LL + (int64_t)c.rng.len(100000);

    GiantInput ref(c, n, 10, giantFlat());
    giantMarks(c, ref);
    Bytes e = giantLzma(ref, c.idx % 2);
    c.note = fmt("%lld bytes as %zu", (long long)n, e.size());
    HostileInput in(c, e, randomPolicy(c.rng, false));
    LZMAInputStream s(&in);
    GiantMon g(c, &s, ref, 0, n, "lzma-giant");
    giantForward(g);
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one content, one LZMA-alone encoding by liblzma (random dictionary, match finder, mode; size in the header or end marker; optional trailing bytes), one hostile input chunking and one random consumer history, every call checked. Non-trivial: distinct (content, history, outcomes).";
    g_assumptions.push_back("LZMA headers are those the library documents as supported: properties byte 5d, dictionary at most 32 MiB, a known size larger than the dictionary");
    addSuite("giant", 2, 24, giant, 800);
    need("giant_streams", 2);
    addSuite("decode", 2500, 40000, one);
    addSuite("symbols", 1500, 40000, symbols);
    need("symbol_streams", 1000); need("full_dictionaries", 400);
    addSuite("tiny", 1200, 20000, tiny);
    addSuite("badmagic", 600, 5000, badMagic);
    need("known_size", 500); need("unknown_size", 500); need("ends_seen", 2000); need("bad_magic", 300); need("small_steps", 600);
}
