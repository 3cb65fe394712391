#include "streams.h"
#include "codecs.h"
#include "giantcodec.h"
#include <strigi/bz2inputstream.h>
using namespace Strigi;
static void one(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 40) ? 1500000 : c.rng.chance(1, 8) ? 250000 : 20000);
    int block = 1 + (int)c.rng.below(9);
    Bytes e = bz2Encode(d, block, (int)c.rng.below(2) * 30);
    Bytes trail;
    if (c.rng.chance(1, 3)) trail = c.rng.chance(1, 3) ? e : randomContent(c.rng, 3000);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, e + trail, pol);
    c.note = fmt("bz2 %zu->%zu bytes, block %d, trailing %zu, %s", d.size(), e.size(), block, trail.size(), pol.str().c_str());
    {
        BZ2InputStream s(&in);
        MonOpts mo; mo.maxMin = 300000;
        Mon<char> m(c, &s, d, "bz2", mo);
        if (c.rng.chance(1, 4)) m.skip(1 + c.rng.len(d.size() + 10));
        m.run(c.rng, 3 + (int)c.rng.below(40));
    }
    c.count("bz2");
    if (d.empty()) c.count("empty_content");
    if ((int)d.size() > block * 100000) c.count("multi_block");
    c.sample(c.note);
}
static void badMagic(Case& c) {
    Bytes e = bz2Encode(randomContent(c.rng, 500), 9, 0);
    switch (c.rng.below(3)) {
    case 0: e.resize(c.rng.below(10)); break;
    case 1: { int at = (int)c.rng.below(2); e[at] ^= (char)(1 + c.rng.below(255)); break; }
    default: e = randomContent(c.rng, 200); if (e.size() > 1 && e[0] == 'B') e[0] = 0; break;
    }
    HostileInput in(c, e, randomPolicy(c.rng, false));
    c.note = "no bz2 magic: " + hex(e, 12);
    {
        BZ2InputStream s(&in);
        REQ(c, s.status() == Error && *s.error(), "badmagic:status", "status %s error '%s'", statusName(s.status()), s.error());
        const char* p;
        REQ(c, s.read(p, 1, 0) == -2, "badmagic:read", "data from a stream without bz2 header");
    }
    c.count("bad_magic");
}
// contents of more than 2 GB
static void giant(Case& c) {
    int64_t n = giantLength(c.rng);
    n &= 0x80ffffffLL; if (n < 0x80000000LL) n += 0x80000000LL;

    GiantInput ref(c, n, 10, giantFlat());
    giantMarks(c, ref);
    Bytes e = giantBz2(ref);
    c.note = fmt("%lld bytes as %zu", (long long)n, e.size());
    HostileInput in(c, e, randomPolicy(c.rng, false));
    BZ2InputStream s(&in);
    GiantMon g(c, &s, ref, 0, n, "bzip2-giant");
    giantForward(g);
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one content, one bzip2 encoding (random block size, optional trailing bytes), one hostile input chunking and one random consumer history, every call checked. Non-trivial: distinct (content, history, outcomes).";
    addSuite("giant", 1, 12, giant, 600);
    need("giant_streams", 1);
    addSuite("decode", 2500, 40000, one);
    addSuite("badmagic", 600, 5000, badMagic);
    need("bz2", 1500); need("multi_block", 5); need("ends_seen", 1500); need("bad_magic", 300); need("empty_content", 10);
}
