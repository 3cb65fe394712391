#include "streams.h"
#include "codecs.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
using namespace Strigi;
enum { GZ, ZL, BZ, LZK, LZU, NF };
static const char* fn[] = { "gzip", "zlib", "bz2", "lzma-known", "lzma-unknown" };
static InputStream* mk(int f, InputStream* in) {
    switch (f) {
    case GZ: return new GZipInputStream(in);
    case ZL: return new GZipInputStream(in, GZipInputStream::ZLIBFORMAT);
    case BZ: return new BZ2InputStream(in);
    default: return new LZMAInputStream(in);
    }
}
static Bytes enc(Case& c, int f, Bytes& d) {
    switch (f) {
    case GZ: return gzEncode(d, randomGz(c.rng));
    case ZL: return zlibEncode(d, randomGz(c.rng));
    case BZ: return bz2Encode(d, 1 + (int)c.rng.below(9), 0);
    default: {
        LzOpts o = randomLz(c.rng);
        o.known = f == LZK;
        if (o.known) { o.dict = 4096; if (d.size() <= o.dict) d += textContent(c.rng, o.dict - d.size() + 1 + c.rng.len(3000)); }
        return lzmaEncode(d, o); }
    }
}
static void cuts(Case& c) {
    int f = (int)(c.idx % NF);
    Bytes d = randomContent(c.rng, c.rng.chance(1, 4) ? 20000 : 400);
    Bytes e = enc(c, f, d);
    size_t step = e.size() > 300 && !c.thorough ? e.size() / 60 : 1;
    for (size_t cut = c.rng.below(step); cut < e.size(); cut += 1 + c.rng.below(step * 2 - 1)) {
        InputPolicy pol = randomPolicy(c.rng, false);
        HostileInput in(c, e.substr(0, cut), pol);
        std::unique_ptr<InputStream> s(mk(f, &in));
        c.note = fmt("%s %zu->%zu bytes cut at %zu, %s", fn[f], d.size(), e.size(), cut, pol.str().c_str());
        MonOpts o; o.maxMin = 50000;
        // the last byte of an LZMA stream with a known size need not be needed
        o.end = f == LZK && cut + 8 >= e.size() ? MonOpts::EofOrError : MonOpts::MustError;
        Mon<char> m(c, s.get(), d, std::string("cut-") + fn[f], o);
        m.run(c.rng, (int)c.rng.below(6));
        c.count("cuts"); c.count((std::string("cut_") + fn[f]).c_str());
        if (m.pos > 0) c.count("cuts_with_data");
        c.distinct(mix(hashStr(e), cut));
    }
    // late cuts always
    for (size_t k = 1; k <= 12 && k < e.size(); ++k) {
        HostileInput in(c, e.substr(0, e.size() - k), randomPolicy(c.rng, false));
        std::unique_ptr<InputStream> s(mk(f, &in));
        c.note = fmt("%s %zu->%zu bytes, last %zu bytes missing", fn[f], d.size(), e.size(), k);
        ReadResult r = readAll(c, s.get(), c.rng, 1 << 28);
        REQ(c, r.data.size() <= d.size() && !d.compare(0, r.data.size(), r.data), std::string("cut-") + fn[f] + ":content", "delivered bytes are no prefix of the original");
        if (r.status == Eof) REQ(c, f == LZK && r.data == d, std::string("cut-") + fn[f] + ":false-end", "end of stream after %zu of %zu bytes", r.data.size(), d.size());
        else REQ(c, r.status == Error && !r.error.empty(), std::string("cut-") + fn[f] + ":no-error", "status %s '%s'", statusName(r.status), r.error.c_str());
        c.count("late_cuts");
    }
    c.sample(c.note);
}
static void damage(Case& c) {
    int f = (int)(c.idx % 3);
    Bytes d = randomContent(c.rng, c.rng.chance(1, 4) ? 20000 : 400);
    Bytes e = enc(c, f, d);
    int n = c.thorough ? 200 : 40;
    for (int i = 0; i < n; ++i) {
        Bytes x = e;
        size_t at;
        int how = (int)c.rng.below(5);
        switch (how) {
        case 0: at = c.rng.below(x.size()); x[at] ^= (char)(1 << c.rng.below(8)); break;
        case 1: at = c.rng.below(x.size()); x[at] ^= (char)(1 + c.rng.below(255)); break;
        case 2: at = x.size() - 1 - c.rng.below(x.size() < 12 ? x.size() : 12); x[at] ^= (char)(1 << c.rng.below(8)); break; // trailer
        case 3: at = c.rng.below(x.size()); x.erase(at, 1); break;
        default: at = c.rng.below(x.size()); x.insert(at, 1, (char)c.rng.next()); break;
        }
        HostileInput in(c, x, randomPolicy(c.rng, false));
        std::unique_ptr<InputStream> s(mk(f, &in));
        ReadResult r = readAll(c, s.get(), c.rng, 1 << 28);
        c.note = fmt("%s %zu->%zu bytes, damage kind %d at %zu", fn[f], d.size(), e.size(), how, at);
        // the damaged bytes can be a well-formed encoding of something else (with
        // checksums that fit), e.g. an end inside a run of zeros
        if (r.status == Eof && r.data != d && (f == ZL || f == GZ)) { bool ok; Bytes ref = zlibDecode(x, ok, f == GZ ? 31 : 15, true); if (ref == r.data && ok) { c.count("other_valid"); continue; } }
        REQ(c, r.status != Eof || r.data == d, std::string("damaged-") + fn[f], "end of stream with %zu bytes that differ from the original %zu", r.data.size(), d.size());
        REQ(c, r.status != Ok, std::string("damaged-") + fn[f] + ":status", "reading stopped with %d and status Ok", r.last);
        if (r.status == Error) { REQ(c, !r.error.empty(), std::string("damaged-") + fn[f] + ":no-message", "error without message"); c.count("damage_detected"); }
        else c.count("damage_harmless");
        c.count("damaged");
        c.distinct(hashStr(x));
    }
    c.sample(c.note);
}
// references to bytes outside the dictionary, or an end before the end
static void outside(Case& c) {
    for (int i = 0; i < 20; ++i) {
        LzSyms e = lzmaSymbols(c.rng, 6000, 1 + (int)c.rng.below(lzmaBadKinds));
        HostileInput in(c, e.encoded, randomPolicy(c.rng, false));
        c.note = fmt("lzma: %s after %zu bytes, dict %u, size %s", e.note.c_str(), e.content.size(), e.dict, e.known ? "known" : "unknown");
        LZMAInputStream s(&in);
        MonOpts o; o.maxMin = 50000; o.end = MonOpts::MustError;
        Mon<char> m(c, &s, e.content, "lzma-outside", o);
        m.run(c.rng, (int)c.rng.below(6));
        c.count("references_outside"); if (e.note[0] == 'd') c.count("one_too_far");
        c.distinct(hashStr(e.encoded));
    }
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one content and encoding; 'cuts': the encoding cut at (up to) every position, each read under a random history and chunking that must end in an error after a correct prefix; 'damage': single bit/byte changes, deletions and insertions, which must never yield a normal end with other content. Non-trivial: distinct damaged inputs.";
    g_assumptions.push_back("an LZMA stream with a known size may end normally with its last bytes missing if every original byte was delivered");
    addSuite("cuts", 400, 8000, cuts);
    addSuite("damage", 450, 8000, damage);
    addSuite("outside", 250, 6000, outside);
    need("references_outside", 4000); need("cuts", 8000); need("cuts_with_data", 300); need("late_cuts", 2000); need("damaged", 8000); need("damage_detected", 4000); need("errors_seen", 5000);
}
