// Header tests and automatic detection.
#include "wild.h"
#include "tree.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/substreamproviderprovider.h>
using namespace Strigi;
static const char* const tests[] = { "tar", "cpio", "ar", "zip", "rpm", "mail", "sdf", "ole", "gzip", "bz2", "lzma" };
static const int ntests = 11;
static bool ask(const std::string& f, const char* d, int32_t n) {
    if (f == "gzip") return GZipInputStream::checkHeader(d, n);
    if (f == "bz2") return BZ2InputStream::checkHeader(d, n);
    if (f == "lzma") return LZMAInputStream::checkHeader(d, n);
    return checkHeaderOf(f, d, n);
}
// enough for the test: the fixed part of the header, or what automatic detection looks at
static int64_t needed(const std::string& f) {
    if (f == "tar") return 257;
    if (f == "cpio" || f == "rpm") return 6;
    if (f == "ar") return 8;
    if (f == "zip" || f == "ole") return 9;
    if (f == "gzip") return 3;
    if (f == "bz2") return 10;
    if (f == "lzma") return 13;
    return 1024;
}
// asks with the bytes at the very end of a heap block and inside other bytes
static bool judged(Case& c, const std::string& f, const Bytes& d, int64_t n) {
    bool first = false;
    for (int i = 0; i < 2; ++i) {
        char* b = (char*)malloc(n + 1);
        b[0] = (char)c.rng.next();
        memcpy(b + 1, d.data(), n);
        bool a = ask(f, b + 1, (int32_t)n);
        REQ(c, memcmp(b + 1, d.data(), n) == 0, f + ":changed", "the test changed the bytes");
        free(b);
        if (i == 0) first = a;
        REQ(c, a == first, f + ":impure", "the test of the first %lld bytes gives %d and then %d", (long long)n, first, a);
    }
    // whatever follows does not matter
    Bytes more = d.substr(0, n) + (c.rng.chance(1, 3) ? Bytes(1500, '\0') : c.rng.chance(1, 2) ? d.substr(n) + randomContent(c.rng, 600) : Bytes(700, "\n:V$"[c.rng.below(4)]));
    bool a = ask(f, more.data(), (int32_t)n);
    REQ(c, a == first, f + ":looks-beyond", "the test of the first %lld bytes gives %d or %d, depending on what follows", (long long)n, first, a);
    c.count("header_tests", 3);
    return first;
}
static std::vector<int64_t> sizes(Rng& r, int64_t size, bool all) {
    std::vector<int64_t> v;
    if (all) for (int64_t n = 0; n <= size && n <= 1100; ++n) v.push_back(n);
    else {
        for (int64_t n = 0; n <= 14 && n <= size; ++n) v.push_back(n);
        for (int64_t n = 254; n <= 258 && n <= size; ++n) v.push_back(n);
        for (int i = 0; i < 20; ++i) v.push_back(r.below((size < 1100 ? size : 1100) + 1));
        for (int64_t n : { (int64_t)512, (int64_t)513, (int64_t)1023, (int64_t)1024, (int64_t)1025, size }) if (n <= size) v.push_back(n);
    }
    return v;
}
// the mail test is for 7 bit text with one kind of line end
static bool plainMail(const Bytes& d, const std::string& note) {
    Bytes b = d.substr(0, 1024);
    for (char ch : b) if (ch & 0x80) return false;
    return note.find("LF, ") != Bytes::npos && (note.find("CRLF") != Bytes::npos || d.substr(0, 1025).find("\r\n") == Bytes::npos);
}
static Bytes wellFormed(Case& c, const std::string& f) {
    Rng& r = c.rng;
    if (f == "gzip") return gzEncode(randomContent(r, 2000), randomGz(r));
    if (f == "bz2") return bz2Encode(randomContent(r, 2000), 1 + (int)r.below(9), 0);
    if (f == "lzma") { LzOpts o = randomLz(r); Bytes d = randomContent(r, 9000); if (d.size() <= o.dict) o.known = false; return lzmaEncode(d, o); }
    GenOpts o; o.maxMembers = 1 + (int)r.below(5); o.maxSize = 2000;
    for (;;) { Archive a = genArchive(r, f, o); if (f == "mail" ? plainMail(a.bytes, a.note) : !a.members.empty()) { c.note = a.note; return a.bytes; } }
}
static void accepted(Case& c) {
    std::string f = tests[c.idx % ntests];
    Bytes d = wellFormed(c, f);
    c.note = f + ": " + c.note;
    for (int64_t n : sizes(c.rng, d.size(), c.rng.chance(1, 12))) {
        bool a = judged(c, f, d, n);
        if (f == "mail" ? n <= 1024 : n >= needed(f) || n == (int64_t)d.size()) { REQ(c, a, f + ":refused", "the first %lld of %zu bytes of a well-formed file are refused: %s", (long long)n, d.size(), hex(d, 40).c_str()); c.count("accepted"); }
    }
    c.count(("test_" + f).c_str());
    c.distinct(mix(hashStr(f), hashStr(d))); c.sample(c.note);
}
static void anything(Case& c) {
    std::string f = tests[c.idx % ntests];
    Wild w = f == "gzip" || f == "bz2" || f == "lzma" ? wildComp(c.rng, f, 3000) : wildArchive(c.rng, f, 3000);
    Bytes d = w.data;
    c.note = f + ": " + w.note;
    if (c.rng.chance(1, 3)) d = d.substr(c.rng.below(d.size() + 1));
    for (int64_t n : sizes(c.rng, d.size(), c.rng.chance(1, 30))) judged(c, f, d, n);
    c.count("damaged_headers");
    c.distinct(mix(hashStr(f), hashStr(d))); c.sample(c.note);
}
// what a format requires of its first bytes is damaged
static void refused(Case& c) {
    std::string f = tests[c.idx % ntests];
    Rng& r = c.rng;
    Bytes d;
    do d = wellFormed(c, f); while (f == "mail" && c.note.find("CRLF") == Bytes::npos && r.chance(3, 4));
    if (f == "mail" && d.size() > 1024) d.resize(1024);
    int64_t at = -1;
    auto flip = [&](int64_t from, int64_t n) { at = from + (int64_t)r.below(n); d[at] = (char)(d[at] ^ 1 << r.below(8)); };
    if (f == "tar") {
        // only zeroes may follow the name in its field
        int64_t l = strnlen(d.data(), 100);
        if (l >= 99) return;
        at = l + 1 + (int64_t)r.below(99 - l); d[at] = (char)(1 + r.below(255));
    } else if (f == "cpio") flip(0, 6); else if (f == "ar") flip(0, 8); else if (f == "zip") flip(0, 4); else if (f == "ole") flip(0, 8);
    else if (f == "rpm") flip(0, 4); else if (f == "gzip") flip(0, 2);
    else if (f == "bz2") { if (r.chance(1, 3)) flip(0, 2); else flip(4, 6); }
    else if (f == "lzma") return;
    else if (f == "sdf") {
        // the version of the table in the fourth line
        size_t v = d.find("V2000"); if (v == Bytes::npos || d.find("V2000", v + 1) < 1030) return;
        flip((int64_t)v, 5);
    } else {
        // a byte that is not ASCII, or a header whose name is not a name
        std::vector<int64_t> names(1, 0);
        if (c.note.find("CRLF") != Bytes::npos) for (size_t i = 0; (i = d.find("\r\n", i)) != Bytes::npos; ) { i += 2; if (i >= d.size() || d[i] == '\r') break; if (d[i] != ' ' && d[i] != '\t') names.push_back((int64_t)i); }
        if (r.chance(1, 2)) { at = (int64_t)r.below(d.size()); d[at] = (char)(0x80 | r.below(0x80)); }
        else {
            at = names[r.below(names.size())];
            int64_t colon = (int64_t)d.find(':', at); if (colon < 0) return;
            if (colon == at) return;
            // white space at the beginning of a later line would continue the line before
            int64_t lo = at == 0 ? 0 : 1; if (colon - at <= lo) return;
            at += lo + (int64_t)r.below(colon - at - lo);
            d[at] = " \t\1\x7f\x1f\x0b"[r.below(6)];
        }
    }
    c.note = f + ": " + c.note + fmt(", damaged at %lld", (long long)at);
    for (int64_t n : sizes(r, d.size(), r.chance(1, 30))) {
        bool a = judged(c, f, d, n);
        // an incomplete mail is judged by what there is
        if (f == "mail" && n <= at) continue;
        REQ(c, !a, f + ":accepted", "the first %lld of %zu bytes are accepted although byte %lld is wrong: %s", (long long)n, d.size(), (long long)at, hex(d, 60).c_str());
        c.count("refused");
    }
    c.count(("refused_" + f).c_str());
    c.distinct(mix(hashStr(f), hashStr(d))); c.sample(c.note);
}
static bool known(const Bytes& d) {
    int32_t n = d.size() > 1024 ? 1024 : (int32_t)d.size();
    return n > 0 && (MailInputStream::checkHeader(d.data(), n) || ZipInputStream::checkHeader(d.data(), n) || SdfInputStream::checkHeader(d.data(), n));
}
static void detection(Case& c) {
    static const char* const fs[] = { "mail", "zip", "sdf" };
    std::string f = fs[c.idx % 3];
    GenOpts o; o.maxMembers = 1 + (int)c.rng.below(6); o.maxSize = 6000;
    Archive a;
    do a = genArchive(c.rng, f, o); while (f == "mail" ? !plainMail(a.bytes, a.note) : a.members.empty());
    c.note = f + ": " + a.note;
    // a sub-stream of a larger input is detected from where it is
    int64_t before = c.rng.chance(1, 3) ? (int64_t)c.rng.len(3000) : 0;
    Bytes d = Bytes(before, 'x') + a.bytes;
    HostileInput in(c, d, randomPolicy(c.rng, c.rng.chance(1, 2)));
    if (before) { in.skip(before); }
    c.note += fmt(" behind %lld bytes, %s", (long long)before, in.pol.str().c_str());
    SubStreamProviderProvider spp;
    std::unique_ptr<SubStreamProvider> p(spp.subStreamProvider(&in));
    REQ(c, p.get(), f + ":undetected", "a well-formed file is not detected: %s", hex(a.bytes, 40).c_str());
    bool right = f == "mail" ? dynamic_cast<MailInputStream*>(p.get()) != 0 : f == "zip" ? dynamic_cast<ZipInputStream*>(p.get()) != 0 : dynamic_cast<SdfInputStream*>(p.get()) != 0;
    REQ(c, right, f + ":other-format", "a well-formed file is taken for another format: %s", hex(a.bytes, 40).c_str());
    uint64_t g = enumerate(c, p.get(), a, c.rng, (int)c.rng.below(6), "detected");
    c.count(("detected_" + f).c_str());
    c.distinct(mix(g, hashStr(a.bytes))); c.sample(c.note);
}
static void unknown(Case& c) {
    Bytes d;
    for (;;) {
        switch (c.rng.below(4)) {
        case 0: d = randomContent(c.rng, 5000); break;
        case 1: { static const char* const fs[] = { "tar", "cpio", "ar", "rpm", "ole" }; GenOpts o; o.maxMembers = 3; o.maxSize = 2000; d = genArchive(c.rng, fs[c.rng.below(5)], o).bytes; break; }
        case 2: d = plainContent(c.rng, 4000); break;
        default: { Wild w = wildArchive(c.rng, g_formats[c.rng.below(g_nformats)], 3000); d = w.data; break; }
        }
        if (!known(d)) break;
    }
    HostileInput in(c, d, randomPolicy(c.rng, c.rng.chance(1, 2)));
    c.note = fmt("unknown, %zu bytes, %s", d.size(), in.pol.str().c_str());
    SubStreamProviderProvider spp;
    std::unique_ptr<SubStreamProvider> p(spp.subStreamProvider(&in));
    REQ(c, !p.get(), "unknown:detected", "bytes that no header test accepts give a provider: %s", hex(d, 40).c_str());
    REQ(c, in.position() == 0 && in.status() != Error, "unknown:consumed", "the input is left at %lld, status %s", (long long)in.position(), statusName(in.status()));
    if (!d.empty()) REQ(c, in.status() == Ok, "unknown:consumed", "the input is left with status %s", statusName(in.status()));
    Mon<char> m(c, &in, d, "unknown");
    m.drain(c.rng);
    c.count("unknown_inputs");
    c.distinct(hashStr(d)); c.sample(c.note);
}
void registerSuites() {
    g_rule = "the header test of every format is asked about the first n bytes of well-formed, damaged and random files for all small n and many others, with the bytes at the end of a heap block (AddressSanitizer sees every access beyond) and followed by other bytes; well-formed beginnings have to be accepted, and refused once their signature (for mails the syntax of the header, for tar the field of the name) is damaged. Automatic detection over hostile inputs has to give the format and the entries written, and leave unknown input where it was";
    g_assumptions.push_back("LZMA files with a known size are recognised only if the dictionary is smaller than the content and at most 32 MB, as the header test documents; mails whose first 1024 bytes are 7 bit text, as RFC 822 requires and the test documents; SD files are those with V2000 in the fourth line");
    addSuite("accepted", 11000, 400000, accepted);
    addSuite("anything", 11000, 400000, anything);
    addSuite("refused", 11000, 400000, refused);
    addSuite("detection", 4000, 150000, detection);
    addSuite("unknown", 4000, 150000, unknown);
    need("header_tests", 100000); need("accepted", 10000); need("refused", 10000); need("unknown_inputs", 2000); need("damaged_headers", 5000);
    for (int i = 0; i < ntests; ++i) need(fmt("test_%s", tests[i]), 300);
    for (const char* f : { "tar", "cpio", "ar", "zip", "rpm", "mail", "sdf", "ole", "gzip", "bz2" }) need(fmt("refused_%s", f), 200);
    for (const char* f : { "mail", "zip", "sdf" }) need(fmt("detected_%s", f), 500);
}
