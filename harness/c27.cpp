// Hostile bytes against every parser, under AddressSanitizer, UBSan and the library's own assertions.
#include "wild.h"
#include "base64inputstream.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/kmpsearcher.h>
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include "gzipcompressstream.h"
#include <unistd.h>
using namespace Strigi;
static HostileInput* input(Case& c, const Bytes& b, bool seek) {
    InputPolicy p = randomPolicy(c.rng, seek);
    HostileInput* h = new HostileInput(c, b, p);
    h->quietBudget = true;
    h->budget = 20000 + 40 * (int64_t)b.size();
    if (c.rng.chance(1, 8)) h->failAt = c.rng.len(200);
    c.note += " [" + p.str() + (h->failAt >= 0 ? fmt(" failing at %lld", (long long)h->failAt) : "") + "]";
    return h;
}
static void done(Case& c, const Effort& e) {
    c.count("bytes_delivered", e.bytes); c.count("entries", e.entries); c.count("operations", e.ops);
    c.distinct(e.dig);
}
static void decoder(Case& c) {
    std::string kind = g_comps[c.idx % g_ncomps];
    Wild w = wildComp(c.rng, kind, c.rng.chance(1, 10) ? 150000 : 6000);
    c.note = kind + ":" + w.note;
    std::unique_ptr<HostileInput> h(input(c, w.data, c.rng.chance(1, 2)));
    Effort e;
    {
        Stages s;
        w.make(s, h.get());
        if (c.rng.chance(1, 4)) { Wild w2 = wildComp(c.rng, g_comps[c.rng.below(g_ncomps)], 100); c.note += " under " + w2.kind; w2.make(s, s.top()); }
        wildRead(c, s.top(), c.rng, e, kind);
    }
    c.count(("decoder_" + kind).c_str());
    done(c, e);
    c.sample(c.note);
}
static void archive(Case& c) {
    std::string f = g_formats[c.idx % g_nformats];
    Wild w = wildArchive(c.rng, f, c.rng.chance(1, 10) ? 60000 : 5000);
    c.note = w.note;
    std::unique_ptr<HostileInput> h(input(c, w.data, f == "ole" ? c.rng.chance(7, 8) : c.rng.chance(1, 2)));
    Effort e;
    {
        std::unique_ptr<SubStreamProvider> p(makeProvider(f, h.get()));
        wildEnumerate(c, p.get(), c.rng, e, f, 2);
    }
    c.count(("archive_" + f).c_str());
    done(c, e);
    c.sample(c.note);
}
static void detect(Case& c) {
    std::string f = g_formats[c.rng.below(g_nformats)];
    Wild w = wildArchive(c.rng, f, c.rng.chance(1, 10) ? 60000 : 5000);
    c.note = w.note;
    Effort e;
    if (c.rng.chance(1, 3)) {
        std::unique_ptr<HostileInput> h(input(c, w.data, c.rng.chance(1, 2)));
        SubStreamProviderProvider spp;
        std::unique_ptr<SubStreamProvider> p(spp.subStreamProvider(h.get()));
        if (p) { c.count("detected"); wildEnumerate(c, p.get(), c.rng, e, "detected", 2); }
    } else {
        if (c.rng.chance(1, 3)) { // compressed, and then perhaps damaged
            Comp k = makeComp(c.rng, c.rng.chance(1, 2) ? "gzip" : c.rng.chance(1, 2) ? "bz2" : "lzma", w.data);
            w.data = k.input; c.note += " in " + k.name;
            if (c.rng.chance(1, 3)) w.data = mutate(c.rng, w.data, k.name, std::vector<int64_t>(1, 0), c.note);
        }
        WildOpener o(c, c.rng.next());
        if (c.rng.chance(1, 8)) o.failAt = c.rng.len(100);
        o.files["f"] = w.data;
        std::unique_ptr<ArchiveReader> a(new ArchiveReader);
        a->addStreamOpener(&o);
        int n = 1 + (int)c.rng.below(4);
        for (int i = 0; i < n; ++i) {
            wildReader(c, *a, "f", c.rng, e, 3);
            if (c.rng.chance(1, 6)) { o.files["f"] = mutate(c.rng, w.data, f, std::vector<int64_t>(1, 0), c.note); ++o.mtime; }
        }
        a.reset();
        c.count("archive_readers");
    }
    done(c, e);
    c.sample(c.note);
}
// exact-size blocks: a look outside is reported
struct Exact { char* p; size_t n; Exact(const Bytes& b) : p((char*)malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), n); if (!n) { free(p); p = (char*)malloc(1); } } ~Exact() { free(p); } };
static Bytes textish(Rng& r) {
    Bytes b;
    int64_t n = r.len(400);
    while ((int64_t)b.size() < n) switch (r.below(7)) {
        case 0: b += (char)r.below(128); break;
        case 1: b += (char)r.next(); break;
        case 2: { uint32_t u = (uint32_t)r.below(0x110000); if (u < 0x800) { b += (char)(0xC0 | u >> 6); b += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { b += (char)(0xE0 | u >> 12); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); } else { b += (char)(0xF0 | u >> 18); b += (char)(0x80 | (u >> 12 & 63)); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); } break; }
        case 3: b += (char)(0xC0 + r.below(64)); break;
        case 4: b += "\r\n"; break;
        case 5: b += "ABCD"; break;
        default: b += (char)(0x80 | r.below(64));
    }
    if (r.chance(1, 3) && !b.empty()) b.resize(r.below(b.size()));
    return b;
}
static void text(Case& c) {
    Effort e;
    for (int i = 0; i < 6; ++i) {
        Bytes b = textish(c.rng);
        c.note = hex(b, 40);
        { Exact x(b); char nb = 0; const char* q = checkUtf8(x.p, (int32_t)x.n, nb); e.dig = mix(e.dig, q ? q - x.p : -1); e.dig = mix(e.dig, checkUtf8(x.p, (int32_t)x.n)); char n2 = 0; checkUtf8(b, n2); checkUtf8(b); c.count("utf8_checks"); }
        { Bytes z = b; for (char& ch : z) if (!ch) ch = 'z'; z += '\0'; Exact x(z); convertNewLines(x.p); e.dig = mix(e.dig, hashBytes(x.p, strlen(x.p))); c.count("newline_conversions"); }
        { Bytes d = c.rng.chance(1, 2) ? b64encode(b, c.rng.chance(1, 2) ? 0 : 76) : b; if (c.rng.chance(1, 2) && !d.empty()) d.resize(c.rng.below(d.size())); Exact x(d); Bytes out = Base64InputStream::decode(x.p, x.n); e.dig = mix(e.dig, hashStr(out)); c.count("one_shot_decodes"); }
        { KmpSearcher k(textish(c.rng)); Exact x(b); k.search(x.p, (int32_t)x.n); c.count("searches"); }
        for (int f = 0; f < g_nformats; ++f) { Bytes d = c.rng.chance(1, 2) ? b : wildArchive(c.rng, g_formats[f], 300).data; d.resize(c.rng.below(std::min<size_t>(d.size(), 1100) + 1)); Exact x(d); e.dig = mix(e.dig, checkHeaderOf(g_formats[f], x.p, (int32_t)x.n)); c.count("header_checks"); }
        { Bytes d = c.rng.chance(1, 2) ? wildComp(c.rng, g_comps[c.rng.below(5)], 200).data : b; Exact x(d); BZ2InputStream::checkHeader(x.p, (int32_t)x.n); LZMAInputStream::checkHeader(x.p, (int32_t)x.n); }
        ++e.ops;
    }
    done(c, e);
}
static void wide(Case& c) {   // bytes to wide characters, and compression of anything
    Bytes b = c.rng.chance(1, 3) ? textish(c.rng) : c.rng.chance(1, 2) ? randomContent(c.rng, 20000) : corpus()[c.rng.below(corpus().size())].substr(0, 30000);
    std::string enc = g_encodings[c.rng.below(g_nencodings)];
    c.note = enc;
    std::unique_ptr<HostileInput> h(input(c, b, c.rng.chance(1, 2)));
    Effort e;
    if (c.rng.chance(1, 4)) { GZipCompressInputStream z(h.get(), (int)c.rng.below(10)); wildRead(c, &z, c.rng, e, "compress"); done(c, e); return; }
    InputStreamReader s(h.get(), enc.empty() && c.rng.chance(1, 2) ? 0 : enc.c_str());
    const wchar_t* seg = 0; int64_t n = 0, start = 0;
    int ends = 0;
    for (int i = 0; i < 2000 && ends < 4; ++i) {
        ++e.ops;
        if (s.status() != Ok) ++ends;
        switch (c.rng.below(5)) {
        case 0: s.skip(c.rng.len(500)); seg = 0; break;
        case 1: if (seg) { s.reset(start + c.rng.below(n + 1)); if (s.status() != Error) e.dig = mix(e.dig, hashBytes(seg, n * sizeof(wchar_t))); } else { s.reset(c.rng.len(1000)); } break;
        default: {
            int32_t min = 1 + (int32_t)c.rng.len(2000), max = c.rng.chance(1, 2) ? 0 : min + (int32_t)c.rng.below(9);
            int32_t k = s.read(seg, min, max);
            if (k > 0) { n = k; start = s.position() - k; e.dig = mix(e.dig, hashBytes(seg, k * sizeof(wchar_t))); e.bytes += k; } else seg = 0;
        } }
    }
    c.count("wide_streams");
    done(c, e);
}
// every short input: what a parser does with nothing, one byte, a cut header
static void tiny(Case& c) {
    std::string what = c.idx % 2 ? g_formats[c.idx / 2 % g_nformats] : g_comps[c.idx / 2 % g_ncomps];
    Effort e;
    GenOpts o; o.maxMembers = 1; o.maxSize = 200;
    Bytes full = c.idx % 2 ? genArchive(c.rng, what, o).bytes : makeComp(c.rng, what, randomContent(c.rng, 200)).input;
    for (int i = 0; i < 12; ++i) {
        Bytes b = full.substr(0, c.rng.len(std::min<size_t>(full.size(), 1200)));
        if (c.rng.chance(1, 3) && !b.empty()) b[c.rng.below(b.size())] = (char)c.rng.next();
        c.note = fmt("%s cut to %zu bytes", what.c_str(), b.size());
        std::unique_ptr<HostileInput> h(input(c, b, true));
        if (c.idx % 2) { std::unique_ptr<SubStreamProvider> p(makeProvider(what, h.get())); wildEnumerate(c, p.get(), c.rng, e, what, 1); }
        else { Stages s; Wild w = wildComp(c.rng, what, 10); w.make(s, h.get()); wildRead(c, s.top(), c.rng, e, what); }
    }
    c.count("cuts", 12);
    done(c, e);
}
// files as a reader of the file system meets them
static void onDisk(Case& c) {
    Bytes name = scratchDir() + "/wild";
    Wild w = wildArchive(c.rng, g_formats[c.rng.below(g_nformats)], 4000);
    if (c.rng.chance(1, 4)) w.data = c.rng.chance(1, 2) ? zipQuine() : slashTar(c.rng.below(4000));
    c.note = w.note;
    FILE* f = fopen(name.c_str(), "wb"); if (!f || (!w.data.empty() && fwrite(w.data.data(), 1, w.data.size(), f) != w.data.size())) abort(); fclose(f);
    Effort e;
    FileStreamOpener o;
    std::unique_ptr<ArchiveReader> a(new ArchiveReader);
    a->addStreamOpener(&o);
    for (int i = 0; i < 3; ++i) wildReader(c, *a, c.rng.chance(3, 4) ? name : name + (c.rng.chance(1, 2) ? "/" : "//x"), c.rng, e, 4);
    a.reset();
    unlink(name.c_str());
    c.count("files");
    done(c, e);
}
void registerSuites() {
    g_rule = "field-wise mutated, spliced, cut, self-referencing and random bytes are fed to every decoder, archive reader, header test and text utility through inputs of any chunking (also failing ones), read with any history; a report of AddressSanitizer, UBSan, a library assertion or a crash is the verdict; every delivered byte is read";
    addSuite("decoder", 22000, 900000, decoder);
    addSuite("archive", 24000, 900000, archive);
    addSuite("detect", 9000, 300000, detect);
    addSuite("text", 4000, 150000, text);
    addSuite("wide", 4000, 150000, wide);
    addSuite("tiny", 4000, 150000, tiny);
    addSuite("ondisk", 1500, 40000, onDisk);
    need("bytes_delivered", 1000000); need("entries", 20000); need("detected", 100); need("archive_readers", 500); need("header_checks", 1000); need("wide_streams", 100);
    for (int i = 0; i < g_nformats; ++i) need(fmt("archive_%s", g_formats[i]), 200);
    for (int i = 0; i < g_ncomps; ++i) need(fmt("decoder_%s", g_comps[i]), 200);
}
