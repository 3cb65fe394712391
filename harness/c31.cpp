// The same bytes and calls give the same results, whatever was in memory before.
#include "wild.h"
#include "gzipcompressstream.h"
#include "base64inputstream.h"
#include <strigi/fileinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/kmpsearcher.h>
#include <strigi/stringstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <errno.h>
#ifdef UNDER_MEMCHECK
#include <valgrind/memcheck.h>
#endif
using namespace Strigi;
// ---- what memory contains before it is written
static int g_fill = 0;
static void fill(void* p, size_t n) {
    unsigned char* b = (unsigned char*)p;
    switch (g_fill) {
    case 0: memset(b, 0, n); break;
    case 1: memset(b, 0xff, n); break;
    case 2: memset(b, 0x2f, n); break;    // a character that means something in paths
    default: { uint32_t x = 0x9E3779B9u * (uint32_t)g_fill; for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; b[i] = (unsigned char)(x >> 24); } }
    }
}
#ifndef UNDER_MEMCHECK
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && n <= (1 << 22)) fill(p, malloc_usable_size(p)); return p; }
void free(void* p) { if (p) { int e = errno; size_t n = malloc_usable_size(p); if (n <= (1 << 22)) fill(p, n); __libc_free(p); errno = e; } }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q) { size_t now = malloc_usable_size(q); if (now > old && now <= (1 << 22)) fill((char*)q + old, now - old); }
    return q;
}
void* memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
}
#endif
static void __attribute__((noinline)) stain() {   // the stack below this frame
    volatile char b[150000];
    fill((void*)b, sizeof b);
    __asm__ volatile("" : : "r"(b) : "memory");
}
// ---- what is done
typedef std::function<uint64_t(Case&, Rng&)> Run;
static HostileInput* input(Case& c, Rng& r, const Bytes& b, bool seek) {
    InputPolicy p = randomPolicy(r, seek);
    HostileInput* h = new HostileInput(c, b, p);
    h->failAt = r.chance(1, 8) ? r.len(100) : 20000 + 40 * (int64_t)b.size();
    return h;
}
static Effort effort(Case& c) { Effort e; if (g_fill < -1) e.maxBytes = 1; (void)c; return e; }
static Run decoderRun(Rng& r, const std::string& kind, std::string& note) {
    Wild w;
    if (r.chance(2, 3)) w = wildComp(r, kind, r.chance(1, 10) ? 60000 : 4000);
    else { Comp k = r.chance(3, 4) ? makeComp(r, kind, randomContent(r, 9000)) : makeChain(r, randomContent(r, 6000), 2); w.data = k.input; w.make = k.make; w.kind = k.name; w.note = "valid"; }
    note = kind + ":" + w.note;
    return [w, kind](Case& c, Rng& q) {
        std::unique_ptr<HostileInput> h(input(c, q, w.data, q.chance(1, 2)));
        Effort e = effort(c); Stages s;
        w.make(s, h.get());
        if (q.chance(1, 8)) s.s.push_back(new GZipCompressInputStream(s.top(), (int)q.below(10)));
        wildRead(c, s.top(), q, e, kind);
        return e.dig;
    };
}
static Bytes archiveBytes(Rng& r, const std::string& f, std::string& note) {
    if (r.chance(2, 3)) { Wild w = wildArchive(r, f, r.chance(1, 10) ? 60000 : 5000); note = w.note; return w.data; }
    GenOpts o; o.maxMembers = 5; o.maxSize = 5000; o.plainNames = r.chance(1, 2);
    note = "valid " + f;
    return genArchive(r, f, o).bytes;
}
static Run archiveRun(Rng& r, const std::string& f, std::string& note) {
    Bytes d = archiveBytes(r, f, note);
    return [d, f](Case& c, Rng& q) {
        std::unique_ptr<HostileInput> h(input(c, q, d, f == "ole" ? q.chance(7, 8) : q.chance(1, 2)));
        Effort e = effort(c);
        SubStreamProviderProvider spp;
        std::unique_ptr<SubStreamProvider> p(q.chance(1, 6) ? spp.subStreamProvider(h.get()) : makeProvider(f, h.get()));
        if (p) wildEnumerate(c, p.get(), q, e, f, 2);
        return e.dig;
    };
}
static Run readerRun(Rng& r, std::string& note) {
    Bytes d = archiveBytes(r, g_formats[r.below(g_nformats)], note);
    return [d](Case& c, Rng& q) {
        WildOpener o(c, q.next());
        o.budget = 1LL << 60; o.failAt = q.chance(1, 8) ? q.len(100) : 100000; o.files["f"] = d;
        ArchiveReader a;
        a.addStreamOpener(&o);
        Effort e = effort(c);
        for (int i = 0; i < 2; ++i) wildReader(c, a, "f", q, e, 3);
        return e.dig;
    };
}
static Run textRun(Rng& r, std::string& note) {
    Bytes d = r.chance(1, 2) ? textContent(r, r.len(4000)) : randomContent(r, 4000), b = b64encode(d, 0), needle = d.substr(0, r.below(20));
    if (r.chance(1, 2)) { std::string n; b = mutate(r, b, "base64", std::vector<int64_t>(), n); }
    if (chdir(scratchDir().c_str())) {}
    std::string path = "file";   // messages name it
    FILE* f = fopen(path.c_str(), "wb"); if (f) { fwrite(d.data(), 1, d.size(), f); fclose(f); }
    note = "text";
    int which = (int)r.below(3);
    std::string p = which == 0 ? path : which == 1 ? "." : path + "x";
    return [d, b, needle, p](Case& c, Rng& q) {
        Bytes o = Base64InputStream::decode(b.data(), b.size());
        uint64_t g = hashStr(o);
        KmpSearcher k(needle);
        const char* at = k.search(d.data(), (int32_t)d.size());
        g = mix(g, at ? at - d.data() : -1);
        char left = 0;
        const char* u = checkUtf8(d.data(), (int32_t)d.size(), left);
        g = mix(g, u ? (u - d.data()) : -1);
        g = mix(g, left);
        StringInputStream s(d.data(), (int32_t)d.size(), q.chance(1, 2));
        EncodingInputStream t(&s, g_encodings[q.below(g_nencodings)]);
        Effort e = effort(c); wildRead(c, &t, q, e, "encoding");
        std::unique_ptr<InputStream> file(FileInputStream::open(p.c_str(), (FileInputStream::StreamTypeHint)q.below(4)));
        wildRead(c, file.get(), q, e, "file");
        return mix(g, e.dig);
    };
}
static void digest(Case& c, uint64_t g) {   // compared between builds
    static const char* to = getenv("VERIF_DIGESTS");
    if (!to) return;
    std::string l = fmt("%s %llu %016llx\n", c.suite.c_str(), (unsigned long long)c.idx, (unsigned long long)g);
    int fd = open(to, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd >= 0) { if (write(fd, l.data(), l.size()) < 0) {} close(fd); }
}
static void judge(Case& c, const std::string& name, const Run& run) {
    uint64_t seed = c.rng.next();
#ifdef UNDER_MEMCHECK
    unsigned before = VALGRIND_COUNT_ERRORS;
    { Rng q(seed); uint64_t g = run(c, q); VALGRIND_CHECK_VALUE_IS_DEFINED(g); c.distinct(g); }
    unsigned after = VALGRIND_COUNT_ERRORS;
    if (after > before) {
        // the report is on stderr
        std::string err, l; lseek(2, 0, SEEK_SET); char t[4000]; ssize_t k;
        while ((k = read(2, t, sizeof t)) > 0 && err.size() < 40000) err.append(t, k);
        std::string where = "?";
        size_t at = err.find("=="), e = 0;
        for (size_t p = 0; p < err.size(); p = e + 1) { e = err.find('\n', p); if (e == Bytes::npos) e = err.size(); l = err.substr(p, e - p); size_t x = l.find(": "); if (x != Bytes::npos && l.find("Strigi") != Bytes::npos) { where = l.substr(x + 2); where = where.substr(0, where.find('(')); break; } }
        c.fail("memcheck:" + where, "%s", err.substr(at == Bytes::npos ? 0 : at, 1500).c_str());
    }
#else
    uint64_t first = 0;
    static const int fills[] = { 0, 1, 2, 3 };
    for (int i = 0; i < 4; ++i) {
        if (i == 3) {   // after other work
            g_fill = 77;
            std::string n;
            Rng o(c.rng.next());
            Run other = o.chance(1, 2) ? decoderRun(o, g_comps[o.below(g_ncomps)], n) : archiveRun(o, g_formats[o.below(g_nformats)], n);
            other(c, o);
            g_fill = 3 + (int)(c.idx % 1000);
        } else g_fill = fills[i];
        stain();
        Rng q(seed);
        uint64_t g = run(c, q);
        c.count("runs");
        if (i == 0) first = g;
        else if (g != first) { int f = g_fill; g_fill = 0; c.fail("memory:" + name, "another result with memory filled in another way (%d)", f); }
    }
    g_fill = 0;
    digest(c, first);
    c.distinct(first);
#endif
    c.sample(c.note);
    c.count("cases");
    c.count(("kind_" + name).c_str());
}
static void decoder(Case& c) { std::string k = g_comps[c.idx % g_ncomps]; Run r = decoderRun(c.rng, k, c.note); judge(c, k, r); }
static void archive(Case& c) { std::string f = g_formats[c.idx % g_nformats]; Run r = archiveRun(c.rng, f, c.note); judge(c, f, r); }
static void reader(Case& c) { Run r = readerRun(c.rng, c.note); judge(c, "reader", r); }
static void text(Case& c) { Run r = textRun(c.rng, c.note); judge(c, "text", r); }
void registerSuites() {
#ifdef UNDER_MEMCHECK
    g_rule = "";
    int k = 1, kt = 1;
    addSuite("decoder", 700, 40000, decoder, 300);
    addSuite("archive", 700, 40000, archive, 300);
    addSuite("reader", 200, 10000, reader, 300);
    addSuite("text", 150, 8000, text, 300);
    need("cases", 1000);
#else
    g_rule = "every case (valid, damaged or random bytes, a history of calls, inputs that may fail) is run four times with heap blocks and the stack filled in four ways before the library sees them, the last time after other work; digests of all entries, metadata, data, positions, sizes, statuses and messages have to be equal, also between a build whose automatic variables start as zero and one where they start as a pattern; a part of the cases is also run under memcheck";
    addSuite("decoder", 6000, 300000, decoder, 120);
    addSuite("archive", 6000, 300000, archive, 120);
    addSuite("reader", 1500, 60000, reader, 120);
    addSuite("text", 1000, 30000, text, 120);
    need("runs", 20000);
    for (int i = 0; i < g_nformats; ++i) need(fmt("kind_%s", g_formats[i]), 200);
    for (int i = 0; i < g_ncomps; ++i) need(fmt("kind_%s", g_comps[i]), 200);
#endif
}
