// Work, entries, memory and recursion are bounded whatever the bytes.
#include "wild.h"
#include "base64inputstream.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/bz2inputstream.h>
#include "gzipcompressstream.h"
#include <pthread.h>
#include <atomic>
#include <time.h>
// gcc's runtime has these but no header for them
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
using namespace Strigi;
// ---- the heap that is in use and its peak
static std::atomic<int64_t> g_live(0), g_peak(0), g_big(0);
static std::atomic<bool> g_on(false);
static void onMalloc(const volatile void* p, size_t n) {
    if (!g_on || !p) return;
    int64_t v = g_live += (int64_t)n, o = g_peak;
    while (o < v && !g_peak.compare_exchange_weak(o, v)) {}
    o = g_big; while (o < (int64_t)n && !g_big.compare_exchange_weak(o, (int64_t)n)) {}
}
static void onFree(const volatile void* p) { if (g_on && p) g_live -= (int64_t)__sanitizer_get_allocated_size(p); }
struct Meter {
    double cpu0;
    static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec / 1e9; }
    Meter() { static bool once = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); (void)once; cpu0 = cpu(); g_live = 0; g_peak = 0; g_big = 0; g_on = true; }
    ~Meter() { g_on = false; }
    int64_t peak() const { return g_peak; }
    int64_t biggest() const { return g_big; }
    double used() const { return cpu() - cpu0; }
};
// runs f in a thread with a small stack: recursion that follows the input ends in a stack overflow
static const size_t STACK = 512 * 1024;
static void* tramp(void* f) { (*(std::function<void()>*)f)(); return 0; }
static void smallStack(Case& c, std::function<void()> f) {
    bool aborted = false; std::string what;
    std::function<void()> g = [&]() { try { f(); } catch (const CaseAbort&) { aborted = true; } catch (const std::exception& e) { what = e.what(); } };
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, STACK);
    pthread_t t;
    if (pthread_create(&t, &a, tramp, &g) != 0) abort();
    pthread_join(t, 0); pthread_attr_destroy(&a);
    if (!what.empty()) c.fail("exception", "exception escaped: %s", what.c_str());
    if (aborted) throw CaseAbort();
}
// what this case may use
struct Budget { int64_t in, out, entries; double slack; };
static const int64_t K = 1024, M = 1024 * 1024;
static void judge(Case& c, const Meter& m, const HostileInput* h, const std::string& what, int64_t base, int64_t size, const Effort& e) {
    int64_t allowed = base + 12 * size + 6 * e.bytes;
    c.maxof(("peak_kb_" + what).c_str(), m.peak() / K);
    c.maxof(("peak_pct_of_allowed_" + what).c_str(), 100 * m.peak() / allowed);
    REQ(c, m.peak() <= allowed, what + ":memory", "%lld bytes of heap were in use (largest block %lld) for an input of %lld bytes with %lld bytes and %lld entries delivered", (long long)m.peak(), (long long)m.biggest(), (long long)size, (long long)e.bytes, (long long)e.entries);
    if (h) {
        c.count("input_calls", h->calls);
        int64_t work = 20000 + 12 * size + 4 * e.bytes + 60 * e.ops + 200 * e.entries;
        c.maxof(("calls_pct_of_allowed_" + what).c_str(), 100 * h->calls / work);
        REQ(c, h->calls <= work, what + ":calls", "%lld calls on an input of %lld bytes (%lld bytes, %lld entries delivered in %lld operations)", (long long)h->calls, (long long)size, (long long)e.bytes, (long long)e.entries, (long long)e.ops);
        if (h->pol.chunk == 0) { // an input that gives all it may: what is asked for again is asked for by the library
            int64_t give = 200000 + 12 * size + 4 * e.bytes + 2 * e.demanded + 2000 * (e.ops + e.entries);
            c.maxof(("asked_pct_of_allowed_" + what).c_str(), 100 * h->asked / give);
            REQ(c, h->asked <= give, what + ":reread", "%lld bytes were asked of an input of %lld bytes (%lld bytes, %lld entries delivered in %lld operations)", (long long)h->asked, (long long)size, (long long)e.bytes, (long long)e.entries, (long long)e.ops);
            c.count("rereads_judged");
        }
    }
    c.maxof(("cpu_ms_" + what).c_str(), (uint64_t)(m.used() * 1000));
    c.count("bytes_delivered", e.bytes); c.count("entries", e.entries); c.count("operations", e.ops);
    c.distinct(mix(e.dig, mix(e.entries, e.bytes)));
}
// forward only: nothing is read again because the caller wants it again
static void forward(Case& c, InputStream* s, Rng& r, Effort& e, const std::string& name, int64_t maxOut, bool all = true) {
    int style = (int)r.below(4);
    int64_t got = 0;
    for (;;) {
        ++e.ops;
        if (got > maxOut) return;
        if (style == 3 && r.chance(1, 3)) {
            int64_t k = s->skip(r.chance(1, 3) ? 1 << 30 : 1 + r.below(100000));
            if (k > 0) { got += k; e.bytes += k; }   // a skip may cost as much as a read
            if (k < 0 || s->status() != Ok) return;
            continue;
        }
        const char* p;
        int32_t min = style == 0 ? 1 : style == 1 ? 1 + (int32_t)r.below(3000) : 1 + (int32_t)r.len(200000), max = r.chance(1, 2) ? 0 : min;
        if (all && style == 2 && r.chance(1, 20)) { min = 0x7fffffff; max = 0; }
        e.demanded += min < 1 << 20 ? min : 1 << 20;
        int32_t n = s->read(p, min, max);
        if (n <= 0) { REQ(c, s->status() != Ok, name + ":stuck", "read(%d,%d)=%d and the status is Ok", min, max, n); return; }
        e.bytes += n; got += n;
        e.dig = mix(e.dig, n);
        if (s->status() != Ok) return;
    }
}
static void walk(Case& c, SubStreamProvider* p, Rng& r, Effort& e, const std::string& name, int64_t maxEntries, int64_t maxOut) {
    int mode = (int)r.below(3);
    while (InputStream* s = p->nextEntry()) {
        ++e.entries; ++e.ops;
        e.dig = mix(e.dig, hashStr(p->entryInfo().filename));
        REQ(c, e.entries <= maxEntries, name + ":entries", "more than %lld entries", (long long)maxEntries);
        int64_t meta = p->entryInfo().filename.size();
        for (auto& x : p->entryInfo().properties) meta += x.first.size() + x.second.size();
        e.bytes += meta;   // delivered as well
        if (mode == 1 || (mode == 2 && r.chance(1, 2))) forward(c, s, r, e, name, maxOut);
    }
    REQ(c, p->status() != Ok, name + ":stuck", "no entry and the status is Ok");
}
static HostileInput* input(Case& c, const Bytes& b, bool seek) {
    InputPolicy p = randomPolicy(c.rng, seek);
    if (b.size() > 300000 && (p.chunk == 1 || (p.chunk == 3 && p.n < 64))) p.chunk = 2;
    if (b.size() > 50000) p.freshBuf = false;   // the input would copy all it gives
    HostileInput* h = new HostileInput(c, b, p);
    h->budget = 3000000 + 100 * (int64_t)b.size();   // far beyond anything allowed: endless loops
    c.note += " [" + p.str() + "]";
    return h;
}
static int64_t baseOf(const std::string& kind) {
    if (kind == "lzma") return 36 * M;    // dictionary of at most 32 MB
    if (kind == "bz2") return 6 * M;
    return 5 * M;
}
static void decode(Case& c, const std::string& kind, const Bytes& data, std::function<void(Stages&, InputStream*)> make, int64_t maxOut) {
    Effort e;
    std::unique_ptr<HostileInput> h(input(c, data, c.rng.chance(1, 2)));
    Meter m;
    {
        Stages s;
        make(s, h.get());
        forward(c, s.top(), c.rng, e, kind, maxOut);
        judge(c, m, h.get(), kind, baseOf(kind), data.size(), e);
    }
    c.count(("decoder_" + kind).c_str());
    c.sample(c.note);
}
static void decoder(Case& c) {
    smallStack(c, [&]() {
        std::string kind = g_comps[c.idx % g_ncomps];
        Wild w = wildComp(c.rng, kind, c.rng.chance(1, 10) ? 150000 : 6000);
        c.note = kind + ":" + w.note;
        decode(c, kind, w.data, w.make, 8 * M);
    });
}
static int64_t entriesAllowed(const std::string& f, int64_t size) {
    // the smallest entry a format allows
    return 64 + size / (f == "tar" ? 512 : f == "cpio" ? 110 : f == "ar" ? 60 : f == "zip" ? 30 : f == "ole" ? 64 : 2);
}
static void enumerateAll(Case& c, const std::string& f, const Bytes& data, bool seek, int64_t maxEntries) {
    Effort e;
    std::unique_ptr<HostileInput> h(input(c, data, seek));
    Meter m;
    {
        std::unique_ptr<SubStreamProvider> p(makeProvider(f, h.get()));
        walk(c, p.get(), c.rng, e, f, maxEntries, 4 * M);
        judge(c, m, h.get(), f, f == "rpm" ? 12 * M : 4 * M, data.size(), e);
    }
    c.count(("archive_" + f).c_str());
    c.sample(c.note);
}
static void archive(Case& c) {
    smallStack(c, [&]() {
        std::string f = g_formats[c.idx % g_nformats];
        Wild w = wildArchive(c.rng, f, c.rng.chance(1, 10) ? 60000 : 5000);
        c.note = w.note;
        enumerateAll(c, f, w.data, f == "ole" ? c.rng.chance(7, 8) : c.rng.chance(1, 2), f == "rpm" ? 100000 : entriesAllowed(f, w.data.size()));
    });
}
// ---- structures that make naive parsers blow up
static Bytes tarEntry(const Bytes& name, char type, const Bytes& data, int64_t claim = -1) {
    Bytes h(512, '\0');
    auto put = [&](int at, const Bytes& s) { for (size_t i = 0; i < s.size(); ++i) h[at + i] = s[i]; };
    put(0, name.substr(0, 100)); put(100, "0000644"); put(108, "0000000"); put(116, "0000000"); put(124, fmt("%011llo", (long long)(claim >= 0 ? claim : data.size()))); put(136, "00000000001");
    put(148, "        "); h[156] = type; put(257, "ustar  ");
    unsigned s = 0; for (unsigned char x : h) s += x;
    put(148, fmt("%06o", s)); h[154] = 0;
    h += data; h.resize((h.size() + 511) / 512 * 512, '\0');
    return h;
}
static Bytes cpioEntry(const Bytes& name, const Bytes& data, int64_t claim = -1, int64_t nameClaim = -1) {
    Bytes b = fmt("070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1, (unsigned)(claim >= 0 ? claim : data.size()), 0, 0, 0, 0, (unsigned)(nameClaim >= 0 ? nameClaim : name.size() + 1), 0);
    b += name; b += '\0'; while (b.size() % 4 != 0) b += '\0';
    b += data; while (b.size() % 4) b += '\0';
    return b;
}
static Bytes arEntry(const Bytes& name, const Bytes& data, int64_t claim = -1) { Bytes b = fmt("%-16s%-12d%-6d%-6d%-8o%-10lld`\n", name.c_str(), 1, 0, 0, 0100644, (long long)(claim >= 0 ? claim : data.size())); b += data; if (b.size() % 2) b += '\n'; return b; }
static Bytes le(uint64_t v, int n) { Bytes b; for (int i = 0; i < n; ++i) b += (char)(v >> (8 * i)); return b; }
static Bytes be(uint64_t v, int n) { Bytes b; for (int i = n; i-- > 0;) b += (char)(v >> (8 * i)); return b; }
static Bytes zipEntry(const Bytes& name, int method, int flags, const Bytes& data, uint32_t csize, uint32_t size, const Bytes& extra = Bytes()) { return Bytes("PK\3\4", 4) + le(20, 2) + le(flags, 2) + le(method, 2) + le(0x21, 4) + le(0, 4) + le(csize, 4) + le(size, 4) + le(name.size(), 2) + le(extra.size(), 2) + name + extra + data; }
struct Amp { const char* name; const char* format; std::function<Bytes(Rng&, int64_t)> make; };
template <class F> static Bytes rep(int64_t n, F f) { Bytes b; int64_t i = 0; while ((int64_t)b.size() < n) b += f(i++); return b; }
static GzOpts best() { GzOpts o; o.level = 9; return o; }
static Bytes oleDoc(Rng& r, int64_t n, int how) {
    // header, tables and directories whose chains go wherever they like
    int64_t blocks = n / 512 < 8 ? 8 : n / 512;
    Bytes b("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8);
    b.resize(512 * blocks, '\0');
    auto put = [&](int64_t at, uint64_t v, int k) { for (int i = 0; i < k; ++i) if (at + i < (int64_t)b.size()) b[at + i] = (char)(v >> (8 * i)); };
    put(0x18, 0x3e, 2); put(0x1a, 3, 2); put(0x1c, 0xfffe, 2); put(0x1e, 9, 2); put(0x20, 6, 2);
    int64_t nb = blocks - 1;
    int64_t fats = (nb + 127) / 128; if (fats > 109) fats = 109;
    put(0x2c, fats, 4); put(0x38, 4096, 4);
    put(0x30, fats, 4); put(0x3c, fats + 1, 4); put(0x40, 1, 4); put(0x44, 0xfffffffeu, 4);
    if (how == 3) { put(0x44, fats + 2, 4); put(0x48, 0x7fffffff, 4); for (int i = 0; i < 128; ++i) put(512 * (fats + 3) + 4 * i, i == 127 ? fats + 2 : i, 4); }
    for (int64_t i = 0; i < 109; ++i) put(0x4c + 4 * i, i < fats ? i : 0xffffffffu, 4);
    for (int64_t i = 0; i < 128 * fats; ++i) {
        uint32_t v = i < fats ? 0xfffffffdu : 0xfffffffeu;
        if (i >= fats + 2) v = how == 0 ? (uint32_t)(i + 1 < nb ? i + 1 : fats + 2) /* one long ring */ : how == 1 ? (uint32_t)i /* itself */ : how == 2 ? (uint32_t)r.below(nb) : (uint32_t)(i + 1 < nb ? i + 1 : 0xfffffffeu);
        if (i == fats && how == 4) v = (uint32_t)fats;   // the directory is a ring
        if (i == fats && how == 5) v = (uint32_t)fats + 3;
        if (i == fats + 1 && how == 6) v = (uint32_t)fats + 1;   // so is the small block table
        put(512 + 4 * i, v, 4);
    }
    int64_t d = 512 * (1 + fats);
    for (int64_t k = 0; d + 128 * k + 128 <= (int64_t)b.size() && (k < 4 || how == 5); ++k) {
        int64_t p = d + 128 * k;
        if (k >= 4 && p < 512 * (1 + fats + 3)) continue;
        put(p, 'a' + k % 26, 2); put(p + 0x40, 4, 2); b[p + 0x42] = k ? 2 : 5;
        put(p + 0x44, k ? (how == 2 ? r.below(4) : k - 1) : 0xffffffffu, 4); put(p + 0x48, k < 3 ? k + 1 : how == 1 ? 1 : 0xffffffffu, 4); put(p + 0x4c, k ? 0xffffffffu : 1, 4);
        put(p + 0x74, fats + 2 + (k ? r.below(2) : 0), 4); put(p + 0x78, how == 5 ? 4096 : 0x7fffffff, 4);
    }
    return b;
}
static const std::vector<Amp>& amps() {
    static std::vector<Amp> v;
    if (!v.empty()) return v;
    auto add = [&](const char* n, const char* f, std::function<Bytes(Rng&, int64_t)> m) { Amp a = { n, f, m }; v.push_back(a); };
    add("dot entries", "tar", [](Rng&, int64_t n) { return rep(n, [](int64_t) { return tarEntry("./", '5', ""); }); });
    add("empty files", "tar", [](Rng&, int64_t n) { return rep(n, [](int64_t i) { return tarEntry(fmt("f%lld", (long long)i), '0', ""); }); });
    add("long links", "tar", [](Rng& r, int64_t n) { int k = (int)r.below(600); return rep(n, [k](int64_t) { return tarEntry("././@LongLink", 'L', Bytes(k, 'n')); }); });
    add("huge long links", "tar", [](Rng&, int64_t n) { return tarEntry("././@LongLink", 'L', Bytes(n, 'n'), 0x7fffffff) + tarEntry("f", '0', "x"); });
    add("long link of all", "tar", [](Rng&, int64_t n) { return tarEntry("././@LongLink", 'L', Bytes(n, 'n')) + tarEntry("f", '0', "x"); });
    add("huge member", "tar", [](Rng&, int64_t n) { return tarEntry("f", '0', Bytes(n, 'x'), 077777777777LL); });
    add("slashes", "tar", [](Rng&, int64_t n) { return slashTar(n / 2); });
    add("links", "tar", [](Rng& r, int64_t n) { char t = "1234567xgKS"[r.below(11)]; return rep(n, [t](int64_t) { return tarEntry("l", t, ""); }); });
    add("empty members", "cpio", [](Rng&, int64_t n) { return rep(n, [](int64_t) { return cpioEntry("", ""); }); });
    add("dot members", "cpio", [](Rng&, int64_t n) { return rep(n, [](int64_t) { return cpioEntry("./", ""); }); });
    add("huge member", "cpio", [](Rng&, int64_t n) { return cpioEntry("f", Bytes(n, 'x'), 0x7fffffff); });
    add("huge name", "cpio", [](Rng&, int64_t n) { return cpioEntry(Bytes(n, 'n'), "x"); });
    add("lying name", "cpio", [](Rng& r, int64_t n) { return cpioEntry(Bytes(n, 'n'), "x", -1, r.chance(1, 2) ? 0x7fffffff : 0x100000); });
    add("symbol tables", "ar", [](Rng& r, int64_t n) { const char* nm = r.chance(1, 2) ? "/" : r.chance(1, 2) ? "//" : "/SYM64/"; return "!<arch>\n" + rep(n, [nm](int64_t) { return arEntry(nm, ""); }); });
    add("name tables", "ar", [](Rng& r, int64_t n) { int64_t k = r.below(3000); return "!<arch>\n" + rep(n, [k](int64_t) { return arEntry("//", Bytes(k, '/')); }); });
    add("big name table", "ar", [](Rng& r, int64_t n) { return "!<arch>\n" + arEntry("//", Bytes(n / 2, 'n')) + rep(n / 2, [&](int64_t i) { return arEntry(fmt("/%lld", (long long)(i % 5)), ""); }); });
    add("huge tables", "ar", [](Rng& r, int64_t n) { return "!<arch>\n" + arEntry(r.chance(1, 2) ? "//" : "/", Bytes(n, 'n'), r.chance(1, 2) ? 9999999999LL : 0x7fffffff); });
    add("no name", "ar", [](Rng&, int64_t n) { return "!<arch>\n" + rep(n, [](int64_t) { return arEntry(" ", ""); }); });
    add("empty members", "zip", [](Rng& r, int64_t n) { int f = r.chance(1, 2) ? 0 : 8, m = r.chance(1, 2) ? 0 : 8; return rep(n, [=](int64_t) { return zipEntry("", m, f, m ? Bytes("\3\0", 2) : Bytes(), m ? 2 : 0, 0) + (f ? Bytes("PK\7\10", 4) + Bytes(12, '\0') : Bytes()); }); });
    add("descriptors of nothing", "zip", [](Rng& r, int64_t n) { int m = r.chance(1, 2) ? 0 : 8; return rep(n, [=](int64_t) { return zipEntry("x", m, 8, Bytes("\3\0", 2), 0, 0); }); });
    add("names", "zip", [](Rng&, int64_t n) { return rep(n, [](int64_t) { return zipEntry(Bytes(65535, 'n'), 0, 0, "", 0, 0, Bytes(65535, 'e')); }); });
    add("bombs", "zip", [](Rng&, int64_t n) { Bytes d = rawDeflate(Bytes(4000000, '\0'), best()); return rep(n < 100000 ? n : 100000, [&](int64_t) { return zipEntry("b", 8, 0, d, d.size(), 4000000); }); });
    add("huge stored", "zip", [](Rng&, int64_t n) { return zipEntry("b", 0, 0, Bytes(n, 'x'), 0xfffffff0u, 0xfffffff0u); });
    add("header", "rpm", [](Rng& r, int64_t n) {
        Bytes lead("\xed\xab\xee\xdb\3\0\0\0", 8); lead.resize(96, '\0');
        uint32_t idx = r.chance(1, 2) ? 0x7fffffff : (uint32_t)(n / 16), hs = r.chance(1, 2) ? 0x7fffffff : 16;
        return lead + Bytes("\x8e\xad\xe8\x01\0\0\0\0", 8) + be(idx, 4) + be(hs, 4) + Bytes(n, r.chance(1, 2) ? '\0' : '\x7f'); });
    add("payload bomb", "rpm", [](Rng&, int64_t n) {
        Bytes lead("\xed\xab\xee\xdb\3\0\0\0", 8); lead.resize(96, '\0');
        Bytes hd = Bytes("\x8e\xad\xe8\x01\0\0\0\0", 8) + be(0, 4) + be(0, 4);
        Bytes c = rep(n, [](int64_t) { return cpioEntry("./", ""); });
        return lead + hd + hd + gzEncode(c, best()); });
    add("many delimiters", "sdf", [](Rng& r, int64_t n) { const char* e = r.chance(1, 2) ? "$$$$\n" : r.chance(1, 2) ? "\n$$$$\r\n" : "$$$$"; return "\n  x\n\n  0  0  0  0  0  0  0  0  0  0  0 V2000\nM  END\n" + rep(n, [e](int64_t) { return Bytes(e); }); });
    add("almost delimiters", "sdf", [](Rng&, int64_t n) { return "\n  x\n\n  0  0  0  0  0  0  0  0  0  0  0 V2000\nM  END\n" + Bytes(n, '$'); });
    add("one record", "sdf", [](Rng&, int64_t n) { return "\n  x\n\n  0  0  0  0  0  0  0  0  0  0  0 V2000\nM  END\n" + Bytes(n, 'x'); });
    add("folds", "mail", [](Rng& r, int64_t n) { const char* f = r.chance(1, 2) ? "\n x" : r.chance(1, 2) ? "\r\n\t" : "\n "; return "From: a@b\nSubject: s" + rep(n, [f](int64_t) { return Bytes(f); }) + "\n\nbody\n"; });
    add("one line", "mail", [](Rng&, int64_t n) { return "From: a@b\nSubject: " + Bytes(n, 's') + "\n\nbody\n"; });
    add("headers", "mail", [](Rng& r, int64_t n) { const char* h = r.chance(1, 2) ? "X:y\n" : r.chance(1, 2) ? "Content-Type: multipart/mixed; boundary=b\n" : "Content-Disposition: attachment; filename=\"x\n"; return "From: a@b\n" + rep(n, [h](int64_t) { return Bytes(h); }) + "\n--b\n\nbody\n"; });
    add("nested parts", "mail", [](Rng&, int64_t n) { return "From: a@b\nContent-Type: multipart/mixed; boundary=b\n\n--b\n" + rep(n, [](int64_t i) { return fmt("Content-Type: multipart/mixed; boundary=b%lld\n\n--b%lld\n", (long long)i, (long long)i); }); });
    add("empty parts", "mail", [](Rng& r, int64_t n) { const char* p = r.chance(1, 2) ? "\n--b\n" : r.chance(1, 2) ? "\n--b\n\n" : "\n--b--\n"; return "From: a@b\nContent-Type: multipart/mixed; boundary=b\n\n--b\n" + rep(n, [p](int64_t) { return Bytes(p); }); });
    add("almost boundaries", "mail", [](Rng& r, int64_t n) { Bytes bd = Bytes(1 + r.below(60), 'a') + "b"; Bytes near = "\n--" + bd.substr(0, bd.size() - 1) + (r.chance(1, 2) ? "a" : "\n"); return "From: a@b\nContent-Type: multipart/mixed; boundary=" + bd + "\n\n--" + bd + "\nContent-Type: text/plain; name=\"x\"\n\n" + rep(n, [near](int64_t) { return near; }); });
    add("long boundary", "mail", [](Rng& r, int64_t n) { Bytes bd(n / 2, 'a'); return "From: a@b\nContent-Type: multipart/mixed; boundary=\"" + bd + "\"\n\n--" + bd + "\nContent-Type: text/plain; name=\"x\"\n\n" + bd; });
    add("quotes", "mail", [](Rng& r, int64_t n) { return "From: a@b\nContent-Type: multipart/mixed; " + rep(n, [&](int64_t) { return Bytes(r.chance(1, 2) ? "boundary=\"\\" : r.chance(1, 2) ? ";\"" : "name="); }) + "\n\n--b\n\nbody\n"; });
    add("base64 junk", "mail", [](Rng& r, int64_t n) { char j = r.chance(1, 2) ? ' ' : r.chance(1, 2) ? '\n' : '='; return "From: a@b\nContent-Type: application/x; name=\"x\"\nContent-Transfer-Encoding: base64\n\n" + Bytes(n, j); });
    add("empty lines", "mail", [](Rng&, int64_t n) { return "From: a@b\nContent-Type: multipart/mixed; boundary=b\n\n" + Bytes(n, '\n'); });
    for (int how = 0; how < 7; ++how) { static const char* nm[] = { "one ring", "self loops", "random chains", "table chain", "directory ring", "many entries", "small table ring" }; add(nm[how], "ole", [how](Rng& r, int64_t n) { return oleDoc(r, n, how); }); }
    return v;
}
static void amplified(Case& c) {
    smallStack(c, [&]() {
        const Amp& a = amps()[c.idx % amps().size()];
        int64_t n = 2000 + (c.rng.chance(1, 3) ? c.rng.below(c.thorough ? 4000000 : 1200000) : c.rng.below(200000));
        c.note = fmt("%s: %s of %lld bytes", a.format, a.name, (long long)n);
        Bytes b = a.make(c.rng, n);
        if (c.rng.chance(1, 4)) b = mutate(c.rng, b, a.format, std::vector<int64_t>(1, 0), c.note);
        std::string f = a.format;
        enumerateAll(c, f, b, f == "ole" ? true : c.rng.chance(1, 2), f == "rpm" ? 64 + n / 110 : entriesAllowed(f, b.size()));
        c.count("amplified");
    });
}
static void amplifiedDecoder(Case& c) {
    smallStack(c, [&]() {
        int64_t n = 2000 + (c.rng.chance(1, 3) ? c.rng.below(1200000) : c.rng.below(200000));
        Rng& r = c.rng;
        Bytes b; std::string kind; std::function<void(Stages&, InputStream*)> make;
        int k = (int)(c.idx % 12);
        c.note = fmt("decoder shape %d of %lld bytes", k, (long long)n);
        int64_t maxOut = 64 * M;
        switch (k) {
        case 0: kind = "gzip"; b = gzEncode(Bytes(60000000, '\0'), best()); break;
        case 1: kind = "zlib"; b = zlibEncode(rep(60000000, [](int64_t) { return Bytes("abcdefg"); }), best()); break;
        case 2: kind = "bz2"; { static Bytes z = bz2Encode(Bytes(30000000, 'x'), 9, 0); b = z; } break;
        case 3: kind = "lzma"; { Bytes h("\x5d", 1); uint32_t dict = r.chance(1, 2) ? 0x2000000 : 0xffffffffu; b = h + le(dict, 4) + le(r.chance(1, 2) ? ~0ULL : 0x7fffffffffULL, 8) + Bytes(n, '\0'); } break;
        case 4: kind = "base64"; b = Bytes(n, " \n\r=-"[r.below(5)]); break;
        case 5: kind = "gzip"; b = rep(n, [&](int64_t) { return gzEncode("", best()); }); break;   // empty members
        case 6: { kind = "deflate"; b = rep(n, [](int64_t) { return Bytes("\0\0\0\xff\xff", 5); }); break; }   // empty blocks
        case 7: kind = "gzip"; b = Bytes("\x1f\x8b\x08\x1e\0\0\0\0\0\3", 10) + Bytes(n, r.chance(1, 2) ? '\xff' : 'n'); break;   // a name or field without end
        case 8: kind = "terminated"; { Bytes t = Bytes(1 + r.below(40), 'a') + "b"; b = Bytes(n, 'a'); make = [t](Stages& s, InputStream* in) { s.s.push_back(new StringTerminatedSubStream(in, t)); }; } break;
        case 9: kind = "encoding"; { static const char* enc[] = { "ISO-2022-JP", "ISO-2022-KR", "UTF-7", "UTF-8", "UTF-16", "GB18030", "BIG5-HKSCS" }; std::string e = enc[r.below(7)]; c.note += " " + e; Bytes u = r.chance(1, 2) ? Bytes("\x1b(B") : r.chance(1, 2) ? Bytes("+AAA-") : Bytes(1, (char)r.next()); b = rep(n, [u](int64_t) { return u; }); make = [e](Stages& s, InputStream* in) { s.s.push_back(new EncodingInputStream(in, e.c_str())); }; } break;
        case 10: kind = "sub"; b = Bytes(n, 'x'); make = [](Stages& s, InputStream* in) { s.s.push_back(new SubInputStream(in, 0x7fffffffffffffffLL)); }; break;
        default: kind = "compress"; b = r.chance(1, 2) ? Bytes(n, 'x') : randomContent(r, n); make = [](Stages& s, InputStream* in) { s.s.push_back(new GZipCompressInputStream(in, 1)); }; break;
        }
        if (!make) make = makeComp(r, kind, "").make;
        if (k < 3) { // output is bounded by what is asked for, whatever the file could give
            if (r.chance(1, 2)) maxOut = r.below(3000000);
            c.note += fmt(" to %lld", (long long)maxOut);
        }
        Effort e;
        std::unique_ptr<HostileInput> h(input(c, b, r.chance(1, 2)));
        Meter m;
        {
            Stages s;
            make(s, h.get());
            if (k < 3) { // small reads must not unpack everything
                const char* p; int64_t got = 0; int32_t q;
                while (got < maxOut && (q = s.top()->read(p, 1, r.chance(1, 2) ? 0 : 5000)) > 0) { got += q; ++e.ops; }
                int64_t peak = m.peak();
                REQ(c, peak <= baseOf(kind) + 2 * (int64_t)b.size(), kind + ":memory", "%lld bytes of heap were in use while %lld bytes were read in small steps from %zu bytes", (long long)peak, (long long)got, b.size());
                if (h->pol.chunk == 0) REQ(c, h->delivered <= 2 * (int64_t)b.size() + 1000, kind + ":reread", "%lld bytes read from %zu", (long long)h->delivered, b.size());
                e.bytes = 0; c.count("bomb_bytes", got);
            } else forward(c, s.top(), r, e, kind, maxOut, k != 3);
            judge(c, m, h.get(), kind, baseOf(kind), b.size(), e);
        }
        c.count("amplified_decoders");
        c.sample(c.note);
    });
}
// ---- the archive reader: everything is opened again and again, and nested
static int64_t listAll(Case& c, ArchiveReader& a, const Bytes& url, Rng& r, Effort& e, int depth, int64_t limit) {
    ArchiveReader::DirLister l = a.dirEntries(url);
    EntryInfo i; std::vector<Bytes> kids;
    int64_t n = 0;
    while (l.nextEntry(i)) {
        ++n; ++e.entries; ++e.ops;
        REQ(c, e.entries <= limit, "reader:entries", "more than %lld entries are listed", (long long)limit);
        if (i.type & EntryInfo::Dir) { if (kids.size() < 3) kids.push_back(i.filename); }
    }
    if (depth > 0) for (auto& k : kids) n += listAll(c, a, url + "/" + k, r, e, depth - 1, limit);
    return n;
}
static void reader(Case& c) {
    smallStack(c, [&]() {
        Rng& r = c.rng;
        Bytes b;
        int64_t depth = 0, base = 16 * M;
        int k = (int)(c.idx % 11);
        c.note = fmt("reader shape %d", k);
        int64_t inner = 0;   // bytes that unpacking gives
        switch (k) {
        case 0: { Wild w = wildArchive(r, g_formats[r.below(g_nformats)], 5000); b = w.data; c.note += " " + w.note; inner = 4 * b.size() + 100000; break; }
        case 1: b = zipQuine(); depth = 80; inner = 64 * b.size(); break;
        case 2: { int64_t n = r.chance(1, 2) ? r.below(4000) : r.below(c.thorough ? 400000 : 60000); b = slashTar(n); c.note += fmt(" of %lld", (long long)n); inner = b.size(); break; }
        case 3: { const Amp& a = amps()[r.below(amps().size())]; int64_t n = 2000 + r.below(100000); c.note += fmt(" %s: %s of %lld", a.format, a.name, (long long)n); b = a.make(r, n); inner = 64 * n + 4000000; break; }
        case 4: { // archives in archives, many levels
            int n = 1 + (int)r.below(90);
            b = "innermost";
            for (int i = 0; i < n; ++i) { int64_t s = b.size(); b = i % 2 ? zipEntry(fmt("l%d", i), 0, 0, b, s, s) : tarEntry(fmt("l%d", i), '0', b); inner += b.size(); }
            if (r.chance(1, 2)) b = gzEncode(b, best());
            c.note += fmt(" %d levels", n); depth = 100; break; }
        case 5: { // compressed many times
            int n = 1 + (int)r.below(100); int how = (int)r.below(4);
            b = tarEntry("f", '0', "content"); b.resize(b.size() + 1024, '\0');
            for (int i = 0; i < n; ++i) { int w = how == 3 ? (int)r.below(3) : how; if (w == 0) b = gzEncode(b, best()); else if (w == 1) b = bz2Encode(b, 1, 0); else { LzOpts o = randomLz(r); o.known = false; o.dict = r.chance(1, 2) ? 0x2000000 : 4096; b = lzmaEncode(b, o); } }
            c.note += fmt(" packed %d times with %d", n, how); inner = n * (3000 + b.size()); base = 300 * M; break; }
        case 10: { // archives in archives, each of them packed
            int n = 1 + (int)r.below(c.thorough ? 64 : 20); int how = (int)r.below(4);
            b = tarEntry("f", '0', "content"); b.resize(b.size() + 1024, '\0');
            for (int i = 0; i < n; ++i) {
                int times = 1 + (int)r.below(3);
                for (int k = 0; k < times; ++k) { int w = how == 3 ? (int)r.below(3) : how; if (w == 0) b = gzEncode(b, best()); else if (w == 1) b = bz2Encode(b, 9, 0); else { LzOpts o = randomLz(r); o.known = false; o.dict = 0x2000000; b = lzmaEncode(b, o); } }
                int64_t s = b.size(); inner += 3 * s + 3000;
                b = r.chance(1, 2) ? zipEntry("f", 0, 0, b, s, s) : tarEntry("f", '0', b);
            }
            c.note += fmt(" %d levels packed with %d", n, how); base = 300 * M; depth = 100; break; }
        case 6: { static Bytes q; if (q.empty()) for (auto& x : corpus()) if (x.size() > 100 && x.size() < 400 && x[0] == '\x1f') q = x; b = q.empty() ? zipQuine() : q; if (r.chance(1, 2)) b = zipEntry("q.gz", 0, 0, b, b.size(), b.size()); c.note += " self-reproducing gzip"; depth = 80; inner = 64 * 400; base = 300 * M; break; }
        case 7: { // tar bomb: a compressed archive of many empty members
            int64_t n = 512 * (100 + r.below(4000));
            Bytes t = rep(n, [](int64_t i) { return tarEntry(fmt("d%lld/f%lld", (long long)(i % 7), (long long)i), '0', ""); });
            b = gzEncode(t, best()); inner = n; break; }
        case 8: { // the same names again and again
            int64_t n = 512 * (100 + r.below(2000));
            Bytes t = rep(n, [&](int64_t i) { return tarEntry(i % 3 ? "a/b/c" : i % 2 ? "a/b" : "a", r.chance(1, 2) ? '5' : '0', ""); });
            b = t; inner = n; break; }
        default: { // deep path in cpio, zip or tar members, many of them
            Bytes p; int64_t n = 1 + r.below(20000); for (int64_t i = 0; i < n; ++i) p += "d/";
            for (int i = 0; i < 3; ++i) b += zipEntry(p + fmt("f%d", i), 0, 0, "x", 1, 1);
            inner = b.size(); c.note += fmt(" %lld directories deep", (long long)n); break; }
        }
        if (r.chance(1, 6)) b = mutate(r, b, "zip", std::vector<int64_t>(1, 0), c.note);
        Effort e;
        WildOpener o(c, r.next());
        o.quiet = false; o.budget = 3000000 + 100 * (int64_t)b.size();
        o.files["f"] = b;
        Meter m;
        {
            ArchiveReader a;
            a.addStreamOpener(&o);
            int64_t limit = 4000 + 8 * (inner + (int64_t)b.size());
            listAll(c, a, "f", r, e, depth, limit);
            EntryInfo i;
            for (int q = 0; q < 3; ++q) { a.stat("f/x/y/z", i); InputStream* s = a.openStream("f/d/d/d/f0"); if (s) a.closeStream(s); ++e.ops; }
            int64_t size = b.size() + inner;
            int64_t allowed = base + 60 * size + 6 * e.bytes + 2000 * e.entries;
            c.maxof(fmt("peak_kb_reader%d", k).c_str(), m.peak() / K);
            c.maxof(fmt("cpu_ms_reader%d", k).c_str(), (uint64_t)(m.used() * 1000));
            REQ(c, m.peak() <= allowed, "reader:memory", "%lld bytes of heap were in use (largest block %lld) for a file of %zu bytes, %lld unpacked", (long long)m.peak(), (long long)m.biggest(), b.size(), (long long)inner);
            c.maxof("reader_opens", o.opened);
            REQ(c, o.opened <= 20 + 4 * (e.ops + 1), "reader:opens", "the file was opened %lld times for %lld operations", (long long)o.opened, (long long)e.ops);
        }
        REQ(c, o.live == 0, "reader:open-files", "%lld streams were left open", (long long)o.live);
        c.count("entries", e.entries);
        c.distinct(mix(hashStr(c.note), e.entries));
        c.count(fmt("reader_shape_%d", k).c_str());
        c.sample(c.note);
    });
}
void registerSuites() {
    g_rule = "mutated, cut, spliced, self-referencing and amplified inputs are read forward to their end in a thread with a 512 KB stack; a case is judged by the calls and bytes asked of the input, the entries, the peak of the heap (allocator hooks) and the CPU time it used against linear bounds";
    addSuite("decoder", 11000, 400000, decoder, 20);
    addSuite("archive", 16000, 400000, archive, 20);
    addSuite("amplified", 1200, 30000, amplified, 30);
    addSuite("amplified-decoder", 360, 8000, amplifiedDecoder, 30);
    addSuite("reader", 1500, 40000, reader, 30);
    need("amplified", 500); need("amplified_decoders", 100); need("input_calls", 100000);
    for (int i = 0; i < 11; ++i) need(fmt("reader_shape_%d", i), 20);
}
