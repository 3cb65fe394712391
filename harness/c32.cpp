// Inputs that start to fail.
#include "components.h"
#include "gzipcompressstream.h"
#include <strigi/processinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/fileinputstream.h>
#include "skippingfileinputstream2.h"
#include <strigi/substreamproviderprovider.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
using namespace Strigi;

// ---- a component over a failing input
template <class T> static void consume(Case& c, StreamBase<T>* s, const std::basic_string<T>& ref, const std::string& name, Rng r, bool faulty) {
    MonOpts o; o.maxMin = 60000; o.end = faulty ? MonOpts::EofOrError : MonOpts::ExactEof;
    Mon<T> m(c, s, ref, name, o);
    if (r.chance(1, 3)) m.drain(r); else m.run(r, 1 + (int)r.below(16));
}
static void sticky(Case& c, InputStream* s, const std::string& name) {
    REQ(c, s->status() == Error, name + ":fault-lost", "the input failed, but the status is %s at %lld (size %lld)", statusName(s->status()), (long long)s->position(), (long long)s->size());
    REQ(c, s->error() && *s->error(), name + ":no-message", "error without a message");
    Bytes msg = s->error();
    const char* p;
    for (int i = 0; i < 2; ++i) {
        int64_t k = s->read(p, 1, 0);
        REQ(c, k == -2 && s->status() == Error && msg == s->error(), name + ":error-not-sticky", "read() in error gives %lld, status %s, '%s' (was '%s')", (long long)k, statusName(s->status()), s->error(), msg.c_str());
        k = s->skip(1);
        REQ(c, k <= 0 && s->status() == Error, name + ":error-not-sticky", "skip() in error gives %lld, status %s", (long long)k, statusName(s->status()));
        s->reset(0);
        REQ(c, s->status() == Error, name + ":error-not-sticky", "reset() in error leads to status %s", statusName(s->status()));
    }
}
static int64_t onceComp(Case& c, const Comp& k, const InputPolicy& pol, uint64_t seed, int64_t failAt, bool& failed) {
    HostileInput in(c, k.input, pol);
    in.failAt = failAt;
    in.budget = 20000 + 40 * (int64_t)k.input.size();
    Stages st;
    k.make(st, &in);
    consume<char>(c, st.top(), k.ref, k.name, Rng(seed), failAt >= 0);
    failed = in.failed;
    if (failed) { c.count("faults"); if (st.top()->status() == Error) c.count("faults_seen"); sticky(c, st.top(), k.name); }
    return in.calls;
}
static void faults(Case& c, int64_t calls, int n, const std::function<void(int64_t)>& f) {
    if (calls <= n) { for (int64_t k = 0; k < calls; ++k) f(k); c.count("every_call_failed"); return; }
    f(0); f(calls - 1); f(calls - 2);
    for (int i = 3; i < n; ++i) f(c.rng.below(calls));
}
static Bytes small(Case& c) { return randomContent(c.rng, c.rng.chance(1, 5) ? 40000 : 2500); }
static void component(Case& c) {
    Comp k = c.idx % 4 ? makeComp(c.rng, g_comps[c.idx / 4 % g_ncomps], small(c)) : makeChain(c.rng, "x" + small(c), 2 + (int)c.rng.below(2));
    InputPolicy pol = randomPolicy(c.rng, false);
    if (pol.chunk == 0 && c.rng.chance(2, 3)) { pol.chunk = 3; pol.n = 1 + c.rng.below(k.input.size() / 3 + 1); }
    uint64_t seed = c.rng.next();
    std::string note = k.name + fmt(", %zu->%zu bytes, ", k.input.size(), k.ref.size()) + pol.str();
    c.note = note + ", no fault";
    bool failed;
    int64_t calls = onceComp(c, k, pol, seed, -1, failed);
    faults(c, calls, 10, [&](int64_t at) {
        c.note = note + fmt(", call %lld of %lld fails", (long long)at, (long long)calls);
        onceComp(c, k, pol, seed, at, failed);
        c.distinct(mix(mix(hashStr(k.input), seed), at));
    });
    c.count(fmt("comp_%s", c.idx % 4 ? k.name.c_str() : "chain").c_str());
    c.sample(c.note);
}
static void wide(Case& c) {
    Bytes d = small(c);
    std::wstring ref;
    for (unsigned char ch : d) ref += (wchar_t)ch;
    InputPolicy pol = randomPolicy(c.rng, false);
    uint64_t seed = c.rng.next();
    int64_t calls = 0;
    for (int64_t at = -1; at < calls && at < 12; ++at) {
        HostileInput in(c, d, pol);
        in.failAt = at;
        c.note = fmt("wide reader, %zu bytes, call %lld fails, ", d.size(), (long long)at) + pol.str();
        InputStreamReader s(&in, "ISO-8859-1");
        consume<wchar_t>(c, &s, ref, "wide", Rng(seed), at >= 0);
        if (at < 0) calls = in.calls;
        if (in.failed) {
            c.count("faults");
            REQ(c, s.status() == Error && *s.error(), "wide:fault-lost", "the input failed, status %s", statusName(s.status()));
            const wchar_t* p;
            REQ(c, s.read(p, 1, 0) == -2 && s.status() == Error, "wide:error-not-sticky", "read after an error, status %s", statusName(s.status()));
        }
        c.distinct(mix(hashStr(d), mix(seed, at)));
    }
    c.count("comp_wide");
}
// the bytes of the encoding depend on how the source arrives, so only their meaning is judged
static void compress(Case& c) {
    Bytes d = small(c);
    InputPolicy pol = randomPolicy(c.rng, false);
    int level = (int)c.rng.range(0, 9);
    uint64_t seed = c.rng.next();
    int64_t calls = 0;
    for (int64_t at = -1; at < calls && at < 12; ++at) {
        HostileInput in(c, d, pol);
        in.failAt = at;
        c.note = fmt("compress level %d, %zu bytes, call %lld fails, ", level, d.size(), (long long)at) + pol.str();
        GZipCompressInputStream s(&in, level);
        Rng r(seed);
        ReadResult q = readAll(c, &s, r, 1 << 30, 1);
        bool complete = false;
        Bytes back = zlibDecode(q.data, complete);
        REQ(c, back.size() <= d.size() && memcmp(back.data(), d.data(), back.size()) == 0, "compress:content", "wrong encoding before the failure");
        if (at < 0) { calls = in.calls; REQ(c, complete && back == d && q.status == Eof, "compress:end", "no complete encoding without a fault"); }
        if (in.failed) { c.count("faults"); sticky(c, &s, "compress"); }
        c.distinct(mix(hashStr(d), mix(seed, at)));
    }
    c.count("comp_compress");
}
// ---- archives
struct Outcome { int64_t calls; bool failed; };
static Bytes nestedOf(Rng& r, const Bytes& name, const std::map<Bytes, Archive>& nested, const Archive*& a, const Bytes& data) {
    auto it = nested.find(data);
    a = it == nested.end() ? 0 : &it->second;
    (void)r; (void)name;
    return data;
}
static void enumerateFaulty(Case& c, SubStreamProvider* p, const Archive& a, const std::map<Bytes, Archive>& nested, Rng& r, const bool& failed, bool faulty, int depth) {
    std::string name = a.format;
    size_t i = 0;
    int mode = (int)r.below(6);
    while (InputStream* s = p->nextEntry()) {
        REQ(c, i < a.members.size(), name + ":too-many", "entry %zu '%s' of %zu", i, p->entryInfo().filename.substr(0, 100).c_str(), a.members.size());
        const Member& m = a.members[i];
        compareInfo(c, p->entryInfo(), m, i, name, true);
        const Archive* sub;
        nestedOf(r, m.name, nested, sub, m.data);
        if (sub && depth) {
            bool before = failed;
            SubStreamProvider* q = makeProvider(sub->format, s);
            struct D { SubStreamProvider* q; ~D() { delete q; } } d = { q };
            enumerateFaulty(c, q, *sub, nested, r, failed, faulty, depth - 1);
            if (failed && !before) c.count("faults_in_nested");
        } else {
            MonOpts o; o.maxMin = 1 << 16; o.end = faulty ? MonOpts::EofOrError : MonOpts::ExactEof;
            Mon<char> mon(c, s, m.data, name + ":entry", o);
            bool before = failed;
            int how = mode == 4 ? (int)r.below(6) : mode;
            switch (how) {
            case 0: case 4: mon.drain(r); break;
            case 1: { int64_t n = r.below(m.data.size() + 1); while (mon.pos < n && s->status() == Ok) { if (mon.read(1, 1 + (int32_t)r.len(4000)) < 0) break; } break; }
            case 2: mon.skip(r.chance(1, 2) ? r.len(m.data.size() + 10) : (int64_t)m.data.size()); break;
            case 3: break;
            case 5: mon.run(r, 4 + (int)r.below(12)); break;
            }
            if (failed && !before) { c.count("faults_in_entries"); sticky(c, s, name + ":entry"); }
        }
        ++i;
    }
    StreamStatus st = p->status();
    if (failed) {
        REQ(c, st == Error, name + ":fault-lost", "the input failed, but the enumeration ends with status %s after %zu of %zu entries", statusName(st), i, a.members.size());
        REQ(c, p->error() && *p->error(), name + ":no-message", "error without a message");
    } else {
        REQ(c, st == Eof && i == a.members.size(), name + ":end", "no fault, but the enumeration ends with status %s '%s' after %zu of %zu entries", statusName(st), p->error(), i, a.members.size());
    }
    for (int j = 0; j < 2; ++j) { InputStream* s = p->nextEntry(); REQ(c, !s && p->status() == st, name + ":after-end", "nextEntry() after the end: %s, status %s (was %s)", s ? "a stream" : "nothing", statusName(p->status()), statusName(st)); }
}
static Outcome onceArchive(Case& c, const Archive& a, const std::map<Bytes, Archive>& nested, const InputPolicy& pol, uint64_t seed, int64_t failAt, bool detect) {
    HostileInput in(c, a.bytes, pol);
    in.failAt = failAt;
    in.budget = 20000 + 60 * (int64_t)a.bytes.size();
    SubStreamProvider* p = 0;
    struct D { SubStreamProvider*& p; ~D() { delete p; } } d = { p };
    if (detect) {
        SubStreamProviderProvider spp;
        p = spp.subStreamProvider(&in);
        if (!p) { REQ(c, in.failed && in.status() == Error, "detect:refused", "%s is not recognised", a.format.c_str()); c.count("faults"); c.count("faults_at_detection"); Outcome o = { in.calls, in.failed }; return o; }
    } else p = makeProvider(a.format, &in);
    Rng r(seed);
    enumerateFaulty(c, p, a, nested, r, in.failed, failAt >= 0, 1);
    if (in.failed) { c.count("faults"); c.count(fmt("faults_%s", a.format.c_str()).c_str()); }
    Outcome o = { in.calls, in.failed };
    return o;
}
static void archive(Case& c) {
    static const char* outer[] = { "tar", "cpio", "ar", "zip", "rpm", "mail", "sdf", "ole" };
    std::map<Bytes, Archive> nested;
    GenOpts o; o.maxSize = c.rng.chance(1, 5) ? 20000 : 1500; o.maxMembers = 5;
    std::string f = outer[c.idx % 8];
    if (c.rng.chance(1, 3) && f != "sdf") {
        GenOpts i; i.maxSize = 800; i.maxMembers = 3;
        Archive n = genArchive(c.rng, outer[c.rng.below(7)], i);
        if (!n.needsSeek) { nested[n.bytes] = n; o.contents.push_back(n.bytes); o.contentNames.push_back(".x"); }
    }
    Archive a = genArchive(c.rng, f, o);
    InputPolicy pol = randomPolicy(c.rng, a.needsSeek);
    if (!nested.empty() && c.rng.chance(1, 2)) pol.reset = 0;
    uint64_t seed = c.rng.next();
    bool detect = c.rng.chance(1, 2) && (f == "mail" || f == "zip" || f == "sdf");
    if (detect) {   // only what detection can recognise, see C33
        Bytes h = a.bytes.substr(0, 1024);
        if (!checkHeaderOf(f, h.data(), (int32_t)h.size())) detect = false;
        for (const char* g : { "mail", "zip", "sdf" }) if (g != f && !(f == "sdf" && g == std::string("mail")) && checkHeaderOf(g, h.data(), (int32_t)h.size())) detect = false;
    }
    std::string note = a.note + fmt(", %zu bytes, %s", a.bytes.size(), detect ? "detected, " : "") + pol.str();
    c.note = note + ", no fault";
    int64_t calls = onceArchive(c, a, nested, pol, seed, -1, detect).calls;
    faults(c, calls, 14, [&](int64_t at) {
        c.note = note + fmt(", call %lld of %lld fails", (long long)at, (long long)calls);
        onceArchive(c, a, nested, pol, seed, at, detect);
        c.distinct(mix(mix(hashStr(a.bytes), seed), at));
    });
    c.count(fmt("archives_%s", f.c_str()).c_str());
    c.sample(c.note);
}
// ---- files whose reads fail
struct Cookie { int fd; int64_t good; bool* failed; };
static Cookie g_next = { -1, -1, 0 };
static ssize_t ckRead(void* v, char* b, size_t n) {
    Cookie* k = (Cookie*)v;
    if (k->good >= 0) {
        if (k->good == 0) { *k->failed = true; errno = EIO; return -1; }
        if ((int64_t)n > k->good) n = k->good;
        k->good -= n;
    }
    return read(k->fd, b, n);
}
static int ckSeek(void* v, off64_t* o, int w) { Cookie* k = (Cookie*)v; off64_t r = lseek64(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* v) { Cookie* k = (Cookie*)v; int r = close(k->fd); delete k; return r; }
static FILE* cookieFile(const char* path, int64_t good, bool* failed) {
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return 0;
    Cookie* k = new Cookie; k->fd = fd; k->good = good; k->failed = failed;
    cookie_io_functions_t f = { ckRead, 0, ckSeek, ckClose };
    FILE* file = fopencookie(k, "rb", f);
    setvbuf(file, 0, _IONBF, 0);   // no reads besides those of the stream
    return file;
}
static bool g_inject; static int64_t g_good; static bool g_failed;
extern "C" FILE* __real_fopen(const char* p, const char* m);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) { return g_inject ? cookieFile(p, g_good, &g_failed) : __real_fopen(p, m); }
static void file(Case& c) {
    Bytes d = small(c);
    std::string path = scratchDir() + "/f";
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size()) abort();
    close(fd);
    int kind = (int)(c.idx % 5);
    int32_t bs = 1 + (int32_t)c.rng.len(9000);
    uint64_t seed = c.rng.next();
    for (int t = 0; t < 6; ++t) {
        g_good = t == 0 ? -1 : t == 1 ? 0 : (int64_t)c.rng.below(d.size() + 1);
        g_failed = false; g_inject = true;
        struct Off { ~Off() { g_inject = false; } } off;
        static const char* kn[] = { "path", "FILE*", "unbuffered", "buffered", "skipping" };
        c.note = fmt("file stream (%s, buffer %d) of %zu bytes, reads fail after %lld bytes", kn[kind], bs, d.size(), (long long)g_good);
        std::unique_ptr<InputStream> s;
        if (kind == 0) s.reset(new FileInputStream(path.c_str(), bs));
        else if (kind == 1) { FILE* f = cookieFile(path.c_str(), g_good, &g_failed); s.reset(new FileInputStream(f, path.c_str(), bs)); }
        else if (kind == 4) s.reset(new SkippingFileInputStream2(path.c_str(), bs));
        else s.reset(FileInputStream::open(path.c_str(), kind == 2 ? FileInputStream::Unbuffered : FileInputStream::Buffered, bs));
        MonOpts o; o.maxMin = 60000; o.end = g_good < 0 ? MonOpts::ExactEof : MonOpts::EofOrError; o.fullSeek = kind == 2;
        std::string nm = kind == 2 ? "unbuffered" : kind == 4 ? "skipping" : "file";
        { Mon<char> m(c, s.get(), d, nm, o);
          Rng r(seed);
          if (r.chance(1, 3)) m.drain(r); else m.run(r, 1 + (int)r.below(16)); }
        if (g_failed) { c.count("faults"); c.count("faults_in_files"); sticky(c, s.get(), nm); }
        c.distinct(mix(mix(hashStr(d), seed), t * 5 + kind));
    }
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "each workload first runs without a fault, which counts the calls on its input; it is then repeated with the same choices while the input fails from the k-th call on (every k for short runs, first, last and random ones otherwise). Whatever the input failed in, the stream or provider must end in error with a message, stay there, and everything delivered before must be right";
    addSuite("component", 4000, 100000, component);
    addSuite("wide", 400, 8000, wide);
    addSuite("compress", 400, 8000, compress);
    addSuite("archive", 4000, 100000, archive);
    addSuite("file", 1900, 30000, file);
    need("faults", 20000); need("every_call_failed", 500); need("faults_in_entries", 1000); need("faults_in_nested", 100); need("faults_at_detection", 20); need("comp_chain", 100); need("comp_wide", 50); need("comp_compress", 50);
    for (int i = 0; i < g_ncomps; ++i) need(fmt("comp_%s", g_comps[i]), 50);
    for (int i = 0; i < g_nformats; ++i) need(fmt("faults_%s", g_formats[i]), 50);
}
