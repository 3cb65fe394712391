#include "streams.h"
#include <strigi/fileinputstream.h>
#include "skippingfileinputstream2.h"
#include <sys/stat.h>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
using namespace Strigi;
static void writeFile(const std::string& p, const Bytes& d) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    size_t o = 0;
    while (o < d.size()) { ssize_t n = write(fd, d.data() + o, d.size() - o); if (n <= 0) abort(); o += n; }
    close(fd);
}
static const char* hints[] = { "automatic", "buffered", "unbuffered", "mmap" };
static int32_t bufSize(Rng& r, int64_t n) {
    switch (r.below(6)) {
    case 0: return 1048576;
    case 1: return (int32_t)(n + r.range(-2, 2) < 1 ? 1 : n + r.range(-2, 2));
    case 2: return 1 + (int32_t)r.below(20);
    case 3: return 4096;
    default: return 1 + (int32_t)r.len(70000);
    }
}
static InputStream* mk(Case& c, const std::string& path, int kind, int64_t n, std::string& what) {
    int32_t bs = bufSize(c.rng, n);
    if (kind == 4) { what = fmt("FileInputStream(path,%d)", bs); return new FileInputStream(path.c_str(), bs); }
    if (kind == 5) { what = fmt("FileInputStream(FILE*,%d)", bs); FILE* f = fopen(path.c_str(), "rb"); if (c.rng.chance(1, 2)) fseek(f, c.rng.below(n + 1), SEEK_SET); return new FileInputStream(f, path.c_str(), bs); }
    if (kind == 6) {
        what = fmt("SkippingFileInputStream2(%d)", bs);
        if (c.rng.chance(1, 2)) return new SkippingFileInputStream2(path.c_str(), bs);
        FILE* f = fopen(path.c_str(), "rb"); if (c.rng.chance(1, 2)) fseek(f, c.rng.below(n + 1), SEEK_SET);
        return new SkippingFileInputStream2(f, path.c_str(), bs);
    }
    what = fmt("open(%s,%d)", hints[kind], bs);
    return FileInputStream::open(path.c_str(), (FileInputStream::StreamTypeHint)kind, bs);
}
static void content(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 40) ? 3000000 : 60000);
    std::string path = scratchDir() + "/f";
    writeFile(path, d);
    int kind = (int)(c.idx % 7);
    std::string what;
    std::unique_ptr<InputStream> s(mk(c, path, kind, d.size(), what));
    c.note = what + fmt(" file of %zu bytes", d.size());
    MonOpts o;
    o.fullSeek = kind == 0 || kind == 2 || kind == 3;
    o.maxMin = 1 << 22;
    std::string nm = kind == 3 ? "mmap" : (kind == 0 || kind == 2) ? "unbuffered" : kind == 6 ? "skipping" : "buffered";
    Mon<char> m(c, s.get(), d, nm, o);
    REQ(c, s->size() == (int64_t)d.size(), nm + ":size", "size %lld of a regular file of %zu bytes", (long long)s->size(), d.size());
    if (c.rng.chance(1, 10)) { m.skip((1LL << 33) + c.rng.below(5)); c.count("skips_64bit"); if (o.fullSeek) m.reset(c.rng.below(d.size() + 1)); }
    // an early skip, before anything was read
    else if (c.rng.chance(1, 4)) m.skip(1 + c.rng.len(d.size() + 10));
    m.run(c.rng, 4 + (int)c.rng.below(60));
    c.count(nm.c_str());
    c.sample(c.note);
}
// large sparse file: 64-bit offsets
static void sparse(Case& c) {
    std::string path = scratchDir() + "/big";
    int64_t base[] = { (1LL << 31) - 100, (1LL << 32) - 100, (1LL << 32) + 5, (3LL << 31), (3LL << 30), (5LL << 31) };
    int kind = (c.idx / 6) % 3 == 0 ? 2 : (c.idx / 6) % 3 == 1 ? 3 : 1;
    int64_t at = base[c.idx % 6] + (int64_t)c.rng.below(50);
    if (kind == 1 && at > (1LL << 32)) at = base[0] + (int64_t)c.rng.below(200);   // all of it is read
    // pieces of content in a file of zeros
    std::vector<std::pair<int64_t, Bytes> > tags;
    tags.push_back(std::make_pair((int64_t)0, randomContent(c.rng, 500)));
    for (int i = 0; i < 3; ++i) tags.push_back(std::make_pair((int64_t)(2000 + c.rng.below(at - 10000)), randomContent(c.rng, 500) + "x"));
    if (at > (1LL << 31) + 3000) tags.push_back(std::make_pair((1LL << 31) - 10, randomContent(c.rng, 1000)));
    if (at > (1LL << 32) + 3000) tags.push_back(std::make_pair((1LL << 32) - 10, randomContent(c.rng, 1000)));
    tags.push_back(std::make_pair(at, randomContent(c.rng, 1000) + "tail"));
    std::sort(tags.begin(), tags.end());
    for (size_t i = 0; i + 1 < tags.size(); ++i) if (tags[i].first + (int64_t)tags[i].second.size() > tags[i + 1].first) tags[i].second.resize(tags[i + 1].first - tags[i].first);
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) return;
    for (auto& t : tags) if (pwrite(fd, t.second.data(), t.second.size(), t.first) != (ssize_t)t.second.size()) { close(fd); unlink(path.c_str()); return; }
    close(fd);
    int64_t N = at + (int64_t)tags.back().second.size();
    auto model = [&](int64_t off, int32_t n) { Bytes b(n, '\0'); for (auto& t : tags) for (size_t k = 0; k < t.second.size(); ++k) if (t.first + (int64_t)k >= off && t.first + (int64_t)k < off + n) b[t.first + k - off] = t.second[k]; return b; };
    std::unique_ptr<InputStream> s(FileInputStream::open(path.c_str(), (FileInputStream::StreamTypeHint)kind));
    unlink(path.c_str());
    c.note = fmt("sparse file of %lld bytes, %s", (long long)N, hints[kind]);
    std::string nm = fmt("sparse-%s", hints[kind]);
    REQ(c, s->status() == Ok && s->size() == N, nm + ":size", "size %lld", (long long)s->size());
    int64_t pos = 0;
    for (int i = 0; i < (kind == 1 ? 12 : 60); ++i) {
        int64_t to;
        if (c.rng.chance(1, 2)) { auto& t = tags[c.rng.below(tags.size())]; to = t.first + c.rng.range(-5, (int64_t)t.second.size()); } else to = c.rng.below(N);
        if (kind == 1) to = i < 6 ? pos + (int64_t)c.rng.below(3000) : i < 9 ? pos + (int64_t)c.rng.below((N - pos) / 3 + 1) : i == 9 ? at : at + (int64_t)c.rng.below(tags.back().second.size());
        if (to < 0) to = 0; if (to >= N) to = N - 1;
        if (kind == 1 && to < pos) to = pos;
        int64_t r;
        int how = (int)c.rng.below(3);
        if (kind == 1) how = 1;
        if (how == 0 || (how == 1 && to < pos)) { r = s->reset(to); REQ(c, r == to && s->position() == to, nm + ":reset", "reset(%lld)=%lld position %lld", (long long)to, (long long)r, (long long)s->position()); pos = to; }
        else if (how == 1 && to > pos) {
            r = s->skip(to - pos);
            REQ(c, r == to - pos && s->position() == to, nm + ":skip", "skip(%lld)=%lld position %lld", (long long)(to - pos), (long long)r, (long long)s->position());
            pos = to;
        }
        if (pos == N) { s->reset(N - 1); if (s->position() != N - 1) break; pos = N - 1; }
        const char* p = 0;
        int64_t left = N - pos;
        int32_t min = 1 + (int32_t)c.rng.below(2000), max = c.rng.chance(1, 2) ? min + (int32_t)c.rng.below(1000) : 0;
        int32_t n = s->read(p, min, max);
        int64_t lo = min < left ? min : left, hi = max && max < left ? max : left;
        REQ(c, n >= lo && n <= hi, nm + ":amount", "read(%d,%d)=%d at %lld of %lld", min, max, n, (long long)pos, (long long)N);
        int32_t m = n < 100000 ? n : 100000;
        REQ(c, Bytes(p, m) == model(pos, m), nm + ":content", "read(%d,%d)=%d at %lld", min, max, n, (long long)pos);
        pos += n;
        REQ(c, s->position() == pos, nm + ":position", "position %lld", (long long)s->position());
        REQ(c, s->status() == (pos == N ? s->status() : Ok) && s->status() != Error, nm + ":status", "status %s at %lld of %lld", statusName(s->status()), (long long)pos, (long long)N);
        c.count("sparse_reads");
    }
    if (kind != 1) {
        s->reset(N + 5);
        REQ(c, s->position() == N, nm + ":end", "reset beyond the end is at %lld", (long long)s->position());
        const char* p;
        REQ(c, s->read(p, 1, 0) == -1, nm + ":end", "read at the end");
    } else { int64_t r = s->skip(1LL << 40); REQ(c, r == N - pos && s->position() == N && s->status() == Eof, nm + ":end", "skip to the end=%lld from %lld position %lld", (long long)r, (long long)pos, (long long)s->position()); }
    c.count(nm.c_str());
    c.distinct(mix(N, mix(kind, pos)));
}
static void unopenable(Case& c) {
    std::string base = scratchDir(), path;
    int which = (int)c.rng.below(6);
    switch (which) {
    case 0: path = base + "/does-not-exist"; break;
    case 1: path = base + "/dir"; mkdir(path.c_str(), 0755); break;
    case 2: path = base + "/dangling"; if (symlink("/nonexistent/x", path.c_str())) {} break;
    case 3: { std::string f = base + "/plain"; writeFile(f, "x"); path = f + "/below"; break; }
    case 4: path = "/proc"; break;
    case 5: path = ""; break;
    }
    int kind = (int)c.rng.below(6);
    bool null = which == 5 && c.rng.chance(1, 2);
    std::unique_ptr<InputStream> s(kind == 4 ? (InputStream*)new FileInputStream(null ? (const char*)0 : path.c_str()) : kind == 5 ? (InputStream*)new SkippingFileInputStream2(null ? (const char*)0 : path.c_str()) : FileInputStream::open(null ? 0 : path.c_str(), (FileInputStream::StreamTypeHint)kind));
    static const char* wn[] = { "missing", "directory", "dangling symlink", "below a file", "/proc", "empty/null path" };
    c.note = fmt("%s, %s", wn[which], kind == 4 ? "FileInputStream" : kind == 5 ? "SkippingFileInputStream2" : hints[kind]);
    std::string nm = fmt("unopenable-%d-%d", which, kind);
    bool isdir = which == 1 || which == 4;
    if (!isdir) REQ(c, s->status() == Error, nm + ":status", "no error after opening: %s", statusName(s->status()));
    // a directory may be noticed at the first read
    for (int i = 0; i < 5; ++i) {
        const char* p = 0;
        int w = i == 0 ? 0 : (int)c.rng.below(3);
        if (w == 0) { int32_t n = s->read(p, 1 + c.rng.below(10), 0); REQ(c, n == -2, nm + ":read", "read returned %d", n); }
        else if (w == 1) { int64_t n = s->skip(1 + c.rng.below(100)); REQ(c, n <= 0, nm + ":skip", "skip returned %lld", (long long)n); }
        else s->reset(c.rng.below(10));
        REQ(c, s->status() == Error, nm + ":status", "status %s", statusName(s->status()));
        REQ(c, *s->error(), nm + ":message", "error without a message");
        c.count("error_opens");
    }
    c.distinct(mix(which, kind));
}
// files whose size is reported as 0 although they have content, and pipes
static void unknownSize(Case& c) {
    Bytes d;
    int kind = (int)c.rng.below(3);
    std::string what;
    std::unique_ptr<InputStream> s;
    MonOpts o;
    std::string nm;
    if (c.rng.chance(1, 2)) {
        FILE* f = fopen("/proc/version", "rb");
        if (!f) return;
        char b[4096]; size_t n = fread(b, 1, sizeof b, f); fclose(f);
        d.assign(b, n);
        int32_t bs = bufSize(c.rng, n);
        if (kind == 0) { s.reset(new FileInputStream("/proc/version", bs)); nm = "proc-buffered"; }
        else if (kind == 2) { s.reset(new SkippingFileInputStream2("/proc/version", bs)); nm = "proc-skipping"; }
        else { s.reset(FileInputStream::open("/proc/version", FileInputStream::Unbuffered)); nm = "proc-unbuffered"; }
        o.fullSeek = false;
    } else {
        d = randomContent(c.rng, 30000);
        int pf[2];
        if (pipe2(pf, O_CLOEXEC)) return;
        fcntl(pf[1], F_SETPIPE_SZ, 65536);
        if (write(pf[1], d.data(), d.size()) != (ssize_t)d.size()) { close(pf[0]); close(pf[1]); return; }
        close(pf[1]);
        FILE* f = fdopen(pf[0], "rb");
        if (kind == 2) { s.reset(new SkippingFileInputStream2(f, "pipe", bufSize(c.rng, d.size()))); nm = "pipe-skipping"; }
        else { s.reset(new FileInputStream(f, "pipe", bufSize(c.rng, d.size()))); nm = "pipe-buffered"; }
    }
    c.note = nm + fmt(" %zu bytes", d.size());
    Mon<char> m(c, s.get(), d, nm, o);
    if (c.rng.chance(1, 2)) m.skip(1 + c.rng.below(d.size() + 5));
    m.run(c.rng, 4 + (int)c.rng.below(40));
    c.count("unknown_size_streams");
}
void registerSuites() {
    g_rule = "one case = one file, one way of opening it, one random history of read/skip/reset ending in a drain, each call checked against the model; plus sparse files above 2/4 GiB, unopenable paths and files/pipes of unknown size. Non-trivial: distinct (content, history, outcomes).";
    g_assumptions.push_back("files do not change while a stream is open");
    g_assumptions.push_back("memory-mapped streams are only specified for files whose reported size is right (not /proc)");
    addSuite("content", 7000, 100000, content);
    addSuite("unopenable", 300, 2000, unopenable);
    addSuite("unknownsize", 800, 20000, unknownSize);
    addSuite("sparse", 36, 400, sparse, 30);
    need("buffered", 1000); need("unbuffered", 1000); need("mmap", 500); need("skipping", 500); need("sparse_reads", 50); need("error_opens", 200); need("resets_in_segment", 1000); need("ends_seen", 4000);
}
