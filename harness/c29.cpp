// Nothing the library acquired is left behind, wherever the caller stops.
#include "wild.h"
#include "gzipcompressstream.h"
#include "base64inputstream.h"
#include "mmapfileinputstream.h"
#include <strigi/fileinputstream.h>
#include <strigi/processinputstream.h>
#include <strigi/encodinginputstream.h>
#include "skippingfileinputstream2.h"
#include <strigi/inputstreamreader.h>
#include <strigi/kmpsearcher.h>
#include <strigi/stringstream.h>
#include <strigi/substreamproviderprovider.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
using namespace Strigi;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
namespace {
struct Held { int64_t bytes, fds, maps; };
Held held() {
    Held h;
    h.fds = 0; h.maps = 0;
    int d = open("/proc/self/fd", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    // counted without touching the heap
    for (int i = 0; i < 256; ++i) if (i != d && fcntl(i, F_GETFD) != -1) ++h.fds;
    close(d);
    h.bytes = (int64_t)__sanitizer_get_current_allocated_bytes();
    return h;
}
int64_t mapped(const std::string& dir) {
    int64_t n = 0;
    FILE* f = fopen("/proc/self/maps", "r");
    char l[4096];
    while (f && fgets(l, sizeof l, f)) if (strstr(l, dir.c_str())) ++n;
    if (f) fclose(f);
    return n;
}
struct Outcome { bool deleted; int64_t live; Outcome() : deleted(false), live(0) {} };
// runs the scenario; what grows three times in a row is a leak and not a first use
void judge(Case& c, const std::string& name, const std::function<void(Rng&, Outcome&)>& run) {
    uint64_t seed = c.rng.next();
    c.note.reserve(4000);
    int grownBytes = 0, grownFds = 0; int64_t bytes = 0, fds = 0;
    for (int i = 0; i < 3; ++i) {
        Held a = held();
        Outcome o;
        { Rng r(seed); run(r, o); }
        REQ(c, !o.deleted, name + ":input-deleted", "the caller's input stream was deleted");
        REQ(c, o.live == 0, name + ":streams-left", "%lld streams from the stream opener were not deleted", (long long)o.live);
        Held b = held();
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        REQ(c, p == -1 && errno == ECHILD, name + ":child-left", "a child process is left (%d)", (int)p);
        c.count("destructions");
        bytes = b.bytes - a.bytes; fds = b.fds - a.fds;
        if (bytes > 0) ++grownBytes;
        if (fds != 0) ++grownFds;
        if (bytes <= 0 && fds == 0) break;
    }
    REQ(c, grownBytes < 3, name + ":memory", "%lld bytes are left every time", (long long)bytes);
    REQ(c, grownFds < 3, name + ":descriptors", "%lld more open descriptors every time", (long long)fds);
}
struct Input {
    std::unique_ptr<HostileInput> h;
    Input(Case& c, Rng& r, const Bytes& b, bool seek, Outcome& o) {
        InputPolicy p = randomPolicy(r, seek);
        h.reset(new HostileInput(c, b, p));
        h->deletedFlag = &o.deleted;
        h->failAt = r.chance(1, 3) ? r.len(r.chance(1, 2) ? 12 : 200) : 20000 + 40 * (int64_t)b.size();
        if (r.chance(1, 12)) h->failAt = 0;
    }
    InputStream* get() { return h.get(); }
    // the test is over before the owner deletes it
    ~Input() { if (*h->deletedFlag) { h.release(); return; } h->deletedFlag = 0; }
};
Effort effort(Rng& r) { Effort e; if (r.chance(1, 2)) { e.maxBytes = r.len(5000); e.maxEntries = r.len(12); } return e; }
}
static void decoder(Case& c) {
    std::string kind = g_comps[c.idx % g_ncomps];
    Wild w;
    if (c.rng.chance(1, 2)) {
        w = wildComp(c.rng, kind, c.rng.chance(1, 10) ? 100000 : 6000);
    } else {
        Comp k = c.rng.chance(1, 2) ? makeComp(c.rng, kind, randomContent(c.rng, 20000)) : makeChain(c.rng, randomContent(c.rng, 9000), 2 + (int)c.rng.below(3));
        w.kind = k.name; w.data = k.input; w.make = k.make; w.note = "valid " + k.name;
    }
    Bytes garbage = randomContent(c.rng, 300);
    c.note = kind + ":" + w.note;
    judge(c, kind, [&](Rng& r, Outcome& o) {
        Input in(c, r, w.data, r.chance(1, 2), o);
        Effort e = effort(r);
        Stages s;
        w.make(s, in.get());
        if (r.chance(1, 8)) s.s.push_back(new GZipCompressInputStream(s.top(), (int)r.below(10)));
        if (r.chance(7, 8)) wildRead(c, s.top(), r, e, kind);
    });
    c.count(("decoder_" + kind).c_str());
    c.distinct(mix(hashStr(kind), hashStr(w.data))); c.sample(c.note);
}
static void archive(Case& c) {
    std::string f = g_formats[c.idx % g_nformats];
    Bytes data; bool seek = f == "ole";
    if (c.rng.chance(1, 2)) { Wild w = wildArchive(c.rng, f, c.rng.chance(1, 10) ? 60000 : 5000); data = w.data; c.note = w.note; }
    else { GenOpts o; o.maxMembers = 6; o.maxSize = 9000; Archive a = genArchive(c.rng, f, o); data = a.bytes; c.note = "valid " + f; if (c.rng.chance(1, 3)) { data.resize(c.rng.below(data.size() + 1)); c.note += fmt(" cut to %zu", data.size()); } }
    judge(c, f, [&](Rng& r, Outcome& o) {
        Input in(c, r, data, seek ? r.chance(7, 8) : r.chance(1, 2), o);
        Effort e = effort(r);
        std::unique_ptr<SubStreamProvider> p;
        SubStreamProviderProvider spp;
        if (r.chance(1, 6)) p.reset(spp.subStreamProvider(in.get())); else p.reset(makeProvider(f, in.get()));
        if (p && r.chance(7, 8)) wildEnumerate(c, p.get(), r, e, f, 2);
    });
    c.count(("archive_" + f).c_str());
    c.distinct(mix(hashStr(f), hashStr(data))); c.sample(c.note);
}
// archive readers with listings, streams and copies in every stage of completion
static void reader(Case& c) {
    std::vector<Bytes> datas;
    for (int i = 0; i < 2; ++i) {
        if (c.rng.chance(1, 2)) datas.push_back(wildArchive(c.rng, g_formats[c.rng.below(g_nformats)], 5000).data);
        else {
            GenOpts o; o.maxMembers = 5; o.maxSize = 3000; o.plainNames = true;
            for (int k = 0; k < 2; ++k) { GenOpts i2; i2.maxMembers = 4; i2.maxSize = 900; i2.plainNames = true; o.contents.push_back(genArchive(c.rng, g_formats[c.rng.below(4)], i2).bytes); o.contentNames.push_back("nested"); }
            datas.push_back(genArchive(c.rng, g_formats[c.rng.below(5)], o).bytes);
            c.note += "valid ";
        }
    }
    c.note = fmt("reader, %zu and %zu bytes", datas[0].size(), datas[1].size());
    judge(c, "reader", [&](Rng& r, Outcome& out) {
        std::unique_ptr<WildOpener> op(new WildOpener(c, r.next()));
        op->files["f"] = datas[0]; op->files["g"] = datas[1];
        op->budget = 1LL << 60;   // a failing input ends endless work without an exception
        op->failAt = r.chance(1, 6) ? r.len(100) : 200000;
        {
            std::vector<ArchiveReader::DirLister> late;
            std::unique_ptr<ArchiveReader> a(new ArchiveReader);
            a->addStreamOpener(op.get());
            Effort e; if (r.chance(1, 2)) { e.maxBytes = 20000; e.maxEntries = 100; }
            std::vector<InputStream*> open; std::vector<bool> mayStay;
            int n = 1 + (int)r.below(5);
            for (int i = 0; i < n; ++i) {
                Bytes url = r.chance(1, 2) ? "f" : "g";
                switch (r.below(6)) {
                case 0: case 1: wildReader(c, *a, url, r, e, 2); break;
                case 2: { bool in = r.chance(1, 2); InputStream* s = a->openStream(url + (in ? "/nested" : "")); if (s) { open.push_back(s); mayStay.push_back(in); } break; }
                case 3: { late.push_back(a->dirEntries(url)); EntryInfo x; for (int k = (int)r.below(5); k > 0 && late.back().nextEntry(x); --k) {} break; }
                case 4: if (!late.empty()) { ArchiveReader::DirLister l(late[r.below(late.size())]); if (r.chance(1, 2)) late[r.below(late.size())] = l; EntryInfo x; l.nextEntry(x); } break;
                case 5: if (!late.empty()) { ArchiveReader::DirLister l(a->dirEntries(url)); l = late[0]; late.erase(late.begin() + r.below(late.size())); } break;
                }
                if (r.chance(1, 4)) { op->mtime++; op->files[url] = datas[r.below(2)]; }
            }
            for (size_t i = 0; i < open.size(); ++i) if (!mayStay[i] || r.chance(5, 6)) { InputStream* s = open[i]; Effort f; f.maxBytes = 3000; if (r.chance(1, 2)) wildRead(c, s, r, f, "opened"); a->closeStream(s); }
            late.clear();
        }
        out.live = op->live;
    });
    c.count("archive_readers");
    c.distinct(mix(hashStr(datas[0]), hashStr(datas[1]))); c.sample(c.note);
}
static void files(Case& c) {
    std::string path = scratchDir() + "/file";
    Bytes d = c.rng.chance(1, 6) ? Bytes() : randomContent(c.rng, 30000);
    FILE* f = fopen(path.c_str(), "wb"); if (!f) return;
    fwrite(d.data(), 1, d.size(), f); fclose(f);
    std::string dir = scratchDir();
    int which = (int)c.rng.below(5);
    std::string p = which == 0 ? dir + "/missing" : which == 1 ? dir : which == 2 ? path + "/x" : path;
    c.note = fmt("files %d, %zu bytes", which, d.size());
    judge(c, "file", [&](Rng& r, Outcome&) {
        std::unique_ptr<InputStream> s;
        switch (r.below(7)) {
        case 4: s.reset(new SkippingFileInputStream2(p.c_str(), 1 + (int32_t)r.below(9000))); break;
        case 5: { FILE* g = fopen(p.c_str(), "rb"); if (g) s.reset(new SkippingFileInputStream2(g, p.c_str())); else s.reset(new FileInputStream(g, p.c_str())); break; }
        case 0: s.reset(new FileInputStream(p.c_str(), 1 + (int32_t)r.below(9000))); break;
        case 1: { FILE* g = fopen(p.c_str(), "rb"); s.reset(new FileInputStream(g, p.c_str())); break; }
        case 2: s.reset(new MMapFileInputStream(p.c_str())); break;
        default: s.reset(FileInputStream::open(p.c_str(), (FileInputStream::StreamTypeHint)r.below(4)));
        }
        Effort e = effort(r);
        if (r.chance(6, 7)) wildRead(c, s.get(), r, e, "file");
        s.reset();
        int64_t m = mapped(dir);
        REQ(c, m == 0, "file:mapping", "%lld mappings of the file are left", (long long)m);
    });
    // whole trees on disk through the default opener
    if (c.rng.chance(1, 3)) {
        GenOpts o; o.maxMembers = 5; o.maxSize = 3000; o.plainNames = true;
        Archive a = genArchive(c.rng, g_formats[c.rng.below(5)], o);
        f = fopen(path.c_str(), "wb"); if (!f) return;
        fwrite(a.bytes.data(), 1, a.bytes.size(), f); fclose(f);
        judge(c, "disk", [&](Rng& r, Outcome&) {
            FileStreamOpener op;
            { ArchiveReader ar; ar.addStreamOpener(&op); Effort e = effort(r); wildReader(c, ar, r.chance(1, 8) ? p : path, r, e, 2); }
        });
        c.count("disk_readers");
    }
    c.count("files");
    c.distinct(mix(hashStr(d), which));
}
// a reader of characters up to a random point
template <class R> void readChars(R& s, Rng& r) {
    const wchar_t* p;
    int n = r.chance(1, 8) ? 0 : r.chance(1, 2) ? 1 + (int)r.below(6) : 10000;
    int64_t last = 0;
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 5)) last = s.reset(r.below(s.position() + 5));
        else if (r.chance(1, 6)) last = s.skip(r.below(200));
        else last = s.read(p, (int32_t)r.len(300), (int32_t)(r.chance(1, 2) ? 0 : r.len(4000)));
        if (last < 0) break;
    }
}
static void texts(Case& c) {
    Bytes d = randomContent(c.rng, 5000), q = randomContent(c.rng, 40);
    c.note = fmt("text utilities %zu", d.size());
    judge(c, "text", [&](Rng& r, Outcome& o) {
        switch (r.below(7)) {
        case 4: case 5: {
            Input in(c, r, d, r.chance(1, 2), o);
            const char* enc = r.chance(1, 8) ? (const char*)0 : r.chance(1, 8) ? "no-such-encoding" : g_encodings[r.below(g_nencodings)];
            InputStreamReader s(in.get(), enc);
            readChars(s, r); break; }
        case 6: { std::wstring w; for (size_t i = 0; i < d.size(); ++i) w += (wchar_t)(1 + (unsigned char)d[i]); StringReader s(w.c_str(), r.chance(1, 4) ? -1 : (int32_t)w.size(), r.chance(1, 2)); readChars(s, r); break; }
        case 0: { KmpSearcher k(q); k.search(d.data(), (int32_t)d.size()); k.setQuery(d.substr(0, r.below(d.size() + 1))); k.search(d.data(), (int32_t)d.size()); break; }
        case 1: { Base64InputStream::decode(d.data(), d.size()); Bytes e = b64encode(d, 0); Base64InputStream::decode(e.data(), e.size()); break; }
        case 2: { StringStream<char> s(d.data(), (int32_t)d.size(), r.chance(1, 2)); Effort e = effort(r); wildRead(c, &s, r, e, "mem"); break; }
        default: { StringInputStream s(d.data(), (int32_t)d.size(), false); EncodingInputStream t(&s, g_encodings[r.below(g_nencodings)]); Effort e = effort(r); wildRead(c, &t, r, e, "encoding"); break; }
        }
    });
    c.count("texts");
    c.distinct(mix(hashStr(d), hashStr(q)));
}
static void processes(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 3) ? 300000 : 3000);
    static const char* cmds[] = { "cat", "head -c 10", "true", "exec cat /dev/zero", "exec sleep 100", "no-such-command-here", "cat; cat /dev/zero", "exec 0<&-; sleep 0.01" };
    std::string cmd = cmds[c.rng.below(8)];
    bool exec = c.rng.chance(1, 8);
    c.note = "process " + cmd;
    judge(c, "process", [&](Rng& r, Outcome& o) {
        bool with = r.chance(1, 2);
        std::vector<std::string> v;
        if (exec) v.push_back("/nonexistent/command"); else { v.push_back("/bin/sh"); v.push_back("-c"); v.push_back((with ? "" : "exec 0</dev/null; ") + cmd); }
        Input in(c, r, d, true, o);
        std::unique_ptr<ProcessInputStream> s(with ? new ProcessInputStream(v, in.get()) : new ProcessInputStream(v));
        const char* p; int n = (int)r.below(6);
        if (cmd == "exec sleep 100") n = 0;   // nothing to read
        for (int i = 0; i < n && s->status() == Ok; ++i) s->read(p, 1, 0);
    });
    c.count("processes");
    c.distinct(mix(hashStr(d), hashStr(cmd)));
}
void registerSuites() {
    g_rule = "valid, damaged and random bytes are read, enumerated and listed up to a random point with inputs that may fail at any call, then everything is destroyed in the documented order; heap bytes in use (allocator statistics of AddressSanitizer), descriptors, mappings, child processes and streams taken from a stream opener are compared with the state before, and the caller's input has to be alive. What grows three times in a row is a leak";
    corpus();
    addSuite("decoder", 16000, 600000, decoder);
    addSuite("archive", 16000, 600000, archive);
    addSuite("reader", 6000, 200000, reader);
    addSuite("files", 3000, 60000, files);
    addSuite("texts", 2500, 60000, texts);
    addSuite("processes", 240, 6000, processes, 60);
    need("archive_readers", 1000); need("disk_readers", 300); need("files", 1000); need("texts", 1000); need("processes", 100);
    for (int i = 0; i < g_nformats; ++i) need(fmt("archive_%s", g_formats[i]), 200);
    for (int i = 0; i < g_ncomps; ++i) need(fmt("decoder_%s", g_comps[i]), 200);
}
