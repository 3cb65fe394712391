// Enumeration is independent of consumption pattern, chunking and kind of input.
#include "archives.h"
#include "codecs.h"
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include <strigi/subinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/processinputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <unistd.h>
using namespace Strigi;
struct NullHandler : public DataEventHandler { bool handleData(const char*, uint32_t) { return true; } void handleEnd() {} };
// a stack of streams that delivers given bytes
struct Source {
    std::vector<StreamBase<char>*> owned; std::vector<SubStreamProvider*> provs; NullHandler h; InputStream* s; std::string file; Bytes keep; std::string name;
    ~Source() { for (auto* p : provs) delete p; for (size_t i = owned.size(); i-- > 0;) delete owned[i]; if (!file.empty()) unlink(file.c_str()); }
    void toFile(const Bytes& b) {
        file = scratchDir() + "/src";
        FILE* f = fopen(file.c_str(), "wb"); if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) abort(); fclose(f);
    }
};
static void makeSource(Case& c, Source& x, const Bytes& b, bool seek, int kind) {
    Rng& r = c.rng;
    auto hostile = [&](const Bytes& d, bool full) { InputPolicy p = randomPolicy(r, full); HostileInput* h = new HostileInput(c, d, p); x.owned.push_back(h); x.name += "[" + p.str() + "]"; return h; };
    switch (kind) {
    case 0: x.name = "hostile"; x.s = hostile(b, seek); break;
    case 1: { x.name = "string"; x.keep = b; StringInputStream* s = new StringInputStream(x.keep.data(), (int32_t)b.size(), false); x.owned.push_back(s); x.s = s; break; }
    case 2: { x.name = "file"; x.toFile(b); int32_t bs = 1 + (int32_t)r.len(100000); FileInputStream* s = new FileInputStream(x.file.c_str(), bs); x.owned.push_back(s); x.s = s; break; }
    case 3: { x.name = "mmap"; x.toFile(b); MMapFileInputStream* s = new MMapFileInputStream(x.file.c_str()); x.owned.push_back(s); x.s = s; break; }
    case 4: { x.name = "unbuffered"; x.toFile(b); SkippingFileInputStream* s = new SkippingFileInputStream(x.file.c_str()); x.owned.push_back(s); x.s = s; break; }
    case 5: { x.name = "window"; Bytes pre = randomContent(r, 5000), post = randomContent(r, 5000); HostileInput* h = hostile(pre + b + post, seek);
        h->skip(pre.size()); SubInputStream* s = new SubInputStream(h, b.size()); x.owned.push_back(s); x.s = s; break; }
    case 6: { x.name = "open window"; Bytes pre = randomContent(r, 5000); HostileInput* h = hostile(pre + b, seek);
        h->skip(pre.size()); SubInputStream* s = new SubInputStream(h); x.owned.push_back(s); x.s = s; break; }
    case 7: { x.name = "events"; HostileInput* h = hostile(b, seek); DataEventInputStream* s = new DataEventInputStream(h, x.h); x.owned.push_back(s); x.s = s; break; }
    case 8: { x.name = "gzip"; HostileInput* h = hostile(gzEncode(b, randomGz(r)), false); GZipInputStream* s = new GZipInputStream(h); x.owned.push_back(s); x.s = s; break; }
    case 9: { x.name = "bzip2"; HostileInput* h = hostile(bz2Encode(b, 1, 0), false); BZ2InputStream* s = new BZ2InputStream(h); x.owned.push_back(s); x.s = s; break; }
    case 10: case 11: { // member of an archive
        Archive a; GenOpts o; o.maxMembers = 4; o.plainNames = true; o.contents.push_back(b); o.contentNames.push_back("inner.bin");
        size_t at = 0; int tries = 0;
        do { a = kind == 10 ? genTar(r, o) : genZip(r, o); for (at = 0; at < a.members.size() && !(a.members[at].data == b && a.members[at].type == T_FILE); ++at) {} } while (at == a.members.size() && ++tries < 20);
        if (at == a.members.size()) { makeSource(c, x, b, seek, 0); return; }
        x.name = kind == 10 ? "tar member" : "zip member";
        HostileInput* h = hostile(a.bytes, seek);
        SubStreamProvider* p = makeProvider(a.format, h); x.provs.push_back(p);
        InputStream* s = 0;
        for (size_t i = 0; i <= at; ++i) s = p->nextEntry();
        REQ(c, s, "outer", "no entry %zu in the outer archive", at);
        x.s = s; break; }
    case 13: { x.name = "behind"; Bytes pre = randomContent(r, r.chance(1, 2) ? 10 : 5000); HostileInput* h = hostile(pre + b, seek); h->skip(pre.size()); x.s = h; break; } // the input has been read up to the archive
    default: { x.name = "process"; x.toFile(b); std::vector<std::string> args; args.push_back("/bin/cat"); args.push_back(x.file); ProcessInputStream* s = new ProcessInputStream(args); x.owned.push_back(s); x.s = s; break; }
    }
}
static const int KINDS = 14;
static bool seekable(int k) { return k <= 7 || k == 10; }
static int pickKind(Rng& r, const Archive& a) {
    for (;;) {
        int k = (int)r.below(KINDS);
        if (k == 12 && !r.chance(1, 4)) continue;
        if (a.needsSeek && !seekable(k)) continue;
        if (a.format == "ole" && k == 13) continue; // a compound document is always the whole input
        if (a.bytes.size() > 300000 && k == 4) continue;
        return k;
    }
}
static void enumerateOnce(Case& c, const Archive& a, const char* prefix) {
    int kind = pickKind(c.rng, a);
    if (a.format == "ole" && a.bytes.size() >= 10000000) kind = 1;
    int mode = (int)c.rng.below(6);
    Source x;
    makeSource(c, x, a.bytes, a.needsSeek, kind);
    std::string before = c.note;
    c.note += fmt("; mode %d from %s", mode, x.name.c_str());
    uint64_t dig;
    {
        SubStreamProvider* p = makeProvider(a.format, x.s);
        struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
        dig = enumerate(c, p, a, c.rng, mode, prefix);
    }
    c.distinct(mix(dig, mix(mode, kind)));
    c.count(fmt("input_%s", x.name.substr(0, x.name.find_first_of("[ ")).c_str()).c_str());
    c.note = before;
}
static void generated(Case& c) {
    GenOpts o;
    o.maxSize = c.rng.chance(1, 12) ? 200000 : 12000;
    std::string f = g_formats[c.rng.below(g_nformats)];
    Archive a = genArchive(c.rng, f, o);
    c.note = a.note;
    int n = 2 + (int)c.rng.below(3);
    for (int i = 0; i < n; ++i) enumerateOnce(c, a, f.c_str());
    c.count(fmt("format_%s", f.c_str()).c_str());
    c.sample(c.note);
}
// real files: what a plain sequential reading gives must come out of every other way of reading
struct Real { const char* file; const char* format; int members; };
static const Real g_real[] = { { "a.tar", "tar", 2 }, { "a.zip", "zip", 2 }, { "all.zip", "zip", 5 }, { "p.zip", "zip", 4 }, { "dbus-1-java-0.62-21.6.i586.cpio", "cpio", 6 },
    { "dbus-1-java-0.62-21.6.i586.rpm", "rpm", 6 }, { "drugs.sdf", "sdf", 10 }, { "libpdfstream.a", "ar", 2 }, { "mail", "mail", 3 }, { "msg_02.txt", "mail", 8 }, { "test014.eml", "mail", 2 }, { "simple.doc", "ole", 6 } };
static Bytes slurp(const std::string& f) { Bytes b; FILE* h = fopen(f.c_str(), "rb"); if (!h) return b; char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, h)) > 0) b.append(t, n); fclose(h); return b; }
static void real(Case& c) {
    const Real& x = g_real[c.idx % (sizeof g_real / sizeof *g_real)];
    Archive a; a.format = x.format; a.needsSeek = a.format == "ole"; a.note = x.file;
    a.bytes = slurp(g_dataDir + "/" + x.file);
    REQ(c, !a.bytes.empty(), "corpus", "no corpus file %s", x.file);
    c.note = x.file;
    {
        StringInputStream in(a.bytes.data(), (int32_t)a.bytes.size(), false);
        SubStreamProvider* p = makeProvider(a.format, &in);
        struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
        while (InputStream* s = p->nextEntry()) {
            Member m; const EntryInfo& i = p->entryInfo();
            m.name = i.filename; m.type = i.type; m.mtime = i.mtime; m.sizeInHeader = i.size >= 0;
            ReadResult rr = readAll(c, s, c.rng, 100000000, 0);
            REQ(c, rr.status == Eof, "real:read", "%s: entry %s ends with status %s '%s'", x.file, m.name.c_str(), statusName(rr.status), rr.error.c_str());
            m.data = rr.data;
            a.members.push_back(m);
            REQ(c, a.members.size() < 10000, "real:many", "%s has too many entries", x.file);
        }
        REQ(c, p->status() == Eof, "real:status", "%s ends with status %s '%s'", x.file, statusName(p->status()), p->error());
        REQ(c, (int)a.members.size() == x.members, "real:count", "%s has %zu entries, expected %d", x.file, a.members.size(), x.members);
    }
    for (int i = 0; i < 3; ++i) enumerateOnce(c, a, "real");
    c.count("real_files");
}
void registerSuites() {
    g_rule = "the same archive is enumerated several times, each time with another way of consuming entries and another kind of input stream; entries and every byte read are compared with the writer's members (or, for real files, with a plain sequential reading)";
    addSuite("generated", 6000, 250000, generated);
    addSuite("real", 1200, 40000, real);
    need("archives", 10000); need("consumed_3", 1000);
    for (const char* k : { "input_hostile", "input_string", "input_file", "input_mmap", "input_unbuffered", "input_window", "input_events", "input_gzip", "input_bzip2", "input_tar", "input_zip", "input_process", "input_behind" }) need(k, 50);
    for (int i = 0; i < g_nformats; ++i) need(fmt("format_%s", g_formats[i]), 100);
}
