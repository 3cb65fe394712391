#include "tree.h"
#include "codecs.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
using namespace Strigi;
static const char* const readerFormats[] = { "tar", "zip", "ar", "rpm", "mail", "sdf" };
static bool compressed(const Bytes& d) {
    if (d.size() >= 2 && d[0] == 0x1f && d[1] == (char)0x8b) return true;
    Bytes h = d.substr(0, 64);
    return BZ2InputStream::checkHeader(h.data(), (int32_t)h.size()) || LZMAInputStream::checkHeader(h.data(), (int32_t)h.size()) || d.substr(0, 3) == "BZh" || d[0] == 0x5d;
}
bool claimed(const Bytes& d, const std::string& except) {
    if (d.empty()) return false;
    if (compressed(d)) return true;
    Bytes h = d.substr(0, 1024);
    // tar archives and sd files may look like mails, they are recognized before mails
    bool mail = except == "tar" || except == "sdf";
    for (const char* f : readerFormats) if (f != except && !(mail && f == std::string("mail")) && (checkHeaderOf(f, h.data(), (int32_t)h.size()) || checkHeaderOf(f, d.data(), (int32_t)d.size()))) return true;
    return false;
}
Bytes plainContent(Rng& r, int64_t maxSize) {
    for (;;) { Bytes b = randomContent(r, maxSize); if (b.empty() || !claimed(b, "")) return b; }
}
static Bytes compress(Rng& r, const Bytes& b, std::string& ext) {
    // a chain of more than 64 units of decompression (8 for lzma and rpm, 1 for others) is not listed: lzma once for each level
    switch (r.below(ext.find(".lzma") == Bytes::npos ? 3 : 2)) {
    case 0: ext += ".gz"; return gzEncode(b, randomGz(r));
    case 1: ext += ".bz2"; return bz2Encode(b, 1 + (int)r.below(3), 0);
    default: break;
    }
    for (int i = 0; i < 50; ++i) {
        LzOpts o = randomLz(r);
        Bytes z = lzmaEncode(b, o);
        Bytes h = z.substr(0, 16);
        if (LZMAInputStream::checkHeader(h.data(), (int32_t)h.size())) { ext += ".lzma"; return z; }
    }
    ext += ".gz"; return gzEncode(b, randomGz(r));
}
TNodeP makeTree(Case& c, Rng& r, const TreeOpts& o, int depth) {
    for (;;) {
        GenOpts g; g.maxMembers = depth >= o.depth ? 8 : 6; g.maxSize = o.maxSize; g.plainNames = true; g.unknowns = true;
        g.lateDirs = o.lateDirs; g.implicitDirs = o.implicitDirs;
        std::map<Bytes, TNodeP> nested;
        std::string f = o.formats.empty() ? readerFormats[r.below(6)] : o.formats[r.below(o.formats.size())];
        if (depth < o.depth && o.formats.empty() && (f == "mail" || f == "sdf" || f == "ar") && r.chance(1, 2)) f = r.chance(1, 2) ? "tar" : "zip";
        if (depth > 1) {
            int n = 1 + (int)r.below(2);
            for (int i = 0; i < n; ++i) { TNodeP t = makeTree(c, r, o, depth - 1); nested[t->data] = t; g.contents.push_back(t->data); g.contentNames.push_back("." + t->name); }
        }
        // contents that resemble archives without being one
        std::set<Bytes> decoys;
        if (r.chance(1, 3)) {
            Bytes d; const char* ext = ".mol";
            if (r.chance(2, 3)) {   // a single molecule looks like the start of an sd file
                d = Bytes("  molecule\n prog\n\n  3  2  0  0  0  0  0  0  0  0999 V2000\n");
                int lines = (int)r.below(r.chance(1, 8) ? 3000 : 60);
                for (int i = 0; i < lines; ++i) d += fmt("    %d.0000    0.0000    0.0000 C   0  0\n", (int)r.below(9));
                d += "M  END\n";
            } else { ext = ".gz"; d = gzEncode(plainContent(r, 2000), randomGz(r)); }
            decoys.insert(d); g.contents.push_back(d); g.contentNames.push_back(ext); c.count("decoys");
        }
        Archive a = genArchive(r, f, g);
        if (a.members.empty() || !checkHeaderOf(f, a.bytes.data(), (int32_t)std::min<size_t>(1024, a.bytes.size())) || claimed(a.bytes, f)) continue;
        if (f != "mail" && checkHeaderOf("mail", a.bytes.data(), (int32_t)std::min<size_t>(1024, a.bytes.size()))) c.count("mail_like");
        TNodeP root(new TNode);
        root->name = f; root->type = 3; root->data = a.bytes; root->hasData = true;
        bool ok = true;
        for (const Member& m : a.members) {
            TNode* p = root.get();
            Bytes name = m.name;
            size_t s;
            while ((s = name.find('/')) != Bytes::npos) {
                Bytes part = name.substr(0, s); name.erase(0, s + 1);
                if (part.empty()) { ok = false; break; }
                TNodeP& k = p->kids[part];
                if (!k) { k.reset(new TNode); k->name = part; k->type = 1; k->hasSize = true; k->hasTime = !o.lateDirs; k->mtime = 0; }
                if (k->type != 1) { ok = false; break; }
                p = k.get();
            }
            if (!ok || name.empty()) { ok = false; break; }
            TNodeP& k = p->kids[name];
            if (k && !(k->type == 1 && m.type == T_DIR)) { ok = false; break; }
            if (!k) k.reset(new TNode);
            k->name = name; k->type = m.type; k->data = m.data; k->hasData = m.type == T_FILE; k->size = m.data.size(); k->mtime = m.mtime; k->hasTime = m.hasTime && !(m.type == T_DIR && o.lateDirs);
            if (m.type == T_UNKNOWN) { c.count("special_members"); if (claimed(m.data, "")) { ok = false; break; } }
            if (m.type == T_FILE) {
                auto it = nested.find(m.data);
                // text that was appended to or cut from a nested archive by the format's line handling would differ
                if (it != nested.end()) { k->type = 3; k->kids = it->second->kids; }
                else if (!decoys.count(m.data) && claimed(m.data, "")) { ok = false; break; }
            }
        }
        if (!ok) continue;
        int wraps = r.chance(1, 3) ? 1 + (int)r.chance(1, 4) : 0;
        for (int i = 0; i < wraps; ++i) root->data = compress(r, root->data, root->name);
        root->size = root->data.size();
        return root;
    }
}
const TNode* lookup(const TNode* n, const Bytes& path) {
    Bytes p = path;
    while (n && !p.empty()) {
        size_t s = p.find('/');
        Bytes part = p.substr(0, s);
        p = s == Bytes::npos ? Bytes() : p.substr(s + 1);
        auto it = n->kids.find(part);
        n = it == n->kids.end() ? 0 : it->second.get();
        if (s != Bytes::npos && p.empty()) return 0;
    }
    return n;
}
void allPaths(const TNode* n, const Bytes& base, std::vector<Bytes>& out) {
    for (auto& k : n->kids) { out.push_back(base + k.first); allPaths(k.second.get(), base + k.first + "/", out); }
}
class CountedInput : public HostileInput {
    int64_t* live;
public:
    CountedInput(Case& c, const Bytes& d, const InputPolicy& p, int64_t* l) : HostileInput(c, d, p), live(l) { ++*live; }
    ~CountedInput() { --*live; }
};
InputStream* MapOpener::openStream(const std::string& url) {
    auto it = files.find(url);
    if (it == files.end() || !it->second->hasData) return 0;
    ++opened;
    InputPolicy p = randomPolicy(rng, false);
    if (it->second->data.size() > 200000 && p.chunk != 0) { p.chunk = 3; p.n = 1 + rng.below(20000) + 4096; }
    return new CountedInput(c, it->second->data, p, &live);
}
int MapOpener::stat(const std::string& url, EntryInfo& e) {
    auto it = files.find(url);
    if (it == files.end()) return -1;
    size_t s = url.rfind('/');
    e.filename = s == std::string::npos ? url : url.substr(s + 1);
    e.size = it->second->size; e.mtime = it->second->mtime; e.type = (EntryInfo::Type)(it->second->type & 2 ? 2 : it->second->type);
    return 0;
}
void compareEntry(Case& c, const EntryInfo& e, const TNode* n, const Bytes& url, const char* what) {
    REQ(c, (int)e.type == n->type, std::string(what) + ":type", "%s has type %d, expected %d", url.c_str(), (int)e.type, n->type);
    if (n->hasSize) REQ(c, e.size == n->size, std::string(what) + ":size", "%s has size %lld, expected %lld", url.c_str(), (long long)e.size, (long long)n->size);
    if (n->hasTime) REQ(c, (int64_t)e.mtime == n->mtime, std::string(what) + ":mtime", "%s has time %lld, expected %lld", url.c_str(), (long long)e.mtime, (long long)n->mtime);
    c.count("entries_compared");
}
static Bytes base(const Bytes& u) { size_t s = u.rfind('/'); return s == Bytes::npos ? u : u.substr(s + 1); }
void checkStat(Case& c, ArchiveReader& r, const Bytes& url, const TNode* n) {
    EntryInfo e;
    int rc = r.stat(url, e);
    c.count("stats");
    if (!n) { REQ(c, rc != 0, "stat:absent", "%s does not exist but stat() finds '%s' (type %d, %lld bytes)", url.c_str(), e.filename.c_str(), (int)e.type, (long long)e.size); c.count("absent_stats"); return; }
    REQ(c, rc == 0, "stat:missing", "stat(%s) = %d", url.c_str(), rc);
    REQ(c, e.filename == base(url), "stat:name", "stat(%s) gives the name '%s'", url.c_str(), e.filename.c_str());
    compareEntry(c, e, n, url, "stat");
}
void checkOpen(Case& c, ArchiveReader& r, const Bytes& url, const TNode* n) {
    InputStream* s = r.openStream(url);
    c.count("opens");
    if (!n || !n->hasData) {
        if (s) r.closeStream(s);
        REQ(c, !s, "open:absent", "openStream(%s) gives a stream although there is %s", url.c_str(), n ? "no file" : "nothing");
        c.count("absent_opens");
        return;
    }
    REQ(c, s, "open:missing", "openStream(%s) gives nothing", url.c_str());
    struct G { ArchiveReader& r; InputStream* s; ~G() { r.closeStream(s); } } g = { r, s };
    MonOpts o; o.maxMin = 1 << 16;
    Mon<char> mon(c, s, n->data, "opened", o);
    if (c.rng.chance(2, 3)) mon.run(c.rng, 1 + (int)c.rng.below(6)); else mon.history(c.rng, 3);
}
void checkList(Case& c, ArchiveReader& r, const Bytes& url, const TNode* n) {
    ArchiveReader::DirLister l = r.dirEntries(url);
    std::set<Bytes> seen;
    EntryInfo e;
    size_t guard = 0, total = n ? n->kids.size() : 0;
    while (l.nextEntry(e)) {
        REQ(c, ++guard <= total + 2, "list:too-many", "listing %s gives more than its %zu entries: '%s'", url.c_str(), total, e.filename.c_str());
        REQ(c, n, "list:absent", "listing the absent %s gives '%s'", url.c_str(), e.filename.c_str());
        auto it = n->kids.find(e.filename);
        REQ(c, it != n->kids.end(), "list:extra", "listing %s gives '%s', which is not there", url.c_str(), e.filename.c_str());
        REQ(c, seen.insert(e.filename).second, "list:twice", "listing %s gives '%s' twice", url.c_str(), e.filename.c_str());
        compareEntry(c, e, it->second.get(), url + "/" + e.filename, "list");
    }
    REQ(c, seen.size() == total, "list:missing", "listing %s gives %zu of %zu entries", url.c_str(), seen.size(), total);
    REQ(c, !l.nextEntry(e), "list:after-end", "nextEntry() after the end of %s gives '%s'", url.c_str(), e.filename.c_str());
    c.count("listings");
    if (!n) c.count("absent_listings");
}
Bytes absentPath(Rng& r, const TNode* root, const std::vector<Bytes>& paths) {
    for (int i = 0; i < 40; ++i) {
        Bytes p = paths[r.below(paths.size())];
        size_t slash = p.rfind('/');
        switch (r.below(9)) {
        case 0: p += "x"; break;
        case 1: p.erase(p.size() - 1); break;
        case 2: p += "/zz"; break;
        case 3: p[slash == Bytes::npos ? 0 : slash + 1] ^= 1; break;
        case 4: if (slash != Bytes::npos) p.erase(0, p.find('/') + 1); else continue; break;
        case 5: p = paths[r.below(paths.size())] + "/" + p; break;
        case 6: p.insert(r.below(p.size() + 1), 1, "abz.-"[r.below(5)]); break;
        case 7: p.erase(r.below(p.size()), 1); break;
        case 8: p = p + "/" + base(p); break;
        }
        bool bad = p.empty() || p[0] == '/' || p[p.size() - 1] == '/' || p.find("//") != Bytes::npos || p.find('\0') != Bytes::npos;
        for (Bytes q = p; !bad && !q.empty();) { size_t s = q.find('/'); Bytes part = q.substr(0, s); if (part == "." || part == "..") bad = true; q = s == Bytes::npos ? Bytes() : q.substr(s + 1); }
        if (bad || lookup(root, p)) continue;
        return p;
    }
    return "surely not there";
}
