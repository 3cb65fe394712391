// Histories of archive reader queries with listers and streams in flight and files that change.
#include "tree.h"
#include <strigi/fileinputstream.h>
#include <sys/stat.h>
#include <unistd.h>
#include <utime.h>
using namespace Strigi;
struct Lister {
    std::unique_ptr<ArchiveReader::DirLister> l; Bytes url; TNodeP root; const TNode* node; std::set<Bytes> seen; bool stale, done; size_t steps, limit;
    Lister() : node(0), stale(false), done(false), steps(0), limit(0) {}
};
struct Open { InputStream* s; Mon<char>* mon; TNodeP root; Bytes url; };
struct World {
    Case& c; Rng& r; bool disk; Bytes dir; MapOpener mo; FileStreamOpener fo; std::map<Bytes, TNodeP>& files; std::vector<Bytes> names; int64_t clock; std::set<std::pair<int64_t, int64_t> > used;
    std::unique_ptr<ArchiveReader> reader; std::vector<Lister> listers; std::vector<Open> opens; TreeOpts o; int versions;
    World(Case& cc) : c(cc), r(cc.rng), disk(cc.rng.chance(1, 2)), mo(cc, cc.rng.next()), files(mo.files), clock(1000000000), versions(0) {
        o.depth = 1 + (int)r.below(3); o.maxSize = 1500; o.implicitDirs = r.chance(1, 4);
        dir = disk ? scratchDir() + "/h" : r.chance(1, 2) ? "world" : "";
        if (disk) mkdir(dir.c_str(), 0700);
        int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; ++i) { names.push_back(dir.empty() ? Bytes(1, 'a' + i) : dir + "/" + Bytes(1, 'a' + i)); change(i, i == 0 ? 0 : (int)r.below(3)); }
        fresh();
    }
    ~World() {
        listers.clear();
        for (auto& x : opens) { delete x.mon; reader->closeStream(x.s); }
        reader.reset();
        if (disk) { for (auto& n : names) remove(n.c_str()); rmdir(dir.c_str()); }
    }
    void fresh() { reader.reset(new ArchiveReader); if (disk) reader->addStreamOpener(&fo); else reader->addStreamOpener(&mo); }
    void change(int i, int kind) {   // 0 archive 1 archive 2 plain 3 gone 4 an empty directory
        TNodeP t;
        TNodeP before = files.count(names[i]) ? files[names[i]] : TNodeP();
        if (kind < 2) t = makeTree(c, r, o, o.depth);
        else if (kind == 2) { t.reset(new TNode); t->data = plainContent(r, 1500); t->hasData = true; t->size = t->data.size(); }
        else if (kind == 4) { t.reset(new TNode); t->name = "directory"; t->type = 1; t->hasSize = false; c.count("directories"); }
        ++versions;
        clock += (int64_t)r.range(-50, 100);
        if (t) {
            t->mtime = clock += 1; t->hasTime = t->type != 1;
            // two changes within a second can be told by the size
            if (before && before->hasTime && r.chance(1, 4)) { t->mtime = before->mtime; c.count("same_time"); }
            while (!used.insert(std::make_pair(t->mtime, t->size)).second) ++t->mtime;   // every version has its own time or size, the time is not always a later one
        }
        for (auto& l : listers) if (l.url == names[i] || l.url.compare(0, names[i].size() + 1, names[i] + "/") == 0) l.stale = true;
        if (c.verbose) fprintf(stderr, "change %s: %s, %lld bytes, time %lld\n", names[i].c_str(), t ? t->name.c_str() : "gone", t ? (long long)t->size : 0ll, t ? (long long)t->mtime : 0ll);
        if (!t) files.erase(names[i]); else files[names[i]] = t;
        if (disk) {
            if (!t || (t->type == 1) != (before && before->type == 1)) remove(names[i].c_str());
            if (!t) return;
            if (t->type == 1) { mkdir(names[i].c_str(), 0700); return; }
            Bytes tmp = dir + "/tmp";
            FILE* f = fopen(tmp.c_str(), "wb"); if (!f || (!t->data.empty() && fwrite(t->data.data(), 1, t->data.size(), f) != t->data.size())) abort(); fclose(f);
            struct utimbuf u; u.actime = u.modtime = t->mtime; utime(tmp.c_str(), &u);
            rename(tmp.c_str(), names[i].c_str());
        }
    }
    // picks a url; n is the node or null if there is none
    Bytes pick(const TNode*& n, TNodeP& root) {
        size_t i = r.below(names.size());
        auto it = files.find(names[i]);
        root = it == files.end() ? TNodeP() : it->second;
        n = 0;
        if (c.verbose) fprintf(stderr, "  at %s\n", names[i].c_str());
        if (!root) return names[i] + (r.chance(1, 2) ? "" : "/" + Bytes(1, 'a' + r.below(5)));
        std::vector<Bytes> paths;
        allPaths(root.get(), "", paths);
        if (paths.empty() || r.chance(1, 6)) { n = root.get(); return names[i]; }
        if (r.chance(1, 6)) return names[i] + "/" + absentPath(r, root.get(), paths);
        Bytes rel = paths[r.below(paths.size())];
        if (r.chance(1, 3)) { size_t s = rel.rfind('/'); if (s != Bytes::npos) rel.resize(s); }   // directories more often
        n = lookup(root.get(), rel);
        return names[i] + "/" + rel;
    }
    void start() {
        Lister l; const TNode* n;
        l.url = pick(n, l.root); l.node = n;
        l.l.reset(new ArchiveReader::DirLister(reader->dirEntries(l.url)));
        l.limit = 100000;
        if (c.verbose) fprintf(stderr, "lister of %s\n", l.url.c_str());
        listers.push_back(std::move(l));
        c.count("listers");
    }
    void step(Lister& l, int k) {
        for (int i = 0; i < k; ++i) {
            EntryInfo e;
            bool got = l.l->nextEntry(e);
            REQ(c, ++l.steps < l.limit, "lister:endless", "listing %s does not end", l.url.c_str());
            if (l.stale) { if (!got) { l.done = true; return; } continue; }
            size_t total = l.node ? l.node->kids.size() : 0;
            if (!got) {
                REQ(c, l.seen.size() == total, "lister:missing", "the lister of %s ended after %zu of %zu entries", l.url.c_str(), l.seen.size(), total);
                l.done = true; return;
            }
            REQ(c, !l.done, "lister:after-end", "the lister of %s goes on after its end with '%s'", l.url.c_str(), e.filename.c_str());
            REQ(c, l.node, "lister:absent", "the lister of the absent %s gives '%s'", l.url.c_str(), e.filename.c_str());
            auto it = l.node->kids.find(e.filename);
            REQ(c, it != l.node->kids.end(), "lister:extra", "the lister of %s gives '%s', which is not there", l.url.c_str(), e.filename.c_str());
            REQ(c, l.seen.insert(e.filename).second, "lister:twice", "the lister of %s gives '%s' twice", l.url.c_str(), e.filename.c_str());
            compareEntry(c, e, it->second.get(), l.url + "/" + e.filename, "lister");
            c.count("lister_steps");
        }
    }
    void run(int ops) {
        uint64_t dig = 3;
        for (int i = 0; i < ops; ++i) {
            const TNode* n; TNodeP root; Bytes url;
            int w = (int)r.below(26);
            if (c.verbose) fprintf(stderr, "op %d: %d, %zu listers, %zu streams\n", i, w, listers.size(), opens.size());
            dig = mix(dig, w);
            switch (w) {
            case 0: case 1: case 2: url = pick(n, root); checkStat(c, *reader, url, n); break;
            case 3: case 4: url = pick(n, root); checkOpen(c, *reader, url, n); break;
            case 5: case 6: url = pick(n, root); checkList(c, *reader, url, n); break;
            case 7: {
                size_t k = r.below(names.size()); auto it = files.find(names[k]); bool arch = it != files.end() && it->second->type == 3;
                REQ(c, reader->isArchive(names[k]) == arch, "isArchive", "isArchive(%s) = %d", names[k].c_str(), !arch);
                url = pick(n, root); arch = root && root->type == 3;
                REQ(c, reader->canHandle(url) == arch, "canHandle", "canHandle(%s) = %d", url.c_str(), !arch); break; }
            case 8: case 9: case 10: case 11: if (listers.size() < 8) start(); break;
            case 12: case 13: case 14: case 15: if (!listers.empty()) step(listers[r.below(listers.size())], 1 + (int)r.below(4)); break;
            case 16: if (!listers.empty()) step(listers[r.below(listers.size())], 1000); break;
            case 17: if (!listers.empty() && listers.size() < 8) { // copy
                Lister& a = listers[r.below(listers.size())]; Lister b;
                b.l.reset(new ArchiveReader::DirLister(*a.l)); b.url = a.url; b.root = a.root; b.node = a.node; b.seen = a.seen; b.stale = a.stale; b.done = a.done; b.limit = a.limit;
                listers.push_back(std::move(b)); c.count("lister_copies"); } break;
            case 18: if (!listers.empty()) { // assign, possibly to itself
                Lister& a = listers[r.below(listers.size())]; Lister& b = listers[r.below(listers.size())];
                *b.l = *a.l;
                if (&a != &b) { b.url = a.url; b.root = a.root; b.node = a.node; b.seen = a.seen; b.stale = a.stale; b.done = a.done; b.steps = 0; }
                c.count("lister_assignments"); } break;
            case 19: if (!listers.empty()) { listers.erase(listers.begin() + r.below(listers.size())); c.count("listers_dropped"); } break;
            case 20: case 21: if (opens.size() < 4) {
                url = pick(n, root);
                InputStream* s = reader->openStream(url);
                if (!n || !n->hasData) { if (s) reader->closeStream(s); REQ(c, !s, "open:absent", "openStream(%s) gives a stream", url.c_str()); break; }
                REQ(c, s, "open:missing", "openStream(%s) gives nothing", url.c_str());
                Open x; x.s = s; x.root = root; x.url = url; x.mon = 0;
                opens.push_back(x);
                MonOpts mo; mo.maxMin = 1 << 14;
                opens.back().mon = new Mon<char>(c, s, n->data, "opened", mo);
                c.count("streams_kept_open"); } break;
            case 22: if (!opens.empty()) opens[r.below(opens.size())].mon->history(r, 5); break;
            case 23: if (!opens.empty()) {
                size_t k = r.below(opens.size());
                if (r.chance(1, 2)) opens[k].mon->drain(r);
                delete opens[k].mon; reader->closeStream(opens[k].s); opens.erase(opens.begin() + k); } break;
            case 24: change((int)r.below(names.size()), (int)r.below(r.chance(1, 3) ? 5 : 4)); c.count("replacements"); break;
            case 25: if (r.chance(1, 3) && opens.empty()) { if (r.chance(1, 2)) listers.clear(); else for (auto& l : listers) l.stale = true; if (listers.empty()) { fresh(); c.count("new_readers"); } } break;
            }
        }
        for (auto& l : listers) if (r.chance(1, 2)) step(l, 1000);
        c.distinct(mix(dig, hashStr(c.note)));
    }
};
static void one(Case& c) {
    World* w = new World(c);
    struct D { World* w; ~D() { delete w; } } d = { w };
    c.note = fmt("depth %d, %zu files, %s:", w->o.depth, w->names.size(), w->disk ? "disk" : "streams");
    for (auto& f : w->files) c.note += " " + f.second->name;
    w->run(10 + (int)c.rng.below(60));
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "random histories of stat, open, list, isArchive and canHandle with many listers and streams in flight, copied, assigned and abandoned, while files are replaced and removed; every answer is compared with the model of the files as they are";
    addSuite("histories", 4000, 150000, one);
    for (const char* k : { "stats", "opens", "listings", "listers", "lister_steps", "lister_copies", "lister_assignments", "listers_dropped", "streams_kept_open", "replacements", "same_time" }) need(k, 500);
    need("directories", 300);
}
