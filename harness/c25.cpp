// The archive reader against the model of the tree.
#include "tree.h"
#include <strigi/fileinputstream.h>
#include <sys/stat.h>
#include <unistd.h>
#include <utime.h>
using namespace Strigi;
static void put(const Bytes& path, const Bytes& d, int64_t mtime) {
    FILE* f = fopen(path.c_str(), "wb"); if (!f || (!d.empty() && fwrite(d.data(), 1, d.size(), f) != d.size())) abort(); fclose(f);
    struct utimbuf u; u.actime = u.modtime = mtime; utime(path.c_str(), &u);
}
static void one(Case& c) {
    Rng& r = c.rng;
    TreeOpts o; o.depth = 1 + (int)r.below(3); o.maxSize = r.chance(1, 20) ? 100000 : 3000;
    o.lateDirs = r.chance(1, 4); o.implicitDirs = r.chance(1, 4);
    // the world: a few files, at least one of them an archive
    std::map<Bytes, TNodeP> files;
    Bytes dir = r.chance(1, 2) ? scratchDir() : r.chance(1, 2) ? Bytes("world") : Bytes();
    bool disk = !dir.empty() && dir[0] == '/';
    Bytes sl = dir.empty() ? "" : "/";   // names relative to nothing, possibly of one character
    if (disk) { dir += "/t"; mkdir(dir.c_str(), 0700); }
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
        TNodeP t;
        if (i == 0 || r.chance(1, 2)) t = makeTree(c, r, o, o.depth);
        else { t.reset(new TNode); t->data = plainContent(r, 3000); t->name = "plain"; t->hasData = true; t->size = t->data.size(); }
        t->name = Bytes(1, 'a' + i) + (r.chance(1, 3) ? "" : "." + t->name);
        t->mtime = 1000000000 + r.below(500000000); t->hasTime = true;
        files[dir + sl + t->name] = t;
        if (disk) put(dir + "/" + t->name, t->data, t->mtime);
    }
    struct Clean { std::map<Bytes, TNodeP>& f; Bytes d; bool on; ~Clean() { if (on) { for (auto& x : f) unlink(x.first.c_str()); rmdir(d.c_str()); } } } clean = { files, dir, disk };
    MapOpener mo(c, r.next());
    mo.files = files;
    FileStreamOpener fo;
    {
        std::unique_ptr<ArchiveReader> shared;
        auto fresh = [&]() { ArchiveReader* a = new ArchiveReader; if (disk) a->addStreamOpener(&fo); else a->addStreamOpener(&mo); return a; };
        shared.reset(fresh());
        int policy = (int)r.below(3);   // 0 one reader, 1 a new one for each query, 2 mixed
        c.note = fmt("depth %d, %zu files, %s, readers %d, dirs %d %d:", o.depth, files.size(), disk ? "disk" : "streams", policy, o.lateDirs, o.implicitDirs);
        for (auto& f : files) c.note += " " + f.second->name;
        uint64_t dig = 5;
        for (auto& f : files) {
            const TNode* root = f.second.get();
            std::vector<Bytes> paths;
            allPaths(root, "", paths);
            if (root->type == 3) c.maxof("paths", paths.size());
            int q = 6 + (int)r.below(20);
            for (int i = 0; i < q; ++i) {
                if (policy == 1 || (policy == 2 && r.chance(1, 3))) shared.reset(fresh());
                Bytes rel;
                bool absent = !paths.empty() && r.chance(1, 4);
                if (absent) rel = absentPath(r, root, paths);
                else if (!paths.empty() && r.chance(7, 8)) rel = paths[r.below(paths.size())];
                const TNode* n = absent ? 0 : lookup(root, rel);
                Bytes url = f.first + (rel.empty() ? "" : "/" + rel);
                int what = (int)r.below(4);
                if (c.verbose) fprintf(stderr, "query %d %s%s\n", what, url.c_str(), absent ? " (absent)" : "");
                dig = mix(dig, hashStr(rel) + what);
                switch (what) {
                case 0: checkStat(c, *shared, url, n); break;
                case 1: checkOpen(c, *shared, url, n); break;
                case 2: checkList(c, *shared, url, n); break;
                default:
                    if (rel.empty()) {
                        bool got = shared->isArchive(url);
                        REQ(c, got == (root->type == 3), "isArchive", "isArchive(%s) = %d", url.c_str(), got);
                        c.count("isArchive_calls");
                    }
                    bool can = shared->canHandle(url);
                    REQ(c, can == (root->type == 3), "canHandle", "canHandle(%s) = %d", url.c_str(), can);
                }
            }
        }
        // a file that is not there at all
        Bytes none = dir + sl + "none";
        checkStat(c, *shared, none, 0); checkOpen(c, *shared, none + "/x", 0); checkList(c, *shared, none, 0);
        REQ(c, !shared->isArchive(none) && !shared->canHandle(none), "absent-file", "a missing file is taken for an archive");
        c.distinct(dig);
        c.sample(c.note);
    }
    REQ(c, mo.live == 0, "streams-left", "%lld of %lld streams were not closed", (long long)mo.live, (long long)mo.opened);
}
void registerSuites() {
    g_rule = "a random tree of archives nested in archives (tar, zip, ar, rpm, mail, sdf; gzip, bzip2 and LZMA wrappers) is queried through the archive reader; every answer for present and absent paths is compared with the model of the tree";
    addSuite("trees", 5000, 150000, one);
    need("mail_like", 100); need("special_members", 300); need("stats", 10000); need("opens", 10000); need("listings", 10000); need("absent_stats", 1000); need("absent_opens", 1000); need("absent_listings", 1000); need("isArchive_calls", 500);
}
