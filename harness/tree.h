// A model of files that are archives nested in one another, for the archive reader checks.
#ifndef VERIF_TREE_H
#define VERIF_TREE_H
#include "archives.h"
#include <strigi/archivereader.h>
#include <set>
#include <memory>
struct TNode {
    Bytes name; int type;   // EntryInfo bits: 1 directory, 2 file, 3 archive
    Bytes data; bool hasData; int64_t size, mtime; bool hasTime, hasSize;
    std::map<Bytes, std::shared_ptr<TNode> > kids;
    TNode() : type(2), hasData(false), size(0), mtime(0), hasTime(false), hasSize(true) {}
};
typedef std::shared_ptr<TNode> TNodeP;
struct TreeOpts { int depth; int64_t maxSize; bool lateDirs, implicitDirs; std::vector<std::string> formats; TreeOpts() : depth(2), maxSize(4000), lateDirs(false), implicitDirs(false) {} };
// content that no format claims
Bytes plainContent(Rng& r, int64_t maxSize);
// an archive file (type 3) with everything below it
TNodeP makeTree(Case& c, Rng& r, const TreeOpts& o, int depth);
const TNode* lookup(const TNode* root, const Bytes& path);   // path relative to root, "" is the root
void allPaths(const TNode* n, const Bytes& base, std::vector<Bytes>& out);
bool claimed(const Bytes& data, const std::string& except);

// delivers the files of the model through hostile streams
class MapOpener : public Strigi::StreamOpener {
public:
    Case& c; Rng rng; std::map<Bytes, TNodeP> files; int64_t opened, live; 
    MapOpener(Case& cc, uint64_t seed) : c(cc), rng(seed), opened(0), live(0) {}
    InputStream* openStream(const std::string& url);
    int stat(const std::string& url, Strigi::EntryInfo& e);
};
void compareEntry(Case& c, const Strigi::EntryInfo& e, const TNode* n, const Bytes& url, const char* what);
void checkStat(Case& c, Strigi::ArchiveReader& r, const Bytes& url, const TNode* n);
void checkOpen(Case& c, Strigi::ArchiveReader& r, const Bytes& url, const TNode* n);
void checkList(Case& c, Strigi::ArchiveReader& r, const Bytes& url, const TNode* n);
// a path that does not exist, derived from one that does
Bytes absentPath(Rng& r, const TNode* root, const std::vector<Bytes>& paths);
#endif
