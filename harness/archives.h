// Independent archive writers and the enumeration monitor.
#ifndef VERIF_ARCHIVES_H
#define VERIF_ARCHIVES_H
#include "streams.h"
#include <strigi/substreamprovider.h>
enum { T_UNKNOWN = 0, T_DIR = 1, T_FILE = 2 };
struct Member {
    Bytes name;
    int type;
    Bytes data;
    int64_t mtime;
    bool sizeInHeader;     // the size can be known before reading
    bool hasTime;          // the format stores a time
    int64_t head, dataStart, dataEnd, next;   // offsets in the archive (-1 if inside a compressed payload)
    Member() : type(T_FILE), mtime(0), sizeInHeader(true), hasTime(true), head(-1), dataStart(-1), dataEnd(-1), next(-1) {}
};
struct Archive {
    std::string format;      // tar cpio ar zip rpm mail sdf ole
    Bytes bytes;
    std::vector<Member> members;
    std::string note;
    bool needsSeek;          // the format cannot be read from an input without free resets
    int64_t payload;         // where the compressed payload starts (rpm)
    std::vector<int64_t> gaps;   // other offsets at which nothing is cut in two (ar)
    // mail
    std::map<std::string, std::string> headers;
    std::map<std::string, int> features;   // what the archive exercises
    Archive() : needsSeek(false), payload(-1) {}
};
struct GenOpts {
    int maxMembers;
    int64_t maxSize;
    bool plainNames;      // unique names usable as paths, directories come before their members
    bool exactEnds;       // nothing optional behind a member
    bool unknowns;        // with plainNames: also links, pipes and devices
    bool lateDirs, implicitDirs;   // directories after their members, or not at all (with plainNames)
    std::vector<Bytes> contents;   // contents to draw from (nested archives)
    std::vector<Bytes> contentNames;
    GenOpts() : maxMembers(12), maxSize(20000), plainNames(false), exactEnds(false), unknowns(false), lateDirs(false), implicitDirs(false) {}
};
Archive genTar(Rng& r, const GenOpts& o);
Archive genCpio(Rng& r, const GenOpts& o);
Archive genAr(Rng& r, const GenOpts& o);
Archive genZip(Rng& r, const GenOpts& o);
Archive genRpm(Rng& r, const GenOpts& o);
Archive genMail(Rng& r, const GenOpts& o);
Archive genSdf(Rng& r, const GenOpts& o);
Archive genOle(Rng& r, const GenOpts& o);
extern const char* const g_formats[];
extern const int g_nformats;
Archive genArchive(Rng& r, const std::string& format, const GenOpts& o);
// the cpio payload alone (rpm)
Bytes writeCpio(Rng& r, std::vector<Member>& m);

Strigi::SubStreamProvider* makeProvider(const std::string& format, InputStream* in);
bool checkHeaderOf(const std::string& format, const char* d, int32_t n);

struct Consume { int mode; /* 0 full 1 partial 2 skip 3 nothing 4 mixed per entry 5 history */ };
// enumerates a provider and compares everything with the members; returns a digest
uint64_t enumerate(Case& c, Strigi::SubStreamProvider* p, const Archive& a, Rng& r, int mode, const char* prefix);
// one entry's metadata
void compareInfo(Case& c, const Strigi::EntryInfo& i, const Member& m, size_t idx, const std::string& name, bool fresh);
#endif
