// Hostile bytes and callers without expectations about the content.
#ifndef VERIF_WILD_H
#define VERIF_WILD_H
#include "components.h"
#include <strigi/archivereader.h>
struct Wild {
    std::string kind;        // format or component the bytes are meant for
    Bytes data;
    std::string note;
    std::function<void(Stages&, InputStream*)> make;   // for components
    bool archive;
    bool seek;      // only meant for inputs that can be reset to any position
    Wild() : archive(false), seek(false) {}
};
// bytes for any archive format: mutated, spliced, self-referencing or just noise
Wild wildArchive(Rng& r, const std::string& format, int64_t maxSize);
// bytes for a decoder
Wild wildComp(Rng& r, const std::string& kind, int64_t maxSize);
Bytes mutate(Rng& r, const Bytes& in, const std::string& kind, const std::vector<int64_t>& heads, std::string& note);
Bytes zipQuine();            // a zip file whose only member is that zip file
Bytes slashTar(int64_t slashes);   // one member with a name of slashes
const std::vector<Bytes>& corpus();
// what a caller may use up: guards against work that only the case chose to do
struct Effort {
    int64_t bytes, entries, ops;   // delivered
    int64_t demanded;   // by the reader, at most a megabyte for each read
    int64_t maxBytes, maxEntries;
    uint64_t dig;
    bool contract;   // judge the calls too, not only survive them
    Effort() : bytes(0), entries(0), ops(0), demanded(0), maxBytes(3000000), maxEntries(3000), dig(1), contract(false) {}
    bool spent() const { return bytes > maxBytes || entries > maxEntries; }
};
// any history, every delivered byte is touched, and the call contract that holds for any content is checked
void wildRead(Case& c, InputStream* s, Rng& r, Effort& e, const std::string& name);
void wildEnumerate(Case& c, Strigi::SubStreamProvider* p, Rng& r, Effort& e, const std::string& name, int depth);
// stat, list and open over everything an archive reader says is there
void wildReader(Case& c, Strigi::ArchiveReader& a, const Bytes& url, Rng& r, Effort& e, int depth);
class WildOpener : public Strigi::StreamOpener {
public:
    Case& c; Rng rng; std::map<Bytes, Bytes> files; bool quiet; int64_t failAt, opened, live, mtime, budget, calls;
    WildOpener(Case& cc, uint64_t seed) : c(cc), rng(seed), quiet(true), failAt(-1), opened(0), live(0), mtime(1), budget(-1), calls(0) {}
    InputStream* openStream(const std::string& url);
    int stat(const std::string& url, Strigi::EntryInfo& e);
};
extern const char* const g_encodings[];
extern const int g_nencodings;
#endif
