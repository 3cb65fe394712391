// Stream components: known bytes in, known bytes out, for the cross-cutting checks.
#ifndef VERIF_COMPONENTS_H
#define VERIF_COMPONENTS_H
#include "archives.h"
#include "codecs.h"
#include <memory>
// the streams built over one input; the last one is the one to read
struct Stages {
    std::vector<InputStream*> s;
    std::vector<std::shared_ptr<void> > keep;
    InputStream* top() { return s.back(); }
    void destroy() { while (!s.empty()) { delete s.back(); s.pop_back(); } }
    ~Stages() { destroy(); }
};
struct Comp {
    std::string name;
    Bytes input, ref;
    std::function<void(Stages&, InputStream*)> make;
    bool copyable() const { return true; }
};
extern const char* const g_comps[];
extern const int g_ncomps;
// content turned into the input of a component of this kind; the reference may differ from the content (compress, sub, ...)
Comp makeComp(Rng& r, const std::string& kind, const Bytes& content);
// two or three components on top of each other
Comp makeChain(Rng& r, const Bytes& content, int n);
Bytes b64encode(const Bytes& d, size_t line = 76);
#endif
