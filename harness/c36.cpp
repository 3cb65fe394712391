// The call contract of streams and providers, whatever the bytes and whether or not the input fails.
#include "wild.h"
#include "gzipcompressstream.h"
#include <strigi/substreamproviderprovider.h>
using namespace Strigi;
static HostileInput* input(Case& c, const Bytes& b, bool seek) {
    InputPolicy p = randomPolicy(c.rng, seek);
    HostileInput* h = new HostileInput(c, b, p);
    h->quietBudget = true;
    h->budget = 20000 + 40 * (int64_t)b.size();
    if (c.rng.chance(1, 6)) h->failAt = c.rng.len(200);
    c.note += " [" + p.str() + (h->failAt >= 0 ? fmt(" failing at %lld", (long long)h->failAt) : "") + "]";
    return h;
}
static void done(Case& c, const Effort& e) { c.count("bytes_delivered", e.bytes); c.count("operations", e.ops); c.distinct(e.dig); c.sample(c.note); }
static void decoder(Case& c) {
    std::string kind = g_comps[c.idx % g_ncomps];
    Wild w = wildComp(c.rng, kind, c.rng.chance(1, 10) ? 100000 : 6000);
    c.note = kind + ":" + w.note;
    std::unique_ptr<HostileInput> h(input(c, w.data, c.rng.chance(1, 2)));
    Effort e; e.contract = true;
    Stages s;
    w.make(s, h.get());
    std::string name = kind;
    if (c.rng.chance(1, 4)) { Wild w2 = wildComp(c.rng, g_comps[c.rng.below(g_ncomps)], 100); c.note += " under " + w2.kind; name = w2.kind; w2.make(s, s.top()); }
    else if (c.rng.chance(1, 12)) { InputStream* t = s.top(); s.s.push_back(new GZipCompressInputStream(t, (int)c.rng.below(10))); name = "compress"; }
    wildRead(c, s.top(), c.rng, e, name);
    c.count(("decoder_" + kind).c_str());
    done(c, e);
}
static void archive(Case& c) {
    std::string f = g_formats[c.idx % g_nformats];
    Wild w = wildArchive(c.rng, f, c.rng.chance(1, 10) ? 60000 : 5000);
    c.note = w.note;
    std::unique_ptr<HostileInput> h(input(c, w.data, f == "ole" ? c.rng.chance(7, 8) : c.rng.chance(1, 2)));
    Effort e; e.contract = true;
    std::unique_ptr<SubStreamProvider> p(makeProvider(f, h.get()));
    wildEnumerate(c, p.get(), c.rng, e, f, 2);
    c.count(("archive_" + f).c_str());
    done(c, e);
}
static void reader(Case& c) {
    Wild w = wildArchive(c.rng, g_formats[c.rng.below(g_nformats)], 5000);
    c.note = w.note;
    WildOpener o(c, c.rng.next());
    if (c.rng.chance(1, 8)) o.failAt = c.rng.len(100);
    o.files["f"] = w.data;
    ArchiveReader a;
    a.addStreamOpener(&o);
    Effort e; e.contract = true;
    for (int i = 0; i < 2; ++i) wildReader(c, a, "f", c.rng, e, 3);
    c.count("archive_readers");
    done(c, e);
}
void registerSuites() {
    g_rule = "mutated, cut, spliced and random bytes are fed to every decoder and archive reader, with failing inputs among them; every call of a random history is judged: amounts against min and max, position against what was delivered, the size once known, statuses, sticky errors with one message, segments that stay valid, bytes that come again equal, providers that end once";
    addSuite("decoder", 22000, 900000, decoder);
    addSuite("archive", 24000, 900000, archive);
    addSuite("reader", 5000, 150000, reader);
    for (const char* k : { "reads", "skips", "resets", "resets_in_segment", "bytes_seen_again", "errors", "ends", "provider_errors", "provider_ends", "entries", "archive_readers" }) need(k, 1000);
    for (int i = 0; i < g_nformats; ++i) need(fmt("archive_%s", g_formats[i]), 200);
    for (int i = 0; i < g_ncomps; ++i) need(fmt("decoder_%s", g_comps[i]), 200);
}
