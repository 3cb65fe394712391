// Archives that are cut off.
#include "archives.h"
using namespace Strigi;
static void cutAt(Case& c, const Archive& a, int64_t k) {
    Rng& r = c.rng;
    InputPolicy pol = randomPolicy(r, a.needsSeek);
    Bytes cut = a.bytes.substr(0, k);
    HostileInput in(c, cut, pol);
    in.budget = 5000 + 40 * (int64_t)cut.size();
    std::string name = a.format;
    int mode = (int)r.below(6);
    std::string before = c.note;
    c.note += fmt("; cut at %lld of %zu, mode %d, ", (long long)k, a.bytes.size(), mode) + pol.str();
    SubStreamProvider* p = makeProvider(a.format, &in);
    struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
    size_t i = 0;
    bool inMember = false;
    int64_t got = 0;
    while (InputStream* s = p->nextEntry()) {
        REQ(c, i < a.members.size(), name + ":too-many", "entry %zu '%s' of a file with %zu members", i, p->entryInfo().filename.substr(0, 100).c_str(), a.members.size());
        const Member& m = a.members[i];
        compareInfo(c, p->entryInfo(), m, i, name, true);
        bool plain = m.dataStart >= 0;
        bool whole = plain && m.dataEnd <= k;
        // compressed members and payloads: unknown how much can be delivered, but only all of it may look complete
        MonOpts o; o.maxMin = 1 << 16;
        if (a.format == "zip") plain = false;   // deflated data may be complete before its last byte
        o.end = whole ? MonOpts::ExactEof : plain && m.data.size() && m.dataEnd - m.dataStart == (int64_t)m.data.size() ? MonOpts::MustError : MonOpts::EofOrError;
        if (m.dataStart >= 0 && !whole) { inMember = true; c.count("cut_members"); }
        int how = mode == 4 ? (int)r.below(6) : mode;
        {
            Mon<char> mon(c, s, m.data, name + ":entry", o);
            switch (how) {
            case 0: case 4: mon.drain(r); break;
            case 1: { int64_t n = r.below(m.data.size() + 1); while (mon.pos < n && s->status() == Ok) { if (mon.read(1, 1 + (int32_t)r.len(4000)) < 0) break; } break; }
            case 2: mon.skip(r.chance(1, 2) ? r.len(m.data.size() + 10) : (int64_t)m.data.size()); break;
            case 3: break;
            case 5: mon.run(r, 4 + (int)r.below(12)); break;
            }
            got += mon.nbytes;
        }
        c.count("entries");
        ++i;
    }
    StreamStatus st = p->status();
    REQ(c, st == Eof || st == Error, name + ":status", "status %s after the last entry", statusName(st));
    if (st == Error) { REQ(c, p->error() && *p->error(), name + ":no-message", "error without a message after %zu entries", i); c.count("errors"); }
    else {
        bool ok = false;
        const char* why = "";
        if (a.payload >= 0) { ok = i == a.members.size(); why = "not all members were seen"; }
        else if (a.members.empty() || k >= (a.format == "zip" ? a.members.back().next : a.members.back().dataEnd)) ok = i == a.members.size();
        else if (k == 0) ok = true;
        else {
            why = "the cut is inside of a member";
            ok = i < a.members.size() && (k == a.members[i].head || (i && k == a.members[i - 1].next));
            if (i == 0) for (int64_t g : a.gaps) ok = ok || k == g;
            // padding behind a member carries nothing
            if (a.format != "zip" && i && i < a.members.size()) ok = ok || (k >= a.members[i - 1].dataEnd && k <= a.members[i - 1].next);
        }
        REQ(c, ok, name + ":complete", "a file cut at %lld of %zu ends normally after %zu of %zu members (%s%s)", (long long)k, a.bytes.size(), i, a.members.size(), why, inMember ? "; entry was cut" : "");
        c.count("clean_ends");
    }
    for (int j = 0; j < 2; ++j) { InputStream* s = p->nextEntry(); REQ(c, !s && p->status() == st, name + ":after-end", "nextEntry() after the end: %s, status %s (was %s)", s ? "a stream" : "nothing", statusName(p->status()), statusName(st)); }
    c.distinct(mix(mix(hashStr(a.bytes), k), mix(got, i * 8 + mode)));
    c.count("cuts");
    c.note = before;
}
static const char* const formats[] = { "tar", "cpio", "ar", "zip", "rpm" };
static void one(Case& c) {
    GenOpts o; o.exactEnds = true; o.maxSize = c.rng.chance(1, 6) ? 20000 : 1500; o.maxMembers = 6;
    Archive a = genArchive(c.rng, formats[c.idx % 5], o);
    c.note = a.note;
    int n = 12;
    int64_t N = a.bytes.size();
    for (int i = 0; i < n; ++i) {
        int64_t k = c.rng.below(N);
        if (!a.members.empty() && a.payload < 0 && c.rng.chance(2, 3)) { // near the edges of a member's parts
            const Member& m = a.members[c.rng.below(a.members.size())];
            int64_t at[] = { m.head, m.dataStart, m.dataEnd, m.next };
            k = at[c.rng.below(4)] + c.rng.range(-20, 20);
        } else if (a.payload >= 0 && c.rng.chance(1, 3)) k = c.rng.chance(1, 2) ? a.payload + c.rng.range(-20, 40) : N - 1 - c.rng.below(60);
        if (k < 0 || k >= N) continue;
        cutAt(c, a, k);
    }
    c.count(fmt("archives_%s", a.format.c_str()).c_str());
    c.sample(c.note);
}
// every position of a small file
static void every(Case& c) {
    GenOpts o; o.exactEnds = true; o.maxSize = 60; o.maxMembers = 2;
    Archive a;
    do a = genArchive(c.rng, formats[c.idx % 5], o); while (a.bytes.size() > 12000);
    c.note = a.note;
    for (int64_t k = 0; k < (int64_t)a.bytes.size(); ++k) {
        if (a.format == "tar" && !a.members.empty() && k > a.members.back().next + 600 && k % 37) continue;
        cutAt(c, a, k);
    }
    c.count("files_cut_everywhere");
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "archives from the harness's writers are cut at chosen bytes (near every header, data and padding edge, and at every byte of small files); members before the cut, the member with the cut and the final status are judged with the writer's offsets";
    addSuite("cuts", 16000, 400000, one);
    addSuite("everywhere", 600, 8000, every);
    need("cuts", 50000); need("errors", 20000); need("cut_members", 2000); need("files_cut_everywhere", 200);
    for (const char* f : formats) need(fmt("archives_%s", f), 500);
}
