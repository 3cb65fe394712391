// One source for the plain archive formats; ARCHFMT selects the format.
#include "archives.h"
#include <strigi/tarinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/mailinputstream.h>
#include <time.h>
using namespace Strigi;
#ifndef ARCHFMT
#error
#endif
static void mailHeaders(Case& c, MailInputStream* m, const Archive& a) {
    std::map<std::string, std::string> got;
    got["subject"] = m->subject(); got["from"] = m->from(); got["to"] = m->to(); got["cc"] = m->cc(); got["bcc"] = m->bcc();
    got["messageid"] = m->messageid(); got["inreplyto"] = m->inreplyto(); got["references"] = m->references(); got["contenttype"] = m->contentType();
    for (auto& g : got) {
        auto it = a.headers.find(g.first);
        std::string want = it == a.headers.end() ? "" : it->second;
        REQ(c, g.second == want, "mail:header", "%s is '%s', expected '%s'", g.first.c_str(), g.second.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        c.count("headers");
    }
}
static void run(Case& c, const GenOpts& o) {
    static const char* tz[] = { "UTC", "EST5EDT", "CET-1CEST", "IST-5:30" };
    setenv("TZ", tz[c.rng.below(4)], 1); tzset();
    Archive a = genArchive(c.rng, ARCHFMT, o);
    InputPolicy pol = randomPolicy(c.rng, a.needsSeek);
    if (a.bytes.size() > 300000 && pol.chunk == 3 && pol.n < 4096) pol.n += 8192;
    if (a.format == "ole" && a.bytes.size() >= 10000000) pol.knowSize = true;   // documented limit for inputs of unknown size
    int mode = (int)c.rng.below(6);
    c.note = a.note + fmt(", %zu bytes, mode %d, ", a.bytes.size(), mode) + pol.str();
    HostileInput in(c, a.bytes, pol);
    SubStreamProvider* p = makeProvider(ARCHFMT, &in);
    struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
    if (Bytes(ARCHFMT) == "mail") mailHeaders(c, (MailInputStream*)p, a);
    uint64_t dig = enumerate(c, p, a, c.rng, mode, ARCHFMT);
    c.distinct(mix(dig, mode));
    c.count("members", a.members.size());
    for (auto& f : a.features) if (f.second) c.count(f.first.c_str(), f.second);
    if (in.badArgs) c.count("reads_with_min_below_1", in.badArgs);
    c.sample(c.note);
}
static void one(Case& c) {
    GenOpts o;
    if (c.rng.chance(1, 8)) o.maxSize = 200000;
    if (c.rng.chance(1, 10)) { o.maxMembers = 80; o.maxSize = 900; }
    run(c, o);
}
static void large(Case& c) {
    GenOpts o; o.maxSize = 3000000; o.maxMembers = 3;
    if (Bytes(ARCHFMT) == "ole") o.maxSize = 7000000;
    run(c, o);
    c.count("large_archives");
}
// members beyond 2 and 4 GB: an input that is mostly a hole
class SparseInput : public InputStream {
public:
    std::map<int64_t, Bytes> parts; std::vector<char> buf; int64_t calls;
    SparseInput(int64_t size) : buf(1 << 16), calls(0) { m_size = size; }
    void fill(int64_t at, int64_t n) {
        memset(&buf[0], 0, n);
        for (auto& p : parts) {
            int64_t a = p.first > at ? p.first : at, b = p.first + (int64_t)p.second.size() < at + n ? p.first + (int64_t)p.second.size() : at + n;
            if (a < b) memcpy(&buf[a - at], p.second.data() + (a - p.first), b - a);
        }
    }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        ++calls;
        if (m_status == Error) return -2;
        if (m_status == Eof || m_position == m_size) { m_status = Eof; return -1; }
        int64_t n = min > 4096 ? min : 4096;
        if (max >= min && max > 0 && n > max) n = max;
        if (n > m_size - m_position) n = m_size - m_position;
        if ((int64_t)buf.size() < n) buf.resize(n);
        fill(m_position, n);
        start = &buf[0];
        m_position += n;
        if (m_position == m_size) m_status = Eof;
        return (int32_t)n;
    }
    int64_t skip(int64_t n) {
        ++calls;
        if (m_status == Error) return -2;
        if (n > m_size - m_position) n = m_size - m_position;
        if (n < 0) n = 0;
        m_position += n;
        if (m_position == m_size) m_status = Eof;
        return n;
    }
    int64_t reset(int64_t p) {
        ++calls;
        if (m_status == Error) return -2;
        m_position = p > m_size ? m_size : p < 0 ? 0 : p;
        m_status = m_position == m_size ? Eof : Ok;
        return m_position;
    }
};
static void huge(Case& c) {
    std::string f = ARCHFMT;
    static const int64_t sizes[] = { 0x7fffffffLL, 0x80000000LL, 0x80000001LL, 0xfffffffeLL, 0x7ffffe00LL, 0xc0000123LL, 0x100000000LL, 0x1ffffffffLL, 0x40000000LL };
    int64_t limit = f == "tar" ? 0x1ffffffffLL : f == "cpio" ? 0xffffffffLL : f == "zip" ? 0xfffffffeLL : 9999999999LL;
    int64_t size = sizes[c.rng.below(9)];
    if (size > limit) size = 0xfffffffeLL;
    // take a two member archive and stretch the first member
    GenOpts o; o.maxMembers = 1;
    Bytes first, second = "SECOND";
    SparseInput in(0);
    int64_t dataStart, next;
    if (f == "tar") {
        first = Bytes(512, '\0'); first.replace(0, 3, "big"); first.replace(100, 7, "0000644"); first.replace(108, 7, "0000000"); first.replace(116, 7, "0000000");
        char t[20]; snprintf(t, sizeof t, "%011llo", (long long)size); first.replace(124, 11, t); first.replace(136, 11, "00000000001"); first[156] = '0'; first.replace(257, 6, Bytes("ustar\0", 6)); first.replace(148, 7, "0000000");
        dataStart = 512; next = dataStart + (size + 511) / 512 * 512;
        Bytes h = first; h.replace(0, 3, "two"); h.replace(124, 11, "00000000006"); h += second; h.resize(1024, '\0');
        in.parts[0] = first; in.parts[next] = h;
        in.parts[next + 2047] = Bytes(1, '\0');
    } else if (f == "cpio") {
        char t[200]; snprintf(t, sizeof t, "070701%08x%08x%08x%08x%08x%08x%08llx%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1, (long long)size, 0, 0, 0, 0, 4, 0);
        first = t; first += Bytes("big\0", 4); while (first.size() % 4) first += '\0';
        dataStart = first.size(); next = dataStart + (size + 3) / 4 * 4;
        snprintf(t, sizeof t, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1, 6, 0, 0, 0, 0, 4, 0);
        Bytes h = t; h += Bytes("two\0", 4); while (h.size() % 4) h += '\0'; h += second; while (h.size() % 4) h += '\0';
        snprintf(t, sizeof t, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 11, 0);
        h += t; h += Bytes("TRAILER!!!\0", 11); while (h.size() % 4) h += '\0';
        in.parts[0] = first; in.parts[next] = h;
    } else if (f == "zip") {
        auto le = [](Bytes& b, uint32_t v, int n) { for (int i = 0; i < n; ++i) b += (char)(v >> 8 * i); };
        auto local = [&](const Bytes& name, uint32_t sz) { Bytes h("PK\3\4", 4); le(h, 10, 2); le(h, 0, 4); le(h, 0x3c211234, 4); le(h, 1, 4); le(h, sz, 4); le(h, sz, 4); le(h, name.size(), 2); le(h, 0, 2); return h + name; };
        first = local("big", (uint32_t)size);
        dataStart = first.size(); next = dataStart + size;
        Bytes h = local("two", 6) + second;
        h += Bytes("PK\1\2", 4); h.resize(h.size() + 90, '\1');
        in.parts[0] = first; in.parts[next] = h;
    } else {
        char t[80]; snprintf(t, sizeof t, "%-16s%-12d%-6d%-6d%-8s%-10lld`\n", "big/", 1, 0, 0, "100644", (long long)size);
        first = Bytes("!<arch>\n") + t;
        dataStart = first.size(); next = dataStart + size + size % 2;
        snprintf(t, sizeof t, "%-16s%-12d%-6d%-6d%-8s%-10d`\n", "two/", 1, 0, 0, "100644", 6);
        in.parts[0] = first; in.parts[next] = Bytes(t) + second;
    }
    int64_t total = 0;
    for (auto& p : in.parts) { int64_t e = p.first + (int64_t)p.second.size(); if (e > total) total = e; }
    int64_t probe = size - 1 - (int64_t)c.rng.below(100);
    in.parts[dataStart + probe] = "!";
    SparseInput src(total);
    src.parts = in.parts;
    c.note = fmt("%s with a member of %lld bytes", f.c_str(), (long long)size);
    SubStreamProvider* p = makeProvider(f, &src);
    struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
    InputStream* s = p->nextEntry();
    REQ(c, s, "huge:first", "no first entry: status %s '%s'", statusName(p->status()), p->error());
    REQ(c, p->entryInfo().size == size, "huge:size", "size %lld, expected %lld", (long long)p->entryInfo().size, (long long)size);
    if (c.rng.chance(1, 2)) {
        int64_t k = s->skip(probe);
        REQ(c, k == probe, "huge:skip", "skip(%lld) gives %lld", (long long)probe, (long long)k);
        const char* q;
        int32_t n = s->read(q, 1, 1);
        REQ(c, n == 1 && *q == '!', "huge:content", "wrong byte at %lld", (long long)probe);
        k = s->skip(size);
        REQ(c, (k == size - probe - 1 || (k <= 0 && probe == size - 1)) && s->position() == size, "huge:end", "skipped %lld of %lld to the end", (long long)k, (long long)(size - probe - 1));
    }
    s = p->nextEntry();
    REQ(c, s && p->entryInfo().filename == "two" && p->entryInfo().size == 6, "huge:second", "second entry: %s '%s', status %s '%s'", s ? "" : "none", p->entryInfo().filename.c_str(), statusName(p->status()), p->error());
    const char* q;
    int32_t n = s->read(q, 6, 6);
    REQ(c, n == 6 && memcmp(q, "SECOND", 6) == 0, "huge:second-content", "wrong content of the second member");
    s = p->nextEntry();
    REQ(c, !s && p->status() == Eof, "huge:end", "status %s '%s' at the end", statusName(p->status()), p->error());
    REQ(c, src.calls < 1000, "huge:work", "%lld calls on the input", (long long)src.calls);
    c.count("members_over_1GB");
    c.distinct(mix(size, probe));
    c.sample(c.note);
}
#include <zlib.h>
// compressed members beyond 2 and 4 GB
static void hugeDeflated(Case& c) {
    static const int64_t sizes[] = { 0x7fffffffLL, 0x80000000LL, 0xfffffffeLL, 0xc0000123LL, 0x80001000LL, 0xffff0000LL };
    int64_t size = sizes[c.idx % 6];
    bool descriptor = c.rng.chance(1, 2);
    // blocks of zeros that can be repeated
    const int64_t block = 1 << 24;
    Bytes zeros(block, '\0'), all, one;
    {
        z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
        Bytes out(block / 8, '\0');
        z.next_in = (Bytef*)&zeros[0]; z.avail_in = block; z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
        deflate(&z, Z_FULL_FLUSH); one = out.substr(0, out.size() - z.avail_out);
        for (int64_t i = 0; i < (size - 1) / block; ++i) all += one;
        Bytes tail((size - 1) % block, '\0'); tail += '!';
        z.next_in = (Bytef*)&tail[0]; z.avail_in = tail.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
        deflate(&z, Z_FINISH); all += out.substr(0, out.size() - z.avail_out);
        deflateEnd(&z);
    }
    auto le = [](Bytes& b, uint32_t v, int n) { for (int i = 0; i < n; ++i) b += (char)(v >> 8 * i); };
    auto local = [&](const Bytes& name, uint32_t method, uint32_t csize, uint32_t usize, bool d) { Bytes h("PK\3\4", 4); le(h, 20, 2); le(h, d ? 8 : 0, 2); le(h, method, 2); le(h, 0x3c211234, 4); le(h, d ? 0 : 1, 4); le(h, d ? 0 : csize, 4); le(h, d ? 0 : usize, 4); le(h, name.size(), 2); le(h, 0, 2); return h + name; };
    Bytes b = local("big", 8, (uint32_t)all.size(), (uint32_t)size, descriptor) + all;
    if (descriptor) { b += Bytes("PK\7\10", 4); le(b, 1, 4); le(b, all.size(), 4); le(b, size, 4); }
    b += local("two", 0, 6, 6, false) + "SECOND" + Bytes("PK\1\2", 4); b.resize(b.size() + 90, '\1');
    InputPolicy pol; pol.chunk = 1; pol.n = 65536;
    HostileInput in(c, b, pol);
    c.note = fmt("zip with a compressed member of %lld bytes%s", (long long)size, descriptor ? ", descriptor" : "");
    SubStreamProvider* p = makeProvider("zip", &in);
    struct D { SubStreamProvider* p; ~D() { delete p; } } d = { p };
    InputStream* s = p->nextEntry();
    REQ(c, s, "huge-deflated:first", "no first entry: status %s '%s'", statusName(p->status()), p->error());
    REQ(c, p->entryInfo().size == (descriptor ? -1 : size), "huge-deflated:size", "size %lld, expected %lld", (long long)p->entryInfo().size, (long long)size);
    if (c.rng.chance(2, 3)) {
        int64_t k = s->skip(size - 1);
        REQ(c, k == size - 1, "huge-deflated:skip", "skip(%lld) gives %lld", (long long)size - 1, (long long)k);
        const char* q;
        int32_t n = s->read(q, 1, 1);
        REQ(c, n == 1 && *q == '!' && s->position() == size, "huge-deflated:content", "wrong last byte");
        n = s->read(q, 1, 0);
        REQ(c, n == -1 && s->status() == Eof && s->size() == size, "huge-deflated:end", "read gives %d, status %s, size %lld", n, statusName(s->status()), (long long)s->size());
    }
    s = p->nextEntry();
    REQ(c, s && p->entryInfo().filename == "two" && p->entryInfo().size == 6, "huge-deflated:second", "second entry: %s '%s', status %s '%s'", s ? "" : "none", p->entryInfo().filename.c_str(), statusName(p->status()), p->error());
    const char* q;
    int32_t n = s->read(q, 6, 6);
    REQ(c, n == 6 && memcmp(q, "SECOND", 6) == 0, "huge-deflated:second-content", "wrong content of the second member");
    s = p->nextEntry();
    REQ(c, !s && p->status() == Eof, "huge-deflated:end", "status %s '%s' at the end", statusName(p->status()), p->error());
    c.count("compressed_members_over_1GB");
    c.distinct(mix(size, descriptor)); c.sample(c.note);
}
void registerSuites() {
    g_rule = "archives are written by the harness's own writer; every name, type, size, time and byte of every member is compared while the caller's way of consuming entries and the input's chunking vary";
    addSuite("archives", ARCHN, ARCHN * 50, one);
    std::string f = ARCHFMT;
    addSuite("large", ARCHN / 100, ARCHN / 2, large);
    if (f == "tar" || f == "cpio" || f == "ar" || f == "zip") { addSuite("huge", 200, 2000, huge); need("members_over_1GB", 100); }
    if (f == "zip") { addSuite("hugedeflated", 8, 60, hugeDeflated, 200); need("compressed_members_over_1GB", 8); }
    static const char* features[][2] = { { "tar", "long_names" }, { "tar", "prefixed_names" }, { "tar", "old_archives" }, { "ar", "table_names" }, { "ar", "symbol_tables" }, { "zip", "descriptors" }, { "zip", "stored" },
        { "rpm", "gzip_payloads" }, { "rpm", "bzip2_payloads" }, { "mail", "nested_multiparts" }, { "mail", "single_parts" }, { "ole", "xbat_blocks" }, { "ole", "small_streams" }, { "ole", "big_streams" } };
    for (auto& x : features) if (f == x[0]) need(x[1], 10);
    need("archives", ARCHN / 2); need("entries", ARCHN);
    if (f != "sdf" && f != "ole") need("empty_entries", 10);
}
