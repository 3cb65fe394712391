#include "wild.h"
#include "base64inputstream.h"
#include <strigi/encodinginputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <dirent.h>
#include <algorithm>
#include <unistd.h>
using namespace Strigi;
const char* const g_encodings[] = { "UTF-8", "ISO-8859-1", "WINDOWS-1252", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32", "KOI8-R", "SHIFT_JIS", "EUC-JP", "GB18030", "GBK", "BIG5", "EUC-KR", "ISO-2022-JP", "ISO-2022-KR", "UTF-7", "BIG5-HKSCS", "CP1258", "TCVN", "CP037", "no-such-encoding", "" };
const int g_nencodings = sizeof g_encodings / sizeof *g_encodings;

const std::vector<Bytes>& corpus() {
    static std::vector<Bytes> v;
    if (!v.empty()) return v;
    std::vector<std::string> names;
    if (DIR* d = opendir(g_dataDir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name); closedir(d); }
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        FILE* f = fopen((g_dataDir + "/" + n).c_str(), "rb");
        if (!f) continue;
        Bytes b; char t[65536]; size_t k;
        while ((k = fread(t, 1, sizeof t, f)) > 0) b.append(t, k);
        fclose(f);
        v.push_back(b);
    }
    if (v.empty()) v.push_back("no corpus");
    return v;
}
static void putLE(Bytes& b, int64_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) if (at + i >= 0 && at + i < (int64_t)b.size()) b[at + i] = (char)(v >> (8 * i)); }
static void putBE(Bytes& b, int64_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) if (at + i >= 0 && at + i < (int64_t)b.size()) b[at + i] = (char)(v >> (8 * (n - 1 - i))); }
static void putStr(Bytes& b, int64_t at, const Bytes& s, size_t n) { for (size_t i = 0; i < n && i < s.size(); ++i) if (at + (int64_t)i >= 0 && at + (int64_t)i < (int64_t)b.size()) b[at + i] = s[i]; }
static uint64_t extreme(Rng& r, uint64_t size) {
    static const uint64_t v[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 29, 30, 31, 60, 63, 64, 100, 108, 109, 110, 111, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 0xfffff, 0x100000, 0x100001,
        0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL };
    switch (r.below(4)) {
    case 0: return size + r.range(-40, 40);
    case 1: return size / 512 + r.range(-3, 3);
    case 2: return v[r.below(sizeof v / sizeof *v)] + r.range(-1, 1);
    default: return v[r.below(sizeof v / sizeof *v)];
    }
}
static Bytes number(Rng& r, int base, int width, uint64_t size) {
    char t[64];
    uint64_t v = extreme(r, size);
    switch (r.below(8)) {
    case 0: return Bytes(width, '7' + (base == 16 ? 'f' - '7' : base == 10 ? 2 : 0));
    case 1: return Bytes(width, ' ');
    case 2: return Bytes(width, '\0');
    case 3: snprintf(t, sizeof t, "-%0*llo", width - 1, (unsigned long long)r.below(4000)); break;
    case 4: { Bytes b(width, (char)(r.chance(1, 2) ? 0x80 : 0xff)); for (int i = 1; i < width && i < 9; ++i) b[width - i] = (char)(v >> (8 * (i - 1))); return b; }
    default: snprintf(t, sizeof t, base == 8 ? "%0*llo" : base == 16 ? "%0*llx" : "%-*llu", width, (unsigned long long)v);
    }
    Bytes s = t;
    if ((int)s.size() > width) s = s.substr(s.size() - width);
    return s;
}
static const char* const tokens[] = { "$$$$", "$$$$\n", "\r\n$$$$\r\n", "\n", "\r\n", "\r\n\r\n", "--", "--b", "boundary=", "boundary=\"", "Content-Type: multipart/mixed; boundary=b\r\n", "Content-Transfer-Encoding: base64\r\n", "Content-Disposition: attachment; filename=\"",
    "filename=\"\\", "filename*=", "Subject:", "From: ", "To:", " ", "\t", ";", "\"", "\\", "=", "==", "=?utf-8?B?", "PK\3\4", "PK\1\2", "PK\7\10", "070701", "070702", "TRAILER!!!", "!<arch>\n", "`\n", "//", "/", "/0", "/99999999", "././@LongLink", "ustar",
    "\xed\xab\xee\xdb", "\x8e\xad\xe8\x01", "\x1f\x8b\x08", "BZh9", "BZh91AY&SY", "\x5d\0\0\x80\0", "\xd0\xcf\x11\xe0", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "M  END\n", "#1/20", "../", "./" };
Bytes mutate(Rng& r, const Bytes& in, const std::string& kind, const std::vector<int64_t>& heads, std::string& note) {
    Bytes b = in;
    int n = r.chance(1, 3) ? 1 : 1 + (int)r.below(8);
    auto at = [&]() -> int64_t {
        if (b.empty()) return 0;
        if (!heads.empty() && r.chance(2, 3)) return heads[r.below(heads.size())] + r.range(-8, 140);
        if (r.chance(1, 3)) return r.below(b.size() < 600 ? b.size() : 600);
        return r.below(b.size());
    };
    for (int i = 0; i < n; ++i) {
        int64_t size = b.size();
        if (!heads.empty() && r.chance(1, 2)) {   // a field of a header
            int64_t h = heads[r.below(heads.size())];
            if (kind == "tar") {
                static const int f[][2] = { { 100, 8 }, { 124, 12 }, { 136, 12 }, { 148, 8 }, { 156, 1 }, { 257, 6 }, { 345, 155 }, { 0, 100 } };
                int k = (int)r.below(8);
                if (k == 4) putStr(b, h + 156, Bytes(1, "LKxgV0125\0S7"[r.below(12)]), 1);
                else if (k == 5) putStr(b, h + 257, r.chance(1, 2) ? Bytes("ustar\0", 6) : Bytes("ustar  ", 7), 7);
                else if (k >= 6) putStr(b, h + f[k][0], r.chance(1, 3) ? Bytes(f[k][1], '/') : r.chance(1, 2) ? Bytes(f[k][1], 'n') : Bytes("./././", r.below(7)), f[k][1]);
                else putStr(b, h + f[k][0], number(r, 8, f[k][1], size), f[k][1]);
                note += fmt(" tar@%lld.%d", (long long)h, f[k][0]);
            } else if (kind == "cpio") {
                int k = (int)r.below(13);
                if (r.chance(1, 3)) k = r.chance(1, 2) ? 6 : 11;
                putStr(b, h + 6 + 8 * k, number(r, 16, 8, size), 8);
                note += fmt(" cpio@%lld.%d", (long long)h, k);
            } else if (kind == "ar") {
                static const int f[][2] = { { 0, 16 }, { 16, 12 }, { 28, 6 }, { 34, 6 }, { 40, 8 }, { 48, 10 }, { 58, 2 } };
                int k = (int)r.below(7);
                static const char* nm[] = { "/               ", "//              ", "/0              ", "/9999999        ", "/-1             ", "/SYM64/         ", "#1/20           ", "#1/4294967295   ", "                ", "aaaaaaaaaaaaaaaa" };
                if (k == 0) putStr(b, h, nm[r.below(10)], 16);
                else putStr(b, h + f[k][0], number(r, 10, f[k][1], size), f[k][1]);
                note += fmt(" ar@%lld.%d", (long long)h, f[k][0]);
            } else if (kind == "zip") {
                static const int f[][2] = { { 0, 4 }, { 4, 2 }, { 6, 2 }, { 8, 2 }, { 10, 4 }, { 14, 4 }, { 18, 4 }, { 22, 4 }, { 26, 2 }, { 28, 2 } };
                int k = (int)r.below(10);
                putLE(b, h + f[k][0], k == 3 ? (r.chance(1, 2) ? 8 : 0) : extreme(r, size), f[k][1]);
                note += fmt(" zip@%lld.%d", (long long)h, f[k][0]);
            } else if (kind == "rpm" || kind == "ole") {
                int64_t p = h + 4 * r.below(32);
                if (kind == "rpm") putBE(b, p, extreme(r, size), 4); else putLE(b, p, extreme(r, size), 4);
                note += fmt(" %s@%lld", kind.c_str(), (long long)p);
            } else {
                Bytes t = tokens[r.below(sizeof tokens / sizeof *tokens)];
                int64_t p = h + r.range(-2, 60); if (p < 0) p = 0; if (p > size) p = size;
                b.insert(p, t);
                note += fmt(" token@%lld", (long long)p);
            }
            continue;
        }
        int op = (int)r.below(16);
        int64_t p = at();
        if (p < 0) p = 0;
        if (p > size) p = size;
        int64_t len = r.len(size - p < 4000 ? size - p : 4000);
        note += fmt(" op%d@%lld", op, (long long)p);
        if (op == 5 || op == 6) note += fmt("+%lld", (long long)len);
        switch (op) {
        case 0: if (p < size) b[p] ^= (char)(1 << r.below(8)); break;
        case 1: if (p < size) b[p] = (char)r.next(); break;
        case 2: if (p < size) b[p] = (char)(r.chance(1, 2) ? 0 : 0xff); break;
        case 3: putLE(b, r.chance(1, 2) ? p & ~3 : p, extreme(r, size), 1 << r.below(4)); break;
        case 4: putBE(b, r.chance(1, 2) ? p & ~3 : p, extreme(r, size), 1 << r.below(4)); break;
        case 5: b.erase(p, len); break;
        case 6: b.insert(p, b.substr(p, len)); break;
        case 7: b.resize(p); break;
        case 8: { Bytes x = randomContent(r, 600); b.insert(p, x); break; }
        case 9: b.insert(p, tokens[r.below(sizeof tokens / sizeof *tokens)]); break;
        case 10: { Bytes t = tokens[r.below(sizeof tokens / sizeof *tokens)]; putStr(b, p, t, t.size()); break; }
        case 11: { int64_t q = at(); if (q < 0) q = 0; if (q < size) { Bytes x = b.substr(q, len); putStr(b, p, x, x.size()); } break; }   // copy over
        case 12: for (int64_t k = 0; k < len; ++k) b[p + k] = (char)(op == 12 ? 0 : 0xff); break;
        case 13: { Bytes x(1 + r.below(2000), (char)(r.chance(1, 3) ? '\n' : r.chance(1, 2) ? 'a' : r.next())); b.insert(p, x); break; }
        case 14: { const Bytes& o = corpus()[r.below(corpus().size())]; int64_t q = r.below(o.size() + 1); Bytes x = o.substr(q, r.len(3000)); if (r.chance(1, 2)) b.insert(p, x); else putStr(b, p, x, x.size()); break; }
        case 15: for (int k = 0; k < 12 && size; ++k) b[r.below(size)] = (char)r.next(); break;
        }
    }
    return b;
}
static Bytes noise(Rng& r, int64_t maxSize) {
    // bytes that look a little like something
    Bytes b = randomContent(r, maxSize);
    static const char* magics[] = { "PK\3\4", "070701", "!<arch>\n", "\xed\xab\xee\xdb", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", "\x1f\x8b\x08", "BZh9", "BZh91AY&SY", "From: ", "Received: ", "Return-Path: ", "Content-Type: multipart/mixed; boundary=b\n\n--b\n" };
    if (r.chance(1, 2)) { Bytes m = magics[r.below(12)]; putStr(b, 0, m, m.size()); if (b.size() < m.size()) b = m; }
    if (r.chance(1, 6)) { b.insert(0, Bytes("\x5d\0\0", 3)); }
    return b;
}
Wild wildArchive(Rng& r, const std::string& f, int64_t maxSize) {
    Wild w; w.kind = f; w.archive = true;
    std::string from = f;
    int how = (int)r.below(16);
    if (how == 0) { w.data = noise(r, maxSize); w.note = "noise"; }
    else if (how == 1) { // a file of another kind
        from = g_formats[r.below(g_nformats)];
        GenOpts o; o.maxMembers = 4; o.maxSize = maxSize / 4 + 1;
        w.data = genArchive(r, from, o).bytes; w.note = "a " + from;
    } else if (how == 2) {
        const Bytes& b = corpus()[r.below(corpus().size())];
        w.data = mutate(r, b, f, std::vector<int64_t>(1, 0), w.note);
        w.note = "corpus" + w.note;
    } else {
        GenOpts o; o.maxMembers = r.chance(1, 4) ? 12 : 4; o.maxSize = r.chance(1, 4) ? maxSize : maxSize / 8 + 1;
        if (r.chance(1, 6)) { GenOpts i; i.maxMembers = 2; i.maxSize = 300; o.contents.push_back(genArchive(r, g_formats[r.below(7)], i).bytes); o.contentNames.push_back("z"); }
        Archive a = genArchive(r, f, o);
        std::vector<int64_t> heads;
        for (auto& m : a.members) if (m.head >= 0) heads.push_back(m.head);
        for (int64_t g : a.gaps) heads.push_back(g);
        if (f == "rpm") { heads.clear(); heads.push_back(96); for (int64_t p = 96; p < a.payload; p += 112) heads.push_back(p); heads.push_back(a.payload); }
        if (f == "ole") { // header, allocation table, directory, and anything else
            heads.clear(); heads.push_back(0x18); heads.push_back(0x2c); heads.push_back(0x4c);
            auto le = [&](int64_t p) { uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (p + i < (int64_t)a.bytes.size() ? (unsigned char)a.bytes[p + i] : 0); return v; };
            for (int64_t p : { 0x4c, 0x50 }) { int64_t s = 512 + 512 * (int64_t)le(p); if (s < (int64_t)a.bytes.size()) { heads.push_back(s); heads.push_back(s + 128); } }
            int64_t dir = 512 + 512 * (int64_t)le(0x30), mb = 512 + 512 * (int64_t)le(0x3c), xb = 512 + 512 * (int64_t)le(0x44);
            for (int64_t s : { dir, mb, xb }) if (s < (int64_t)a.bytes.size()) { heads.push_back(s); heads.push_back(s + 0x40); heads.push_back(s + 128); heads.push_back(s + 128 + 0x70); heads.push_back(s + 256 + 0x40); }
        }
        if (f == "mail" || f == "sdf") for (int i = 0; i < 6; ++i) heads.push_back(r.below(a.bytes.size() + 1));
        if (f == "zip" && heads.empty()) heads.push_back(0);
        w.data = mutate(r, a.bytes, f, heads, w.note);
        w.note = f + w.note;
    }
    if ((int64_t)w.data.size() > 4 * maxSize + 200000) w.data.resize(4 * maxSize + 200000);
    w.make = 0;
    return w;
}
namespace { struct Sink : public DataEventHandler {
    int64_t n; Sink() : n(0) {}
    bool handleData(const char* d, uint32_t k) { uint64_t h = hashBytes(d, k); (void)h; n += k; return true; }
    void handleEnd() {}
}; }
Wild wildComp(Rng& r, const std::string& kind, int64_t maxSize) {
    Wild w; w.kind = kind;
    Bytes content = randomContent(r, maxSize);
    Comp k = makeComp(r, kind, content);
    w.make = k.make;
    std::vector<int64_t> heads;
    if (kind == "gzip" || kind == "lzma" || kind == "bz2" || kind == "zlib") heads.push_back(0);
    if (kind == "lzma" && r.chance(1, 3)) { LzSyms e = lzmaSymbols(r, maxSize, (int)r.below(lzmaBadKinds + 1)); k.input = e.encoded; w.note = "symbols " + e.note; if (r.chance(1, 2)) { w.data = k.input; return w; } }
    if (kind == "lzma" && r.chance(1, 3)) { // header fields
        Bytes b = k.input;
        switch (r.below(4)) {
        case 0: if (!b.empty()) b[0] = (char)r.next(); break;
        case 1: putLE(b, 1, extreme(r, b.size()), 4); break;
        case 2: putLE(b, 5, extreme(r, b.size()), 8); break;
        default: putLE(b, 5, r.below(2 * content.size() + 10), 8);
        }
        k.input = b; w.note = "header field";
    }
    if (kind == "encoding") {
        std::string e = g_encodings[r.below(g_nencodings)];
        w.make = [e](Stages& s, InputStream* in) { s.s.push_back(new EncodingInputStream(in, e.c_str())); };
        w.note = e;
    }
    if (kind == "events") w.make = [](Stages& s, InputStream* in) { std::shared_ptr<Sink> q(new Sink); s.keep.push_back(q); s.s.push_back(new DataEventInputStream(in, *q)); };
    if (kind == "sub") { int64_t n = r.chance(1, 2) ? (int64_t)r.below(2 * k.input.size() + 3) : (int64_t)(extreme(r, k.input.size()) & 0x7fffffffffffffffULL); w.make = [n](Stages& s, InputStream* in) { s.s.push_back(new SubInputStream(in, n)); }; w.note = fmt("window %lld", (long long)n); }
    switch (r.below(8)) {
    case 0: w.data = noise(r, maxSize); w.note += " noise"; break;
    case 1: w.data = mutate(r, corpus()[r.below(corpus().size())], kind, heads, w.note); break;
    case 2: w.data = k.input.substr(0, r.below(k.input.size() + 1)); w.note += " cut"; break;
    default: w.data = mutate(r, k.input, kind, std::vector<int64_t>(), w.note);
    }
    return w;
}
// ---- a zip file that contains itself: a deflate stream of literals and repeats, each operation
// five bytes long, that prints itself (Russ Cox, "Zip files all the way down")
static Bytes lit(int n, bool final = false) { Bytes b(5, '\0'); b[0] = final; putLE(b, 1, n, 2); putLE(b, 3, 0xffff ^ n, 2); return b; }
static Bytes rep(int n) {
    std::vector<int> o;
    auto put = [&](int v, int k) { for (int i = 0; i < k; ++i) o.push_back(v >> i & 1); };
    auto huff = [&](int v, int k) { for (int i = k - 1; i >= 0; --i) o.push_back(v >> i & 1); };
    auto match = [&](int lc, int lb, int lv, int dc, int db, int dv) { if (lc <= 279) huff(lc - 256, 7); else huff(0xC0 + lc - 280, 8); put(lv, lb); huff(dc, 5); put(dv, db); };
    put(0, 1); put(1, 2);
    if (n == 20) { match(264, 0, 0, 8, 3, 3); match(264, 0, 0, 8, 3, 3); }
    else { match(285, 0, 0, 16, 7, 1); huff(0, 7); put(0, 1); put(1, 2); }
    huff(0, 7);
    if (o.size() != 40) abort();
    Bytes b(5, '\0');
    for (int i = 0; i < 40; ++i) b[i / 8] |= (char)(o[i] << (i % 8));
    return b;
}
Bytes zipQuine() {
    Bytes name = Bytes(219, 'r') + ".zip", S = lit(0, true) + Bytes("PK\1\2\0\0\0\0\0\0", 10);
    auto prog = [&](const Bytes& P) {
        Bytes R4 = rep(20), Lp = lit(258), Rp = rep(258), Ls = lit(20), Rs = rep(20), L0 = lit(0), L1 = lit(5), L4 = lit(20);
        Bytes z;
        for (const Bytes& t : { P, Lp, P, Lp, Rp, L1, Rp, L1, L1, L4, Rp, L1, L1, L4, R4, L4, R4, L4, R4, L4, R4, L4, R4, L0, L0, Ls, R4, L0, L0, Ls, Rs, S, Rs, S }) z += t;
        return z;
    };
    Bytes P(253, '\0');
    int64_t T = prog(P).size();
    P = Bytes("PK\3\4\x14\0\0\0\x08\0\0\0\x21\0", 14) + Bytes(16, '\0');
    putLE(P, 18, T - 253 - 10, 4); putLE(P, 22, T, 4); putLE(P, 26, name.size(), 2);
    return prog(P + name);
}
static Bytes plainTarHeader(const Bytes& name, char type, int64_t size) {
    Bytes h(512, '\0');
    putStr(h, 0, name, 100); putStr(h, 100, "0000644", 7); putStr(h, 108, "0000000", 7); putStr(h, 116, "0000000", 7);
    char t[16]; snprintf(t, sizeof t, "%011llo", (long long)size); putStr(h, 124, t, 11); putStr(h, 136, "00000000001", 11);
    putStr(h, 148, "        ", 8); h[156] = type; putStr(h, 257, "ustar  ", 7);
    unsigned s = 0; for (unsigned char c : h) s += c;
    snprintf(t, sizeof t, "%06o", s); putStr(h, 148, t, 6); h[154] = 0;
    return h;
}
Bytes slashTar(int64_t n) {
    Bytes name;
    for (int64_t i = 0; i < n; ++i) name += i % 3 ? "/" : "a/";
    name += "x";
    Bytes b = plainTarHeader("././@LongLink", 'L', name.size() + 1) + name + Bytes(1, '\0');
    b.resize((b.size() + 511) / 512 * 512, '\0');
    b += plainTarHeader(name.substr(0, 100), '0', 3) + "xyz";
    b.resize((b.size() + 511) / 512 * 512 + 1024, '\0');
    return b;
}
// ---- callers
void wildRead(Case& c, InputStream* s, Rng& r, Effort& e, const std::string& name) {
    int ops = r.chance(1, 3) ? 1000000 : 1 + (int)r.below(30);
    int style = (int)r.below(4);
    const bool k = e.contract;
    const char* seg = 0; int64_t segStart = 0, segLen = 0; uint64_t segDig = 0;
    int endOps = 0;
    std::string seen; // what was delivered from the start on
    bool seenAll = true;
    std::string err;
    bool ran = false;   // a skip found fewer than asked for
    if (s->status() == Error && s->error()) err = s->error();
    for (int i = 0; i < ops && !e.spent(); ++i) {
        ++e.ops;
        int w = (int)r.below(20);
        if (style == 0 || i > 60) w = 0;
        StreamStatus st = s->status();
        int64_t at = s->position(), size = s->size();
        if (st != Ok && ++endOps > 6) break;
        if (w < 10) {
            const char* p = 0;
            int32_t min = 1 + (r.chance(1, 2) ? 0 : (int32_t)r.len(r.chance(1, 10) ? 200000 : 3000)), max = r.chance(1, 2) ? 0 : r.chance(1, 2) ? min : min + (int32_t)r.len(9000);
            if (r.chance(1, 60)) { min = 0x7fffffff - (int32_t)r.below(3); max = 0; }
            int32_t n = s->read(p, min, max);
            seg = 0; segLen = 0;
            if (n > 0) {
                uint64_t h = hashBytes(p, n);   // touches every byte
                e.dig = mix(e.dig, h);
                e.bytes += n;
                seg = p; segLen = n; segStart = s->position() - n; segDig = h;
            }
            e.dig = mix(e.dig, (uint64_t)n * 31 + s->status());
            if (k) {
                std::string q = fmt("read(%d,%d)=%d at %lld (size %lld, %s), now %lld (size %lld, %s)", min, max, n, (long long)at, (long long)size, statusName(st), (long long)s->position(), (long long)s->size(), statusName(s->status()));
                c.count("reads");
                if (st == Error) REQ(c, n == -2 && s->status() == Error, name + ":error-not-sticky", "%s", q.c_str());
                else if (st == Eof) REQ(c, n == -1 || (n == -2 && s->status() == Error), name + ":read-at-end", "%s", q.c_str());
                else if (n > 0) {
                    REQ(c, !ran, name + ":skip-less", "%s after a skip that moved less than it was asked to", q.c_str());
                    REQ(c, p, name + ":null", "%s", q.c_str());
                    REQ(c, max < min || n <= max, name + ":above-max", "%s", q.c_str());
                    REQ(c, s->position() == at + n, name + ":position", "%s", q.c_str());
                    REQ(c, n >= min || s->status() != Ok, name + ":below-min", "%s", q.c_str());
                    REQ(c, size < 0 || at + n <= size, name + ":beyond-size", "%s", q.c_str());
                    // what comes again is the same
                    if (at <= (int64_t)seen.size() && seenAll) {
                        int64_t o = (int64_t)seen.size() - at; if (o > n) o = n;
                        REQ(c, memcmp(seen.data() + at, p, o) == 0, name + ":not-again", "%s: %lld bytes that were delivered before differ now", q.c_str(), (long long)o);
                        if (o) c.count("bytes_seen_again", o);
                        if (o < n && seen.size() < 400000) seen.append(p + o, n - o); else if (o < n) seenAll = false;
                    }
                } else if (n == -1) REQ(c, s->status() == Eof, name + ":end-status", "%s", q.c_str());
                else { REQ(c, n == -2, name + ":bad-return", "%s", q.c_str()); REQ(c, s->status() == Error, name + ":error-status", "%s", q.c_str()); }
            }
        } else if (w < 13) {
            int64_t n = r.chance(1, 8) ? (int64_t)(extreme(r, 1000) & 0x7fffffffffffffffULL) : r.len(5000);
            int64_t m = s->skip(n);
            if (m > 0) e.bytes += m < 100000 ? m : 100000;
            e.dig = mix(e.dig, (uint64_t)m * 37 + s->status());
            seg = 0; segLen = 0;
            if (k) {
                std::string q = fmt("skip(%lld)=%lld at %lld (size %lld, %s), now %lld (size %lld, %s)", (long long)n, (long long)m, (long long)at, (long long)size, statusName(st), (long long)s->position(), (long long)s->size(), statusName(s->status()));
                c.count("skips");
                if (st == Error) REQ(c, m <= 0 && s->status() == Error, name + ":error-not-sticky", "%s", q.c_str());
                else {
                    REQ(c, m <= n, name + ":skip-more", "%s", q.c_str());
                    if (m > 0 && s->status() != Error) REQ(c, s->position() == at + m, name + ":skip-position", "%s", q.c_str());
                    if (m < n && s->status() == Ok) ran = true;   // then nothing may follow
                }
            }
        } else if (w < 17 && seg) {
            int64_t p = r.range(segStart, segStart + segLen);
            int64_t m = s->reset(p);
            ran = false;
            if (s->status() != Error) e.dig = mix(e.dig, hashBytes(seg, segLen));   // still valid
            if (k && st != Error && s->status() != Error) {
                std::string q = fmt("reset(%lld)=%lld in the segment [%lld,%lld] from %lld", (long long)p, (long long)m, (long long)segStart, (long long)(segStart + segLen), (long long)at);
                c.count("resets_in_segment");
                REQ(c, m == p && s->position() == p, name + ":reset-in-segment", "%s, now %lld", q.c_str(), (long long)s->position());
                REQ(c, hashBytes(seg, segLen) == segDig, name + ":segment-changed", "%s: the bytes of the segment changed", q.c_str());
            }
        } else {
            int64_t p = r.chance(1, 3) ? 0 : r.chance(1, 4) ? (int64_t)(extreme(r, 1000) & 0x7fffffffffffffffULL) : (int64_t)r.below(s->position() > 0 ? s->position() + 100 : 100);
            int64_t m = s->reset(p);
            ran = false;
            e.dig = mix(e.dig, (uint64_t)m * 41 + s->status());
            if (!(seg && p >= segStart && p <= segStart + segLen)) { seg = 0; segLen = 0; }
            if (k) {
                std::string q = fmt("reset(%lld)=%lld at %lld (size %lld, %s), now %lld (size %lld, %s)", (long long)p, (long long)m, (long long)at, (long long)size, statusName(st), (long long)s->position(), (long long)s->size(), statusName(s->status()));
                c.count("resets");
                if (st == Error) REQ(c, s->status() == Error, name + ":error-not-sticky", "%s", q.c_str());
                else if (s->status() != Error) {
                    REQ(c, m == s->position(), name + ":reset-return", "%s", q.c_str());
                    REQ(c, m >= 0, name + ":reset-range", "%s", q.c_str());
                }
            }
        }
        if (k) {
            StreamStatus now = s->status();
            REQ(c, now == Ok || now == Eof || now == Error, name + ":status", "status is %d", (int)now);
            if (now == Eof) REQ(c, s->size() == s->position(), name + ":end-size", "at the end the size is %lld and the position %lld", (long long)s->size(), (long long)s->position());
            if (now == Ok && s->size() >= 0) REQ(c, s->position() <= s->size(), name + ":beyond-size", "position %lld, size %lld", (long long)s->position(), (long long)s->size());
            if (size >= 0 && now != Error && s->size() >= 0) REQ(c, s->size() == size, name + ":size-changed", "the size changed from %lld to %lld", (long long)size, (long long)s->size());
            if (now == Error) {
                REQ(c, s->error() && *s->error(), name + ":no-message", "in error without a message");
                if (st == Error) REQ(c, err == s->error(), name + ":message-changed", "the message changed from '%s' to '%s'", err.c_str(), s->error());
                err = s->error();
                c.count("errors");
            }
            if (now == Eof) c.count("ends");
        }
        e.dig = mix(e.dig, mix((uint64_t)s->position(), (uint64_t)s->size()));
        if (s->status() == Error && s->error()) e.dig = mix(e.dig, hashBytes(s->error(), strlen(s->error())));
    }
}
void wildEnumerate(Case& c, SubStreamProvider* p, Rng& r, Effort& e, const std::string& name, int depth) {
    int mode = (int)r.below(4);
    int64_t stop = r.chance(1, 4) ? (int64_t)r.below(6) : 1 << 30;
    int64_t n = 0;
    e.dig = mix(e.dig, p->status());
    bool ended = false;
    while (n++ < stop && !e.spent()) {
        StreamStatus st = p->status();
        InputStream* s = p->nextEntry();
        if (e.contract) {
            REQ(c, !s || st == Ok, name + ":entry-after-end", "an entry although the status was %s", statusName(st));
            if (!s) REQ(c, p->status() != Ok, name + ":no-entry-ok", "no entry but the status is Ok");
            if (st == Error) REQ(c, p->status() == Error, name + ":provider-error-not-sticky", "status %s after an error", statusName(p->status()));
            if (p->status() == Error) { REQ(c, p->error() && *p->error(), name + ":provider-no-message", "provider in error without a message"); c.count("provider_errors"); }
            if (p->status() == Eof) c.count("provider_ends");
            if (s) { // the first look at an entry
                REQ(c, s->position() == 0, name + ":entry-position", "a new entry is at position %lld", (long long)s->position());
                if (s->status() == Ok && s->size() >= 0 && p->entryInfo().size >= 0) REQ(c, s->size() == p->entryInfo().size, name + ":entry-size", "entry '%s' has size %lld, its stream %lld", p->entryInfo().filename.c_str(), (long long)p->entryInfo().size, (long long)s->size());
                REQ(c, p->currentEntry() == s, name + ":current", "currentEntry() is not the entry");
                int t = p->entryInfo().type;
                REQ(c, t >= 0 && t <= 3, name + ":type", "entry type %d", t);
                c.count("entries");
            }
        }
        if (!s) { ended = true; break; }
        ++e.entries;
        const EntryInfo& i = p->entryInfo();
        e.dig = mix(e.dig, mix(hashStr(i.filename), mix((uint64_t)i.size, (uint64_t)i.mtime * 16 + i.type)));
        std::map<std::string, std::string>::const_iterator it;
        for (it = i.properties.begin(); it != i.properties.end(); ++it) e.dig = mix(e.dig, mix(hashStr(it->first), hashStr(it->second)));
        if (mode == 0) continue;
        if (depth > 0 && r.chance(1, 3)) {
            Rng q(r.next());
            if (q.chance(1, 2)) {
                std::string f = g_formats[q.below(g_nformats)];
                SubStreamProvider* sub = makeProvider(f, s);
                struct D { SubStreamProvider* p; ~D() { delete p; } } d = { sub };
                wildEnumerate(c, sub, q, e, f, depth - 1);
            } else {
                SubStreamProviderProvider spp;
                SubStreamProvider* sub = spp.subStreamProvider(s);
                struct D { SubStreamProvider* p; ~D() { delete p; } } d = { sub };
                if (sub) wildEnumerate(c, sub, q, e, "detected", depth - 1);
                else wildRead(c, s, q, e, name);
            }
        } else if (mode == 1 || r.chance(1, 2)) wildRead(c, s, r, e, name);
    }
    e.dig = mix(e.dig, p->status());
    if (p->status() == Error && p->error()) e.dig = mix(e.dig, hashBytes(p->error(), strlen(p->error())));
    if (ended && r.chance(1, 2)) for (int k = 0; k < 2; ++k) {
        StreamStatus st = p->status();
        InputStream* s = p->nextEntry();
        e.dig = mix(e.dig, s != 0);
        if (e.contract) REQ(c, !s && p->status() == st, name + ":after-last", "after the last entry: %s, status %s (was %s)", s ? "an entry" : "none", statusName(p->status()), statusName(st));
    }
}
namespace { class Counted : public HostileInput { int64_t* live; int64_t* sum; public: Counted(Case& c, const Bytes& d, const InputPolicy& p, int64_t* l, int64_t* s) : HostileInput(c, d, p), live(l), sum(s) { ++*live; } ~Counted() { --*live; *sum += calls; } }; }
InputStream* WildOpener::openStream(const std::string& url) {
    auto it = files.find(url);
    if (it == files.end()) return 0;
    ++opened;
    InputPolicy p = randomPolicy(rng, rng.chance(2, 3));
    HostileInput* h = new Counted(c, it->second, p, &live, &calls);
    h->failAt = failAt; h->quietBudget = quiet; h->budget = budget >= 0 ? budget : 20000 + 40 * (int64_t)it->second.size();
    return h;
}
int WildOpener::stat(const std::string& url, EntryInfo& e) {
    auto it = files.find(url);
    if (it == files.end()) return -1;
    e.filename = url; e.size = it->second.size(); e.mtime = mtime; e.type = EntryInfo::File;
    return 0;
}
static void digInfo(Effort& e, const EntryInfo& i) {
    e.dig = mix(e.dig, mix(hashStr(i.filename), mix((uint64_t)i.size, (uint64_t)i.mtime * 16 + i.type)));
}
void wildReader(Case& c, ArchiveReader& a, const Bytes& url, Rng& r, Effort& e, int depth) {
    if (e.spent()) return;
    int ops = 1 + (int)r.below(4);
    for (int i = 0; i < ops && !e.spent(); ++i) {
        ++e.ops;
        EntryInfo info;
        switch (r.below(5)) {
        case 0: { int rc = a.stat(url, info); e.dig = mix(e.dig, rc); if (rc == 0) digInfo(e, info); break; }
        case 1: { InputStream* s = a.openStream(url); e.dig = mix(e.dig, s != 0); if (s) { struct G { ArchiveReader& a; InputStream* s; ~G() { a.closeStream(s); } } g = { a, s }; wildRead(c, s, r, e, "opened"); } break; }
        case 2: e.dig = mix(e.dig, a.isArchive(url)); e.dig = mix(e.dig, a.canHandle(url)); break;
        default: {
            ArchiveReader::DirLister l = a.dirEntries(url);
            int64_t n = 0, stop = r.chance(1, 3) ? (int64_t)r.below(4) : 1 << 30;
            std::vector<Bytes> kids;
            while (n++ < stop && !e.spent() && l.nextEntry(info)) {
                ++e.entries;
                digInfo(e, info);
                if (kids.size() < 6) kids.push_back(info.filename); else if (r.chance(1, 4)) kids[r.below(6)] = info.filename;
            }
            if (depth > 0) for (auto& k : kids) if (r.chance(1, 2)) wildReader(c, a, url + "/" + k, r, e, depth - 1);
        } }
    }
}
