#include "streams.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <iconv.h>
#include <errno.h>
using namespace Strigi;
static const char* encs[] = { "UTF-8", "ISO-8859-1", "ISO-8859-15", "WINDOWS-1252", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "KOI8-R", "SHIFT_JIS", "EUC-JP", "GB18030", "GBK", "BIG5", "EUC-KR", "ISO-2022-JP", "ISO-2022-KR", "UTF-7", "BIG5-HKSCS", "EUC-JISX0213", "CP1258", "CP1255", "TCVN", "IBM437", "CP037" };
static const int NENC = sizeof encs / sizeof *encs;
// the oracle: the whole text in one conversion with an output buffer that is always large enough
struct Whole { Bytes out; bool available, valid; size_t consumed; };
static Whole convert(const char* from, const char* to, const Bytes& in, size_t growth = 16) {
    Whole w; w.valid = false; w.consumed = 0;
    iconv_t cd = iconv_open(to, from);
    w.available = cd != (iconv_t)-1;
    if (!w.available) return w;
    std::vector<char> buf(in.size() * growth + 64);
    char* ip = const_cast<char*>(in.data()); size_t il = in.size();
    char* op = buf.data(); size_t ol = buf.size();
    size_t r = iconv(cd, &ip, &il, &op, &ol);
    w.consumed = in.size() - il;
    w.valid = r != (size_t)-1;
    if (w.valid) iconv(cd, 0, 0, &op, &ol);
    w.out.assign(buf.data(), op - buf.data());
    iconv_close(cd);
    return w;
}
static Bytes u8(uint32_t u) {
    Bytes b;
    if (u < 0x80) b += (char)u;
    else if (u < 0x800) { b += (char)(0xC0 | u >> 6); b += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { b += (char)(0xE0 | u >> 12); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); }
    else { b += (char)(0xF0 | u >> 18); b += (char)(0x80 | (u >> 12 & 63)); b += (char)(0x80 | (u >> 6 & 63)); b += (char)(0x80 | (u & 63)); }
    return b;
}
// characters that can be written in the encoding
static const std::vector<Bytes>& repertoire(int e) {
    static std::map<int, std::vector<Bytes> > cache;
    std::vector<Bytes>& v = cache[e];
    if (!v.empty()) return v;
    Rng r(77 + e);
    static const uint32_t base[] = { 0x20, 0xA0, 0x100, 0x300, 0x370, 0x400, 0x590, 0x1E00, 0x2000, 0x3040, 0x4E00, 0x5000, 0x9000, 0xAC00, 0xFF00, 0x20000 };
    iconv_t cd = iconv_open(encs[e], "UTF-8");
    for (int i = 0; i < 6000 && cd != (iconv_t)-1; ++i) {
        uint32_t u = i < 224 ? 0x20 + i : base[r.below(16)] + r.below(r.chance(1, 2) ? 0x60 : 0x400);
        if (u == 0x7F) continue;
        Bytes s = u8(u);
        char out[64]; char* ip = &s[0]; size_t il = s.size(); char* op = out; size_t ol = sizeof out;
        iconv(cd, 0, 0, 0, 0);
        if (iconv(cd, &ip, &il, &op, &ol) == 0) v.push_back(s);
    }
    if (cd != (iconv_t)-1) iconv_close(cd);
    v.push_back("\n");
    return v;
}
static Bytes text(Rng& r, int e) {
    const std::vector<Bytes>& rep = repertoire(e);
    int64_t n = r.len(r.chance(1, 6) ? 30000 : 900);
    Bytes s;
    bool ascii = r.chance(1, 6);
    for (int64_t i = 0; i < n; ++i) s += ascii ? Bytes(1, (char)(0x20 + r.below(0x5F))) : r.pick(rep);
    return s;
}
template <class T, class S> static void monitor(Case& c, S& s, const Bytes& raw, const char* name, bool valid, Rng& r) {
    std::basic_string<T> ref((const T*)raw.data(), raw.size() / sizeof(T));
    MonOpts o; o.end = valid ? MonOpts::ExactEof : MonOpts::MustError; o.maxMin = 40000;
    Mon<T> m(c, &s, ref, name, o);
    m.run(r, 4 + (int)r.below(40));
}
static void run(Case& c, bool damage) {
    int e = (int)(c.idx % NENC);
    Bytes t = text(c.rng, e);
    Bytes in = convert("UTF-8", encs[e], t).out;
    if (damage) {
        if (in.empty()) in = "\xff";
        switch (c.rng.below(3)) {
        case 0: in.resize(c.rng.below(in.size())); break;
        case 1: for (int k = 1 + (int)c.rng.below(3); k--;) in[c.rng.below(in.size())] = (char)c.rng.next(); break;
        default: in = randomContent(c.rng, 800);
        }
    }
    bool wide = c.rng.chance(1, 2);
    const char* to = wide ? "WCHAR_T" : "UTF-8";
    Whole w = convert(encs[e], to, in);
    if (!w.available) { c.count("encodings_unavailable"); return; }
    if (!damage) REQ(c, w.valid, "harness", "the reference conversion from %s failed", encs[e]);
    InputPolicy pol = randomPolicy(c.rng, false);
    c.note = fmt("%s to %s, %zu bytes in, %zu out%s, %s", encs[e], to, in.size(), w.out.size(), w.valid ? "" : " (invalid)", pol.str().c_str());
    HostileInput src(c, in, pol);
    if (wide) {
        InputStreamReader s(&src, encs[e]);
        monitor<wchar_t>(c, s, w.out, "wide", w.valid, c.rng);
    } else {
        EncodingInputStream s(&src, encs[e], c.rng.chance(1, 2) ? 0 : "UTF-8");
        monitor<char>(c, s, w.out, "bytes", w.valid, c.rng);
    }
    c.count(w.valid ? "valid_texts" : "invalid_texts");
    c.count("characters", w.out.size());
    c.sample(c.note);
}
static void valid(Case& c) { run(c, false); }
static void damaged(Case& c) { run(c, true); }
// every character boundary at every read size: one-item reads over small chunks
static void tiny(Case& c) {
    int e = (int)(c.idx % NENC);
    const std::vector<Bytes>& rep = repertoire(e);
    Bytes t;
    int n = 1 + (int)c.rng.below(600);
    for (int i = 0; i < n; ++i) t += c.rng.pick(rep);
    Bytes in = convert("UTF-8", encs[e], t).out;
    for (int wide = 0; wide < 2; ++wide) {
        Whole w = convert(encs[e], wide ? "WCHAR_T" : "UTF-8", in);
        if (!w.available) { c.count("encodings_unavailable"); return; }
        int32_t step = 1 + (int32_t)c.rng.below(4);
        InputPolicy pol; pol.chunk = c.rng.chance(1, 2) ? 3 : 1; pol.n = 1 + c.rng.below(5); pol.seed = c.rng.next();
        c.note = fmt("%s, %d characters, %d at a time, chunks of %lld", encs[e], n, step, (long long)pol.n);
        HostileInput src(c, in, pol);
        int64_t total = 0;
        if (wide) {
            InputStreamReader s(&src, encs[e]);
            std::wstring got; const wchar_t* p; int32_t k;
            while ((k = s.read(p, 1, step)) > 0) { got.append(p, k); REQ(c, ++total < 100000, "tiny:no-end", "no end"); }
            REQ(c, s.status() == Eof, "wide:tiny-status", "status %s '%s'", statusName(s.status()), s.error());
            REQ(c, Bytes((const char*)got.data(), got.size() * sizeof(wchar_t)) == w.out, "wide:tiny", "%zu characters, expected %zu", got.size(), w.out.size() / sizeof(wchar_t));
        } else {
            EncodingInputStream s(&src, encs[e]);
            Bytes got; const char* p; int32_t k;
            while ((k = s.read(p, 1, step)) > 0) { got.append(p, k); REQ(c, ++total < 100000, "tiny:no-end", "no end"); }
            REQ(c, s.status() == Eof, "bytes:tiny-status", "status %s '%s'", statusName(s.status()), s.error());
            REQ(c, got == w.out, "bytes:tiny", "%zu bytes, expected %zu; %s for %s", got.size(), w.out.size(), hex(got).c_str(), hex(w.out).c_str());
        }
        c.count("tiny_reads_texts");
        c.distinct(mix(hashStr(in), wide + 2 * step));
    }
}
static void unknown(Case& c) {
    Bytes d = randomContent(c.rng, 100);
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput src(c, d, pol);
    static const char* bad[] = { /* glibc reads some of these as the locale encoding */ "NO-SUCH-ENCODING", "", "utf-99", "\xff\xfe", "q" };
    const char* name = bad[c.rng.below(5)];
    { iconv_t cd = iconv_open("UTF-8", name); if (cd != (iconv_t)-1) { iconv_close(cd); return; } }
    std::string long_(5000, 'q');
    if (c.rng.chance(1, 5)) name = long_.c_str();
    const char* p; const wchar_t* q;
    InputStreamReader r(&src, name);
    REQ(c, r.status() == Error && *r.error() && r.read(q, 1, 0) == -2, "unknown:wide", "unknown encoding gives status %s", statusName(r.status()));
    EncodingInputStream s(&src, name);
    REQ(c, s.status() == Error && *s.error() && s.read(p, 1, 0) == -2, "unknown:bytes", "unknown encoding gives status %s", statusName(s.status()));
    EncodingInputStream n(&src, 0);
    REQ(c, n.status() == Error && *n.error() && n.read(p, 1, 0) == -2, "unknown:null", "missing encoding gives status %s", statusName(n.status()));
    EncodingInputStream u(&src, "UTF-8", "NO-SUCH");
    REQ(c, u.status() == Error && *u.error() && u.read(p, 1, 0) == -2, "unknown:out", "unknown output encoding gives status %s", statusName(u.status()));
    c.count("unknown_encodings");
    c.distinct(c.idx % 6);
}
static void failing(Case& c) {
    int e = (int)(c.idx % NENC);
    Bytes in = convert("UTF-8", encs[e], text(c.rng, e)).out;
    bool wide = c.rng.chance(1, 2);
    Whole w = convert(encs[e], wide ? "WCHAR_T" : "UTF-8", in);
    if (!w.available) return;
    InputPolicy pol = randomPolicy(c.rng, false);
    pol.chunk = 3; pol.n = 1 + c.rng.below(300);
    HostileInput src(c, in, pol);
    src.failAt = c.rng.below(2 + in.size() / pol.n);
    Bytes got; Strigi::StreamStatus st; std::string err;
    if (wide) { InputStreamReader s(&src, encs[e]); const wchar_t* p; int32_t k; while ((k = s.read(p, 1, 0)) > 0) got.append((const char*)p, k * sizeof(wchar_t)); st = s.status(); err = s.error(); }
    else { EncodingInputStream s(&src, encs[e]); ReadResult r = readAll(c, &s, c.rng, w.out.size() + 10); got = r.data; st = r.status; err = r.error; }
    REQ(c, got.size() <= w.out.size() && memcmp(got.data(), w.out.data(), got.size()) == 0, "fail:content", "%s: wrong text before the failure", encs[e]);
    if (st == Eof) REQ(c, got == w.out && src.failed == false, "fail:false-end", "%s: a failing input is reported as an end", encs[e]);
    else { REQ(c, !err.empty(), "fail:no-message", "error without message"); c.count("failures_surfaced"); }
}
void registerSuites() {
    g_rule = "the oracle is one iconv call over the whole input with ample output space, followed by the final flush";
    addSuite("valid", 4000, 200000, valid);
    addSuite("damaged", 4000, 200000, damaged);
    addSuite("tiny", 1500, 60000, tiny);
    addSuite("unknown", 60, 600, unknown);
    addSuite("failing", 1500, 40000, failing);
    need("valid_texts", 1000); need("invalid_texts", 500); need("tiny_reads_texts", 500); need("unknown_encodings", 20); need("failures_surfaced", 100);
}
