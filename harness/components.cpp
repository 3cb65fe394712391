#include "components.h"
#include "base64inputstream.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
using namespace Strigi;
const char* const g_comps[] = { "gzip", "zlib", "deflate", "bz2", "lzma", "base64", "encoding", "sub", "subopen", "terminated", "events" };
const int g_ncomps = 11;
Bytes b64encode(const Bytes& d, size_t line) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes o;
    size_t i = 0, col = 0;
    auto put = [&](char c) { o += c; if (line && ++col == line) { o += '\n'; col = 0; } };
    for (; i + 2 < d.size(); i += 3) {
        uint32_t v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2];
        put(a[v >> 18]); put(a[v >> 12 & 63]); put(a[v >> 6 & 63]); put(a[v & 63]);
    }
    if (d.size() - i == 1) { uint32_t v = (unsigned char)d[i] << 16; put(a[v >> 18]); put(a[v >> 12 & 63]); put('='); put('='); }
    if (d.size() - i == 2) { uint32_t v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8; put(a[v >> 18]); put(a[v >> 12 & 63]); put(a[v >> 6 & 63]); put('='); }
    return o;
}
namespace {
struct Quiet : public DataEventHandler {
    int64_t stay; Quiet(int64_t s) : stay(s) {}
    bool handleData(const char*, uint32_t) { return stay < 0 || stay-- > 0; }
    void handleEnd() {}
};
}
Comp makeComp(Rng& r, const std::string& kind, const Bytes& d) {
    Comp k; k.name = kind; k.ref = d;
    if (kind == "gzip" || kind == "zlib" || kind == "deflate") {
        GzOpts o = randomGz(r);
        GZipInputStream::ZipFormat f = kind == "gzip" ? GZipInputStream::GZIPFORMAT : kind == "zlib" ? GZipInputStream::ZLIBFORMAT : GZipInputStream::ZIPFORMAT;
        if (kind == "deflate" && o.wbits == 8) o.wbits = 9;
        k.input = kind == "gzip" ? gzEncode(d, o) : kind == "zlib" ? zlibEncode(d, o) : rawDeflate(d, o);
        if (r.chance(1, 4)) k.input += randomContent(r, 3000);   // more data behind the compressed stream
        k.make = [f](Stages& s, InputStream* in) { s.s.push_back(new GZipInputStream(in, f)); };
    } else if (kind == "bz2") {
        k.input = bz2Encode(d, 1 + (int)r.below(3), 0);
        if (r.chance(1, 4)) k.input += randomContent(r, 3000);
        k.make = [](Stages& s, InputStream* in) { s.s.push_back(new BZ2InputStream(in)); };
    } else if (kind == "lzma") {
        LzOpts o = randomLz(r);
        if (d.size() <= o.dict) o.known = false;   // see C06
        k.input = lzmaEncode(d, o);
        if (r.chance(1, 4)) k.input += randomContent(r, 3000);
        k.make = [](Stages& s, InputStream* in) { s.s.push_back(new LZMAInputStream(in)); };
    } else if (kind == "base64") {
        k.input = b64encode(d, r.chance(1, 3) ? 0 : 1 + r.below(80));
        k.make = [](Stages& s, InputStream* in) { s.s.push_back(new Base64InputStream(in)); };
    } else if (kind == "encoding") {   // any bytes are Latin 1 text
        k.input = d;
        Bytes u;
        for (unsigned char ch : d) { if (ch < 128) u += (char)ch; else { u += (char)(0xC0 | ch >> 6); u += (char)(0x80 | (ch & 63)); } }
        k.ref = u;
        k.make = [](Stages& s, InputStream* in) { s.s.push_back(new EncodingInputStream(in, "ISO-8859-1")); };
    } else if (kind == "sub") {
        int64_t n = d.size() + r.below(2) * r.below(500);
        k.input = d;
        while ((int64_t)k.input.size() < n) k.input += (char)r.next();
        n = d.size();
        k.make = [n](Stages& s, InputStream* in) { s.s.push_back(new SubInputStream(in, n)); };
    } else if (kind == "subopen") {
        k.input = d;
        k.make = [](Stages& s, InputStream* in) { s.s.push_back(new SubInputStream(in)); };
    } else if (kind == "terminated") {
        Bytes t = r.chance(1, 2) ? Bytes("\r\n--boundary") : Bytes(1 + r.below(3), (char)r.below(256));
        k.input = d;
        if (r.chance(2, 3)) k.input += t + "behind";
        size_t at = k.input.find(t);
        k.ref = at == Bytes::npos ? k.input : k.input.substr(0, at);
        k.make = [t](Stages& s, InputStream* in) { s.s.push_back(new StringTerminatedSubStream(in, t)); };
    } else {
        k.input = d;
        int64_t stay = r.chance(1, 2) ? -1 : (int64_t)r.below(5);
        k.make = [stay](Stages& s, InputStream* in) {
            std::shared_ptr<Quiet> q(new Quiet(stay));
            s.keep.push_back(q);
            s.s.push_back(new DataEventInputStream(in, *q));
        };
    }
    return k;
}
Comp makeChain(Rng& r, const Bytes& content, int n) {
    // built from the top (last applied) down; only kinds that reproduce their content
    static const char* inner[] = { "gzip", "zlib", "deflate", "bz2", "lzma", "base64", "sub", "subopen", "events" };
    Comp top = makeComp(r, g_comps[r.below(g_ncomps)], content);
    Comp k = top;
    for (int i = 1; i < n; ++i) {
        Comp b = makeComp(r, inner[r.below(9)], k.input);
        std::function<void(Stages&, InputStream*)> lower = b.make, upper = k.make;
        k.input = b.input;
        k.name = b.name + "+" + k.name;
        k.make = [lower, upper](Stages& s, InputStream* in) { lower(s, in); upper(s, s.top()); };
    }
    return k;
}
