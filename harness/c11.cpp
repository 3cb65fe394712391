#include "streams.h"
#include "base64inputstream.h"
using namespace Strigi;
static Bytes b64(const Bytes& d) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes o;
    size_t i = 0;
    for (; i + 2 < d.size(); i += 3) {
        uint32_t v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2];
        o += a[v >> 18]; o += a[v >> 12 & 63]; o += a[v >> 6 & 63]; o += a[v & 63];
    }
    if (d.size() - i == 1) { uint32_t v = (unsigned char)d[i] << 16; o += a[v >> 18]; o += a[v >> 12 & 63]; o += "=="; }
    if (d.size() - i == 2) { uint32_t v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8; o += a[v >> 18]; o += a[v >> 12 & 63]; o += a[v >> 6 & 63]; o += "="; }
    return o;
}
static Bytes layout(Rng& r, const Bytes& e) {
    Bytes o;
    int style = (int)r.below(5);
    size_t line = style == 0 ? 76 : style == 1 ? 64 : 1 + r.below(100);
    const char* nl = r.chance(1, 2) ? "\r\n" : "\n";
    size_t pad = e.find('=');
    for (size_t i = 0; i < e.size(); ++i) {
        if (style < 3 && i && i % line == 0) o += nl;
        if (style == 4 && (pad == Bytes::npos || i <= pad)) while (r.chance(1, 5)) o += " \t\r\n"[r.below(4)];
        o += e[i];
    }
    if (r.chance(1, 2)) o += nl;
    return o;
}
static Bytes content(Case& c) {
    Bytes d = randomContent(c.rng, c.rng.chance(1, 6) ? 200000 : 3000);
    if (c.rng.chance(1, 3)) { d.resize(c.rng.below(20)); for (auto& x : d) x = (char)c.rng.next(); }
    return d;
}
static void stream(Case& c) {
    Bytes d = content(c), e = layout(c.rng, b64(d));
    InputPolicy pol = randomPolicy(c.rng, false);
    c.note = fmt("%zu bytes, %zu encoded, %s", d.size(), e.size(), pol.str().c_str());
    HostileInput in(c, e, pol);
    Base64InputStream s(&in);
    MonOpts o;
    Mon<char> m(c, &s, d, "base64", o);
    m.run(c.rng, 4 + (int)c.rng.below(40));
    c.count(d.size() % 3 == 0 ? "mod3_0" : d.size() % 3 == 1 ? "mod3_1" : "mod3_2");
    c.count("streams_decoded");
    c.sample(c.note);
}
static void oneshot(Case& c) {
    Bytes d = content(c), e = b64(d);
    if (c.rng.chance(1, 60)) d = e = "";
    char* p = (char*)malloc(e.size() + 1);
    char* q = e.size() ? p : p + 1;
    memcpy(p, e.data(), e.size());
    // exact block
    char* x = (char*)malloc(e.size() ? e.size() : 1);
    memcpy(x, e.data(), e.size());
    Bytes got = Base64InputStream::decode(e.size() ? x : q, e.size());
    free(x); free(p);
    c.note = fmt("%zu bytes at once", d.size());
    REQ(c, got == d, "oneshot", "one-shot decoding gives %zu bytes (%s), expected %zu (%s)", got.size(), hex(got).c_str(), d.size(), hex(d).c_str());
    c.count("oneshot_decoded");
    c.distinct(hashStr(d));
}
// all contents of up to two bytes and all quartets' values, at every small read size
static void exhaustive(Case& c) {
    for (int b = 0; b < 256; ++b) {
        Bytes d;
        d += (char)c.idx; d += (char)b;
        for (int n = 1; n <= 3; ++n) {
            Bytes v = n == 1 ? d.substr(1) : n == 2 ? d : d + (char)(b * 7 + c.idx);
            Bytes e = b64(v);
            Bytes got = Base64InputStream::decode(e.data(), e.size());
            REQ(c, got == v, "oneshot", "decoding %s gives %s, expected %s", e.c_str(), hex(got).c_str(), hex(v).c_str());
            InputPolicy pol; pol.chunk = 3; pol.n = 1 + (b + n) % 5;
            HostileInput in(c, e, pol);
            Base64InputStream s(&in);
            Bytes all; const char* p; int32_t k;
            while ((k = s.read(p, 1, 1 + b % 3)) > 0) all.append(p, k);
            REQ(c, all == v && s.status() == Eof, "base64:content", "streaming %s gives %s, expected %s", e.c_str(), hex(all).c_str(), hex(v).c_str());
            c.count("oneshot_decoded"); c.count("streams_decoded");
        }
    }
    c.distinct(c.idx);
}
static void failing(Case& c) {
    Bytes d = content(c), e = layout(c.rng, b64(d));
    InputPolicy pol = randomPolicy(c.rng, false);
    pol.chunk = 3; pol.n = 1 + c.rng.below(300);
    HostileInput in(c, e, pol);
    in.failAt = c.rng.below(2 + e.size() / pol.n);
    Base64InputStream s(&in);
    ReadResult r = readAll(c, &s, c.rng, d.size() + 10);
    REQ(c, r.data.size() <= d.size() && memcmp(r.data.data(), d.data(), r.data.size()) == 0, "fail:content", "wrong data before the failure");
    if (r.status == Eof) REQ(c, r.data == d, "fail:false-end", "input failed after %lld calls; reported as an end after %zu of %zu bytes", (long long)in.failAt, r.data.size(), d.size());
    else c.count("failures_surfaced");
}
void registerSuites() {
    g_rule = "content is known before encoding; the encoder is the harness's own";
    addSuite("stream", 6000, 300000, stream);
    addSuite("oneshot", 6000, 200000, oneshot);
    addSuite("exhaustive", 256, 256, exhaustive);
    addSuite("failing", 2000, 60000, failing);
    need("mod3_0", 500); need("mod3_1", 500); need("mod3_2", 500); need("oneshot_decoded", 1000); need("failures_surfaced", 50);
}
