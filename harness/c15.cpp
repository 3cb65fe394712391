// Text utilities against independent definitions (RFC 3629 and the XML 1.0
// character set the source refers to; integers by arithmetic).
#include "streams.h"
#include <strigi/textutils.h>
using namespace Strigi;

struct Verdict { bool ok, incomplete, doomed; int64_t charStart, bad; int missing; };
// decodes independently of the code under test
static Verdict oracle(const unsigned char* p, int64_t n) {
    Verdict v = { true, false, false, 0, 0, 0 };
    int64_t i = 0;
    while (i < n) {
        unsigned char c = p[i];
        int len;
        if (c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0x7F)) len = 1;
        else if (c >= 0xC2 && c <= 0xDF) len = 2;
        else if (c >= 0xE0 && c <= 0xEF) len = 3;
        else if (c >= 0xF0 && c <= 0xF4) len = 4;
        else { v.ok = false; v.charStart = v.bad = i; return v; }
        uint32_t val = len == 1 ? c : c & (0xFF >> (len + 1));
        for (int k = 1; k < len; ++k) {
            if (i + k >= n) {
                // incomplete; could it still become a character?
                v.ok = false; v.incomplete = true; v.charStart = i; v.bad = n; v.missing = len - k;
                uint32_t lo = val << (6 * (len - k)), hi = lo | ((1u << (6 * (len - k))) - 1);
                uint32_t least = len == 2 ? 0x80 : len == 3 ? 0x800 : 0x10000;
                v.doomed = hi < least || lo > 0x10FFFF || (lo >= 0xD800 && hi <= 0xDFFF);
                return v;
            }
            if ((p[i + k] & 0xC0) != 0x80) { v.ok = false; v.charStart = i; v.bad = i + k; return v; }
            val = val << 6 | (p[i + k] & 0x3F);
        }
        uint32_t least = len == 2 ? 0x80 : len == 3 ? 0x800 : len == 4 ? 0x10000 : 0;
        if (val < least || val > 0x10FFFF || (val >= 0xD800 && val <= 0xDFFF) || val == 0xFFFE || val == 0xFFFF) {
            v.ok = false; v.charStart = i; v.bad = i + len - 1; return v;
        }
        i += len;
    }
    return v;
}
static void check(Case& c, const Bytes& s) {
    // an exact-size block, so that reading beyond it is seen
    size_t n = s.size();
    char* p = (char*)malloc(n ? n : 1);
    memcpy(p, s.data(), n);
    struct F { char* p; ~F() { free(p); } } f = { p };
    const char* e = n ? p : p + 1; // zero bytes: nothing may be read
    Verdict v = oracle((const unsigned char*)p, n);
    bool b = checkUtf8(e, (int32_t)n);
    REQ(c, b == v.ok, v.ok ? "utf8:reject" : "utf8:accept", "checkUtf8 says %d for %s (%zu bytes), expected %d", b, hex(s).c_str(), n, v.ok);
    char nb = 99;
    const char* r = checkUtf8(e, (int32_t)n, nb);
    REQ(c, (r == 0) == v.ok, v.ok ? "utf8pos:reject" : "utf8pos:accept", "checkUtf8 gives %s for %s", r ? "a position" : "valid", hex(s).c_str());
    if (!v.ok) {
        int64_t at = r - e;
        if (v.incomplete && !(v.doomed && nb == 0)) {
            REQ(c, nb == v.missing, "utf8pos:missing", "%s: %d bytes said to be missing, expected %d", hex(s).c_str(), nb, v.missing);
            REQ(c, at == v.charStart, "utf8pos:incomplete-at", "%s: incomplete character said to start at %lld, expected %lld", hex(s).c_str(), (long long)at, (long long)v.charStart);
        } else {
            REQ(c, nb == 0, "utf8pos:nb", "%s: nb %d for an error", hex(s).c_str(), nb);
            REQ(c, at >= v.charStart && at <= v.bad, "utf8pos:at", "%s: error at %lld, expected %lld", hex(s).c_str(), (long long)at, (long long)v.bad);
        }
        c.count(v.incomplete ? "incomplete_strings" : "invalid_strings");
    } else {
        REQ(c, nb == 0, "utf8pos:nb", "%s: nb %d for a valid string", hex(s).c_str(), nb);
        c.count("valid_strings");
    }
    REQ(c, checkUtf8(s) == v.ok, "utf8:string", "std::string variant differs for %s", hex(s).c_str());
    if (v.ok && s.find('\0') == Bytes::npos) {
        Bytes want = s;
        for (auto& ch : want) if (ch == '\n' || ch == '\r') ch = ' ';
        char* q = strdup(s.c_str());
        convertNewLines(q);
        Bytes got = q;
        free(q);
        REQ(c, got == want, "newlines", "convertNewLines made %s from %s", hex(got).c_str(), hex(s).c_str());
    }
}
static Bytes enc(uint32_t u, int len = 0) {
    if (!len) len = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
    Bytes b;
    if (len == 1) b += (char)u;
    else {
        static const int lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8 };
        b += (char)(lead[len] | (u >> (6 * (len - 1))));
        for (int k = len - 2; k >= 0; --k) b += (char)(0x80 | ((u >> (6 * k)) & 0x3F));
    }
    return b;
}
// every code point in every length it can be squeezed into: 1200 per case
static void codepoints(Case& c) {
    for (uint32_t u = c.idx * 1200; u < (c.idx + 1) * 1200 && u < 0x200000; ++u)
        for (int len = 1; len <= 4; ++len) {
            if (len == 1 && u > 0xFF) continue;
            if (len < 4 && len > 1 && (u >> (len == 2 ? 11 : 16))) continue;
            check(c, enc(u, len));
        }
    c.distinct(c.idx);
}
// every byte string of up to three bytes with this first byte, over the bytes that matter
static void shortStrings(Case& c) {
    static const int w[] = { 0, 8, 9, 0xA, 0xB, 0xD, 0x1F, 0x20, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF };
    Bytes b(1, (char)c.idx);
    check(c, b);
    for (int x : w) {
        Bytes b2 = b + (char)x; check(c, b2);
        for (int y : w) {
            Bytes b3 = b2 + (char)y; check(c, b3);
            check(c, b3 + "\x80");
            check(c, b3 + "\xBF");
        }
    }
    if (c.idx == 0) check(c, "");
    c.distinct(c.idx + 100000);
}
static void texts(Case& c) {
    Bytes s;
    int n = 1 + (int)c.rng.below(60);
    for (int i = 0; i < n; ++i) {
        switch (c.rng.below(6)) {
        case 0: s += enc(0x20 + c.rng.below(0x5F)); break;
        case 1: s += enc(0x80 + c.rng.below(0x780)); break;
        case 2: s += enc(0xE000 + c.rng.below(0x1FFE)); break;
        case 3: s += enc(0x800 + c.rng.below(0xD000)); break;
        case 4: s += enc(0x10000 + c.rng.below(0x100000)); break;
        default: s += "\r\n\t"[c.rng.below(3)];
        }
    }
    switch (c.rng.below(4)) {
    case 0: break;
    case 1: s.resize(c.rng.below(s.size() + 1)); break;
    case 2: s[c.rng.below(s.size())] = (char)c.rng.below(256); break;
    case 3: s.insert(c.rng.below(s.size() + 1), 1, (char)c.rng.below(256)); break;
    }
    c.note = hex(s, 300);
    check(c, s);
    c.distinct(hashStr(s));
    c.sample(c.note);
}
template <class T> static T ref(const unsigned char* p, bool big) {
    uint64_t v = 0;
    for (size_t i = 0; i < sizeof(T); ++i) v = v << 8 | p[big ? i : sizeof(T) - 1 - i];
    return (T)v;
}
#define INT(T, fn, big) do { \
    T want = ref<T>(p, big); \
    T a = fn((const char*)p); \
    REQ(c, a == want, #fn, #fn "(%s) = %#llx, expected %#llx", hex(Bytes((const char*)p, sizeof(T))).c_str(), (unsigned long long)a, (unsigned long long)want); \
    T b = fn((const unsigned char*)p); \
    REQ(c, b == want, #fn ":unsigned", #fn "((const unsigned char*)%s) = %#llx, expected %#llx", hex(Bytes((const char*)p, sizeof(T))).c_str(), (unsigned long long)b, (unsigned long long)want); \
    c.count("integers_compared", 2); } while (0)
static void integers(Case& c) {
    for (int k = 0; k < 64; ++k) {
        size_t at = c.rng.below(8);
        unsigned char* blk = (unsigned char*)malloc(at + 8);
        struct F { unsigned char* p; ~F() { free(p); } } f = { blk };
        unsigned char* p = blk + at;
        int style = (int)c.rng.below(4);
        for (int i = 0; i < 8; ++i) p[i] = style == 0 ? (unsigned char)c.rng.next() : style == 1 ? (c.rng.chance(1, 2) ? 0xFF : 0) : style == 2 ? (c.rng.chance(1, 2) ? 0x80 : 0x7F) : (unsigned char)(i + 1);
        if (style == 3) { int z = (int)c.rng.below(8); for (int i = 0; i < 8; ++i) if (i != z) p[i] = 0; }
        INT(int16_t, readLittleEndianInt16, false);
        INT(uint16_t, readLittleEndianUInt16, false);
        INT(int32_t, readLittleEndianInt32, false);
        INT(uint32_t, readLittleEndianUInt32, false);
        INT(int64_t, readLittleEndianInt64, false);
        INT(uint64_t, readLittleEndianUInt64, false);
        INT(int16_t, readBigEndianInt16, true);
        INT(uint16_t, readBigEndianUInt16, true);
        INT(int32_t, readBigEndianInt32, true);
        INT(uint32_t, readBigEndianUInt32, true);
        INT(int64_t, readBigEndianInt64, true);
        INT(uint64_t, readBigEndianUInt64, true);
        c.distinct(hashBytes(p, 8));
        // the last bytes of a block: nothing beyond the width may be touched
        unsigned char* q = (unsigned char*)malloc(2);
        q[0] = p[0]; q[1] = p[1];
        int16_t x = readBigEndianInt16(q), y = readLittleEndianInt16(q);
        free(q);
        REQ(c, x == ref<int16_t>(p, true) && y == ref<int16_t>(p, false), "int16-end", "16 bit readers differ at the end of a block");
    }
}
void registerSuites() {
    g_rule = "UTF-8 validation is compared with an independent decoder for RFC 3629 restricted to the XML 1.0 character set, the integer readers with arithmetic";
    addSuite("codepoints", 0x200000 / 1200 + 1, 0x200000 / 1200 + 1, codepoints);
    addSuite("short", 256, 256, shortStrings);
    addSuite("texts", 20000, 800000, texts);
    addSuite("integers", 2000, 40000, integers);
    need("valid_strings", 1000000); need("invalid_strings", 10000); need("incomplete_strings", 1000); need("integers_compared", 100000);
}
