#include "codecs.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <algorithm>
static Bytes deflateAny(const Bytes& d, const GzOpts& o, int wbits, gz_header* h) {
    z_stream z; memset(&z, 0, sizeof z);
    if (deflateInit2(&z, o.level, Z_DEFLATED, wbits, o.memLevel, o.strategy) != Z_OK) abort();
    if (h && deflateSetHeader(&z, h) != Z_OK) abort();
    Rng r(o.seed);
    Bytes out; char buf[16384];
    size_t at = 0;
    bool done = false;
    while (!done) {
        size_t n = d.size() - at;
        int fl = Z_FINISH;
        if (o.flushEvery && n > (size_t)o.flushEvery) { n = o.flushEvery; static const int f[] = { Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK, Z_NO_FLUSH }; fl = f[r.below(5)]; }
        z.next_in = (Bytef*)d.data() + at; z.avail_in = n;
        do {
            z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
            int k = deflate(&z, fl);
            out.append(buf, sizeof buf - z.avail_out);
            if (k == Z_STREAM_END) { done = true; break; }
            if (k != Z_OK && k != Z_BUF_ERROR) abort();
        } while (z.avail_out == 0 || z.avail_in);
        at += n;
    }
    deflateEnd(&z);
    return out;
}
GzOpts randomGz(Rng& r) {
    GzOpts o;
    o.level = (int)r.range(0, 9);
    o.strategy = (int)r.below(5);
    o.memLevel = 1 + (int)r.below(9);
    o.wbits = 9 + (int)r.below(7);
    o.extra = r.chance(1, 3); o.name = r.chance(1, 2); o.comment = r.chance(1, 4); o.hcrc = r.chance(1, 4);
    o.flushEvery = r.chance(1, 3) ? 1 + (int)r.below(5000) : 0;
    o.seed = r.next();
    return o;
}
Bytes gzEncode(const Bytes& d, const GzOpts& o) {
    Rng r(o.seed + 1);
    gz_header h; memset(&h, 0, sizeof h);
    Bytes ex(r.len(2000), 'e'), nm = Bytes("file") + Bytes(r.len(300), 'n'), cm = Bytes("c") + Bytes(r.len(300), 'c');
    h.os = (int)r.below(14); h.time = (uLong)r.below(1u << 31);
    if (o.extra) { h.extra = (Bytef*)ex.data(); h.extra_len = ex.size(); }
    if (o.name) h.name = (Bytef*)nm.c_str();
    if (o.comment) h.comment = (Bytef*)cm.c_str();
    h.hcrc = o.hcrc; h.text = (int)r.below(2);
    return deflateAny(d, o, o.wbits + 16, &h);
}
Bytes zlibEncode(const Bytes& d, const GzOpts& o) { return deflateAny(d, o, o.wbits, 0); }
Bytes rawDeflate(const Bytes& d, const GzOpts& o) { return deflateAny(d, o, -o.wbits, 0); }
Bytes bz2Encode(const Bytes& d, int block, int work) {
    bz_stream b; memset(&b, 0, sizeof b);
    if (BZ2_bzCompressInit(&b, block, 0, work) != BZ_OK) abort();
    Bytes out; char buf[16384];
    b.next_in = (char*)d.data(); b.avail_in = d.size();
    while (true) {
        b.next_out = buf; b.avail_out = sizeof buf;
        int k = BZ2_bzCompress(&b, BZ_FINISH);
        out.append(buf, sizeof buf - b.avail_out);
        if (k == BZ_STREAM_END) break;
        if (k != BZ_FINISH_OK) abort();
    }
    BZ2_bzCompressEnd(&b);
    return out;
}
LzOpts randomLz(Rng& r) {
    LzOpts o;
    static const uint32_t dicts[] = { 4096, 4096 + 2048, 8192, 65536, 1 << 20, 3 << 18 };
    o.dict = dicts[r.below(6)];
    o.known = r.chance(1, 2);
    o.mode = (int)r.below(2); o.nice = (int)r.range(5, 273); o.mf = (int)r.below(5); o.depth = (int)r.below(50);
    return o;
}
Bytes lzmaEncode(const Bytes& d, const LzOpts& o) {
    lzma_options_lzma l;
    lzma_lzma_preset(&l, 6);
    l.dict_size = o.dict; l.lc = 3; l.lp = 0; l.pb = 2;
    l.mode = o.mode ? LZMA_MODE_NORMAL : LZMA_MODE_FAST;
    static const lzma_match_finder m[] = { LZMA_MF_HC3, LZMA_MF_HC4, LZMA_MF_BT2, LZMA_MF_BT3, LZMA_MF_BT4 };
    l.mf = m[o.mf]; if (!o.mode && o.mf >= 2) l.mf = LZMA_MF_HC4;
    l.nice_len = o.nice; l.depth = o.depth;
    lzma_stream s = LZMA_STREAM_INIT;
    Bytes out;
    bool known = o.known;
    if (known) {
        l.ext_flags = 0; // no end marker
        l.ext_size_low = (uint32_t)d.size(); l.ext_size_high = 0;
        lzma_filter f[2];
        f[0].id = LZMA_FILTER_LZMA1EXT; f[0].options = &l; f[1].id = LZMA_VLI_UNKNOWN; f[1].options = 0;
        if (lzma_raw_encoder(&s, f) != LZMA_OK) abort();
        out += (char)0x5d;
        for (int i = 0; i < 4; ++i) out += (char)(o.dict >> (8 * i));
        for (int i = 0; i < 8; ++i) out += (char)((uint64_t)d.size() >> (8 * i));
    } else if (lzma_alone_encoder(&s, &l) != LZMA_OK) abort();
    char buf[16384];
    s.next_in = (const uint8_t*)d.data(); s.avail_in = d.size();
    while (true) {
        s.next_out = (uint8_t*)buf; s.avail_out = sizeof buf;
        lzma_ret k = lzma_code(&s, LZMA_FINISH);
        out.append(buf, sizeof buf - s.avail_out);
        if (k == LZMA_STREAM_END) break;
        if (k != LZMA_OK) abort();
    }
    lzma_end(&s);
    return out;
}
namespace {
struct RangeCoder {
    Bytes out; uint64_t low; uint32_t range; uint8_t cache; uint64_t cacheSize;
    RangeCoder() : low(0), range(0xffffffff), cache(0), cacheSize(1) {}
    void shiftLow() {
        if (low < 0xff000000ULL || low > 0xffffffffULL) {
            uint8_t carry = (uint8_t)(low >> 32);
            do { out += (char)(uint8_t)(cache + carry); cache = 0xff; } while (--cacheSize);
            cache = (uint8_t)(low >> 24);
        }
        ++cacheSize;
        low = (low & 0x00ffffff) << 8;
    }
    void bit(uint16_t& p, int b) {
        uint32_t bound = (range >> 11) * p;
        if (!b) { range = bound; p += (2048 - p) >> 5; }
        else { low += bound; range -= bound; p -= p >> 5; }
        while (range < (1u << 24)) { range <<= 8; shiftLow(); }
    }
    void direct(uint32_t v, int n) {
        while (n--) { range >>= 1; if (v >> n & 1) low += range; while (range < (1u << 24)) { range <<= 8; shiftLow(); } }
    }
    void tree(uint16_t* p, int n, uint32_t v) { uint32_t m = 1; while (n--) { int b = v >> n & 1; bit(p[m], b); m = m << 1 | b; } }
    void reverse(uint16_t* p, int n, uint32_t v) { uint32_t m = 1; for (int i = 0; i < n; ++i) { int b = v >> i & 1; bit(p[m], b); m = m << 1 | b; } }
    void flush() { for (int i = 0; i < 5; ++i) shiftLow(); }
};
struct LenCoder {
    uint16_t choice[2], low[4][8], mid[4][8], high[256];
    void put(RangeCoder& rc, int len, int ps) {
        len -= 2;
        if (len < 8) { rc.bit(choice[0], 0); rc.tree(low[ps], 3, len); return; }
        rc.bit(choice[0], 1);
        if (len < 16) { rc.bit(choice[1], 0); rc.tree(mid[ps], 3, len - 8); return; }
        rc.bit(choice[1], 1); rc.tree(high, 8, len - 16);
    }
};
// lc 3, lp 0, pb 2, the parameters the library accepts
struct LzWriter {
    struct Probs {
        uint16_t isMatch[12][4], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][4], slot[4][64], special[128], align[16], literal[8][0x300];
        LenCoder len, rep;
    } p;
    RangeCoder rc; Bytes out; int state; uint32_t reps[4]; // distances, counted from 1
    LzWriter() : state(0) {
        uint16_t* a = (uint16_t*)&p; for (size_t i = 0; i < sizeof p / 2; ++i) a[i] = 1024;
        for (int i = 0; i < 4; ++i) reps[i] = 1;
    }
    int ps() { return out.size() & 3; }
    uint8_t back(uint32_t d) { return d <= out.size() ? out[out.size() - d] : 0; }
    void literal(uint8_t c) {
        rc.bit(p.isMatch[state][ps()], 0);
        uint16_t* l = p.literal[out.empty() ? 0 : (uint8_t)out[out.size() - 1] >> 5];
        if (state < 7) rc.tree(l, 8, c);
        else {
            uint32_t m = back(reps[0]), off = 0x100, sym = 1;
            for (int i = 7; i >= 0; --i) {
                m <<= 1;
                int b = c >> i & 1;
                uint32_t mb = m & off;
                rc.bit(l[off + mb + sym], b);
                sym = sym << 1 | b;
                if (b) off = mb; else off &= ~mb;
            }
        }
        state = state < 4 ? 0 : state < 10 ? state - 3 : state - 6;
        out += (char)c;
    }
    void copy(uint32_t d, int len) { for (int i = 0; i < len; ++i) out += (char)back(d); }
    void match(uint32_t d, int len) { // d == 0: the end marker
        rc.bit(p.isMatch[state][ps()], 1); rc.bit(p.isRep[state], 0);
        p.len.put(rc, len, ps());
        uint32_t v = d - 1;
        int ls = len - 2 < 4 ? len - 2 : 3, slot = (int)v;
        if (v >= 4) { int n = 31; while (!(v >> n & 1)) --n; slot = n * 2 + (v >> (n - 1) & 1); }
        rc.tree(p.slot[ls], 6, slot);
        if (slot >= 4) {
            int footer = (slot >> 1) - 1; uint32_t base = (2u | (slot & 1)) << footer;
            if (slot < 14) rc.reverse(p.special + base - slot, footer, v - base);
            else { rc.direct((v - base) >> 4, footer - 4); rc.reverse(p.align, 4, (v - base) & 15); }
        }
        state = state < 7 ? 7 : 10;
        reps[3] = reps[2]; reps[2] = reps[1]; reps[1] = reps[0]; reps[0] = d;
        if (d) copy(d, len);
    }
    void rep(int i, int len) {
        rc.bit(p.isMatch[state][ps()], 1); rc.bit(p.isRep[state], 1);
        if (i == 0) { rc.bit(p.isRepG0[state], 0); rc.bit(p.isRep0Long[state][ps()], 1); }
        else {
            rc.bit(p.isRepG0[state], 1); rc.bit(p.isRepG1[state], i > 1);
            if (i > 1) rc.bit(p.isRepG2[state], i > 2);
            uint32_t d = reps[i]; for (int k = i; k > 0; --k) reps[k] = reps[k - 1]; reps[0] = d;
        }
        p.rep.put(rc, len, ps());
        state = state < 7 ? 8 : 11;
        copy(reps[0], len);
    }
    void shortRep() {
        rc.bit(p.isMatch[state][ps()], 1); rc.bit(p.isRep[state], 1); rc.bit(p.isRepG0[state], 0); rc.bit(p.isRep0Long[state][ps()], 0);
        state = state < 7 ? 9 : 11;
        copy(reps[0], 1);
    }
};
int lzLen(Rng& r) { return r.chance(1, 4) ? 273 : r.chance(1, 3) ? (int)r.range(2, 273) : (int)r.range(2, 20); }
void lzRandom(Rng& r, LzWriter& w, uint32_t dict, size_t limit) {
    int kind = (int)r.below(6);
    uint32_t n = (uint32_t)std::min<size_t>(w.out.size(), dict);
    int room = (int)std::min<size_t>(limit - w.out.size(), 273);
    auto len = [&] { return std::min(lzLen(r), room); };
    if (kind < 2 || n == 0) w.literal((uint8_t)(r.chance(1, 2) ? r.next() : "ab c"[r.below(4)]));
    else if (kind == 2) w.shortRep();
    else if (room < 2) w.literal((uint8_t)r.next());
    else if (kind == 3) {
        int i = (int)r.below(4);
        // positions that are out of the dictionary by now are no option; they
        // cannot be, since distances do not change
        w.rep(i, len());
    } else {
        uint32_t d = r.chance(1, 3) ? n : r.chance(1, 3) ? n - (uint32_t)r.below(std::min<uint32_t>(n, 300)) : r.chance(1, 2) ? 1 + (uint32_t)r.below(std::min<uint32_t>(n, 8)) : 1 + (uint32_t)r.below(n);
        w.match(d, len());
    }
}
}
LzSyms lzmaSymbols(Rng& r, int64_t maxSize, int bad) {
    LzSyms s; LzWriter w;
    // distances are limited by this, but never by less than 4096
    // the library takes the low byte to be zero
    static const uint32_t dicts[] = { 0, 256, 3840, 4096, 4352, 5120, 8192, 70144 };
    uint32_t given = dicts[r.below(8)];
    s.dict = std::max<uint32_t>(given, 4096);
    s.known = bad == 6 || r.chance(1, 2);
    size_t limit = (size_t)(bad == 5 || r.chance(1, 20) ? 0 : r.chance(1, 2) ? r.len(maxSize) : s.dict * r.below(3) + r.below(600));
    if (s.known && limit <= s.dict) limit = s.dict + 1 + r.len(maxSize);
    if (s.known && bad == 5) limit = 0;
    while (w.out.size() < limit) lzRandom(r, w, s.dict, limit);
    s.content = w.out;
    uint64_t size = w.out.size();
    uint32_t n = (uint32_t)std::min<size_t>(w.out.size(), s.dict);
    switch (bad) {
    case 0: break;
    case 1: w.match(n + 1, lzLen(r)); s.note = "distance one too far"; break;
    case 2: w.match(n + 1 + (uint32_t)r.len(s.dict * 2), lzLen(r)); s.note = "distance too far"; break;
    case 3: w.match(0xffffffffu - (uint32_t)r.below(1 << r.below(31)), lzLen(r)); s.note = "huge distance"; break;
    case 4: w.match(std::max(n + 1, 0x10000u << r.below(16)), lzLen(r)); s.note = "long distance"; break;
    case 5: if (r.chance(1, 2)) w.rep((int)r.below(4), lzLen(r)); else w.shortRep(); s.note = "repeat of nothing"; break;
    case 6: size += 1 + r.len(1000); w.match(0, 2); s.note = "end marker before the end"; break;
    }
    if (bad && bad < 6) { for (int k = (int)r.below(60); k > 0; --k) lzRandom(r, w, 1 + (uint32_t)r.below(s.dict * 2), w.out.size() + 300); size = w.out.size() + r.below(500); if (size <= s.dict) size = s.dict + 1 + r.below(500); }
    if (!s.known) w.match(0, r.chance(1, 4) ? lzLen(r) : 2);
    w.rc.flush();
    s.encoded += (char)0x5d;
    for (int i = 0; i < 4; ++i) s.encoded += (char)(given >> (8 * i));
    for (int i = 0; i < 8; ++i) s.encoded += (char)(s.known ? size >> (8 * i) : 0xff);
    s.encoded += w.rc.out;
    // an independent decoder has to agree
    lzma_stream z = LZMA_STREAM_INIT;
    if (lzma_alone_decoder(&z, UINT64_MAX) != LZMA_OK) abort();
    Bytes got; char buf[16384]; lzma_ret k;
    z.next_in = (const uint8_t*)s.encoded.data(); z.avail_in = s.encoded.size();
    do {
        z.next_out = (uint8_t*)buf; z.avail_out = sizeof buf;
        k = lzma_code(&z, LZMA_FINISH);
        got.append(buf, sizeof buf - z.avail_out);
    } while (k == LZMA_OK);
    lzma_end(&z);
    if (bad ? k == LZMA_STREAM_END : k != LZMA_STREAM_END || got != s.content) { fprintf(stderr, "lzmaSymbols(%d %s): liblzma says %d, %zu of %zu bytes\n", bad, s.note.c_str(), (int)k, got.size(), s.content.size()); abort(); }
    return s;
}
Bytes zlibDecode(const Bytes& d, bool& complete, int wbits, bool rest) {
    z_stream z; memset(&z, 0, sizeof z);
    if (inflateInit2(&z, wbits) != Z_OK) abort();
    Bytes out; char buf[16384];
    z.next_in = (Bytef*)d.data(); z.avail_in = d.size();
    int k;
    do {
        z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
        k = inflate(&z, Z_NO_FLUSH);
        out.append(buf, sizeof buf - z.avail_out);
    } while (k == Z_OK);
    complete = k == Z_STREAM_END && (rest || z.avail_in == 0);
    inflateEnd(&z);
    return out;
}
uint32_t crc32of(const Bytes& d) { return (uint32_t)crc32(0, (const Bytef*)d.data(), d.size()); }
