// Encodings of contents of more than 2 or 4 GB (mostly one repeated byte), made without holding the content.
#ifndef VERIF_GIANTCODEC_H
#define VERIF_GIANTCODEC_H
#include "giant.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
inline const Bytes& giantFlat() { static Bytes* b = new Bytes(1 << 21, 'z'); return *b; }
inline void giantMarks(Case& c, GiantInput& g) {
    for (int64_t at : { (int64_t)5, (int64_t)0x7fffffff - 3, (int64_t)0xffffffff - 3, (int64_t)c.rng.below(g.total), g.total - 9 })
        if (at >= 0 && at + 9 <= g.total) { auto n = g.parts.lower_bound(at - 20); if (n == g.parts.end() || n->first > at + 20) g.parts[at] = fmt("<%07x>", (unsigned)(at & 0xfffffff)); }
}
// calls f(data, n, last) for the whole content
template <class F> inline void giantFeed(GiantInput& g, F f) {
    g.reset(0);
    const char* p;
    while (g.position() < g.total) { int32_t n = g.read(p, 1 << 20, 1 << 20); f(p, n, g.position() == g.total); }
}
inline Bytes giantGzip(GiantInput& g, int wbits) {
    z_stream z; memset(&z, 0, sizeof z);
    if (deflateInit2(&z, 1, Z_DEFLATED, wbits, 9, Z_RLE) != Z_OK) abort();
    Bytes out; std::vector<char> buf(1 << 18);
    giantFeed(g, [&](const char* p, int32_t n, bool last) {
        z.next_in = (Bytef*)p; z.avail_in = n;
        do { z.next_out = (Bytef*)&buf[0]; z.avail_out = buf.size(); deflate(&z, last ? Z_FINISH : Z_NO_FLUSH); out.append(&buf[0], buf.size() - z.avail_out); } while (z.avail_out == 0 || z.avail_in);
    });
    deflateEnd(&z);
    return out;
}
inline Bytes giantBz2(GiantInput& g) {
    bz_stream b; memset(&b, 0, sizeof b);
    if (BZ2_bzCompressInit(&b, 9, 0, 0) != BZ_OK) abort();
    Bytes out; std::vector<char> buf(1 << 18);
    giantFeed(g, [&](const char* p, int32_t n, bool last) {
        b.next_in = (char*)p; b.avail_in = n;
        int k;
        do { b.next_out = &buf[0]; b.avail_out = buf.size(); k = BZ2_bzCompress(&b, last ? BZ_FINISH : BZ_RUN); out.append(&buf[0], buf.size() - b.avail_out); } while (last ? k != BZ_STREAM_END : b.avail_in > 0);
    });
    BZ2_bzCompressEnd(&b);
    return out;
}
inline Bytes giantLzma(GiantInput& g, bool known) {
    lzma_options_lzma l;
    lzma_lzma_preset(&l, 0);
    l.dict_size = 65536; l.lc = 3; l.lp = 0; l.pb = 2; l.nice_len = 273; l.mf = LZMA_MF_HC3; l.mode = LZMA_MODE_FAST; l.depth = 1;
    lzma_stream s = LZMA_STREAM_INIT;
    Bytes out;
    if (known) {
        l.ext_flags = 0; l.ext_size_low = (uint32_t)g.total; l.ext_size_high = (uint32_t)(g.total >> 32);
        lzma_filter f[2];
        f[0].id = LZMA_FILTER_LZMA1EXT; f[0].options = &l; f[1].id = LZMA_VLI_UNKNOWN; f[1].options = 0;
        if (lzma_raw_encoder(&s, f) != LZMA_OK) abort();
        out += (char)0x5d;
        for (int i = 0; i < 4; ++i) out += (char)(l.dict_size >> (8 * i));
        for (int i = 0; i < 8; ++i) out += (char)((uint64_t)g.total >> (8 * i));
    } else if (lzma_alone_encoder(&s, &l) != LZMA_OK) abort();
    std::vector<char> buf(1 << 18);
    giantFeed(g, [&](const char* p, int32_t n, bool last) {
        s.next_in = (const uint8_t*)p; s.avail_in = n;
        lzma_ret k;
        do { s.next_out = (uint8_t*)&buf[0]; s.avail_out = buf.size(); k = lzma_code(&s, last ? LZMA_FINISH : LZMA_RUN); out.append(&buf[0], buf.size() - s.avail_out); if (k != LZMA_OK && k != LZMA_STREAM_END) abort(); } while (last ? k != LZMA_STREAM_END : s.avail_in > 0);
    });
    lzma_end(&s);
    return out;
}
#endif
