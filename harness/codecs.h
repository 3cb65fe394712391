// Independent encoders for the compressed formats (zlib, bzip2, liblzma).
#ifndef VERIF_CODECS_H
#define VERIF_CODECS_H
#include "core.h"
struct GzOpts { int level, strategy, memLevel, wbits; bool extra, name, comment, hcrc; int flushEvery; uint64_t seed; GzOpts() : level(6), strategy(0), memLevel(8), wbits(15), extra(false), name(false), comment(false), hcrc(false), flushEvery(0), seed(0) {} };
GzOpts randomGz(Rng& r);
Bytes gzEncode(const Bytes& d, const GzOpts& o);
Bytes zlibEncode(const Bytes& d, const GzOpts& o);
Bytes rawDeflate(const Bytes& d, const GzOpts& o);
Bytes bz2Encode(const Bytes& d, int block, int work);
struct LzOpts { uint32_t dict; bool known; int mode, nice, mf, depth; LzOpts() : dict(4096), known(false), mode(0), nice(0), mf(0), depth(0) {} };
LzOpts randomLz(Rng& r);
Bytes lzmaEncode(const Bytes& d, const LzOpts& o);
// LZMA written symbol by symbol: any distance and length, repeats at the edges
// of the dictionary, and (bad > 0) references that lead out of it
struct LzSyms { Bytes encoded, content; bool known; uint32_t dict; std::string note; };
LzSyms lzmaSymbols(Rng& r, int64_t maxSize, int bad);
const int lzmaBadKinds = 6;
// oracle for C35; wbits 31 reads gzip, rest allows bytes after the end
Bytes zlibDecode(const Bytes& d, bool& complete, int wbits = 15, bool rest = false);
uint32_t crc32of(const Bytes& d);
#endif
