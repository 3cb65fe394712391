#include "streams.h"
#include <strigi/stringstream.h>
using namespace Strigi;
template <class T> std::basic_string<T> conv(const Bytes& b, Rng& r);
template <> std::basic_string<char> conv<char>(const Bytes& b, Rng&) { return b; }
template <> std::basic_string<wchar_t> conv<wchar_t>(const Bytes& b, Rng& r) {
    std::wstring w(b.size(), 0);
    for (size_t i = 0; i < b.size(); ++i) w[i] = (unsigned char)b[i] + (wchar_t)(r.below(4) * 0x3041);
    return w;
}
template <class T> static void one(Case& c) {
    std::basic_string<T> d = conv<T>(randomContent(c.rng, c.thorough ? 300000 : 20000), c.rng);
    bool copy = c.rng.chance(1, 2);
    bool zero = c.rng.chance(1, 4);  // let it find the length itself
    if (zero) { size_t z = d.find((T)0); if (z != d.npos) d.resize(z); }
    // exact-size heap block without terminator when the length is given
    size_t n = d.size() + (zero ? 1 : 0);
    T* buf = (T*)malloc(n * sizeof(T) ? n * sizeof(T) : 1);
    memcpy(buf, d.data(), d.size() * sizeof(T));
    if (zero) buf[d.size()] = 0;
    c.note = fmt("%s copy=%d len=%zu%s", sizeof(T) == 1 ? "bytes" : "wide", copy, d.size(), zero ? " (0-terminated)" : "");
    {
        StringStream<T> s(buf, zero ? -1 : (int32_t)d.size(), copy);
        if (copy) { memset(buf, 0x5a, n * sizeof(T)); free(buf); buf = 0; }
        MonOpts o; o.fullSeek = true;
        {
            Mon<T> m(c, &s, d, "mem", o);
            REQ(c, s.size() == (int64_t)d.size(), "mem:size", "size not known at once");
            // 64-bit skips
            if (c.rng.chance(1, 3)) {
                m.skip(c.rng.below(d.size() + 1));
                int64_t big = c.rng.chance(1, 2) ? (1LL << (32 + c.rng.below(20))) + c.rng.below(d.size() + 10) : 0x7fffffffLL + c.rng.below(5);
                m.skip(big);
                c.count("skips_64bit");
                m.reset(c.rng.below(d.size() + 1));
            }
            m.run(c.rng, 5 + (int)c.rng.below(60));
            c.count(copy ? "copied" : "borrowed");
        }
    }
    if (buf) {
        REQ(c, memcmp(buf, d.data(), d.size() * sizeof(T)) == 0, "mem:borrowed-changed", "borrowed buffer was changed");
        free(buf);
    }
    c.sample(c.note);
}
void registerSuites() {
    g_rule = "one case = one random content, one in-memory stream (byte or wide, copying or borrowing) and one random history of read/skip/reset calls ending in a drain; every call is checked against the model. Non-trivial: distinct (content, history, positions and statuses seen).";
    addSuite("bytes", 6000, 120000, one<char>);
    addSuite("wide", 4000, 80000, one<wchar_t>);
    need("reads", 10000); need("skips", 2000); need("resets_in_segment", 1000); need("ends_seen", 3000); need("skips_64bit", 100);
}
