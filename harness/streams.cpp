#include "streams.h"
std::string InputPolicy::str() const {
    static const char* ch[] = { "all", "min", "rnd", "fix" };
    return fmt("in{%s%s,%s,%s,%s}", ch[chunk], chunk == 3 ? fmt("%lld", (long long)n).c_str() : "", knowSize ? "size" : "nosize", eagerEof ? "eager" : "lazy", reset ? "segreset" : "seek");
}
InputPolicy randomPolicy(Rng& r, bool fullReset) {
    InputPolicy p;
    p.chunk = (int)r.below(4);
    static const int64_t sizes[] = { 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64, 100, 127, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 65536 };
    p.n = r.chance(1, 3) ? 1 + (int64_t)r.below(40) : sizes[r.below(sizeof sizes / sizeof *sizes)];
    p.knowSize = r.chance(1, 2);
    p.eagerEof = r.chance(1, 2);
    p.reset = fullReset ? 0 : (int)r.below(2);
    p.freshBuf = true;
    p.seed = r.next();
    return p;
}
ReadResult readAll(Case& c, InputStream* s, Rng& r, int64_t maxBytes, int mode) {
    ReadResult o;
    if (mode < 0) mode = (int)r.below(3);
    while (true) {
        const char* p = 0;
        int32_t min = 1, max = 0;
        if (mode == 1) { min = 1 + (int32_t)r.len(4000); max = r.chance(1, 2) ? min : 0; }
        else if (mode == 2) { min = 1; max = 1 + (int32_t)r.len(70000); }
        int32_t n = s->read(p, min, max);
        o.last = n;
        if (n <= 0) break;
        o.data.append(p, n);
        if ((int64_t)o.data.size() > maxBytes) break;
    }
    o.status = s->status();
    o.error = s->error() ? s->error() : "";
    (void)c;
    return o;
}
Bytes textContent(Rng& r, int64_t len) {
    static const char* words[] = { "alpha ", "stream ", "\n", "the quick brown fox ", "0", "data\t", "lazy dog. ", "aaaaaaaa", "From: x\r\n", "zip" };
    Bytes b;
    while ((int64_t)b.size() < len) b += words[r.below(10)];
    b.resize(len);
    return b;
}
Bytes randomContent(Rng& r, int64_t maxLen) {
    int64_t n = r.len(maxLen);
    Bytes b;
    switch (r.below(6)) {
    case 0: b.assign(n, (char)r.below(256)); break;
    case 1: b = textContent(r, n); break;
    case 2: { // few letters
        b.resize(n);
        int k = 2 + (int)r.below(3);
        for (int64_t i = 0; i < n; ++i) b[i] = (char)('a' + r.below(k));
        break; }
    case 3: { // runs
        while ((int64_t)b.size() < n) b.append(1 + r.below(300), (char)r.below(256));
        b.resize(n);
        break; }
    default:
        b.resize(n);
        for (int64_t i = 0; i < n; ++i) b[i] = (char)r.next();
    }
    return b;
}
