#include "streams.h"
#include <sys/mman.h>
#include <strigi/kmpsearcher.h>
using namespace Strigi;
static void checkOne(Case& c, const KmpSearcher& k, const Bytes& pat, const Bytes& text) {
    // exact-size heap block: looking outside is reported by AddressSanitizer
    char* t = (char*)malloc(text.size() ? text.size() : 1);
    memcpy(t, text.data(), text.size());
    const char* r = k.search(t, (int32_t)text.size());
    int64_t got = r ? r - t : -1;
    free(t);
    size_t w = text.find(pat);
    int64_t want = w == text.npos ? -1 : (int64_t)w;
    c.count("searches"); c.count(want < 0 ? "absent" : "present");
    REQ(c, got == want, "kmp:position", "pattern %s in %zu bytes %s: found at %lld, first occurrence is %lld", hex(pat, 40).c_str(), text.size(), hex(text, 60).c_str(), (long long)got, (long long)want);
    c.distinct(mix(hashStr(pat), hashStr(text)));
}
static Bytes letters(Rng& r, int64_t n, int k, char base) { Bytes b(n, 0); for (int64_t i = 0; i < n; ++i) b[i] = (char)(base + r.below(k)); return b; }
static Bytes periodic(Rng& r, int64_t n) {
    Bytes u = letters(r, 1 + r.below(5), 2, 'a'), b;
    while ((int64_t)b.size() < n) { b += u; if (r.chance(1, 10)) b += letters(r, 1, 3, 'a'); }
    b.resize(n);
    return b;
}
static void randomPairs(Case& c) {
    KmpSearcher k;
    REQ(c, k.search("abc", 3) == 0, "kmp:unset", "a searcher without pattern finds something");
    int rounds = 1 + (int)c.rng.below(4);
    for (int i = 0; i < rounds; ++i) { // reused with shorter and longer patterns
        Bytes pat, text;
        int64_t pl = 1 + c.rng.len(c.rng.chance(1, 6) ? 600 : 12);
        switch (c.rng.below(4)) {
        case 0: pat = letters(c.rng, pl, 2, 'a'); text = letters(c.rng, c.rng.len(400), 2, 'a'); break;
        case 1: pat = periodic(c.rng, pl); text = periodic(c.rng, c.rng.len(600)); break;
        case 2: pat = letters(c.rng, pl, 3, (char)0xfe); text = letters(c.rng, c.rng.len(400), 3, (char)0xfe); break;
        default: pat = randomContent(c.rng, pl); if (pat.empty()) pat = "x"; text = randomContent(c.rng, 3000); break;
        }
        if (c.rng.chance(1, 2)) { // plant it, possibly at the very end or start
            size_t at = c.rng.chance(1, 3) ? text.size() : c.rng.chance(1, 3) ? 0 : c.rng.below(text.size() + 1);
            text.insert(at, pat);
            if (c.rng.chance(1, 3)) text.resize(text.size() - (c.rng.chance(1, 2) ? 1 : 0));
        }
        // sub-text as pattern
        if (c.rng.chance(1, 4) && text.size() > 2) { size_t a = c.rng.below(text.size()); pat = text.substr(a, 1 + c.rng.below(text.size() - a < 300 ? text.size() - a : 300)); if (c.rng.chance(1, 3)) pat[c.rng.below(pat.size())] ^= 1; }
        c.note = fmt("pattern of %zu, text of %zu bytes", pat.size(), text.size());
        if (c.rng.chance(1, 3)) { KmpSearcher k2(pat); REQ(c, k2.queryLength() == (int)pat.size() && k2.query() == pat, "kmp:query", "query() differs"); checkOne(c, k2, pat, text); }
        k.setQuery(pat);
        REQ(c, k.queryLength() == (int)pat.size() && k.query() == pat, "kmp:query", "query() differs from the pattern set");
        checkOne(c, k, pat, text);
        checkOne(c, k, pat, text.substr(text.size() / 2));
    }
    c.sample(c.note);
}
// every pattern up to length 6 over {a,b} against every text up to length 10 over {a,b}
static void exhaustive(Case& c) {
    uint64_t i = c.idx;
    int pl = 1; while (i >= (1ull << pl)) { i -= 1ull << pl; ++pl; }
    Bytes pat(pl, 'a');
    for (int k = 0; k < pl; ++k) if (i >> k & 1) pat[k] = (char)0xe1;
    KmpSearcher k(pat);
    int top = c.thorough ? 14 : 11;
    c.note = "all texts over two letters, pattern " + hex(pat);
    char buf[16];
    for (int tl = 0; tl <= top; ++tl) for (uint32_t v = 0; v < (1u << tl); ++v) {
        Bytes t(tl, 'a');
        for (int x = 0; x < tl; ++x) if (v >> x & 1) t[x] = (char)0xe1;
        memcpy(buf, t.data(), tl);
        const char* r = k.search(buf, tl);
        size_t w = t.find(pat);
        int64_t want = w == t.npos ? -1 : (int64_t)w, got = r ? r - buf : -1;
        if (got != want) c.fail("kmp:position", "pattern %s in %s: found at %lld, first occurrence is %lld", hex(pat).c_str(), hex(t).c_str(), (long long)got, (long long)want);
    }
    c.count("searches", (1u << (top + 1)) - 1); c.count("exhaustive_patterns");
    c.distinct(mix(999, hashStr(pat)));
}
// texts made of pieces of the pattern: one mismatch after another, each with a lot remembered
static void pieces(Case& c) {
    KmpSearcher k;
    for (int round = 0; round < 10; ++round) {
        int a = 2 + (int)c.rng.below(4);
        Bytes pat = letters(c.rng, 2 + c.rng.below(c.rng.chance(1, 4) ? 50 : 14), a, 'a');
        k.setQuery(pat);
        for (int i = 0; i < 30; ++i) {
            size_t n = c.rng.below(c.rng.chance(1, 4) ? 200 : 45);
            Bytes text;
            int mix3 = 1 + (int)c.rng.below(4);
            while (text.size() < n) {
                if (c.rng.below(4) < (uint64_t)mix3) { size_t f = c.rng.below(pat.size()); text += pat.substr(f, 1 + c.rng.below(pat.size() - f)); }
                else text += (char)('a' + c.rng.below(a));
            }
            if (c.rng.chance(1, 2)) text += pat;
            const char* r = k.search(text.data(), (int32_t)text.size());
            size_t w = text.find(pat);
            int64_t want = w == text.npos ? -1 : (int64_t)w, got = r ? r - text.data() : -1;
            REQ(c, got == want, "kmp:position", "pattern %s in %zu bytes %s: found at %lld, first occurrence is %lld", pat.c_str(), text.size(), text.c_str(), (long long)got, (long long)want);
            c.distinct(mix(hashStr(pat), hashStr(text)));
        }
    }
    c.count("searches", 300); c.count("searches_in_pieces", 300);
    c.note = "texts made of pieces of the pattern";
}
// three letters
static void exhaustive3(Case& c) {
    uint64_t i = c.idx;
    uint64_t pw = 3; int pl = 1;
    while (i >= pw) { i -= pw; pw *= 3; ++pl; }
    Bytes pat;
    for (int k = 0; k < pl; ++k) { pat += (char)("a\x80z"[i % 3]); i /= 3; }
    KmpSearcher k(pat);
    c.note = "all texts over three letters, pattern " + hex(pat);
    int top = c.thorough ? 9 : 7;
    uint64_t n = 1;
    for (int tl = 0; tl <= top; ++tl, n *= 3) for (uint64_t v = 0; v < n; ++v) {
        char buf[16]; uint64_t y = v;
        for (int x = 0; x < tl; ++x) { buf[x] = "a\x80z"[y % 3]; y /= 3; }
        Bytes t(buf, tl);
        const char* r = k.search(buf, tl);
        size_t w = t.find(pat);
        int64_t want = w == t.npos ? -1 : (int64_t)w, got = r ? r - buf : -1;
        if (got != want) c.fail("kmp:position", "pattern %s in %s: found at %lld, first occurrence is %lld", hex(pat).c_str(), hex(t).c_str(), (long long)got, (long long)want);
        c.count("searches");
    }
    c.count("exhaustive_patterns");
    c.distinct(mix(998, hashStr(pat)));
}
// a text as long as lengths can say
static void longest(Case& c) {
    int32_t n = 0x7fffffff - (int32_t)(c.idx / 2);
    static char* t = 0;
    if (!t) t = (char*)mmap(0, 0x80000000ULL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    REQ(c, t != (char*)MAP_FAILED, "longest:memory", "no memory");
    Bytes pat = c.rng.chance(1, 2) ? Bytes(1 + c.rng.below(40), '\0') + "x" : Bytes("needle");
    bool in = c.idx % 2;
    int64_t at = n - (int64_t)pat.size() - (int64_t)c.rng.below(3);
    if (in) memcpy(t + at, pat.data(), pat.size());
    KmpSearcher k(pat);
    const char* f = k.search(t, n);
    if (in) memset(t + at, 0, pat.size());
    const char* want = in ? t + at : 0;
    REQ(c, f == want, "longest:position", "found at %lld, expected %lld of %d", (long long)(f ? f - t : -1), (long long)(want ? at : -1), n);
    c.count("longest_texts"); c.distinct(c.idx * 7 + pat.size());
}
void registerSuites() {
    g_rule = "random pattern/text pairs (two- and three-letter alphabets including bytes above 127, periodic texts, planted and nearly planted occurrences, searcher reused) compared with std::string::find on exact-size heap texts, plus every pattern up to length 8 over two letters against every text up to length 11 (thorough: 14) and every pattern up to length 5 over three letters against every text up to length 7 (9). Non-trivial: distinct (pattern, text).";
    addSuite("longest", 2, 40, longest, 200, 4);
    need("longest_texts", 2);
    addSuite("random", 40000, 800000, randomPairs);
    addSuite("pieces", 16000, 400000, pieces);
    need("searches_in_pieces", 1000000);
    addSuite("exhaustive2", 510, 510, exhaustive);
    addSuite("exhaustive3", 363, 363, exhaustive3);
    need("searches", 100000); need("present", 20000); need("absent", 20000); need("exhaustive_patterns", 500);
}
