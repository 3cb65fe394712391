#include "archives.h"
#include <iconv.h>
#include "codecs.h"
#include <strigi/tarinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <time.h>
#include <algorithm>
#include <set>
using namespace Strigi;

const char* const g_formats[] = { "tar", "cpio", "ar", "zip", "rpm", "mail", "sdf", "ole" };
const int g_nformats = 8;

// ---- names and contents -----------------------------------------------------
static Bytes segment(Rng& r, int n) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+=,.~# ";
    Bytes s;
    for (int i = 0; i < n; ++i) s += cs[r.below(i ? sizeof cs - 1 : 52)];
    while (!s.empty() && s[s.size() - 1] == ' ') s[s.size() - 1] = 'z';
    return s;
}
// one component of a member name: names are not limited to simple characters
static Bytes nameSegment(Rng& r, int n) {
    if (r.chance(3, 4)) return segment(r, n);
    static const char cs[] = ":;!@%&()[]{}'\"\\*?<>|^$`=, abcABC019.-_";
    Bytes s;
    int style = (int)r.below(3);
    while ((int)s.size() < n) {
        if (style == 0 || r.chance(1, 3)) s += cs[r.below(s.empty() ? sizeof cs - 8 : sizeof cs - 1)];
        else if (style == 1) s += (char)r.range(0x80, 0xff);
        else if (n - (int)s.size() >= 3 && r.chance(1, 2)) { unsigned v = 0x4e00 + (unsigned)r.below(0x5000); s += (char)(0xe0 | v >> 12); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); }
        else if (n - (int)s.size() >= 2) { unsigned v = 0xa1 + (unsigned)r.below(0x700); s += (char)(0xc0 | v >> 6); s += (char)(0x80 | (v & 63)); }
        else s += 'z';
    }
    if (s[s.size() - 1] == ' ' || s[s.size() - 1] == '.') s[s.size() - 1] = 'z';
    return s;
}
static Bytes path(Rng& r, int len) {
    if (len < 1) len = 1;
    Bytes s;
    while ((int)s.size() < len) {
        int left = len - (int)s.size();
        int k = left <= 2 ? left : (r.chance(1, 2) ? left : 1 + (int)r.below(left > 30 ? 30 : left));
        if (left - k == 1) k = left; // no room for a slash and a name
        s += nameSegment(r, k);
        if ((int)s.size() < len) s += '/';
    }
    if (r.chance(1, 8) && s.size() > 3) { size_t i = 1 + r.below(s.size() - 2); if (s[i] != '/' && s[i - 1] != '/') s[i] = (char)(0x80 + r.below(0x80)); }
    return s;
}
// now and then a name far longer than any buffer, up to what the format can record
static int longLen(Rng& r, int len, int limit) {
    if (!r.chance(1, 50)) return len;
    int n = r.chance(1, 2) ? 2000 + (int)r.below(6000) : r.chance(4, 5) ? 8000 + (int)r.below(62000) : 70000 + (int)r.below(970000);
    return r.chance(1, 6) || n > limit ? limit : n;
}
static Bytes body(Rng& r, const GenOpts& o) {
    if (!o.contents.empty() && r.chance(1, 2)) return r.pick(o.contents);
    switch (r.below(8)) {
    case 0: return Bytes();
    case 1: { Bytes b = randomContent(r, o.maxSize); b.resize(512 * r.below(o.maxSize / 512 + 1) + (int)r.below(3) , 'q'); return b; }
    case 2: { Bytes b(r.below(9), 'x'); return b; }
    default: return randomContent(r, o.maxSize);
    }
}
static void plain(Rng& r, const GenOpts& o, std::vector<Member>& v, int maxName, bool dirs, bool linkData = false, bool others = false) {
    std::set<Bytes> used;
    std::vector<Bytes> dirNames;
    int n = 1 + (int)r.below(o.maxMembers);
    for (int i = 0; i < n; ++i) {
        Member m;
        Bytes base = dirNames.empty() || r.chance(1, 3) ? Bytes() : r.pick(dirNames) + "/";
        bool dir = dirs && r.chance(1, 4);
        bool other = others && o.unknowns && !dir && r.chance(1, 8);
        m.type = dir ? T_DIR : other ? T_UNKNOWN : T_FILE;
        m.name = base + nameSegment(r, 1 + (int)r.below(12));
        if (other) { if (linkData && r.chance(1, 2)) m.data = segment(r, 1 + (int)r.below(40)); }
        else if (!dir && !o.contents.empty() && r.chance(1, 2)) { size_t k = r.below(o.contents.size()); m.data = o.contents[k]; m.name += o.contentNames[k]; }
        else if (!dir) { GenOpts q = o; q.contents.clear(); m.data = body(r, q); }
        if ((int)m.name.size() > maxName || !used.insert(m.name).second) continue;
        if (dir) dirNames.push_back(m.name);
        m.mtime = 1 + r.below(0x7ffffffe);
        v.push_back(m);
    }
    if (o.lateDirs) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    if (o.implicitDirs) for (size_t i = v.size(); i-- > 0;) if (v[i].type == T_DIR && r.chance(2, 3)) v.erase(v.begin() + i);
    if (v.empty()) { Member m; m.name = "x"; m.data = "y"; m.mtime = 5; v.push_back(m); }
}
static std::string oct(uint64_t v, int w) { char b[40]; snprintf(b, sizeof b, "%0*llo", w, (unsigned long long)v); return b; }

// ---- tar --------------------------------------------------------------------
static void octField(Rng& r, Bytes& h, int off, int width, uint64_t v, bool needNulEnd) {
    // width includes the terminator; leading zeros or leading spaces, ended by NUL, space or both
    Bytes d = oct(v, 1), f;
    int room = width - 1;
    int style = (int)r.below(4);
    if (style == 0 || style == 1) f = Bytes(room - d.size(), '0') + d + (style == 0 || needNulEnd ? '\0' : ' ');
    else if (style == 2) f = Bytes(room - d.size(), ' ') + d + (r.chance(1, 2) || needNulEnd ? '\0' : ' ');
    else {
        size_t z = (int)d.size() < room ? r.below(room - d.size()) : 0;
        f = Bytes(z, '0') + d;
        if ((int)f.size() < room && !needNulEnd) f += ' ';
        f.resize(width, '\0');
    }
    h.replace(off, width, f.substr(0, width));
}
static Bytes tarHeader(Rng& r, const Bytes& name, char type, uint64_t size, uint64_t mtime, int style, const Bytes& prefix, const Bytes& target = Bytes()) {
    Bytes h(512, '\0');
    h.replace(0, name.size() < 100 ? name.size() : 100, name.substr(0, 100));
    octField(r, h, 100, 8, r.below(07777), true);
    octField(r, h, 108, 8, r.below(07777777), true);
    octField(r, h, 116, 8, r.below(07777777), true);
    octField(r, h, 124, 12, size, false);
    octField(r, h, 136, 12, mtime, false);
    h[156] = type;
    h.replace(157, std::min<size_t>(target.size(), 100), target.substr(0, 100));
    if (style >= 1) {
        if (style == 1) h.replace(257, 8, Bytes("ustar\0" "00", 8));
        else h.replace(257, 8, Bytes("ustar  \0", 8));
        Bytes u = segment(r, 1 + (int)r.below(31)), g = segment(r, 1 + (int)r.below(31));
        h.replace(265, u.size(), u); h.replace(297, g.size(), g);
        h.replace(329, 7, "0000000");
        h.replace(337, 7, "0000000");
        if (style == 1) h.replace(345, prefix.size(), prefix);
        else if (r.chance(1, 4)) { octField(r, h, 345, 12, r.below(1 << 30), true); octField(r, h, 357, 12, r.below(1 << 30), true); } // GNU atime, ctime
    }
    h.replace(148, 8, "        ");
    unsigned sum = 0;
    for (int i = 0; i < 512; ++i) sum += (unsigned char)h[i];
    Bytes s = oct(sum, 6);
    h.replace(148, 6, s); h[154] = 0; h[155] = ' ';
    return h;
}
static void pad(Bytes& b, int64_t to) { if (b.size() % to) b.append(to - b.size() % to, '\0'); }
Archive genTar(Rng& r, const GenOpts& o) {
    Archive a; a.format = "tar";
    std::vector<Member>& v = a.members;
    int style = (int)r.below(3);
    if (o.plainNames) plain(r, o, v, 90, true, false, true);
    else {
        int n = (int)r.below(o.maxMembers + 1);
        for (int i = 0; i < n; ++i) {
            Member m;
            m.type = r.chance(1, 4) ? T_DIR : r.chance(1, 12) ? T_UNKNOWN : T_FILE;
            int len;
            switch (r.below(6)) { case 0: len = 1 + r.below(4); break; case 1: len = 96 + r.below(5); break; case 2: len = 98 + r.below(60); break; case 3: len = 100 + r.below(600); break; default: len = 1 + r.below(60); }
            if (style == 0 && len > 100) len = 100;
            if (style == 1 && len > 255) len = 60;
            if (style == 2) len = longLen(r, len, 1048572);
            m.name = path(r, len);
            if (m.type == T_FILE) m.data = body(r, o);
            if (m.type == T_UNKNOWN && style == 1 && r.chance(1, 3)) { Bytes v2 = segment(r, 1 + (int)r.below(400)); m.data = fmt("%d comment=", (int)v2.size() + 13) + v2 + "\n"; }
            m.mtime = r.chance(1, 6) ? (int64_t)r.below(1ull << 33) : (int64_t)r.below(1u << 31);
            v.push_back(m);
        }
    }
    Bytes& b = a.bytes;
    bool dot = r.chance(1, 4);
    if (dot && r.chance(1, 2)) b += tarHeader(r, "./", '5', 0, 1000, style, "");
    int longs = 0, prefixes = 0, onlyPrefixes = 0;
    for (Member& m : v) {
        m.head = b.size();
        Bytes n = m.name, prefix;
        bool slash = m.type == T_DIR && (style == 0 || r.chance(2, 3));   // old archives mark directories by the slash too
        char type = m.type == T_DIR ? '5' : (style == 0 ? (r.chance(1, 2) ? '\0' : '0') : '0');
        // a symbolic link, a hard link, a device, a pipe; or the attributes of the next member
        if (m.type == T_UNKNOWN) type = m.data.empty() ? r.chance(1, 2) ? '2' : "1346"[r.below(4)] : "xg"[r.below(2)];
        if (dot && (style || n.size() < 97)) n = "./" + n;
        if (slash) n += '/';
        Bytes target;
        if (type == '1' || type == '2') target = path(r, r.chance(1, 2) ? 1 + (int)r.below(60) : 90 + (int)r.below(300));
        if (style != 2 && target.size() > 100) target.resize(100);
        bool kFirst = r.chance(1, 2);
        Bytes K;
        if (target.size() > 100) { K = tarHeader(r, "././@LongLink", 'K', target.size() + 1, 0, 2, "") + target; K += '\0'; pad(K, 512); ++longs; }
        if (kFirst) b += K;
        bool fits = n.size() <= 100;
        if (!fits || (style == 1 && r.chance(1, 8))) {
            bool done = fits;
            if (style == 1) {
                // the slash between the two may be any, and for a directory the one at the end
                std::vector<size_t> ks;
                for (size_t k = n.size() > 101 ? n.size() - 101 : 0; k < n.size() && k <= 155; ++k)
                    if (n[k] == '/' && k > 0) ks.push_back(k);
                if (!ks.empty()) {
                    size_t k = r.chance(1, 2) ? ks.back() : r.pick(ks);
                    prefix = n.substr(0, k); n = n.substr(k + 1); done = true; ++prefixes;
                    if (n.empty()) ++onlyPrefixes;
                }
            }
            if (!done) {
                if (style == 2) {
                    ++longs;
                    b += tarHeader(r, "././@LongLink", 'L', n.size() + 1, 0, 2, "");
                    b += n; b += '\0'; pad(b, 512);
                    n = n.substr(0, 100);
                } else { // does not fit: shorten
                    m.name.resize(99 - (dot ? 2 : 0));
                    while (m.name[m.name.size() - 1] == '/') m.name[m.name.size() - 1] = 'k';
                    n = m.name;
                    if (slash) n += '/';
                }
            }
        }
        if (!kFirst) b += K;
        b += tarHeader(r, n, type, m.data.size(), m.mtime, style, prefix, target);
        m.dataStart = b.size();
        b += m.data;
        m.dataEnd = b.size();
        pad(b, 512);
        m.next = b.size();
    }
    int end = r.chance(1, 3) ? 0 : (int)r.below(20);
    b.append(1024 + 512 * end, '\0');
    a.features["long_names"] = longs; a.features["prefixed_names"] = prefixes; a.features["names_all_in_the_prefix"] = onlyPrefixes; a.features[style == 0 ? "old_archives" : style == 1 ? "ustar_archives" : "gnu_archives"] = 1;
    a.note = fmt("tar style %d, %zu members, %d long, %d prefixed, %d extra blocks", style, v.size(), longs, prefixes, end);
    return a;
}

// ---- cpio -------------------------------------------------------------------
static Bytes hex8(Rng& r, uint32_t v, bool upper) { (void)r; char t[16]; snprintf(t, sizeof t, upper ? "%08X" : "%08x", v); return t; }
static void cpioEntry(Rng& r, Bytes& b, const Bytes& name, uint32_t mode, const Bytes& data, uint32_t mtime, Member* m, bool upper) {
    if (m) m->head = b.size();
    Bytes h = "070701";
    uint32_t f[13] = { (uint32_t)r.next(), mode, (uint32_t)r.below(70000), (uint32_t)r.below(70000), 1 + (uint32_t)r.below(3), mtime, (uint32_t)data.size(), (uint32_t)r.below(256), (uint32_t)r.below(256), 0, 0, (uint32_t)name.size() + 1, 0 };
    for (int i = 0; i < 13; ++i) h += hex8(r, f[i], upper);
    b += h; b += name; b += '\0';
    while (b.size() % 4) b += '\0';
    if (m) m->dataStart = b.size();
    b += data;
    if (m) m->dataEnd = b.size();
    while (b.size() % 4) b += '\0';
    if (m) m->next = b.size();
}
Bytes writeCpio(Rng& r, std::vector<Member>& v) {
    Bytes b;
    bool upper = r.chance(1, 2), mixed = r.chance(1, 4), dot = r.chance(1, 4);
    for (Member& m : v) {
        Bytes n = m.name;
        if (dot && n.size() > 2) n = "./" + n;
        static const uint32_t others[] = { 0010644, 0020644, 0060644, 0140755 };
        cpioEntry(r, b, n, m.type == T_DIR ? 040755 : m.type == T_FILE ? 0100644 : m.data.empty() ? others[r.below(4)] : 0120777, m.data, (uint32_t)m.mtime, &m, mixed ? r.chance(1, 2) : upper);
    }
    cpioEntry(r, b, "TRAILER!!!", 0, "", 0, 0, upper);
    if (r.chance(1, 2)) pad(b, 512);
    return b;
}
static void cpioMembers(Rng& r, const GenOpts& o, std::vector<Member>& v) {
    if (o.plainNames) { plain(r, o, v, 200, true, true, true); return; }
    int n = (int)r.below(o.maxMembers + 1);
    for (int i = 0; i < n; ++i) {
        Member m;
        m.type = r.chance(1, 5) ? T_DIR : r.chance(1, 10) ? T_UNKNOWN : T_FILE;
        if (m.type == T_UNKNOWN && r.chance(1, 2)) m.data = path(r, 1 + (int)r.below(200));   // the target of a symbolic link
        m.name = path(r, longLen(r, r.chance(1, 6) ? 1 + (int)r.below(2000) : 1 + (int)r.below(40), 1048573));
        if (m.type == T_FILE) m.data = body(r, o);
        m.mtime = r.chance(1, 6) ? (int64_t)r.below(1ull << 32) : (int64_t)r.below(1u << 31);
        v.push_back(m);
    }
}
Archive genCpio(Rng& r, const GenOpts& o) {
    Archive a; a.format = "cpio";
    cpioMembers(r, o, a.members);
    a.bytes = writeCpio(r, a.members);
    a.note = fmt("cpio, %zu members", a.members.size());
    return a;
}

// ---- ar ---------------------------------------------------------------------
static void arHeader(Bytes& b, const Bytes& name, const Bytes& mtime, uint64_t size, Rng& r) {
    char t[80];
    snprintf(t, sizeof t, "%-16s%-12s%-6llu%-6llu%-8s%-10llu`\n", name.c_str(), mtime.c_str(), (unsigned long long)r.below(100000), (unsigned long long)r.below(100000), r.chance(1, 2) ? "100644" : "644", (unsigned long long)size);
    b.append(t, 60);
}
Archive genAr(Rng& r, const GenOpts& o) {
    Archive a; a.format = "ar";
    std::vector<Member>& v = a.members;
    bool slash = r.chance(1, 2);
    std::vector<bool> tabled;
    int n = (int)r.below(o.maxMembers + 1);
    if (o.plainNames && n == 0) n = 1;
    std::set<Bytes> used;
    bool forceTable = r.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        Member m;
        int len = r.chance(1, 3) ? 14 + (int)r.below(40) : 1 + (int)r.below(17);
        Bytes s = nameSegment(r, len);
        if (!o.contents.empty() && r.chance(1, 2)) { size_t k = r.below(o.contents.size()); m.data = o.contents[k]; s = segment(r, 4) + o.contentNames[k]; }
        else { GenOpts q = o; q.contents.clear(); m.data = body(r, q); }
        bool space = s.find(' ') != Bytes::npos;
        bool table = (int)s.size() > (slash ? 15 : 16) || (space && !slash) || (forceTable && r.chance(1, 2));
        if (space && !table) a.features["short_names_with_spaces"] += 1;
        if (o.plainNames && !used.insert(s).second) continue;
        m.name = s;
        m.mtime = r.chance(1, 6) ? (int64_t)r.below(1ull << 33) : (int64_t)r.below(1u << 31);
        v.push_back(m);
        tabled.push_back(table);
    }
    Bytes table;
    std::vector<size_t> off(v.size());
    for (size_t i = 0; i < v.size(); ++i) if (tabled[i]) { off[i] = table.size(); table += v[i].name + "/\n"; }
    Bytes& b = a.bytes;
    b = "!<arch>\n";
    a.gaps.push_back(b.size());
    bool sym = r.chance(1, 3);
    if (sym) {
        Bytes s = randomContent(r, 300);
        arHeader(b, "/", "0", s.size(), r); b += s; a.gaps.push_back(b.size()); if (b.size() % 2) b += '\n'; a.gaps.push_back(b.size());
    }
    if (!table.empty()) {
        arHeader(b, "//", "", table.size(), r); b += table; a.gaps.push_back(b.size()); if (b.size() % 2) b += '\n'; a.gaps.push_back(b.size());
    }
    for (size_t i = 0; i < v.size(); ++i) {
        Member& m = v[i];
        m.head = b.size();
        arHeader(b, tabled[i] ? fmt("/%zu", off[i]) : slash ? m.name + "/" : m.name, fmt("%lld", (long long)m.mtime), m.data.size(), r);
        m.dataStart = b.size();
        b += m.data;
        m.dataEnd = b.size();
        bool last = i + 1 == v.size();
        if (b.size() % 2 && !(last && r.chance(1, 4))) b += '\n';
        m.next = b.size();
    }
    for (bool t : tabled) a.features["table_names"] += t; a.features["symbol_tables"] = sym;
    a.note = fmt("ar, %zu members, table %zu, %s%s", v.size(), table.size(), slash ? "slash " : "", sym ? "symbols" : "");
    return a;
}

// ---- zip --------------------------------------------------------------------
static void le16(Bytes& b, uint32_t v) { b += (char)v; b += (char)(v >> 8); }
static void le32(Bytes& b, uint32_t v) { le16(b, v); le16(b, v >> 16); }
static int64_t dosOracle(int Y, int M, int D, int h, int m, int s) {
    struct tm t; memset(&t, 0, sizeof t);
    t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = m; t.tm_sec = s; t.tm_isdst = -1;
    return mktime(&t);
}
static bool oneTime(int Y, int M, int D, int h, int m, int s) {
    int64_t t = dosOracle(Y, M, D, h, m, s);
    for (int d = -2; d <= 2; ++d) {
        time_t u = t + d * 3600; struct tm l; localtime_r(&u, &l);
        bool same = l.tm_year == Y - 1900 && l.tm_mon == M - 1 && l.tm_mday == D && l.tm_hour == h && l.tm_min == m && l.tm_sec == s;
        if (same != (d == 0)) return false;
    }
    return true;
}
Archive genZip(Rng& r, const GenOpts& o) {
    Archive a; a.format = "zip";
    std::vector<Member>& v = a.members;
    if (o.plainNames) plain(r, o, v, 200, true);
    else {
        int n = (int)r.below(o.maxMembers + 1);
        for (int i = 0; i < n; ++i) {
            Member m;
            m.type = r.chance(1, 5) ? T_DIR : T_FILE;
            m.name = path(r, longLen(r, r.chance(1, 8) ? 1 + (int)r.below(3000) : 1 + (int)r.below(40), 65534));
            if (m.type == T_FILE) m.data = body(r, o);
            v.push_back(m);
        }
    }
    Bytes& b = a.bytes; Bytes central;
    int kinds = (int)r.below(5); // 4: mixed
    int ndesc = 0, nstored = 0;
    int comments = r.chance(1, 3) ? 1 : 0;
    for (Member& m : v) {
        m.head = b.size();
        int kind = kinds == 4 || kinds == 3 ? (int)r.below(4) : kinds; // 0 stored 1 deflated 2 descriptor with signature 3 descriptor without
        if (m.type == T_DIR) kind = 0;
        Bytes n = m.name + (m.type == T_DIR ? "/" : "");
        int Y = 1980 + (int)r.below(r.chance(1, 4) ? 128 : 60), M = 1 + (int)r.below(12), D = 1 + (int)r.below(28), hh = (int)r.below(24), mm = (int)r.below(60), ss = 2 * (int)r.below(30);
        // hours that the local clock shows twice or never, when it changes to or from summer time, name no time
        if (!oneTime(Y, M, D, hh, mm, ss)) hh = 12;
        m.mtime = dosOracle(Y, M, D, hh, mm, ss);
        uint32_t dos = (uint32_t)(Y - 1980) << 25 | M << 21 | D << 16 | hh << 11 | mm << 5 | ss / 2;
        GzOpts g = randomGz(r); g.wbits = 15;
        Bytes comp = kind == 0 ? m.data : rawDeflate(m.data, g);
        uint32_t crc = crc32of(m.data);
        if (kind == 0) ++nstored;
        if (kind >= 2) { ++ndesc; m.sizeInHeader = false; }
        Bytes extra;
        if (r.chance(1, 3)) { extra = Bytes("\x55\x54", 2); int k = r.chance(1, 20) ? 65531 - (int)r.below(r.chance(1, 4) ? 3 : 50000) : (int)r.below(r.chance(1, 5) ? 3000 : 20); le16(extra, k); for (int i = 0; i < k; ++i) extra += (char)r.next(); }
        Bytes h("PK\3\4", 4);
        le16(h, kind ? 20 : 10); le16(h, (kind >= 2 ? 8 : 0) | (r.chance(1, 3) ? 2 : 0) | (r.chance(1, 3) ? 0x800 : 0)); le16(h, kind ? 8 : 0);
        le32(h, dos);
        bool zeroed = kind >= 2 && r.chance(3, 4); // some writers put the values in the header as well
        le32(h, zeroed ? 0 : crc); le32(h, zeroed ? 0 : (uint32_t)comp.size()); le32(h, zeroed ? 0 : (uint32_t)m.data.size());
        le16(h, n.size()); le16(h, extra.size());
        size_t at = b.size();
        b += h; b += n; b += extra;
        m.dataStart = b.size();
        b += comp;
        m.dataEnd = b.size();
        if (kind >= 2) { if (kind == 2) b += Bytes("PK\7\10", 4); le32(b, crc); le32(b, comp.size()); le32(b, m.data.size()); }
        // some writers add a descriptor although the header has the sizes
        else if (kind == 1 && !o.exactEnds && r.chance(1, 12)) { b += Bytes("PK\7\10", 4); le32(b, crc); le32(b, comp.size()); le32(b, m.data.size()); }
        m.next = b.size();
        central += Bytes("PK\1\2", 4); le16(central, 20); central += h.substr(4, 10); le32(central, crc); le32(central, comp.size()); le32(central, m.data.size());
        Bytes more, comment;
        if (comments && r.chance(1, 2)) comment = randomContent(r, r.chance(1, 4) ? 3000 : 60);
        if (comments && r.chance(1, 4)) { more = Bytes("\x55\x54", 2); int k = (int)r.below(40); le16(more, k); while ((int)more.size() < k + 4) more += (char)r.next(); }
        le16(central, n.size()); le16(central, more.size()); le16(central, comment.size()); le16(central, 0); le16(central, 0); le32(central, 0); le32(central, at);
        central += n; central += more; central += comment;
    }
    size_t cat = b.size();
    b += central;
    b += Bytes("PK\5\6", 4); le16(b, 0); le16(b, 0); le16(b, v.size()); le16(b, v.size()); le32(b, central.size()); le32(b, cat);
    Bytes note;
    if (comments) note = randomContent(r, r.chance(1, 3) ? 5000 : r.chance(1, 2) ? 200 : 12);
    le16(b, note.size()); b += note;
    a.features["empty_archives"] = v.empty(); a.features["archive_comments"] = !note.empty();
    a.features["descriptors"] = ndesc; a.features["stored"] = nstored;
    a.note = fmt("zip, %zu members, %d stored, %d with descriptor", v.size(), nstored, ndesc);
    return a;
}

// ---- rpm --------------------------------------------------------------------
static void be32(Bytes& b, uint32_t v) { b += (char)(v >> 24); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; }
static Bytes rpmHeader(Rng& r, int maxEntries) {
    int n = 1 + (int)r.below(maxEntries);
    Bytes store;
    struct E { uint32_t tag, type, off, cnt; };
    std::vector<E> es;
    for (int i = 0; i < n; ++i) {
        E e; e.tag = 1000 + r.below(200); e.type = (uint32_t)r.below(10); e.cnt = 1;
        int al = e.type == 3 ? 2 : e.type == 4 ? 4 : e.type == 5 ? 8 : 1;
        while (store.size() % al) store += '\0';
        e.off = store.size();
        if (e.type == 3) store += "\1\2"; else if (e.type == 4) be32(store, (uint32_t)r.next()); else if (e.type == 5) { be32(store, 0); be32(store, (uint32_t)r.next()); }
        else if (e.type == 7) { e.cnt = 1 + r.below(300); for (uint32_t k = 0; k < e.cnt; ++k) store += (char)r.next(); }
        else if (e.type >= 6) { e.cnt = e.type == 6 ? 1 : 1 + r.below(5); for (uint32_t k = 0; k < e.cnt; ++k) { store += segment(r, 1 + (int)r.below(30)); store += '\0'; } }
        else store += (char)r.next();
        es.push_back(e);
    }
    if (r.chance(1, 3)) for (size_t i = es.size(); i > 1; --i) std::swap(es[i - 1], es[r.below(i)]); // entries need not be in storage order
    Bytes h("\x8e\xad\xe8\x01\0\0\0\0", 8);
    be32(h, es.size()); be32(h, store.size());
    for (auto& e : es) { be32(h, e.tag); be32(h, e.type); be32(h, e.off); be32(h, e.cnt); }
    return h + store;
}
Archive genRpm(Rng& r, const GenOpts& o) {
    Archive a; a.format = "rpm";
    cpioMembers(r, o, a.members);
    Bytes payload = writeCpio(r, a.members);
    for (Member& m : a.members) m.head = m.dataStart = m.dataEnd = m.next = -1;
    Bytes lead("\xed\xab\xee\xdb\x03\x00", 6);
    lead += (char)r.below(2); lead += (char)r.below(2); lead += Bytes("\0\1", 2);
    lead += segment(r, 1 + (int)r.below(60)); lead.resize(78, '\0'); lead += Bytes("\0\5", 2); lead.resize(96, '\0');
    lead[76] = 0; lead[77] = 1;
    Bytes& b = a.bytes;
    b = lead + rpmHeader(r, 8);
    while (b.size() % 8) b += '\0';
    b += rpmHeader(r, r.chance(1, 4) ? 150 : 40);
    a.payload = b.size();
    int k = (int)r.below(3);
    if (k == 0) { GzOpts g = randomGz(r); b += gzEncode(payload, g); }
    else if (k == 1) b += bz2Encode(payload, 1 + (int)r.below(9), 0);
    else { LzOpts z = randomLz(r); z.known = false; b += lzmaEncode(payload, z); }
    a.features[k == 2 ? "lzma_payloads" : k ? "bzip2_payloads" : "gzip_payloads"] = 1;
    a.note = fmt("rpm, %zu members, %s payload", a.members.size(), k == 2 ? "lzma" : k ? "bzip2" : "gzip");
    return a;
}


// ---- mail -------------------------------------------------------------------
static Bytes token(Rng& r, int lo, int hi, const char* set) {
    Bytes s; int n = (int)r.range(lo, hi), k = (int)strlen(set);
    for (int i = 0; i < n; ++i) s += set[r.below(k)];
    return s;
}
static const char g_word[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,!-_@<>()$%&*";
static Bytes b64(const Bytes& d) {
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes o;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = (unsigned char)d[i] << 16 | (i + 1 < d.size() ? (unsigned char)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (unsigned char)d[i + 2] : 0);
        o += t[v >> 18]; o += t[v >> 12 & 63]; o += i + 1 < d.size() ? t[v >> 6 & 63] : '='; o += i + 2 < d.size() ? t[v & 63] : '=';
    }
    return o;
}
// converts a whole text, with what the converter keeps back
static bool convertWhole(iconv_t c, const Bytes& in, Bytes& out) {
    iconv(c, 0, 0, 0, 0);
    out.assign(in.size() * 8 + 100, 0);
    char* ip = const_cast<char*>(in.data()); size_t il = in.size(); char* op = &out[0]; size_t ol = out.size();
    bool ok = iconv(c, &ip, &il, &op, &ol) == 0 && il == 0 && iconv(c, 0, 0, &op, &ol) != (size_t)-1;
    out.resize(out.size() - ol);
    return ok;
}
// an encoded word (RFC 2047); value is the UTF-8 text
static Bytes encodedWord(Rng& r, Bytes& value) {
    Bytes raw, name; value = "";
    int n = 1 + (int)r.below(12);
    if (r.chance(1, 3)) {
        // a character set of its own, among them ones with shift states and with converters that keep back the last character
        static const char* const sets[] = { "windows-1258", "TCVN", "CP1255", "ISO-2022-JP", "ISO-2022-KR", "EUC-JP", "EUC-JISX0213", "BIG5-HKSCS", "Shift_JIS", "GB18030", "koi8-r", "UTF-16BE", "UTF-7", "windows-1252" };
        static const int ranges[][2] = { { 0x20, 0x7e }, { 0x20, 0x7e }, { 0xa1, 0x17f }, { 0x1ea0, 0x1ef9 }, { 0x3b1, 0x44f }, { 0x5d0, 0x5ea }, { 0x3041, 0x30ff }, { 0x4e00, 0x9fa5 }, { 0xac00, 0xd7a3 } };
        name = sets[r.below(sizeof sets / sizeof *sets)];
        iconv_t c = iconv_open(name.c_str(), "UTF-8"), d = iconv_open("UTF-8", name.c_str());
        if (c == (iconv_t)-1 || d == (iconv_t)-1) abort();
        Bytes u;
        for (int i = 0; i < 40 && n > 0; ++i) {
            const int* g = ranges[r.below(9)]; unsigned v = g[0] + (unsigned)r.below(g[1] - g[0] + 1);
            Bytes one; if (v < 0x80) one = Bytes(1, (char)v); else if (v < 0x800) { one += (char)(0xc0 | v >> 6); one += (char)(0x80 | (v & 63)); } else { one += (char)(0xe0 | v >> 12); one += (char)(0x80 | (v >> 6 & 63)); one += (char)(0x80 | (v & 63)); }
            Bytes x; if (convertWhole(c, one, x)) { u += one; --n; }
        }
        if (!convertWhole(c, u, raw) || !convertWhole(d, raw, value)) { raw = value = u = ""; }
        iconv_close(c); iconv_close(d);
        // the converters for some sets accept more than they give back
        if (value.empty() || value.find_first_of(Bytes("\r\n\0", 3)) != Bytes::npos) name = "";
    }
    if (name.empty()) {
        bool latin = r.chance(1, 3); raw = value = "";
        for (int i = 0; i < n || i == 0; ++i) {
            switch (r.below(3)) {
            case 0: { unsigned c = 0xa1 + (unsigned)r.below(0x5f); value += (char)(0xc0 | c >> 6); value += (char)(0x80 | (c & 63)); if (latin) raw += (char)c; break; }
            case 1: raw += ' '; value += ' '; break;
            default: { char c = "abcXYZ089_=?."[r.below(13)]; raw += c; value += c; }
            }
        }
        if (!latin) raw = value;
        name = latin ? "iso-8859-1" : "utf-8";
    }
    if (r.chance(1, 2)) for (char& ch : name) ch = (char)toupper(ch);
    Bytes e = "=?" + name + "?";
    if (r.chance(1, 2)) e += (r.chance(1, 2) ? "B?" : "b?") + b64(raw);
    else {
        e += r.chance(1, 2) ? "Q?" : "q?";
        for (unsigned char c : raw) {
            if (c == ' ') e += r.chance(1, 2) ? "_" : "=20";
            else if (c <= 0x20 || c >= 0x7f || c == '=' || c == '?' || c == '_' || r.chance(1, 10)) e += fmt(r.chance(1, 2) ? "=%02X" : "=%02x", c);
            else e += (char)c;
        }
    }
    return e + "?=";
}
// a header line with folds and encoded words; returns the value a reader must see
static Bytes headerLine(Rng& r, Bytes& out, const char* name, const Bytes& eol, bool structured) {
    Bytes value, line;
    Bytes n = name;
    for (char& ch : n) if (r.chance(1, 12)) ch = (char)(r.chance(1, 2) ? toupper(ch) : tolower(ch));
    int words = 1 + (int)r.below(r.chance(1, 6) ? 40 : 8);
    bool lastEnc = false;
    for (int i = 0; i < words; ++i) {
        bool enc = !structured && r.chance(1, 4);
        Bytes v, w;
        if (enc) w = encodedWord(r, v);
        else {
            w = token(r, 1, r.chance(1, 20) ? 300 : 10, g_word);
            // words that resemble encoded ones, also together with what follows, but are none
            if (!structured && r.chance(1, 8)) {
                Bytes t = token(r, 1, 8, "abcXYZ-_09");
                switch (r.below(7)) {
                case 0: w = "=?"; break;
                case 1: w = "=?" + t; break;
                case 2: w = "=?" + t + "?"; break;
                case 3: w = "?="; break;
                case 4: w = t + "=?"; break;
                case 5: w = "=?" + t + "?" + "aXzu1"[r.below(5)] + "?" + t + "?="; break;
                default: w = "=?" + t + "?qq?" + t + "?="; break;
                }
            }
            v = w;
        }
        if (i) {
            // white space, possibly with a fold before its first, or between its characters
            int k = 1 + (r.chance(1, 6) ? (int)r.below(3) : 0);
            int f = r.chance(1, 3) ? (int)r.below(k) : -1;
            Bytes ws;
            for (int j = 0; j < k; ++j) { char c = r.chance(1, 5) ? '\t' : ' '; if (j == f) line += eol; line += c; ws += c; }
            if (!(enc && lastEnc)) value += ws;
        }
        line += w; value += v;
        lastEnc = enc;
    }
    out += n + ":" + (r.chance(9, 10) ? " " : "") + line + eol;
    return value;
}
static Bytes boundaryToken(Rng& r) {
    return token(r, 1 + (int)r.below(4), r.chance(1, 4) ? 66 : 30, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'()+_,-./:=?") + token(r, 3, 3, "0123456789ABCDEF");
}
struct MailGen {
    Rng& r; const GenOpts& o; Archive& a; Bytes eol; std::vector<Bytes> active; std::vector<Bytes> all; int number; bool eightBit;
    bool free(const Bytes& s) const { for (auto& b : all) if (s.find("--" + b) != Bytes::npos) return false; return true; }
    Bytes junk() { // preamble or epilogue lines
        Bytes s; int n = r.chance(1, 2) ? 0 : 1 + (int)r.below(5);
        for (int i = 0; i < n; ++i) {
            Bytes l = token(r, 0, r.chance(1, 10) ? 2000 : 60, "abc -=: xyz");
            if (r.chance(1, 3) && !active.empty()) { const Bytes& b = active.back(); switch (r.below(4)) { case 0: l = "--" + b.substr(0, b.size() - 1 - r.below(2)); break; case 1: l = b; break; case 2: l = "--"; break; default: l = "- " + b; } }
            while (!l.empty() && (l[0] == ' ' || l[0] == '-') && l.substr(0, 2) != "--") l.erase(0, 1);
            if (free(l)) s += l + eol;
        }
        return s;
    }
    Bytes textual() {
        Bytes s; int n = (int)r.below(8);
        for (int i = 0; i < n; ++i) {
            const Bytes& b = active.back();
            switch (r.below(10)) {
            case 0: s += "--" + b.substr(0, 1 + r.below(b.size() - 1)) + eol; break;   // a cut boundary
            case 1: s += b + eol; break;
            case 2: s += "-" + eol + "-" + b + eol; break;
            case 3: s += " " + b + "--" + eol; break;
            case 4: s += eol; break;
            case 5: s += "\t " + token(r, 0, 60, g_word) + eol; break;
            case 6: s += "Content-Type: multipart/mixed; boundary=" + b.substr(0, b.size() - 1) + eol; break;
            default: s += token(r, 0, r.chance(1, 6) ? 3000 : 70, "abcdefghij klm\tnop:=-") + eol;
            }
        }
        if (r.chance(1, 3)) s += token(r, 1, 40, g_word);   // no line end of its own
        return s;
    }
    // a parameter that resembles the one with this name and is another
    Bytes decoy(const Bytes& sep, const Bytes& name) {
        if (!r.chance(1, 8)) return Bytes();
        switch (r.below(4)) {
        case 0: return sep + "x-" + name + "=wrong1";
        case 1: return sep + name + "s=\"wrong2\"";
        case 2: return sep + "y=\"; " + name + "=wrong3\"";
        default: return sep + "z=\"\\\"; " + name + "=\\\"wrong4\"";
        }
    }
    void multipart(Bytes& b, int depth) {
        const Bytes B = active.back();
        b += junk();
        int n = 1 + (int)r.below(depth ? 3 : 6);
        for (int i = 0; i < n; ++i) {
            b += "--" + B; if (r.chance(1, 8)) b += r.chance(1, 2) ? " " : "\t "; b += eol;
            if (depth < 3 && r.chance(1, 6)) {
                Bytes inner = fresh();
                b += "Content-Type: multipart/" + Bytes(r.chance(1, 2) ? "alternative" : "mixed") + ";" + (r.chance(1, 2) ? eol + "\t" : Bytes(" ")) + "boundary=\"" + inner + "\"" + eol + eol;
                active.push_back(inner);
                multipart(b, depth + 1);
                active.pop_back();
                b += junk();
                continue;
            }
            Member m; m.sizeInHeader = false; m.hasTime = false;
            ++number;
            int enc = (int)r.below(4); // 0 1 base64, 2 7bit/8bit, 3 without any transfer encoding
            Bytes fname;
            if (r.chance(2, 3)) {
                fname = segment(r, 1 + (int)r.below(20));
                while (fname.find('=') != Bytes::npos) fname[fname.find('=')] = 'e';
            }
            Bytes quotedName = fname;
            bool inType = r.chance(1, 3);
            std::vector<Bytes> hs;
            Bytes sep = r.chance(1, 3) ? ";" + eol + (r.chance(1, 2) ? "\t" : "  ") : Bytes("; ");
            if (!fname.empty()) {
                bool quote = r.chance(2, 3) || fname.find_first_of(" ,;\"\\") != Bytes::npos;
                if (quote && r.chance(1, 4)) { size_t at = r.below(fname.size() + 1); fname.insert(at, 1, r.chance(1, 2) ? ';' : '"'); }
                quotedName = fname;
                if (quote) { quotedName = "\""; for (char ch : fname) { if (ch == '"' || ch == '\\' || r.chance(1, 40)) quotedName += '\\'; quotedName += ch; } quotedName += '"'; }
            }
            // white space is allowed around '=' and ';'
            Bytes is = r.chance(1, 8) ? Bytes(" = ") : Bytes("=");
            Bytes before = r.chance(1, 8) ? Bytes(" ") : Bytes();
            Bytes ct = "Content-Type: " + Bytes(r.chance(1, 6) ? "application/x-name" : "text/plain"); if (r.chance(1, 3)) ct += sep + "charset=us-ascii";
            ct += decoy(sep, "name");
            if (!fname.empty() && inType) { ct += sep + "name" + is + quotedName; if (r.chance(1, 3)) ct += before + "; x-u=1"; }
            ct += decoy(sep, "name");
            if (r.chance(3, 4) || inType) hs.push_back(ct);
            if (!fname.empty() && !inType) { Bytes cd = "Content-Disposition: attachment"; if (r.chance(1, 4)) cd += "; size=12"; cd += decoy(sep, "filename"); cd += sep + "filename" + is + quotedName; if (r.chance(1, 4)) cd += before + "; x=\"y\""; cd += decoy(sep, "filename"); hs.push_back(cd); }
            static const char* b64names[] = { "base64", "BASE64", "Base64" };
            if (enc <= 1) hs.push_back(Bytes(r.chance(1, 2) ? "Content-Transfer-Encoding: " : "content-transfer-encoding:") + b64names[r.below(3)]);
            else if (enc == 2) hs.push_back(Bytes("Content-Transfer-Encoding: ") + (eightBit ? "8bit" : "7bit"));
            if (r.chance(1, 3)) hs.push_back("X-Other: " + token(r, 1, 200, g_word));
            for (size_t k = hs.size(); k > 1; --k) std::swap(hs[k - 1], hs[r.below(k)]);
            for (auto& h : hs) b += h + eol;
            b += eol;
            if (enc <= 1) {
                m.data = body(r, o);
                Bytes e = b64(m.data);
                size_t w = r.chance(1, 3) ? 4 * (1 + r.below(30)) : 76;
                if (r.chance(1, 20)) w = e.size() + 1;
                for (size_t k = 0; k < e.size(); k += w) b += e.substr(k, w) + eol;
                if (e.empty() && r.chance(1, 2)) b += eol;
            } else {
                Bytes d;
                for (int t = 0; t < 20; ++t) {
                    d = r.chance(1, 2) ? textual() : eightBit ? body(r, o) : textContent(r, r.len(o.maxSize));
                    if (!eightBit) for (char& ch : d) if (ch & 0x80) ch &= 0x7f;
                    if (free(d + eol)) break;
                    d = "plain";
                }
                if (!d.empty() || r.chance(1, 2)) d += eol;   // the line end before the delimiter
                m.data = d;
                b += d;
            }
            m.name = fname.empty() ? fmt("%d", number) : fname;
            a.members.push_back(m);
        }
        b += "--" + B + "--"; if (r.chance(1, 10)) b += " "; b += eol;
    }
    Bytes fresh() {
        for (;;) {
            Bytes b = boundaryToken(r);
            bool ok = b.size() >= 4;
            for (auto& x : all) if (x.compare(0, b.size(), b) == 0 || b.compare(0, x.size(), x) == 0) ok = false;
            if (ok) { all.push_back(b); return b; }
        }
    }
};
Archive genMail(Rng& r, const GenOpts& o) {
    Archive a; a.format = "mail";
    MailGen g = { r, o, a, r.chance(1, 2) ? "\r\n" : "\n", {}, {}, 0, !o.plainNames && r.chance(1, 2) };
    Bytes& b = a.bytes;
    bool multi = o.plainNames || r.chance(5, 6);
    struct H { const char* name; const char* key; bool structured; };
    static const H hs[] = { { "Subject", "subject", false }, { "From", "from", false }, { "To", "to", false }, { "Cc", "cc", false }, { "Bcc", "bcc", false }, { "Message-ID", "messageid", true }, { "In-Reply-To", "inreplyto", true }, { "References", "references", true } };
    std::vector<int> order;
    for (int i = 0; i < 8; ++i) if (r.chance(2, 3) || i == 0) order.push_back(i);
    order.push_back(8); // content type
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
    for (int i : order) {
        if (r.chance(1, 4)) { Bytes x; headerLine(r, x, "X-Something", g.eol, true); b += x; }
        if (i < 8) { a.headers[hs[i].key] = headerLine(r, b, hs[i].name, g.eol, hs[i].structured); continue; }
        Bytes ct;
        if (multi) {
            Bytes B = g.fresh();
            g.active.push_back(B);
            bool quote = r.chance(2, 3) || B.find_first_of("()<>@,;:\\\"/[]?= ") != Bytes::npos;
            ct = "multipart/mixed;"; if (r.chance(1, 4)) ct += " charset=utf-8;";
            if (r.chance(1, 8)) ct += " type=\"; boundary=wrong\";";
            if (r.chance(1, 8)) ct += " x-boundary=wrong;";
            ct += r.chance(1, 3) ? g.eol + "\t" : Bytes(" ");
            ct += quote ? "boundary=\"" + B + "\"" : "boundary=" + B;
            if (r.chance(1, 4)) ct += "; type=\"text/html\"";
        } else ct = "text/plain; charset=utf-8";
        b += "Content-Type: " + ct + g.eol;
        a.headers["contenttype"] = ct;
    }
    b += "MIME-Version: 1.0" + g.eol;
    b += g.eol;
    if (multi) {
        g.multipart(b, 0);
        b += g.junk();
    } else {
        Member m; m.sizeInHeader = false; m.hasTime = false; m.type = -1; m.name = "body";
        m.data = r.chance(1, 2) ? textContent(r, 1 + r.len(o.maxSize)) : body(r, o);
        if (m.data.size() < 2) m.data += "hello";
        b += m.data;
        a.members.push_back(m);
    }
    a.features["nested_multiparts"] = g.all.size() > 1 ? (int)g.all.size() - 1 : 0; a.features["single_parts"] = !multi;
    a.note = fmt("mail, %s, %zu parts, %zu boundaries%s", g.eol.size() == 2 ? "CRLF" : "LF", a.members.size(), g.all.size(), g.eightBit ? ", 8bit" : "");
    return a;
}

// ---- sdf --------------------------------------------------------------------
Archive genSdf(Rng& r, const GenOpts& o) {
    Archive a; a.format = "sdf";
    static const char* eols[] = { "\n", "\r\n", "\r" };
    Bytes eol = eols[r.below(10) < 6 ? 0 : r.below(3)];
    int n = 1 + (int)r.below(o.maxMembers);
    int style = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
        Member m; m.hasTime = false;
        m.name = fmt("Molecule%d", i + 1);
        Bytes& d = m.data;
        // lines have at most 80 characters
        auto len = [&](int usual) { return r.chance(1, 5) ? 80 - (int)r.below(3) : r.chance(1, 8) ? 1 + (int)r.below(80) : 1 + (int)r.below(usual); };
        if (!r.chance(1, 4)) { d += segment(r, len(i ? 60 : 20)); if (r.chance(1, 4)) d[d.size() - 1 - r.below(3) % d.size()] = ":=('"[r.below(4)]; }
        d += eol;
        Bytes prog = "  ChemPy            3D                             0";
        if (r.chance(1, 5)) prog.resize(len(80), '1');
        d += prog + eol;
        if (r.chance(1, 3)) d += segment(r, len(40));
        d += eol;
        Bytes counts = " 36 39  0  0  1  0  0  0  0  0999 V2000";
        if (r.chance(1, 6)) counts.resize(80 - r.below(4), ' ');
        else if (r.chance(1, 8)) counts.insert(0, Bytes(1 + r.below(80 - counts.size()), ' '));
        d += counts + eol;
        int64_t want;
        switch (style) {
        case 0: want = 1024 * (1 + (int64_t)r.below(4)) - (int64_t)r.below(12); break;   // delimiters next to chunk limits
        case 1: want = r.below(o.maxSize); break;
        default: want = r.len(3000);
        }
        while ((int64_t)d.size() < want) {
            switch (r.below(6)) {
            case 0: d += ">  <" + segment(r, 4) + ">" + eol + segment(r, 10) + eol + eol; break;
            case 1: d += "$$$ $" + Bytes((int)r.below(2), '$') + " " + eol; break;
            case 2: d += "   52.5122   32.1815   21.0164 O   0  0  0  0  0  0  0  0  0  0  0  0" + eol; break;
            default: d += "M  " + token(r, 0, 70, "ABC 0123.$") .substr(0, 70) + "x" + eol; break;
            }
            size_t p;
            while ((p = d.find("$$$$", d.size() > 200 ? d.size() - 200 : 0)) != Bytes::npos) d[p + 1] = '_';
        }
        if (style == 0) { // bring the record to an exact length by its last line
            int64_t next = ((int64_t)d.size() / 1024 + 1) * 1024 - (int64_t)r.below(8) - (int64_t)(eol.size());
            if (next > (int64_t)d.size()) d += Bytes(next - d.size(), 'x') + eol;
        }
        if (r.chance(1, 20)) d += "$$$" + eol;
        m.head = m.dataStart = a.bytes.size();
        a.bytes += d;
        m.dataEnd = a.bytes.size();
        a.bytes += "$$$$";
        if (i + 1 < n || r.chance(4, 5)) a.bytes += eol;
        m.next = a.bytes.size();
        a.members.push_back(m);
    }
    a.note = fmt("sdf, %d records", n);
    return a;
}

// ---- ole --------------------------------------------------------------------
Archive genOle(Rng& r, const GenOpts& o) {
    Archive a; a.format = "ole";
    struct Node { Bytes name; int type; int owner; int start; int32_t size; Bytes data; };
    std::vector<Node> dir;
    Node root; root.name = "Root Entry"; root.type = 5; root.start = -2; root.size = 0; root.owner = -1;
    dir.push_back(root);
    int n = 1 + (int)r.below(r.chance(1, 6) ? 120 : o.maxMembers);
    std::set<Bytes> used;
    for (int i = 0; i < n; ++i) {
        Node d; d.type = r.chance(1, 6) ? 1 : 2; d.start = -2; d.size = 0;
        d.name = token(r, 1, r.chance(1, 8) ? 31 : 12, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.");
        if (!o.plainNames && r.chance(1, 8)) d.name[0] = r.chance(1, 2) ? 5 : 1;
        if (o.plainNames && (!used.insert(d.name).second || d.name == "." || d.name == "..")) continue;
        if (d.type == 2) {
            int64_t len;
            switch (r.below(8)) {
            case 0: len = 4095 + (int64_t)r.below(3); break;
            case 1: len = 64 * (1 + r.below(63)); break;
            case 2: len = 512 * (8 + r.below(20)); break;
            case 3: len = 1 + r.below(130); break;
            case 4: len = n > 60 ? 1 + r.below(64) : 1 + r.below(o.maxSize * 2); break;
            default: len = 1 + r.below(n > 60 ? 200 : o.maxSize > 1000000 && r.chance(1, 2) ? o.maxSize : 5000);
            }
            if (!o.contents.empty() && r.chance(1, 2)) { size_t k = r.below(o.contents.size()); d.data = o.contents[k]; d.name += o.contentNames[k]; if (d.name.size() > 31) d.name.erase(0, d.name.size() - 31); len = d.data.size(); if (o.plainNames && !used.insert(d.name + "#").second) continue; }
            while ((int64_t)d.data.size() < len) d.data += randomContent(r, len - d.data.size()) + Bytes(1, (char)r.next());
            d.data.resize(len);
            if (len == 0) d.data = "z";
            d.size = d.data.size();
        }
        if (r.chance(1, 15)) { Node e; e.type = 0; e.start = 0; e.size = 0; dir.push_back(e); }
        dir.push_back(d);
    }
    // the small block stream
    std::vector<int> small; // indices of small streams
    for (size_t i = 1; i < dir.size(); ++i) if (dir[i].type == 2 && dir[i].size < 4096) small.push_back((int)i);
    int nsb = 0;
    for (int i : small) nsb += (dir[i].size + 63) / 64;
    int slack = r.chance(1, 3) ? (int)r.below(10) : 0;
    int totalSb = nsb + slack;
    bool shuffleSb = r.chance(2, 3);
    std::vector<int> sperm(totalSb);
    for (int i = 0; i < totalSb; ++i) sperm[i] = i;
    if (shuffleSb) for (int i = totalSb; i > 1; --i) std::swap(sperm[i - 1], sperm[r.below(i)]);
    std::vector<int32_t> sbat(totalSb, -1);
    Bytes mini(totalSb * 64, '\0');
    int at = 0;
    for (int i : small) {
        int k = (dir[i].size + 63) / 64;
        for (int j = 0; j < k; ++j) {
            int blk = sperm[at + j];
            if (j == 0) dir[i].start = blk;
            sbat[blk] = j + 1 < k ? sperm[at + j + 1] : -2;
            Bytes chunk = dir[i].data.substr(j * 64, 64);
            mini.replace(blk * 64, chunk.size(), chunk);
        }
        at += k;
    }
    // every chain of big blocks
    struct Chain { Bytes data; std::vector<int> blocks; };
    std::vector<Chain> chains(3 + dir.size()); // 0 directory 1 mini stream 2 sbat, 3+i streams
    pad(mini, 512); chains[1].data = mini;
    { Bytes t; for (int32_t v : sbat) le32(t, (uint32_t)v); while (t.size() % 512) le32(t, 0xffffffff); chains[2].data = t; }
    for (size_t i = 1; i < dir.size(); ++i) if (dir[i].type == 2 && dir[i].size >= 4096) { Bytes d = dir[i].data; pad(d, 512); chains[3 + i].data = d; }
    int dirBlocks = (int)(dir.size() + 3) / 4;
    chains[0].data = Bytes(dirBlocks * 512, '\0');
    int blocks = 0;
    for (auto& c : chains) blocks += (int)(c.data.size() / 512);
    int unused = r.chance(1, 2) ? (int)r.below(6) : 0;
    int nbat, nxbat;
    for (nbat = 1, nxbat = 0;; ) {
        int total = blocks + unused + nbat + nxbat;
        int nb = (total + 127) / 128, nx = nb > 109 ? (nb - 109 + 126) / 127 : 0;
        if (nb == nbat && nx == nxbat) break;
        nbat = nb > nbat ? nb : nbat; nxbat = nx > nxbat ? nx : nxbat;
    }
    int total = blocks + unused + nbat + nxbat;
    std::vector<int> perm(total);
    for (int i = 0; i < total; ++i) perm[i] = i;
    int shuffle = (int)r.below(3);
    if (shuffle == 1) for (int i = total; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    else if (shuffle == 2) std::reverse(perm.begin(), perm.end());
    std::vector<int32_t> bat(nbat * 128, -1);
    Bytes file(512 + total * 512, '\0');
    int used2 = 0;
    for (auto& c : chains) {
        int k = (int)(c.data.size() / 512);
        for (int j = 0; j < k; ++j) {
            int blk = perm[used2++];
            if (j) bat[c.blocks.back()] = blk;
            c.blocks.push_back(blk);
            bat[blk] = -2;
        }
    }
    std::vector<int> batBlocks, xBlocks;
    for (int i = 0; i < nbat; ++i) { batBlocks.push_back(perm[used2++]); bat[batBlocks.back()] = -3; }
    for (int i = 0; i < nxbat; ++i) { xBlocks.push_back(perm[used2++]); bat[xBlocks.back()] = -4; }
    for (int i = 0; i < unused; ++i) { int blk = perm[used2++]; for (int k = 0; k < 512; ++k) file[512 + blk * 512 + k] = (char)r.next(); }
    // directory
    dir[0].start = chains[1].blocks.empty() ? -2 : chains[1].blocks[0]; dir[0].size = totalSb * 64;
    for (size_t i = 1; i < dir.size(); ++i) if (!chains[3 + i].blocks.empty()) dir[i].start = chains[3 + i].blocks[0];
    Bytes dd;
    for (auto& e : dir) {
        Bytes x(128, '\0');
        if (e.type) {
            for (size_t k = 0; k < e.name.size(); ++k) x[2 * k] = e.name[k];
            x[0x40] = (char)(2 * e.name.size() + 2);
            x[0x42] = (char)e.type; x[0x43] = 1;
            Bytes t; le32(t, 0xffffffff); le32(t, 0xffffffff); le32(t, 0xffffffff); x.replace(0x44, 12, t);
            t = ""; le32(t, (uint32_t)e.start); le32(t, (uint32_t)e.size); x.replace(0x74, 8, t);
        }
        dd += x;
    }
    while (dd.size() % 512) dd += Bytes(128, '\0');
    chains[0].data = dd;
    for (auto& c : chains) for (size_t j = 0; j < c.blocks.size(); ++j) file.replace(512 + c.blocks[j] * 512, 512, c.data.substr(j * 512, 512));
    for (int i = 0; i < nbat; ++i) { Bytes t; for (int k = 0; k < 128; ++k) le32(t, (uint32_t)bat[i * 128 + k]); file.replace(512 + batBlocks[i] * 512, 512, t); }
    for (int i = 0; i < nxbat; ++i) {
        Bytes t;
        for (int k = 0; k < 127; ++k) { int q = 109 + i * 127 + k; le32(t, q < nbat ? (uint32_t)batBlocks[q] : 0xffffffff); }
        le32(t, i + 1 < nxbat ? (uint32_t)xBlocks[i + 1] : 0xfffffffe);
        file.replace(512 + xBlocks[i] * 512, 512, t);
    }
    Bytes h("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8);
    h.resize(24, '\0'); le16(h, 0x3e); le16(h, 3); le16(h, 0xfffe); le16(h, 9); le16(h, 6); h.resize(0x2c, '\0');
    le32(h, nbat); le32(h, chains[0].blocks[0]); le32(h, 0); le32(h, 4096); le32(h, chains[2].blocks.empty() ? 0xfffffffe : (uint32_t)chains[2].blocks[0]); le32(h, (uint32_t)((chains[2].data.size() + 511) / 512));
    le32(h, nxbat ? (uint32_t)xBlocks[0] : 0xfffffffe); le32(h, nxbat);
    for (int i = 0; i < 109; ++i) le32(h, i < nbat ? (uint32_t)batBlocks[i] : 0xffffffff);
    file.replace(0, 512, h);
    a.bytes = file;
    for (size_t i = 1; i < dir.size(); ++i) if (dir[i].type == 2) {
        Member m; m.type = -1; m.hasTime = false; m.name = dir[i].name; m.data = dir[i].data;
        a.members.push_back(m);
    }
    a.features["xbat_blocks"] = nxbat; a.features["small_streams"] = (int)small.size(); a.features["big_streams"] = (int)(a.members.size() - small.size());
    a.note = fmt("ole, %zu streams (%zu small), %d blocks, %d bat, %d xbat, order %d", a.members.size(), small.size(), total, nbat, nxbat, shuffle);
    return a;
}
Archive genArchive(Rng& r, const std::string& f, const GenOpts& o) {
    if (f == "tar") return genTar(r, o);
    if (f == "cpio") return genCpio(r, o);
    if (f == "ar") return genAr(r, o);
    if (f == "zip") return genZip(r, o);
    if (f == "rpm") return genRpm(r, o);
    if (f == "mail") return genMail(r, o);
    if (f == "sdf") return genSdf(r, o);
    return genOle(r, o);
}
SubStreamProvider* makeProvider(const std::string& f, InputStream* in) {
    if (f == "tar") return new TarInputStream(in);
    if (f == "cpio") return new CpioInputStream(in);
    if (f == "ar") return new ArInputStream(in);
    if (f == "zip") return new ZipInputStream(in);
    if (f == "rpm") return new RpmInputStream(in);
    if (f == "mail") return new MailInputStream(in);
    if (f == "sdf") return new SdfInputStream(in);
    return new OleInputStream(in);
}
bool checkHeaderOf(const std::string& f, const char* d, int32_t n) {
    if (f == "tar") return TarInputStream::checkHeader(d, n);
    if (f == "cpio") return CpioInputStream::checkHeader(d, n);
    if (f == "ar") return ArInputStream::checkHeader(d, n);
    if (f == "zip") return ZipInputStream::checkHeader(d, n);
    if (f == "rpm") return RpmInputStream::checkHeader(d, n);
    if (f == "mail") return MailInputStream::checkHeader(d, n);
    if (f == "sdf") return SdfInputStream::checkHeader(d, n);
    return OleInputStream::checkHeader(d, n);
}

// ---- the enumeration monitor --------------------------------------------------
void compareInfo(Case& c, const EntryInfo& i, const Member& m, size_t idx, const std::string& name, bool fresh) {
    REQ(c, i.filename == m.name, name + ":name", "entry %zu is called '%s' (%zu bytes), expected '%s' (%zu bytes)", idx, i.filename.substr(0, 200).c_str(), i.filename.size(), m.name.substr(0, 200).c_str(), m.name.size());
    if (m.type >= 0) REQ(c, (int)i.type == m.type, name + ":type", "entry %zu '%s' has type %d, expected %d", idx, m.name.substr(0, 80).c_str(), (int)i.type, m.type);
    if (m.sizeInHeader) REQ(c, i.size == (int64_t)m.data.size(), name + ":size", "entry %zu '%s' has size %lld, expected %zu", idx, m.name.substr(0, 80).c_str(), (long long)i.size, m.data.size());
    else REQ(c, i.size == -1 || i.size == (int64_t)m.data.size(), name + ":size", "entry %zu '%s' has size %lld, expected %zu or unknown", idx, m.name.substr(0, 80).c_str(), (long long)i.size, m.data.size());
    if (m.hasTime) REQ(c, (int64_t)i.mtime == m.mtime, name + ":mtime", "entry %zu '%s' has time %lld, expected %lld", idx, m.name.substr(0, 80).c_str(), (long long)i.mtime, (long long)m.mtime);
    (void)fresh;
}
uint64_t enumerate(Case& c, SubStreamProvider* p, const Archive& a, Rng& r, int mode, const char* prefix) {
    std::string name = prefix;
    uint64_t dig = 11;
    REQ(c, p->status() != Error, name + ":refused", "a well-formed archive is refused: '%s'", p->error());
    size_t i = 0;
    while (true) {
        InputStream* s = p->nextEntry();
        if (!s) break;
        REQ(c, i < a.members.size(), name + ":too-many", "more than the %zu entries: '%s' (%lld bytes)", a.members.size(), p->entryInfo().filename.substr(0, 100).c_str(), (long long)p->entryInfo().size);
        const Member& m = a.members[i];
        REQ(c, p->status() == Ok || (p->status() == Eof && i + 1 == a.members.size()), name + ":status", "status %s with entry %zu", statusName(p->status()), i);
        REQ(c, p->currentEntry() == s, name + ":current", "currentEntry() is not the stream that nextEntry() returned");
        compareInfo(c, p->entryInfo(), m, i, name, true);
        int how = mode == 4 ? (int)r.below(6) : mode;
        if (how == 4) how = 0;
        MonOpts o; o.maxMin = 1 << 18;
        {
            Mon<char> mon(c, s, m.data, name + ":entry", o);
            switch (how) {
            case 0: mon.drain(r); break;
            case 1: { int64_t n = r.below(m.data.size() + 1); while (mon.pos < n) { int32_t k = 1 + (int32_t)r.len(4000); if (mon.read(1, k) < 0) break; } if (r.chance(1, 3)) mon.reset(r.below(mon.pos + 1)); break; }
            case 2: mon.skip(r.chance(1, 2) ? r.len(m.data.size() + 10) : (int64_t)m.data.size()); break;
            case 3: break;
            case 5: mon.run(r, 4 + (int)r.below(12)); break;
            }
            dig = mix(dig, mon.pos * 8 + how);
        }
        if (s->status() != Error) compareInfo(c, p->entryInfo(), m, i, name, false);
        c.count("entries");
        if (m.data.empty()) c.count("empty_entries");
        if (m.type == T_DIR) c.count("directories");
        c.count(fmt("consumed_%d", how).c_str());
        ++i;
    }
    REQ(c, p->status() == Eof, name + ":end", "enumeration ended after %zu of %zu entries with status %s '%s'", i, a.members.size(), statusName(p->status()), p->error());
    REQ(c, i == a.members.size(), name + ":missing", "enumeration ended after %zu of %zu entries", i, a.members.size());
    for (int k = 0; k < 2; ++k) {
        InputStream* s = p->nextEntry();
        REQ(c, s == 0 && p->status() == Eof, name + ":after-end", "nextEntry() after the end gives %s, status %s", s ? "a stream" : "nothing", statusName(p->status()));
    }
    c.count("archives");
    return mix(dig, hashStr(a.bytes));
}
