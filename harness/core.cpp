#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <dirent.h>

std::vector<Suite> g_suites;
std::vector<Need> g_needs;
std::string g_rule;
std::vector<std::string> g_assumptions;
std::string g_dataDir;

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL + 0x1234567)); r.next(); return r.next(); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
int64_t Rng::len(int64_t max) {
    if (max <= 0) return 0;
    int64_t v;
    switch (below(6)) {
    case 0: v = below(4); break;
    case 1: v = below(17); break;
    case 2: v = below(300); break;
    case 3: { int64_t p = 1LL << below(21); v = p + range(-2, 2); break; }
    case 4: v = below(max + 1); break;
    default: v = below(5000); break;
    }
    if (v < 0) v = 0;
    return v > max ? below(max + 1) : v;
}
std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
std::string hex(const Bytes& b, size_t max) {
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); r += t; }
    if (b.size() > max) r += fmt("...(%zu bytes)", b.size());
    return r;
}

// ------------------------------------------------------------ shared state
static const int MAXC = 400, MAXW = 16, MAXSUITE = 64;
static const uint64_t DSET = 1 << 21;
struct Counter { char name[48]; std::atomic<uint64_t> v; int kind; };
struct Slot { std::atomic<int> busy; std::atomic<int> suite; std::atomic<uint64_t> idx; std::atomic<uint64_t> started; };
struct Shared {
    std::atomic<int> lock;
    std::atomic<int> ncounters;
    Counter counters[MAXC];
    std::atomic<uint64_t> nextIdx[MAXSUITE];
    std::atomic<uint64_t> done[MAXSUITE];
    std::atomic<uint64_t> ndistinct;
    std::atomic<int> nsamples;
    std::atomic<int> stop;
    std::atomic<int> nviol;
    Slot slots[MAXW];
    std::atomic<uint64_t> dset[DSET];
};
static Shared* sh;
static std::string g_work;      // work directory of this run
static int g_slot = -1;
static bool g_single = false;   // replay mode
static std::string g_scratch;
static uint64_t g_seed = 1;
static bool g_thorough = false;
static pid_t g_tid;

struct LockShared {
    LockShared() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
    ~LockShared() { sh->lock = 0; }
};
static Counter* counter(const char* name, int kind) {
    int n = sh->ncounters.load();
    for (int i = 0; i < n; ++i) if (!strcmp(sh->counters[i].name, name)) return &sh->counters[i];
    LockShared l;
    n = sh->ncounters.load();
    for (int i = 0; i < n; ++i) if (!strcmp(sh->counters[i].name, name)) return &sh->counters[i];
    if (n >= MAXC) return 0;
    snprintf(sh->counters[n].name, sizeof sh->counters[n].name, "%s", name);
    sh->counters[n].kind = kind;
    sh->ncounters = n + 1;
    return &sh->counters[n];
}
void Case::count(const char* name, uint64_t n) { Counter* c = counter(name, 0); if (c) c->v += n; }
void Case::maxof(const char* name, uint64_t n) {
    Counter* c = counter(name, 1);
    if (!c) return;
    uint64_t o = c->v.load();
    while (o < n && !c->v.compare_exchange_weak(o, n)) {}
}
void Case::distinct(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = h % DSET;
    for (int k = 0; k < 64; ++k, i = (i + 1) % DSET) {
        uint64_t o = sh->dset[i].load();
        if (o == h) return;
        if (o == 0) {
            if (sh->dset[i].compare_exchange_strong(o, h)) { sh->ndistinct++; return; }
            if (o == h) return;
        }
    }
}
static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch);
        else r += ch;
    }
    return r + "\"";
}
static void appendLine(const std::string& path, const std::string& line) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd < 0) return;
    std::string l = line + "\n";
    if (write(fd, l.data(), l.size()) < 0) {}
    close(fd);
}
void Case::sample(const std::string& s) {
    if (sh->nsamples++ >= 12) return;
    appendLine(g_work + "/samples.jsonl", "{\"suite\":" + jesc(suite) + fmt(",\"idx\":%llu,\"case\":", (unsigned long long)idx) + jesc(s) + "}");
}
static void violation(const std::string& suite, uint64_t idx, const std::string& key, const std::string& msg) {
    sh->nviol++;
    appendLine(g_work + "/violations.jsonl", "{\"suite\":" + jesc(suite) + fmt(",\"idx\":%llu,\"seed\":%llu,\"key\":", (unsigned long long)idx, (unsigned long long)g_seed)
        + jesc(key) + ",\"msg\":" + jesc(msg) + "}");
}
void Case::report(const std::string& key, const std::string& msg) {
    failed = true;
    violation(suite, idx, key, msg + " | case: " + note);
    if (verbose) fprintf(stdout, "FAIL %s: %s | case: %s\n", key.c_str(), msg.c_str(), note.c_str());
}
void Case::fail(const std::string& key, const char* f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    report(key, buf);
    throw CaseAbort();
}
const std::string& scratchDir() {
    if (g_scratch.empty()) {
        std::string t = g_work + "/scratch.XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(&b[0])) { perror("mkdtemp"); _exit(97); }
        g_scratch = &b[0];
    }
    return g_scratch;
}
void addSuite(const std::string& name, uint64_t q, uint64_t t, std::function<void(Case&)> f, double cpu, int mw) {
    Suite s; s.name = name; s.quick = q; s.thorough = t; s.run = f; s.cpuLimit = cpu; s.maxWorkers = mw;
    g_suites.push_back(s);
}
void need(const std::string& c, uint64_t least) { Need n; n.counter = c; n.least = least; g_needs.push_back(n); }

static uint64_t nowMs() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }

static std::string errPath(int slot) { return g_work + fmt("/stderr.%d", slot); }

static void runCase(int suite, uint64_t idx, bool verbose) {
    Suite& s = g_suites[suite];
    Case c;
    c.suite = s.name; c.idx = idx; c.seed = g_seed; c.thorough = g_thorough; c.verbose = verbose;
    c.rng = Rng(mix(mix(g_seed, hashStr(s.name)), idx));
    try {
        s.run(c);
    } catch (const CaseAbort&) {
    } catch (const std::exception& e) {
        c.report(std::string("exception:") + typeid(e).name(), std::string("exception escaped: ") + e.what());
    }
}
static void workerMain(int slot) {
    g_slot = slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errPath(slot).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 2);
    close(fd);
    uint64_t sinceTrunc = 0;
    for (size_t i = 0; i < g_suites.size(); ++i) {
        Suite& s = g_suites[i];
        if (s.maxWorkers && slot >= s.maxWorkers) continue;
        uint64_t n = g_thorough ? s.thorough : s.quick;
        while (!sh->stop) {
            uint64_t idx = sh->nextIdx[i]++;
            if (idx >= n) break;
            Slot& sl = sh->slots[slot];
            sl.suite = (int)i; sl.idx = idx; sl.started = nowMs(); sl.busy = 1;
            if (++sinceTrunc) { struct stat st; if (fstat(2, &st) == 0 && st.st_size > 0) { if (ftruncate(2, 0)) {} } }
            runCase((int)i, idx, false);
            sl.busy = 0;
            sh->done[i]++;
        }
    }
    // leak checks are done explicitly; skip the sanitizer's exit-time one
    _exit(0);
}
static std::string slurp(const std::string& p, size_t max = 200000) {
    std::string r; FILE* f = fopen(p.c_str(), "r");
    if (!f) return r;
    char b[8192]; size_t n;
    while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static std::string frameFunc(const std::string& line) {
    // "    #1 0x... in Strigi::Foo::bar(int) /repo/lib/foo.cpp:12"
    size_t p = line.find(" in ");
    if (p == std::string::npos) return "";
    std::string f = line.substr(p + 4);
    size_t q = f.find('(');
    size_t sp = f.find(" /");
    if (q == std::string::npos || (sp != std::string::npos && sp < q)) q = sp;
    return q == std::string::npos ? f : f.substr(0, q);
}
static std::string crashKey(const std::string& err, int status) {
    std::vector<std::string> lines;
    size_t a = 0;
    while (a < err.size()) { size_t b = err.find('\n', a); if (b == std::string::npos) b = err.size(); lines.push_back(err.substr(a, b - a)); a = b + 1; }
    std::string kind, where;
    for (size_t i = 0; i < lines.size(); ++i) {
        const std::string& l = lines[i];
        size_t p;
        if ((p = l.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
            kind = l.substr(p + 25); kind = "asan:" + kind.substr(0, kind.find(' '));
        } else if ((p = l.find("WARNING: ThreadSanitizer: ")) != std::string::npos) {
            kind = l.substr(p + 26); kind = "tsan:" + kind.substr(0, kind.find(" ("));
        } else if ((p = l.find("runtime error: ")) != std::string::npos && kind.empty()) {
            kind = "ubsan:" + l.substr(p + 15);
            for (size_t k = 6; k < kind.size(); ++k) if (isdigit((unsigned char)kind[k])) kind[k] = '#';
            std::string k2; for (size_t k = 0; k < kind.size(); ++k) if (!(kind[k] == '#' && !k2.empty() && k2[k2.size() - 1] == '#')) k2 += kind[k];
            kind = k2.substr(0, 70);
            size_t q = l.find("/repo/");
            std::string file = q == std::string::npos ? l : l.substr(q + 6);
            where = file.substr(0, file.find(':'));
        } else if ((p = l.find("Assertion `")) != std::string::npos) {
            kind = "assert:" + l.substr(p, l.find("' failed", p) - p);
            size_t q = l.find(".cpp:"); if (q == std::string::npos) q = l.find(".h:");
            if (q != std::string::npos) { size_t st = l.rfind('/', q); if (st == std::string::npos) st = 0; where = l.substr(st, q - st); }
            break;
        } else if (!kind.empty() && l.find("    #") == 0 && where.empty()) {
            if (l.find("/repo/") != std::string::npos) where = frameFunc(l);
        }
        if (!kind.empty() && !where.empty()) break;
    }
    if (kind.empty()) kind = WIFSIGNALED(status) ? fmt("signal:%d", WTERMSIG(status)) : fmt("exit:%d", WEXITSTATUS(status));
    return "crash:" + kind + (where.empty() ? "" : "@" + where);
}
static std::string errSummary(const std::string& err) {
    std::string r;
    size_t start = err.find("ERROR: ");
    if (start == std::string::npos) start = err.find("WARNING: ThreadSanitizer");
    size_t s2 = err.find("runtime error");
    if (start == std::string::npos || (s2 != std::string::npos && s2 < start)) start = s2;
    if (start == std::string::npos) start = err.size() > 1500 ? err.size() - 1500 : 0;
    else start = err.rfind('\n', start) == std::string::npos ? 0 : err.rfind('\n', start) + 1;
    return err.substr(start, 2500);
}
static double cpuOf(pid_t pid) {
    std::string s = slurp(fmt("/proc/%d/stat", (int)pid), 2000);
    size_t p = s.rfind(')');
    if (p == std::string::npos) return 0;
    unsigned long ut = 0, st = 0;
    if (sscanf(s.c_str() + p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2) return 0;
    return double(ut + st) / sysconf(_SC_CLK_TCK);
}

// Re-runs one case alone in a child with generous limits.
// 0: finished normally, 1: died (crash recorded), 2: still hanging
static int rerunAlone(int suite, uint64_t idx, bool record) {
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_scratch.clear();
        int fd = open(errPath(99).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
        dup2(fd, 2);
        runCase(suite, idx, false);
        _exit(0);
    }
    uint64_t t0 = nowMs();
    double lim = g_suites[suite].cpuLimit * 2;
    while (true) {
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
            if (record) { std::string e = slurp(errPath(99)); violation(g_suites[suite].name, idx, crashKey(e, st), errSummary(e)); }
            return 1;
        }
        double wall = (nowMs() - t0) / 1000.0;
        if (cpuOf(pid) > lim || wall > lim * 2) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 2; }
        usleep(20000);
    }
}

// removes a directory tree made by this run
static void removeTree(const std::string& d) {
    if (d.size() < 6 || d.find("/scratch.") == std::string::npos) return;
    DIR* dir = opendir(d.c_str());
    if (!dir) { unlink(d.c_str()); return; }
    while (struct dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p);
        else unlink(p.c_str());
    }
    closedir(dir);
    rmdir(d.c_str());
}

int main(int argc, char** argv) {
    std::string out, replaySuite;
    uint64_t replayIdx = 0;
    int workers = 8;
    double scale = 1;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--work" && i + 1 < argc) g_work = argv[++i];
        else if (a == "--data" && i + 1 < argc) g_dataDir = argv[++i];
        else if (a == "--seed" && i + 1 < argc) g_seed = strtoull(argv[++i], 0, 10);
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
        else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 2 < argc) { replaySuite = argv[++i]; replayIdx = strtoull(argv[++i], 0, 10); g_single = true; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    if (g_work.empty()) { fprintf(stderr, "--work needed\n"); return 3; }
    mkdir(g_work.c_str(), 0755);
    setenv("TZ", "UTC", 0);
    registerSuites();
    if (!only.empty()) { std::vector<Suite> k; for (size_t i = 0; i < g_suites.size(); ++i) if (g_suites[i].name == only) k.push_back(g_suites[i]); g_suites = k; g_needs.clear(); }
    if (scale != 1) for (size_t i = 0; i < g_suites.size(); ++i) { g_suites[i].quick = (uint64_t)(g_suites[i].quick * scale) + 1; g_suites[i].thorough = (uint64_t)(g_suites[i].thorough * scale) + 1; }
    if (g_suites.size() > (size_t)MAXSUITE) return 3;
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) return 3;
    if (g_single) {
        for (size_t i = 0; i < g_suites.size(); ++i) if (g_suites[i].name == replaySuite) {
            runCase((int)i, replayIdx, true);
            if (!g_scratch.empty()) removeTree(g_scratch);
            fprintf(stdout, "replay: %d violation(s)\n", sh->nviol.load());
            return sh->nviol ? 1 : 0;
        }
        fprintf(stderr, "no suite %s\n", replaySuite.c_str());
        return 3;
    }
    unlink((g_work + "/violations.jsonl").c_str());
    unlink((g_work + "/samples.jsonl").c_str());
    if (workers > MAXW) workers = MAXW;
    std::vector<pid_t> pids(workers, 0);
    std::vector<double> cpu0(workers, 0);
    std::vector<uint64_t> lastStart(workers, 0);
    int alive = 0, crashes = 0, hangs = 0, unstable = 0;
    std::set<std::string> crashKeys;
    for (int w = 0; w < workers; ++w) {
        pids[w] = fork();
        if (pids[w] == 0) workerMain(w);
        ++alive;
    }
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < workers; ++w) {
            if (!pids[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                any = true;
                Slot& sl = sh->slots[w];
                pids[w] = 0; --alive;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (!sl.busy) { fprintf(stderr, "worker %d died outside a case (status %d)\n", w, st); sh->stop = 1; unstable++; continue; }
                std::string e = slurp(errPath(w));
                std::string key = crashKey(e, st);
                violation(g_suites[sl.suite].name, sl.idx, key, errSummary(e));
                crashKeys.insert(key);
                sl.busy = 0;
                sh->done[sl.suite]++;
                if (++crashes >= 60) { sh->stop = 1; }
                else { pids[w] = fork(); if (pids[w] == 0) { g_scratch.clear(); workerMain(w); } ++alive; lastStart[w] = 0; }
                continue;
            }
            Slot& sl = sh->slots[w];
            if (sl.busy) {
                uint64_t st0 = sl.started;
                double c = cpuOf(pids[w]);
                if (lastStart[w] != st0) { lastStart[w] = st0; cpu0[w] = c; }
                double wall = (nowMs() - st0) / 1000.0;
                Suite& s = g_suites[sl.suite];
                if (c - cpu0[w] > s.cpuLimit || wall > s.cpuLimit * 4) {
                    int su = sl.suite; uint64_t ix = sl.idx;
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
                    pids[w] = 0; --alive; any = true;
                    int rr = rerunAlone(su, ix, true);
                    if (rr == 2) { violation(s.name, ix, "hang", fmt("no end after %.0f s of CPU (and again when re-run alone)", s.cpuLimit * 2)); hangs++; }
                    else if (rr == 0) unstable++;
                    sl.busy = 0; sh->done[su]++;
                    if (hangs + unstable >= 6) sh->stop = 1;
                    else { pids[w] = fork(); if (pids[w] == 0) { g_scratch.clear(); workerMain(w); } ++alive; lastStart[w] = 0; }
                }
            }
        }
        if (sh->nviol > 400) sh->stop = 1;
        if (!any) usleep(5000);
    }
    // remove scratch directories
    if (DIR* d = opendir(g_work.c_str())) {
        std::vector<std::string> v;
        while (struct dirent* e = readdir(d)) if (!strncmp(e->d_name, "scratch.", 8)) v.push_back(g_work + "/" + e->d_name);
        closedir(d);
        for (size_t i = 0; i < v.size(); ++i) removeTree(v[i]);
    }
    uint64_t total = 0;
    std::string suites;
    for (size_t i = 0; i < g_suites.size(); ++i) {
        total += sh->done[i];
        suites += (i ? "," : "") + jesc(g_suites[i].name) + fmt(":%llu", (unsigned long long)sh->done[i]);
    }
    std::string cnt;
    for (int i = 0; i < sh->ncounters; ++i) cnt += (i ? "," : "") + jesc(sh->counters[i].name) + fmt(":%llu", (unsigned long long)sh->counters[i].v);
    std::string needs;
    for (size_t i = 0; i < g_needs.size(); ++i) {
        Counter* c = counter(g_needs[i].counter.c_str(), 0);
        uint64_t v = c ? c->v.load() : 0;
        if (v < g_needs[i].least) needs += (needs.empty() ? "" : ",") + jesc(g_needs[i].counter + fmt("=%llu<%llu", (unsigned long long)v, (unsigned long long)g_needs[i].least));
    }
    std::string ass;
    for (size_t i = 0; i < g_assumptions.size(); ++i) ass += (i ? "," : "") + jesc(g_assumptions[i]);
    FILE* f = fopen((g_work + "/summary.json").c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"suites\":{%s},\"counters\":{%s},\"unmet\":[%s],\"crashes\":%d,\"hangs\":%d,\"unstable\":%d,\"violations\":%d,\"rule\":%s,\"assumptions\":[%s]}\n",
        (unsigned long long)total, (unsigned long long)sh->ndistinct.load(), suites.c_str(), cnt.c_str(), needs.c_str(), crashes, hangs, unstable, sh->nviol.load(), jesc(g_rule).c_str(), ass.c_str());
    fclose(f);
    return 0;
}
