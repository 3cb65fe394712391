#include "streams.h"
#include <strigi/processinputstream.h>
#include <strigi/stringstream.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <atomic>
#include <thread>
using namespace Strigi;
// a pipe is handed over late, so that other threads come between
static std::atomic<bool> g_slowPipes(false);
static std::atomic<unsigned> g_pipes(0);
static void late() { if (g_slowPipes) usleep((g_pipes++ * 2654435761u >> 16) % 3 * 300); }
extern "C" {
int __real_pipe(int*);
int __real_pipe2(int*, int);
int __wrap_pipe(int* p) { int r = __real_pipe(p); late(); return r; }
int __wrap_pipe2(int* p, int flags) { int r = __real_pipe2(p, flags); late(); return r; }
}
static int openFds() {
    int n = 0; DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void put(const std::string& p, const Bytes& d) { std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
static Bytes get(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::vector<std::string> sh(const std::string& cmd) {
    std::vector<std::string> v;
    v.push_back("/bin/sh"); v.push_back("-c"); v.push_back(cmd);
    return v;
}
static pid_t g_worker;
static void atExit() { if (getpid() != g_worker) { ssize_t r = write(1, "EXIT HANDLER RAN IN CHILD", 25); (void)r; } }
// the state of this process that no stream may change
struct Guard {
    Case& c; int fds; sigset_t mask;
    Guard(Case& cc) : c(cc) {
        if (!g_worker) { g_worker = getpid(); atexit(atExit); }
        signal(SIGPIPE, SIG_DFL);
        fds = openFds(); pthread_sigmask(SIG_SETMASK, 0, &mask);
    }
    void done() {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        REQ(c, p == -1 && errno == ECHILD, "child-left", "after destruction there is still a child process (%d)", (int)p);
        int n = openFds();
        REQ(c, n == fds, "fd-left", "%d open descriptors, there were %d", n, fds);
        sigset_t m; pthread_sigmask(SIG_SETMASK, 0, &m);
        REQ(c, sigismember(&m, SIGPIPE) == sigismember(&mask, SIGPIPE), "signal-mask", "the signal mask was changed");
        sigset_t pend; sigpending(&pend);
        REQ(c, !sigismember(&pend, SIGPIPE), "signal-pending", "a SIGPIPE was left pending");
        c.count("clean_destructions");
    }
};
static Bytes blob(Rng& r, int64_t max) {
    Bytes d = randomContent(r, max);
    if (max > 65536 && r.chance(1, 3)) d += textContent(r, r.range(65000, max));
    return d;
}
static std::string dir() { return scratchDir(); }
static int64_t sizeClass(Case& c) { return c.rng.chance(1, 5) ? 400000 : c.rng.chance(1, 2) ? 70000 : 3000; }

static void output(Case& c) {
    Guard g(c);
    Bytes d = blob(c.rng, sizeClass(c));
    std::string f = dir() + "/src";
    put(f, d);
    std::string cmd;
    switch (c.rng.below(4)) {
    case 0: cmd = "exec cat " + f; break;
    case 1: { int64_t n = c.rng.below(d.size() + 1); cmd = fmt("head -c %lld %s; sleep 0.01; tail -c +%lld %s", (long long)n, f.c_str(), (long long)n + 1, f.c_str()); break; }
    case 2: cmd = fmt("dd if=%s bs=%d 2>/dev/null", f.c_str(), 100 + (int)c.rng.below(9000)); break;
    default: cmd = "cat " + f + "; exit 3"; break;
    }
    c.note = cmd + fmt(" (%zu bytes)", d.size());
    {
        ProcessInputStream s(sh(cmd));
        MonOpts o; o.maxMin = 60000;
        Mon<char> m(c, &s, d, "output", o);
        m.run(c.rng, 3 + (int)c.rng.below(20));
    }
    c.count("processes"); c.sample(c.note);
    g.done();
}
static void through(Case& c) {
    Guard g(c);
    Bytes d = blob(c.rng, sizeClass(c)), x = blob(c.rng, sizeClass(c)), want;
    std::string src = dir() + "/src", dst = dir() + "/dst";
    put(src, x);
    unlink(dst.c_str());
    InputPolicy pol = randomPolicy(c.rng, false);
    std::string cmd;
    int kind = (int)c.rng.below(9);
    bool all = false; // the child stores all it receives in dst
    switch (kind) {
    case 0: cmd = "exec cat"; want = d; break;
    case 1: cmd = "cat > " + dst + "; cat " + src; want = x; all = true; break;
    case 2: cmd = "cat " + src + "; cat > " + dst; want = x; all = true; break;
    case 3: cmd = "tee " + dst; want = d; all = true; break;
    case 4: { int64_t n = c.rng.below(d.size() + 100); cmd = fmt("exec head -c %lld", (long long)n); want = d.substr(0, n); break; }
    case 5: cmd = "cat " + src; want = x; break;           // does not read at all
    case 6: cmd = "wc -c"; want = fmt("%zu\n", d.size()); break;
    case 7: cmd = fmt("sleep 0.01; tee %s; cat %s", dst.c_str(), src.c_str()); want = d + x; all = true; break;
    default: cmd = "exit 0"; break;
    }
    c.note = cmd + fmt(" (input %zu, other %zu bytes) ", d.size(), x.size()) + pol.str();
    {
        HostileInput in(c, d, pol);
        bool deleted = false;
        in.deletedFlag = &deleted;
        {
            ProcessInputStream s(sh(cmd), &in);
            MonOpts o; o.maxMin = 60000;
            Mon<char> m(c, &s, want, "filter", o);
            m.run(c.rng, 3 + (int)c.rng.below(20));
            if (all) {
                // the child may still be ending
                REQ(c, get(dst) == d, "child-input", "the child received %zu bytes, the input has %zu", get(dst).size(), d.size());
                c.count("child_inputs_checked");
            }
        }
        REQ(c, !deleted, "input-deleted", "the input stream was deleted");
        in.deletedFlag = 0;
        if (in.badArgs) c.count("bad_args");
    }
    c.count("processes"); c.count(fmt("kind_%d", kind).c_str());
    if (d.size() > 65536) c.count("inputs_larger_than_a_pipe");
    c.distinct(mix(hashStr(d), kind));
    c.sample(c.note);
    g.done();
}
// destroy at any point
static void destroy(Case& c) {
    Guard g(c);
    Bytes d = blob(c.rng, sizeClass(c));
    InputPolicy pol = randomPolicy(c.rng, false);
    HostileInput in(c, d, pol);
    std::string src = dir() + "/src";
    put(src, d);
    static const char* cmds[] = { "exec sleep 30", "exec cat", "exec cat /dev/zero", "head -c 1000 /dev/zero; exec sleep 30", "exit 1", "exec 1>&-; exec sleep 30" };
    int k = (int)c.rng.below(6);
    bool withIn = c.rng.chance(1, 2);
    if (k == 1 && !withIn) k = 2;
    int reads = (int)c.rng.below(4);
    if ((k == 0) || (k == 3 && reads)) reads = k == 3 ? 1 : 0;
    c.note = fmt("%s, input %d, %d reads", cmds[k], withIn, reads);
    double t;
    {
        ProcessInputStream* s = new ProcessInputStream(sh(cmds[k]), withIn ? &in : 0);
        const char* p;
        for (int i = 0; i < reads; ++i) if (s->read(p, 1, 0) < 0) break;
        if (c.rng.chance(1, 3)) usleep(c.rng.below(3000));
        t = now();
        delete s;
        t = now() - t;
    }
    REQ(c, t < 15, "slow-destruction", "destruction waited %.0f s for the child", t);
    c.count("destroyed_early"); c.count("processes");
    c.distinct(k * 8 + withIn * 4 + reads);
    g.done();
}
// several streams alive at once: none keeps another one's pipes open
static void several(Case& c) {
    Guard g(c);
    int n = 2 + (int)c.rng.below(3);
    std::vector<Bytes> d(n);
    std::vector<HostileInput*> in(n);
    std::vector<ProcessInputStream*> s(n);
    ProcessInputStream* bystander = 0;
    int at = (int)c.rng.below(n + 1);
    for (int i = 0; i < n; ++i) {
        d[i] = blob(c.rng, sizeClass(c));
        InputPolicy pol = randomPolicy(c.rng, false);
        in[i] = new HostileInput(c, d[i], pol);
        if (i == at) bystander = new ProcessInputStream(sh("exec sleep 30"));
        s[i] = new ProcessInputStream(sh("exec cat"), in[i]);
    }
    if (!bystander) bystander = new ProcessInputStream(sh("exec sleep 30"));
    c.note = fmt("%d streams and a bystander", n);
    double t = now();
    std::vector<Bytes> got(n);
    std::vector<bool> end(n, false);
    int open = n;
    while (open) {
        int i = (int)c.rng.below(n);
        if (end[i]) continue;
        const char* p;
        int32_t k = s[i]->read(p, 1 + (int32_t)c.rng.len(20000), 0);
        if (k > 0) got[i].append(p, k);
        if (s[i]->status() != Ok) { end[i] = true; --open; }
    }
    t = now() - t;
    for (int i = 0; i < n; ++i) {
        REQ(c, s[i]->status() == Eof, "several:status", "stream %d of %d: %s '%s'", i, n, statusName(s[i]->status()), s[i]->error());
        REQ(c, got[i] == d[i], "several:content", "stream %d of %d delivered %zu bytes, expected %zu", i, n, got[i].size(), d[i].size());
        delete s[i]; delete in[i];
    }
    delete bystander;
    REQ(c, t < 15, "several:blocked", "the end came only after %.0f s, when an unrelated process ended", t);
    c.count("processes", n + 1); c.count("concurrent_groups");
    c.distinct(mix(hashStr(got[0]), n));
    g.done();
}
// another thread starts processes all the time: none of them may get hold of
// the ends of this thread's pipes, or the end of the data comes when it ends
static void threads(Case& c) {
    static bool blocked;
    if (blocked) return;
    Guard g(c);
    int n = 2 + (int)c.rng.below(6);
    std::vector<Bytes> d(n), got(n);
    std::vector<int> status(n);
    std::vector<ProcessInputStream*> others;
    std::atomic<bool> stop(false);
    bool both = c.rng.chance(1, 2);
    uint64_t pause = 1 + c.rng.below(2000);
    c.note = fmt("%d streams while another thread starts processes%s", n, both ? " with an input" : "");
    Bytes nothing;
    StringInputStream empty("", 0, false);
    g_slowPipes = true;
    double t = now();
    std::thread other([&] {
        while (!stop && others.size() < 24) {
            others.push_back(new ProcessInputStream(sh("exec sleep 30"), both ? &empty : 0));
            usleep(pause);
        }
    });
    for (int i = 0; i < n; ++i) {
        d[i] = blob(c.rng, 3000);
        HostileInput in(c, d[i], randomPolicy(c.rng, false));
        ProcessInputStream s(sh("exec cat"), &in);
        const char* p; int32_t k;
        while ((k = s.read(p, 1, 0)) > 0) got[i].append(p, k);
        status[i] = s.status();
    }
    t = now() - t;
    stop = true;
    other.join();
    g_slowPipes = false;
    size_t started = others.size();
    for (size_t i = 0; i < others.size(); ++i) delete others[i];
    for (int i = 0; i < n; ++i) {
        REQ(c, status[i] == Eof, "threads:status", "stream %d of %d: %s", i, n, statusName((StreamStatus)status[i]));
        REQ(c, got[i] == d[i], "threads:content", "stream %d of %d delivered %zu bytes, expected %zu", i, n, got[i].size(), d[i].size());
    }
    blocked = t >= 15;
    REQ(c, t < 15, "threads:blocked", "the end came only after %.0f s, when the process of another thread ended", t);
    c.count("processes", n + started); c.count("threads_starting_processes");
    c.distinct(mix(hashStr(got[0]), started));
    g.done();
}
// a command that cannot be run must not produce anything, least of all output of this process
static void noCommand(Case& c) {
    Guard g(c);
    std::vector<std::string> a;
    a.push_back(c.rng.chance(1, 2) ? dir() + "/no-such-program" : "/etc/passwd");
    bool withIn = c.rng.chance(1, 2);
    Bytes d = blob(c.rng, 100000);
    HostileInput in(c, d, randomPolicy(c.rng, false));
    {
        ProcessInputStream s(a, withIn ? &in : 0);
        const char* p;
        int32_t k = s.read(p, 1, 0);
        REQ(c, k < 0, "no-command:output", "a command that does not exist delivered %d bytes: %s", k, hex(Bytes(p, k)).c_str());
    }
    c.count("missing_commands"); c.count("processes");
    c.distinct(c.idx % 4);
    g.done();
}
// no descriptors left: the failure must be reported
static void exhausted(Case& c) {
    Guard g(c);
    std::vector<int> fds;
    int f;
    struct rlimit old, few;
    getrlimit(RLIMIT_NOFILE, &old);
    few = old; few.rlim_cur = 100;
    setrlimit(RLIMIT_NOFILE, &few);
    while ((f = dup(0)) >= 0) fds.push_back(f);
    int keep = (int)c.rng.below(4);
    for (int i = 0; i < keep && !fds.empty(); ++i) { close(fds.back()); fds.pop_back(); }
    Bytes d = "x";
    HostileInput in(c, d, InputPolicy());
    bool withIn = c.rng.chance(1, 2), full = keep < (withIn ? 4 : 2);
    Strigi::StreamStatus st = Ok; std::string err; int32_t k = 0;
    {
        ProcessInputStream s(sh("echo hello"), withIn ? &in : 0);
        const char* p;
        k = s.read(p, 1, 0);
        st = s.status(); err = s.error();
    }
    for (size_t i = 0; i < fds.size(); ++i) close(fds[i]);
    setrlimit(RLIMIT_NOFILE, &old);
    if (full) {
        REQ(c, st == Error && k == -2 && !err.empty(), "exhausted:status", "no descriptors are left (%d): status %s, read %d", keep, statusName(st), k);
        c.count("failed_starts_reported");
    }
    c.distinct(keep + 10);
    g.done();
}
static void failing(Case& c) {
    Guard g(c);
    Bytes d = blob(c.rng, sizeClass(c));
    InputPolicy pol = randomPolicy(c.rng, false);
    pol.chunk = 3; pol.n = 1 + c.rng.below(3000);
    HostileInput in(c, d, pol);
    in.failAt = c.rng.below(2 + d.size() / pol.n);
    c.note = fmt("%zu bytes, fails at call %lld", d.size(), (long long)in.failAt);
    {
        ProcessInputStream s(sh("exec cat"), &in);
        ReadResult r = readAll(c, &s, c.rng, d.size() + 10);
        REQ(c, r.data.size() <= d.size() && memcmp(r.data.data(), d.data(), r.data.size()) == 0, "fail:content", "wrong data before the failure");
        if (in.failed) {
            REQ(c, r.status == Error && !r.error.empty(), "fail:false-end", "the input failed; status %s after %zu of %zu bytes", statusName(r.status), r.data.size(), d.size());
            c.count("failures_surfaced");
        } else REQ(c, r.status == Eof && r.data == d, "fail:content", "no failure, but status %s, %zu of %zu bytes", statusName(r.status), r.data.size(), d.size());
    }
    c.count("processes");
    g.done();
}
// the caller has closed some of its standard streams
static void closedStandard(Case& c) {
    Guard g(c);
    int which = (int)c.rng.below(8);
    bool withIn = c.rng.chance(2, 3);
    Bytes d = blob(c.rng, c.rng.chance(1, 3) ? 200000 : 3000);
    std::string src = dir() + "/src";
    put(src, d);
    InputPolicy pol = randomPolicy(c.rng, false);
    c.note = fmt("closed:%s%s%s, %zu bytes, input %d", which & 1 ? " 0" : "", which & 2 ? " 1" : "", which & 4 ? " 2" : "", d.size(), withIn);
    int p[2];
    if (pipe(p)) throw std::runtime_error("pipe");
    int report = fcntl(p[1], F_DUPFD, 40);
    close(p[1]);
    pid_t pid = fork();
    if (pid == 0) {
        std::string why;
        for (int i = 0; i < 3; ++i) if (which >> i & 1) close(i);
        alarm(60);
        int before = openFds();
        try {
            HostileInput in(c, d, pol);
            ProcessInputStream* s = new ProcessInputStream(withIn ? sh("exec cat") : sh("exec cat " + src), withIn ? &in : 0);
            ReadResult r = readAll(c, s, c.rng, d.size() + 10);
            if (r.status != Eof) why = fmt("status %s '%s' after %zu bytes", statusName(r.status), r.error.c_str(), r.data.size());
            else if (r.data != d) why = fmt("%zu of %zu bytes, or wrong ones", r.data.size(), d.size());
            delete s;
        } catch (std::exception& e) { why = std::string("failed: ") + e.what(); }
        int st;
        if (why.empty() && (waitpid(-1, &st, WNOHANG) != -1 || errno != ECHILD)) why = "a child process was left";
        int after = openFds();
        if (why.empty() && after != before) why = fmt("%d open descriptors, there were %d", after, before);
        for (int i = 0; i < 3 && why.empty(); ++i)
            if ((fcntl(i, F_GETFD) == -1) != (which >> i & 1)) why = fmt("descriptor %d was %s", i, which >> i & 1 ? "opened" : "closed");
        ssize_t n = write(report, why.data(), why.size()); (void)n;
        _exit(0);
    }
    close(report);
    Bytes why; char b[256]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) why.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    REQ(c, why.empty(), "closed:stream", "with closed standard streams: %s", why.c_str());
    REQ(c, st == 0, "closed:ended", "with closed standard streams the process ended with status %x", st);
    c.count("processes"); c.count("closed_standard_streams");
    c.distinct(which * 2 + withIn);
    g.done();
}
void registerSuites() {
    g_rule = "children are shell commands over files with known content; the monitors compare the delivered bytes, the bytes the child stored, and the process's descriptors, children and signal state afterwards";
    addSuite("output", 400, 20000, output, 10);
    addSuite("filter", 2500, 60000, through, 10);
    addSuite("destroy", 200, 6000, destroy, 10);
    addSuite("several", 200, 4000, several, 10);
    addSuite("no-command", 40, 400, noCommand, 10);
    addSuite("exhausted", 24, 200, exhausted, 10);
    addSuite("failing", 200, 8000, failing, 10);
    addSuite("closed", 200, 6000, closedStandard, 10);
    addSuite("threads", 160, 3000, threads, 10);
    need("threads_starting_processes", 100);
    need("closed_standard_streams", 100);
    need("processes", 1500); need("child_inputs_checked", 200); need("inputs_larger_than_a_pipe", 60); need("failures_surfaced", 20); need("clean_destructions", 1500); need("failed_starts_reported", 5);
}
