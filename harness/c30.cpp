// Threads with their own objects: no race on library state, the same results as alone.
#include "wild.h"
#include "gzipcompressstream.h"
#include "base64inputstream.h"
#include <strigi/fileinputstream.h>
#include <strigi/processinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/kmpsearcher.h>
#include <strigi/stringstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include <sys/wait.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <iconv.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
using namespace Strigi;
namespace {
// one thread's work; every object is made, used and destroyed by the thread
struct Job { std::string name; std::function<uint64_t(Case&, Rng&)> run; uint64_t seed; };
HostileInput* input(Case& c, Rng& r, const Bytes& b, bool seek) {
    InputPolicy p = randomPolicy(r, seek);
    HostileInput* h = new HostileInput(c, b, p);
    h->failAt = r.chance(1, 8) ? r.len(100) : 20000 + 40 * (int64_t)b.size();
    return h;
}
Job decoderJob(Rng& r, const std::string& kind) {
    Wild w;
    if (r.chance(1, 3)) w = wildComp(r, kind, 6000);
    else { Comp k = r.chance(3, 4) ? makeComp(r, kind, randomContent(r, 9000)) : makeChain(r, randomContent(r, 6000), 2); w.data = k.input; w.make = k.make; w.kind = k.name; }
    Job j; j.name = kind; j.seed = r.next();
    j.run = [w, kind](Case& c, Rng& q) {
        std::unique_ptr<HostileInput> h(input(c, q, w.data, q.chance(1, 2)));
        Effort e; Stages s;
        w.make(s, h.get());
        if (q.chance(1, 8)) s.s.push_back(new GZipCompressInputStream(s.top(), (int)q.below(10)));
        wildRead(c, s.top(), q, e, kind);
        return e.dig;
    };
    return j;
}
Bytes archiveBytes(Rng& r, const std::string& f) {
    if (r.chance(1, 3)) return wildArchive(r, f, 5000).data;
    GenOpts o; o.maxMembers = 5; o.maxSize = 5000; o.plainNames = r.chance(1, 2);
    return genArchive(r, f, o).bytes;
}
Job archiveJob(Rng& r, const std::string& f) {
    Bytes d = archiveBytes(r, f);
    Job j; j.name = f; j.seed = r.next();
    j.run = [d, f](Case& c, Rng& q) {
        std::unique_ptr<HostileInput> h(input(c, q, d, f == "ole" || q.chance(1, 2)));
        Effort e;
        SubStreamProviderProvider spp;
        std::unique_ptr<SubStreamProvider> p(q.chance(1, 5) ? spp.subStreamProvider(h.get()) : makeProvider(f, h.get()));
        if (p) wildEnumerate(c, p.get(), q, e, f, 1);
        return e.dig;
    };
    return j;
}
Job readerJob(Rng& r) {
    Bytes d = archiveBytes(r, g_formats[r.below(g_nformats)]);
    std::string path;
    Job j; j.name = "reader"; j.seed = r.next();
    if (r.chance(1, 2)) {   // a file on disk that all threads share
        path = scratchDir() + "/shared";
        FILE* f = fopen(path.c_str(), "wb"); if (f) { fwrite(d.data(), 1, d.size(), f); fclose(f); }
        j.name = "disk-reader";
    }
    j.run = [d, path](Case& c, Rng& q) {
        WildOpener o(c, q.next()); FileStreamOpener fo;
        o.budget = 1LL << 60; o.failAt = 100000; o.files["f"] = d;
        ArchiveReader a;
        a.addStreamOpener(path.empty() ? (StreamOpener*)&o : &fo);
        Effort e;
        for (int i = 0; i < 2; ++i) wildReader(c, a, path.empty() ? "f" : path, q, e, 2);
        return e.dig;
    };
    return j;
}
Job textJob(Rng& r) {
    Bytes d = randomContent(r, 4000), b = b64encode(d, 0), needle = d.substr(0, r.below(20));
    Job j; j.name = "text"; j.seed = r.next();
    j.run = [d, b, needle](Case& c, Rng& q) {
        uint64_t g = 1;
        for (int i = 0; i < 4; ++i) {
            Bytes o = Base64InputStream::decode(b.data(), b.size());
            g = mix(g, hashStr(o));
            KmpSearcher k(needle);
            const char* p = k.search(d.data(), (int32_t)d.size());
            g = mix(g, p ? p - d.data() : -1);
            char left = 0;
            const char* u = checkUtf8(d.data(), (int32_t)d.size(), left);
            g = mix(g, u ? u - d.data() : -1);
            StringInputStream s(d.data(), (int32_t)d.size(), q.chance(1, 2));
            EncodingInputStream t(&s, g_encodings[q.below(g_nencodings)]);
            Effort e; wildRead(c, &t, q, e, "encoding");
            g = mix(g, e.dig);
        }
        return g;
    };
    return j;
}
Job processJob(Rng& r) {
    Bytes d = randomContent(r, r.chance(1, 3) ? 200000 : 3000);
    Job j; j.name = "process"; j.seed = r.next();
    j.run = [d](Case& c, Rng& q) {
        std::vector<std::string> v; v.push_back("/bin/cat");
        std::unique_ptr<HostileInput> h(new HostileInput(c, d, randomPolicy(q, true)));
        ProcessInputStream s(v, h.get());
        uint64_t g = 1; const char* p; int32_t n;
        while ((n = s.read(p, 1 + (int32_t)q.below(5000), 0)) > 0) g = hashBytes(p, n, g);
        return mix(g, mix(s.status(), s.position()));
    };
    return j;
}
Job randomJob(Rng& r) {
    switch (r.below(12)) {
    case 0: case 1: case 2: return decoderJob(r, g_comps[r.below(g_ncomps)]);
    case 3: case 4: case 5: case 6: return archiveJob(r, g_formats[r.below(g_nformats)]);
    case 7: case 8: return readerJob(r);
    case 9: case 10: return textJob(r);
    default: return r.chance(1, 3) ? processJob(r) : textJob(r);
    }
}
struct Start { Case* c; const Job* j; uint64_t* out; pthread_barrier_t* b; int rounds; };
void* body(void* a) {
    Start* s = (Start*)a;
    if (s->b) pthread_barrier_wait(s->b);
    uint64_t g = 0;
    for (int i = 0; i < s->rounds; ++i) { Rng q(mix(s->j->seed, i)); g = mix(g, s->j->run(*s->c, q)); }
    *s->out = g;
    return 0;
}
// runs the jobs in a process of its own, where nothing of the library was used before
bool inChild(Case& c, const std::vector<Job>& jobs, bool together, int rounds, std::vector<uint64_t>& out, int& status) {
    int pf[2];
    if (pipe2(pf, O_CLOEXEC)) return false;
    pid_t pid = fork();
    if (pid < 0) { close(pf[0]); close(pf[1]); return false; }
    if (pid == 0) {
        close(pf[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::vector<uint64_t> o(jobs.size(), 0);
        std::vector<Start> st(jobs.size());
        pthread_barrier_t b;
        pthread_barrier_init(&b, 0, jobs.size());
        std::vector<pthread_t> t(jobs.size());
        for (size_t i = 0; i < jobs.size(); ++i) {
            st[i].c = &c; st[i].j = &jobs[i]; st[i].out = &o[i]; st[i].b = together ? &b : 0; st[i].rounds = rounds;
            if (together) { if (pthread_create(&t[i], 0, body, &st[i])) _exit(99); } else body(&st[i]);
        }
        if (together) for (size_t i = 0; i < jobs.size(); ++i) pthread_join(t[i], 0);
        if (write(pf[1], &o[0], o.size() * 8) != (ssize_t)(o.size() * 8)) _exit(98);
        exit(0);   // the race detector sets the exit code
    }
    close(pf[1]);
    out.assign(jobs.size(), 0);
    size_t got = 0;
    while (got < out.size() * 8) {
        struct pollfd q = { pf[0], POLLIN, 0 };
        if (poll(&q, 1, 60000) == 0) { kill(pid, SIGKILL); break; }
        ssize_t k = read(pf[0], (char*)&out[0] + got, out.size() * 8 - got); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; got += k; }
    close(pf[0]);
    waitpid(pid, &status, 0);
    return true;
}
void compare(Case& c, const std::vector<Job>& jobs, int rounds) {
    c.note = "threads:";
    for (auto& j : jobs) c.note += " " + j.name;
    std::vector<uint64_t> a, b; int sa = 0, sb = 0;
    if (!inChild(c, jobs, true, rounds, a, sa) || !inChild(c, jobs, false, rounds, b, sb)) return;
    if (WIFSIGNALED(sa) && WTERMSIG(sa) == SIGKILL) {   // once more, to tell a deadlock from a busy machine
        if (!inChild(c, jobs, true, rounds, a, sa)) return;
        REQ(c, !(WIFSIGNALED(sa) && WTERMSIG(sa) == SIGKILL), "deadlock", "the threads did not end in a minute, twice; alone they do");
    }
    // the report is on stderr; this process ends like the child did
    if (sa != 0) { if (WIFEXITED(sa)) _exit(WEXITSTATUS(sa)); raise(WTERMSIG(sa)); _exit(90); }
    if (sb != 0) _exit(WIFEXITED(sb) ? WEXITSTATUS(sb) : 91);
    for (size_t i = 0; i < jobs.size(); ++i)
        REQ(c, a[i] == b[i], "result:" + jobs[i].name, "thread %zu gives %llx beside other threads and %llx alone", i, (unsigned long long)a[i], (unsigned long long)b[i]);
    c.count("threads", jobs.size()); c.count("thread_groups"); c.count("results_compared", jobs.size());
    for (auto& j : jobs) c.count(("job_" + j.name).c_str());
    uint64_t g = 1; for (auto x : a) g = mix(g, x);
    c.distinct(g); c.sample(c.note);
}
}
// without the library: the corpus, and conversion modules that stay loaded
static void prepare() {
    corpus(); scratchDir();
    static bool done;
    if (!done) for (int i = 0; i < g_nencodings; ++i) iconv_open("UTF-8", g_encodings[i]);
    done = true;
}
static void mixed(Case& c) {
    prepare();
    std::vector<Job> jobs;
    int n = 2 + (int)c.rng.below(6);
    for (int i = 0; i < n; ++i) jobs.push_back(randomJob(c.rng));
    compare(c, jobs, 1 + (int)c.rng.below(3));
}
// all threads do the same kind of work, as the first users of it
static void same(Case& c) {
    prepare();
    std::vector<Job> jobs;
    int n = 2 + (int)c.rng.below(5);
    int kinds = g_ncomps + g_nformats + 3, k = (int)(c.idx % kinds);
    for (int i = 0; i < n; ++i)
        jobs.push_back(k < g_ncomps ? decoderJob(c.rng, g_comps[k]) : k < g_ncomps + g_nformats ? archiveJob(c.rng, g_formats[k - g_ncomps]) : k == kinds - 3 ? readerJob(c.rng) : k == kinds - 2 ? textJob(c.rng) : processJob(c.rng));
    compare(c, jobs, 1 + (int)c.rng.below(2));
}
void registerSuites() {
    g_rule = "two to seven threads start together in a fresh process, each with its own streams, enumerations, readers and text utilities over its own bytes (some over one shared file); ThreadSanitizer watches every access of the library, and each thread's digest of all entries, data, statuses and messages is compared with the digest of the same work done alone in another fresh process";
    g_assumptions.push_back("zlib, bzip2, iconv and libc are not instrumented; their thread safety is taken from their documentation");
    addSuite("mixed", 700, 40000, mixed, 60);
    addSuite("same", 700, 40000, same, 60);
    need("thread_groups", 300); need("results_compared", 1000);
}
