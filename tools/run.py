#!/usr/bin/env python3
"""Driver of the checks: builds the library from /repo's working tree in the
needed instrumented variants, links the property's monitor, runs it, compares
violations with the known findings and writes the evidence file.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--scale X] [--only SUITE]
Exit: 0 held, 1 violation (VIOLATION line printed), 2 no verdict.
"""
import sys, os, json, hashlib, subprocess, time, shutil, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    "asan": dict(flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr,object-size,pointer-overflow "
                       "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
                 env=dict(ASAN_OPTIONS="abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:quarantine_size_mb=24:malloc_context_size=8:handle_abort=0:detect_odr_violation=0:detect_stack_use_after_return=0",
                          UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86")),
    # also what this platform tolerates: misaligned accesses, pointers far outside of an object
    "strict": dict(flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,object-size "
                       "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"),
    "tsan": dict(flags="-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
                 env=dict(TSAN_OPTIONS="halt_on_error=1:exitcode=87:die_after_fork=0:second_deadlock_stack=1:suppressions=" + os.path.join(HARN, "tsan.supp"))),
    "plain": dict(flags="-O1 -g -fno-omit-frame-pointer", env={}),
    # automatic variables start with known, different contents
    "zero": dict(flags="-O1 -g -fno-omit-frame-pointer -ftrivial-auto-var-init=zero", env={}),
    "pattern": dict(flags="-O2 -g -ftrivial-auto-var-init=pattern", env={}),
    # library optimised the way distributions build it, asserts still on
    "opt": dict(flags="-O2 -g", env={}),
}
VARIANTS["strict"]["env"] = VARIANTS["asan"]["env"]
COMMON_SRC = ["core.cpp", "streams.cpp"]
# per property: list of (variant, sources, extra link flags)
PROPS = json.load(open(os.path.join(HARN, "props.json")))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                dn.sort()
                dn[:] = [x for x in dn if x not in (".git", "_build")]
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"?")
    return h.hexdigest()[:16]


def sh(cmd, logf, env=None):
    with open(logf, "ab") as lf:
        lf.write((" ".join(cmd) + "\n").encode())
        lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        tail = open(logf, "rb").read()[-3000:].decode("latin1")
        raise NoVerdict("build step failed: %s\n%s" % (" ".join(cmd[:6]), tail))


def build_lib(variant):
    """cmake+ninja build of target streamsstatic from /repo's tree; cached by content."""
    v = VARIANTS[variant]
    key = tree_hash([os.path.join(REPO, x) for x in ("lib", "include", "cmake", "CMakeLists.txt", "ConfigureChecks.cmake", "strigiconfig.h.cmake")], variant + v["flags"])
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return d
    for old in os.listdir(BUILD):
        if old.startswith("lib-%s-" % variant) and old != os.path.basename(d):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ, CC="gcc", CXX="g++")
    lf = os.path.join(d, "build.log")
    # libzlib etc. stay uninstrumented; only the repository's code is built with the sanitizer
    sh(["cmake", "-S", REPO, "-B", os.path.join(d, "b"), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_CXX_FLAGS=-w " + v["flags"], "-DCMAKE_C_FLAGS=-w " + v["flags"]], lf, env)
    sh(["ninja", "-C", os.path.join(d, "b"), "streamsstatic"], lf, env)
    open(done, "w").write("ok\n")
    return d


def build_bin(prop, variant, sources, extra, libdir):
    v = VARIANTS[variant]
    hdrs = [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f.endswith(".h")]
    objs = []
    cmds = []
    odir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(odir, exist_ok=True)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(libdir, "b", "include"), "-I", os.path.join(REPO, "lib"), "-I", os.path.join(libdir, "b", "lib"), "-I", HARN]
    libkey = os.path.basename(libdir)
    for s in COMMON_SRC + sources:
        src = os.path.join(HARN, s)
        k = tree_hash(hdrs + [src], libkey + v["flags"])
        o = os.path.join(odir, s.replace(".", "_") + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            for old in os.listdir(odir):
                if old.startswith(s.replace(".", "_") + "-") and old.endswith(".o"):
                    os.unlink(os.path.join(odir, old))
            cmds.append((["g++", "-std=gnu++14", "-w"] + v["flags"].split() + inc + ["-c", src, "-o", o + ".tmp"], o))
    procs = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c, o) for c, o in cmds]
    for p, c, o in procs:
        out = p.communicate()[0].decode("latin1")
        if p.returncode != 0:
            raise NoVerdict("compilation of the monitor failed: %s\n%s" % (c[-3], out[-3000:]))
        os.rename(o + ".tmp", o)
    b = os.path.join(BUILD, "bin-%s-%s-%s" % (prop, variant, tree_hash(objs, libkey)))
    if not os.path.exists(b):
        for old in os.listdir(BUILD):
            if old.startswith("bin-%s-%s-" % (prop, variant)):
                os.unlink(os.path.join(BUILD, old))
        lib = os.path.join(libdir, "b", "lib", "libstreamsstatic.a")
        sh(["g++"] + v["flags"].split() + objs + [lib, "-lz", "-lbz2", "-llzma", "-lpthread", "-o", b + ".tmp"] + extra, os.path.join(BUILD, "link.log"))
        os.rename(b + ".tmp", b)
    return b


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def read_digests(path):
    d = {}
    if os.path.exists(path):
        for l in open(path):
            f = l.split()
            if len(f) == 3:
                d[(f[0], int(f[1]))] = f[2]
    return d


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    scale = None
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = int(args.pop(0))
        elif a == "--replay": replay = args.pop(0)
        elif a == "--scale": scale = args.pop(0)
        elif a == "--only": only = args.pop(0)
        else:
            raise NoVerdict("bad argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop not in PROPS:
        raise NoVerdict("unknown property " + prop)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    conf = PROPS[prop]
    bins = []
    for part in conf["parts"]:
        libdir = build_lib(part["variant"])
        bins.append((part, build_bin(prop, part["variant"], part["sources"], part.get("link", []), libdir)))
    fcntl.flock(lock, fcntl.LOCK_UN)
    tb = time.time()

    if replay:
        r = json.load(open(replay))
        digs = []
        for part, b in bins:
            both = r.get("part") == "builds compared" and part.get("digests")
            if not both and part.get("name", part["variant"]) != r.get("part"):
                continue
            w = os.path.join(BUILD, "work-replay-%d" % os.getpid())
            env = dict(os.environ, **VARIANTS[part["variant"]]["env"])
            env.update(part.get("env", {}))
            if both:
                env["VERIF_DIGESTS"] = os.path.join(BUILD, "digests-%d" % os.getpid())
            cmd = part.get("wrap", []) + [b, "--work", w, "--data", os.path.join(VERIF, "corpus"), "--seed", str(r["seed"]), "--replay", r["suite"], str(r["idx"])]
            if r.get("thorough"):
                cmd.append("--thorough")
            rc = subprocess.run(cmd, env=env).returncode
            shutil.rmtree(w, ignore_errors=True)
            if both:
                digs.append(read_digests(env["VERIF_DIGESTS"]))
                if os.path.exists(env["VERIF_DIGESTS"]):
                    os.unlink(env["VERIF_DIGESTS"])
                if len(digs) < 2 or digs[0] == digs[-1]:
                    continue
                rc = 1
            if rc != 0:
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
        return 0

    ev = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], parts={})
    assumptions = []
    viols = []
    inconclusive = []
    digests = []
    for part, b in bins:
        pname = part.get("name", part["variant"])
        w = os.path.join(BUILD, "work-%s-%s-%d" % (prop, pname, os.getpid()))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        env = dict(os.environ, **VARIANTS[part["variant"]]["env"])
        env.update(part.get("env", {}))
        env["LC_ALL"] = "C.UTF-8"
        if part.get("digests"):
            env["VERIF_DIGESTS"] = os.path.join(w, "digests")
        cmd = part.get("wrap", []) + [b, "--work", w, "--data", os.path.join(VERIF, "corpus"), "--seed", str(seed), "--workers", str(part.get("workers", 8))]
        if tier == "thorough":
            cmd.append("--thorough")
        if scale:
            cmd += ["--scale", scale]
        if only:
            cmd += ["--only", only]
        limit = (700 if tier == "quick" else 4 * 3600)
        try:
            # own session, so that everything this run started can be ended
            p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=w)
            try:
                out = p.communicate(timeout=limit)[0].decode("latin1")
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                raise NoVerdict("monitor for %s/%s did not finish" % (prop, pname))
            if p.returncode != 0 or not os.path.exists(os.path.join(w, "summary.json")):
                raise NoVerdict("monitor for %s/%s failed with %s\n%s" % (prop, pname, p.returncode, out[-3000:]))
            s = json.load(open(os.path.join(w, "summary.json")))
            ev["evaluations"] += s["evaluations"]
            ev["distinct_nontrivial"] += s["distinct"]
            ev["rule"] = s["rule"] or ev["rule"]
            if part.get("digests"):
                digests.append(read_digests(env["VERIF_DIGESTS"]))
            for a in s["assumptions"]:
                if a not in assumptions:
                    assumptions.append(a)
            ev["parts"][pname] = dict(cases=s["suites"], observed=s["counters"])
            sp = os.path.join(w, "samples.jsonl")
            if os.path.exists(sp):
                ev["samples"] += [json.loads(l) for l in open(sp)][:6]
            vp = os.path.join(w, "violations.jsonl")
            if os.path.exists(vp):
                for l in open(vp, errors="replace"):
                    v = json.loads(l)
                    v["part"] = pname
                    v["thorough"] = tier == "thorough"
                    viols.append(v)
            if s["unmet"] and not scale and not only:
                inconclusive.append("%s: too little observed: %s" % (pname, ", ".join(s["unmet"])))
            if s["unstable"]:
                ev["parts"][pname]["slow_cases_decided_by_rerun"] = s["unstable"]
        finally:
            shutil.rmtree(w, ignore_errors=True)
    for other in digests[1:]:
        common = [k for k in digests[0] if k in other]
        ev["parts"].setdefault("builds compared", {})["results"] = len(common)
        if not common:
            inconclusive.append("no results to compare between the builds")
        for k in common:
            if digests[0][k] != other[k]:
                viols.append(dict(suite=k[0], idx=k[1], seed=seed, key="builds-differ:" + k[0], part="builds compared", thorough=tier == "thorough",
                                  msg="builds that only differ in the initial content of variables give different results (%s, %s)" % (digests[0][k], other[k])))
    known = known_findings(prop)
    bykey = {}
    for v in viols:
        bykey.setdefault(v["key"], []).append(v)
    new = []
    hit = set()
    for k, vs in sorted(bykey.items()):
        kf = [x for x in known if x[0] == k]
        if kf:
            hit.add(kf[0])
        else:
            new.append((k, vs))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    evid = dict(property=prop, tier=tier, seed=seed, level=conf["level"], coverage=ev, assumptions=assumptions,
                wall_s=round(time.time() - t0, 1), violations=sum(len(vs) for k, vs in new))
    ev["build_s"] = round(tb - t0, 1)
    if inconclusive:
        ev["inconclusive"] = inconclusive
    json.dump(evid, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, vs in new[:10]:
        v = vs[0]
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        v["occurrences"] = len(vs)
        v["property"] = prop
        json.dump(v, open(rp, "w"), indent=1)
        log("  %s (%d times; suite %s case %d): %s" % (k, len(vs), v["suite"], v["idx"], v["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if new:
        return 1
    if inconclusive:
        raise NoVerdict("; ".join(inconclusive))
    if ev["evaluations"] == 0:
        raise NoVerdict("nothing was run")
    print("%s: held on %d executions (%d distinct), %.0f s (build %.0f s)" % (prop, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0, tb - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        log("NO VERDICT: %s" % e)
        sys.exit(2)
