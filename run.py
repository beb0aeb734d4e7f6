#!/usr/bin/env python3
"""Builds and runs the property checks of susa.

  run.py setup                     check the tools, prebuild nothing that is needed later
  run.py check P01 [--tier quick]  one check: exit 0 held, 1 violated, 2 no answer
  run.py all [--tier quick]        all of them, one after another
  run.py replay FILE               re-run a recorded failure (exit 1 if it still fails)
"""
import array, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SHARDS = 8
EXIT_HANG = 78
FILLS = [0xBE, 0x00, 0xFF, 0x41, 0x80, 0x01, 0x7F, 0x3C]  # contents of fresh memory, per shard

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def compilers():
    for c in (os.environ.get("PBT_CXX"), "clang++", "clang++-18", "/app/checker/bin/clang++", "/usr/lib/llvm-18/bin/clang++"):
        if c and shutil.which(c):
            yield shutil.which(c), "clang"
            break
    if shutil.which("g++"):
        yield shutil.which("g++"), "gcc"


# Only memory errors are faults by themselves; arithmetic is judged by its results.
SAN = "-fsanitize=address,bounds,return,unreachable,vla-bound -fno-sanitize-recover=all"


def flags(kind, cfg):
    f = ["-std=c++17", cfg.get("opt", "-O1"), "-w", "-DSUSA_NDEBUG", "-ffp-contract=off", "-fno-omit-frame-pointer", "-pthread"]
    if cfg.get("san") == "thread":
        return f + ["-fsanitize=thread"] + cfg.get("flags", [])
    f += SAN.split()
    if kind == "clang":
        f += ["-ftrivial-auto-var-init=pattern", "-fsized-deallocation"]
    f += cfg.get("flags", [])
    return f


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h


class BuildError(Exception):
    def __init__(self, stage, out):
        super().__init__(stage)
        self.stage, self.out = stage, out


def lib_sources():
    # the sources that make up the library according to its build file; all of
    # src/ except the unfinished mlp.cpp if that cannot be told
    src = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
    try:
        cm = re.sub(r"#.*", "", open(os.path.join(REPO, "CMakeLists.txt")).read())
        listed = [f for f in src if re.search(r"src/" + re.escape(f), cm)]
        if listed:
            return listed
    except OSError:
        pass
    return [f for f in src if f != "mlp.cpp"]


# Build configurations of the library that P35 compares (compiler kind, flags).
VARIANTS = [
    ("clang", "-O2"),  # assertions and log messages on
    ("clang", "-O3 -DSUSA_NDEBUG -DSUSA_NASSERT -ftrivial-auto-var-init=pattern"),
    ("clang", "-O0 -DSUSA_NASSERT"),
    ("clang", "-O1 -DNDEBUG -DSUSA_NDEBUG"),
    ("gcc", "-O2 -DNDEBUG -DSUSA_NDEBUG -DSUSA_NASSERT"),
    ("gcc", "-O3 -DSUSA_NDEBUG"),
    ("gcc", "-O0"),
]


def variant_list(cxx, kind):
    have = dict((k, c) for c, k in reversed(list(compilers())))
    for n, (k, f) in enumerate(VARIANTS):
        k = k if k in have else kind
        fl = [x for x in f.split() if k == "clang" or not x.startswith("-ftrivial")]
        name = "v%d" % n
        yield n, have.get(k, cxx), ["-std=c++17"] + fl + ["-w", "-ffp-contract=off", "-fno-omit-frame-pointer", "-pthread",
                                    "-Dsusa=susa_" + name, "-Dops=ops_" + name, "-Dsg=sg_" + name, "-DVARIANT=variant_%d" % n], k + " " + f


def compile_one(cxx, fl, src, obj):
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [cxx] + fl + ["-I", os.path.join(REPO, "inc"), "-I", os.path.join(VERIF, "engine"), "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode == 0:
        os.replace(tmp, obj)
    return r.returncode, r.stdout


def build(pid, cfg, cxx, kind, fuzz=False):
    fl = flags(kind, cfg)
    if fuzz:
        fl = fl + ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    h = tree_hash(os.path.join(REPO, "inc"), os.path.join(REPO, "src"), os.path.join(VERIF, "engine"))
    h.update(" ".join([cxx] + fl).encode())
    libkey = h.hexdigest()[:16]
    h.update(open(os.path.join(VERIF, "harness", pid + ".cpp"), "rb").read())
    variants = list(variant_list(cxx, kind)) if cfg.get("variants") else []
    h.update(repr(variants).encode() if variants else b"")
    key = h.hexdigest()[:16]
    d = os.path.join(BUILD, "%s-%s" % (pid, key))
    exe = os.path.join(d, "fuzz" if fuzz else "harness")
    if os.path.exists(exe):
        os.utime(d)
        return exe
    ld = os.path.join(BUILD, "lib-" + libkey)
    os.makedirs(d, exist_ok=True)
    os.makedirs(ld, exist_ok=True)
    jobs = []
    for s in lib_sources():
        o = os.path.join(ld, s + ".o")
        if not os.path.exists(o):
            jobs.append(("lib", os.path.join(REPO, "src", s), o))
    hobj = os.path.join(d, "harness.o")
    hfl = fl
    vobjs = []
    if variants:
        hfl = fl + ["-I", d]
        with open(os.path.join(d, "variants.h"), "w") as f:
            for n, _, _, text in variants:
                f.write('#define VARIANT_FLAGS_%d "%s"\nCONFIGURATION(%d)\n' % (n, text, n))
    jobs = [(st, cxx, fl, src, o) for st, src, o in jobs]
    jobs.insert(0, ("harness", cxx, hfl, os.path.join(VERIF, "harness", pid + ".cpp"), hobj))
    for n, vcxx, vfl, _ in variants:
        o = os.path.join(d, "v%d.o" % n)
        vobjs.append(o)
        jobs.insert(1, ("harness", vcxx, vfl, os.path.join(VERIF, "engine", "variant.cpp"), o))
        for s in lib_sources():
            o = os.path.join(d, "v%d-%s.o" % (n, s))
            vobjs.append(o)
            jobs.append(("lib", vcxx, vfl, os.path.join(REPO, "src", s), o))
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: (j[0],) + compile_one(j[1], j[2], j[3], j[4]), jobs))
    for st, rc, out in sorted(res, key=lambda r: r[0] != "lib"):
        if rc != 0:
            raise BuildError(st, out)
    objs = [hobj] + vobjs + [os.path.join(ld, s + ".o") for s in lib_sources()]
    lf = list(fl)
    if fuzz:
        lf = [f for f in lf if f != "-fsanitize=fuzzer-no-link"] + ["-fsanitize=fuzzer"]
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run([cxx] + lf + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("link", r.stdout)
    os.replace(tmp, exe)
    prune()
    return exe


def prune(keep=80):
    ds = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD)), key=lambda p: os.stat(p).st_mtime, reverse=True)
    for p in ds[keep:]:
        shutil.rmtree(p, ignore_errors=True)


def thread_sanitizer_works():
    """Whether a program built with it runs here (it needs a particular memory layout)."""
    for cxx, kind in compilers():
        with tempfile.TemporaryDirectory(dir=BUILD) as d:
            with open(os.path.join(d, "a.cpp"), "w") as f:
                f.write("#include <thread>\n#include <atomic>\nint main(){std::atomic<int> n(0);std::thread a([&]{n++;}),b([&]{n++;});a.join();b.join();return n==2?0:1;}\n")
            try:
                r = subprocess.run([cxx, "-std=c++17", "-fsanitize=thread", "-pthread", os.path.join(d, "a.cpp"), "-o", os.path.join(d, "a")],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                return r.returncode == 0 and all(subprocess.run([os.path.join(d, "a")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
                                                 for _ in range(5))
            except (OSError, subprocess.TimeoutExpired):
                return False
    return False


def settle(cfg):
    """The configuration as this machine allows it."""
    os.makedirs(BUILD, exist_ok=True)
    if cfg.get("san") == "thread" and not thread_sanitizer_works():
        log("  ThreadSanitizer does not run here: built with AddressSanitizer, so that races show by their effects only")
        return {k: v for k, v in cfg.items() if k != "san"}
    return cfg


def build_any(pid, cfg, fuzz=False):
    """The first compiler that manages; the library must compile with one of them."""
    errs = []
    for cxx, kind in compilers():
        if fuzz and kind != "clang":
            continue
        try:
            return build(pid, cfg, cxx, kind, fuzz)
        except BuildError as e:
            errs.append(e)
    if not errs:
        raise BuildError("no compiler", "no usable C++ compiler found")
    if any(e.stage == "lib" for e in errs):
        raise BuildError("lib", errs[0].out)
    raise errs[0]


def env_for(shard, cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("malloc_fill_byte=%d:max_malloc_fill_size=67108864:detect_leaks=0:exitcode=99:abort_on_error=0:"
                         "symbolize=0:allocator_may_return_null=1:hard_rss_limit_mb=%d:quarantine_size_mb=32:"
                         "print_summary=1:handle_abort=0:allocator_release_to_os_interval_ms=-1" % (FILLS[shard % 8], cfg.get("rss_mb", 2800)))
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:die_after_fork=0:report_signal_unsafe=0:history_size=4"
    e["LC_ALL"] = "C"
    return e


def read_status(f):
    try:
        b = open(f, "rb").read()
    except OSError:
        return None
    if len(b) < 56 + 8192:
        return None
    hdr = array.array("Q", b[:56])
    n = hdr[3]
    msg = b[56:56 + 8192].split(b"\0", 1)[0].decode(errors="replace")
    ch = array.array("Q", b[56 + 8192:56 + 8192 + 8 * n]).tolist()
    return dict(magic=hdr[0], case=hdr[1], phase=hdr[2], n=n, overflow=hdr[4], failed=hdr[5], done=hdr[6], msg=msg, choices=ch)


def tail(s, n=4000):
    return s if len(s) <= n else s[:n // 2] + "\n ...\n" + s[-n // 2:]


def describe(rc, err, st):
    """One line saying what happened."""
    if st and st["failed"] and st["msg"]:
        return st["msg"]
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err) or re.search(r"(runtime error: [^\n]*)", err)
    if m:
        return "AddressSanitizer: " + m.group(1) if "AddressSanitizer" in m.group(0) else m.group(1)
    m = re.search(r"WARNING: (ThreadSanitizer: data race)[^\n]*", err)
    if m:
        where = re.search(r"#\d+ [^\n]*?(\w+\.(?:h|cpp):\d+)", err)
        return m.group(1) + (" at " + where.group(1) if where else "") + (" (" + st["msg"] + ")" if st and st["msg"] else "")
    m = re.search(r"(Assertion [^\n]*)", err)
    if m:
        return "stopped by an assertion: " + m.group(1)
    if "hard rss limit exhausted" in err:
        return "the case used more memory than any case needs"
    m = re.search(r"(terminate called[^\n]*(\n[^\n]*what[^\n]*)?)", err)
    if m:
        return m.group(1).replace("\n", " ")
    return "the case ended with status %d" % rc


def run_proc(cmd, env, timeout, out=subprocess.DEVNULL):
    with tempfile.TemporaryFile() as ef:
        try:
            r = subprocess.run(cmd, env=env, stdout=out, stderr=ef, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1000
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 200000))
        return rc, ef.read().decode(errors="replace")


def replay_choices(exe, choices, shard, cfg, wd, timeout=180):
    cf = os.path.join(wd, "choices.txt")
    with open(cf, "w") as f:
        f.write("\n".join(map(str, choices)) + "\n")
    sf = os.path.join(wd, "replay.status")
    rc, err = run_proc([exe, "replay", "--choices", cf, "--status", sf], env_for(shard, cfg), timeout)
    return rc, err, read_status(sf)


def run_prefix(exe, rep, cfg, wd):
    sf = os.path.join(wd, "prefix.status")
    rc, err = run_proc([exe, "prefix", "--seed", str(rep["seed"]), "--shard", str(rep["shard"]),
                        "--cases", str(rep["case"] + 1), "--status", sf], env_for(rep["shard"], cfg), 850)
    return rc, err, read_status(sf)


def save_replay(rep):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (rep["property"], hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(rep, f, indent=1)
    return p


def violation(pid, rep):
    p = save_replay(rep)
    log("  what fails: " + rep["message"].replace("\n", " ")[:1500])
    log("VIOLATION property=%s replay=%s" % (pid, p))
    return p


def examine(pid, cfg, exe, shard, seed, st, rc, err, wd):
    """Turn a failed shard into a minimal replay, or None if it cannot be confirmed."""
    base = dict(property=pid, shard=shard, seed=seed, case=st["case"], first_message=describe(rc, err, st))
    if not st["overflow"]:
        tries = cfg.get("replays", 3)
        bad = 0
        for _ in range(tries):
            r2, e2, s2 = replay_choices(exe, st["choices"], shard, cfg, wd)
            bad += r2 != 0
        if bad * 3 >= tries * 2 or (tries > 3 and bad):
            ch = st["choices"]
            if bad == tries:
                cf, of = os.path.join(wd, "in.txt"), os.path.join(wd, "out.txt")
                with open(cf, "w") as f:
                    f.write("\n".join(map(str, ch)) + "\n")
                run_proc([exe, "shrink", "--choices", cf, "--out", of, "--budget", str(cfg.get("shrink_s", 20))], env_for(shard, cfg), 120)
                if os.path.exists(of):
                    c2 = [int(x) for x in open(of).read().split()]
                    r3, e3, s3 = replay_choices(exe, c2, shard, cfg, wd)
                    if r3 != 0:
                        return dict(base, kind="choices", choices=c2, message=describe(r3, e3, s3), output=tail(e3))
            r3, e3, s3 = replay_choices(exe, ch, shard, cfg, wd)
            return dict(base, kind="choices", choices=ch, message=describe(r3, e3, s3) if r3 else base["first_message"], output=tail(e3 if r3 else err))
    rep = dict(base, kind="prefix-run")
    for _ in range(2):
        r4, e4, s4 = run_prefix(exe, rep, cfg, wd)
        if r4 != 0:
            return dict(rep, message=describe(r4, e4, s4), output=tail(e4))
    return None


def cmd_check(pid, tier):
    t0 = time.time()
    cfg = settle(CHECKS[pid])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    log("%s (%s, seed %d): %s" % (pid, tier, seed, cfg["title"]))
    try:
        exe = build_any(pid, cfg)
    except BuildError as e:
        print(tail(e.out, 6000))
        if e.stage == "harness" or e.stage == "link":
            # the library itself compiles: what users call does not any more
            m = re.search(r"error: [^\n]*", e.out) or re.search(r"undefined reference[^\n]*", e.out)
            violation(pid, dict(property=pid, kind="build", message="calls of the documented interface do not build: " + (m.group(0) if m else e.stage), output=tail(e.out)))
            write_evidence(pid, tier, seed, cfg, dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=["the check could not be built"]), t0, 1)
            return 1
        log("NO ANSWER: the library does not build")
        return 2
    wd = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        tb = time.time()
        rc, reports, unconfirmed, cov = explore(pid, cfg, exe, tier, seed, wd)
        if tier == "thorough" and not reports and cfg.get("fuzz", True):
            r2, c2 = fuzz(pid, cfg, seed, wd)
            reports += r2
            cov.update(c2)
        for r in reports:
            violation(pid, r)
        write_evidence(pid, tier, seed, cfg, cov, t0, len(reports))
        log("  %d cases, %d distinct non-trivial; built in %.1f s, ran %.1f s" %
            (cov["evaluations"], cov["distinct_nontrivial"], tb - t0, time.time() - tb))
        if reports:
            return 1
        if rc or unconfirmed:
            log("NO ANSWER: " + "; ".join(unconfirmed))
            return 2
        return 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def explore(pid, cfg, exe, tier, seed, wd):
    cases = max(1, cfg["cases"] // SHARDS)
    tlim = cfg.get("quick_limit", 120)
    if tier == "thorough":
        cases, tlim = 1 << 40, int(os.environ.get("VERIF_THOROUGH_S", "300"))

    def shard_run(k):
        out = os.path.join(wd, "s%d.json" % k)
        st = os.path.join(wd, "s%d.status" % k)
        for attempt in range(2):
            rc, err = run_proc([exe, "run", "--seed", str(seed), "--shard", str(k), "--cases", str(cases), "--time", str(tlim),
                                "--out", out, "--status", st], env_for(k, cfg), tlim * 2 + 400)
            if rc != -9:
                break
        return k, rc, err, out, read_status(st)

    with ThreadPoolExecutor(max_workers=SHARDS) as ex:
        res = list(ex.map(shard_run, range(SHARDS)))
    reports, unconfirmed, hashes = [], [], set()
    tot = dict(cases=0, evaluations=0, nontrivial=0)
    labels, samples, failures = {}, [], 0
    for k, rc, err, out, st in res:
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            for key in tot:
                tot[key] += d[key]
            for l, c in d["labels"].items():
                labels[l] = labels.get(l, 0) + c
            samples += d["samples"]
            a = array.array("Q")
            a.frombytes(open(out + ".hashes", "rb").read())
            hashes.update(a)
            continue
        failures += 1
        if st is None or (st["case"] == 0 and st["n"] == 0 and not st["phase"]):
            unconfirmed.append("shard %d ended with status %d before any case: %s" % (k, rc, tail(err, 400)))
            continue
        if rc in (-9, -1000):
            unconfirmed.append("shard %d was ended from outside or ran out of wall time (status %d)" % (k, rc))
            continue
        tot["cases"] += st["case"] + 1
        tot["evaluations"] += st["case"] + 1
        if reports:
            continue  # one minimal report is enough
        rep = examine(pid, cfg, exe, k, seed, st, rc, err, wd)
        if rep:
            reports.append(rep)
        else:
            unconfirmed.append("shard %d failed once (%s) but did not fail again" % (k, describe(rc, err, st)))
    cov = dict(evaluations=tot["cases"], distinct_nontrivial=len(hashes), rule=cfg["rule"],
               samples=[s for s in samples[:12] if s] or ["(no sample: every shard failed early)"],
               nontrivial_cases=tot["nontrivial"], elementary_evaluations=tot["evaluations"],
               labels=dict(sorted(labels.items())), shards=SHARDS)
    return (0 if not failures else 2), reports, ([] if reports else unconfirmed), cov


def fuzz(pid, cfg, seed, wd):
    """Coverage-guided search over the same property."""
    try:
        exe = build_any(pid, cfg, fuzz=True)
    except BuildError as e:
        return [], {"fuzz": "not built: " + tail(e.out, 300)}
    secs = int(os.environ.get("VERIF_FUZZ_S", "240"))
    corpus = os.path.join(wd, "corpus")
    os.makedirs(corpus)
    harness = build_any(pid, cfg)

    def one(k):
        env = env_for(k, cfg)
        sf = os.path.join(wd, "f%d.status" % k)
        env["PBT_STATUS"] = sf
        art = os.path.join(wd, "art%d-" % k)
        rc, err = run_proc([exe, corpus, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % secs, "-max_len=1024", "-len_control=20",
                            "-timeout=60", "-rss_limit_mb=2800", "-artifact_prefix=" + art, "-print_final_stats=1", "-reload=1", "-verbosity=1"], env, secs + 300)
        return k, rc, err, read_status(sf)

    reports, execs, covmax = [], 0, 0
    with ThreadPoolExecutor(max_workers=SHARDS) as ex:
        for k, rc, err, st in ex.map(one, range(SHARDS)):
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
            execs += int(m.group(1)) if m else 0
            for m in re.finditer(r"cov: (\d+)", err):
                covmax = max(covmax, int(m.group(1)))
            if rc != 0 and st and st["n"] and not reports:
                rep = examine(pid, cfg, harness, k, seed, dict(st, case=0), rc, err, wd)
                if rep and rep["kind"] == "choices":
                    reports.append(rep)
    return reports, {"fuzz_executions": execs, "fuzz_edges": covmax, "fuzz_corpus": len(os.listdir(corpus))}


def write_evidence(pid, tier, seed, cfg, cov, t0, nviol):
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def cmd_replay(path):
    rep = json.load(open(path))
    pid = rep["property"]
    os.makedirs(BUILD, exist_ok=True)
    cfg = settle(CHECKS[pid])
    try:
        exe = build_any(pid, cfg)
    except BuildError as e:
        print(tail(e.out, 6000))
        log("the check does not build")
        return 1 if rep["kind"] == "build" else 2
    if rep["kind"] == "build":
        log("the check builds")
        return 0
    wd = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        if rep["kind"] == "choices":
            rc, err, st = replay_choices(exe, rep["choices"], rep["shard"], cfg, wd)
        else:
            rc, err, st = run_prefix(exe, rep, cfg, wd)
        sys.stdout.write(tail(err, 8000) + "\n")
        log("fails: " + describe(rc, err, st) if rc else "does not fail")
        return 1 if rc else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def cmd_setup():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for c, k in compilers():
        r = subprocess.run([c, "--version"], stdout=subprocess.PIPE, text=True)
        log(c, r.stdout.splitlines()[0] if r.stdout else "")
    missing = [p for p in CHECKS if not os.path.exists(os.path.join(VERIF, "harness", p + ".cpp"))]
    log("harnesses: %d, missing: %s" % (len(CHECKS), missing))
    return 1 if missing else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[:1] == ["setup"]:
        return cmd_setup()
    if a[:1] == ["check"] and len(a) == 2 and a[1] in CHECKS:
        return cmd_check(a[1], tier)
    if a[:1] == ["all"]:
        bad = []
        for p in a[1:] or CHECKS:
            r = cmd_check(p, tier)
            if r:
                bad.append((p, r))
        log("failing:", bad)
        return 1 if bad else 0
    if a[:1] == ["replay"] and len(a) == 2:
        return cmd_replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
