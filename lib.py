"""Building and running the harnesses."""
import array, json, os, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
NIGHTLY = "+nightly"
EXEMPT = "--cfg procmacro2_semver_exempt"
# memory-access instrumentation, calling race/rt.c
TRACED = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
TRIPLE = "x86_64-unknown-linux-gnu"

# configuration -> (toolchain, cargo arguments, rustflags)
CONFIGS = {
    "plain": (None, [], ""),
    "span": (None, ["--features", "span"], ""),
    "nodef": (None, ["--no-default-features"], ""),
    "nodefspan": (None, ["--no-default-features", "--features", "span"], ""),
    "exempt": (None, [], EXEMPT),
    "exemptnodef": (None, ["--no-default-features"], EXEMPT),
    "nightly": (NIGHTLY, [], ""),
    "nightlyspan": (NIGHTLY, ["--features", "span"], ""),
    "nightlyunst": (NIGHTLY, ["--features", "span,unst"], ""),
    "nightlyexempt": (NIGHTLY, [], EXEMPT),
    # everything unstable, and the harness told that the compiler's implementation is there
    "nightlyall": (NIGHTLY, ["--features", "span,unst"], EXEMPT + " --cfg mc_compiler"),
    # what the build script selects for the oldest supported compilers, and for a nightly without unstable features
    "msrv": (None, [], "--cfg no_literal_byte_character --cfg no_literal_c_string"),
    "nightlystable": (NIGHTLY, ["--features", "span"], "-Zallow-features="),
    "tracedspan": (NIGHTLY, ["--features", "span", "--target", TRIPLE], TRACED),
    "tracednodefspan": (NIGHTLY, ["--no-default-features", "--features", "span", "--target", TRIPLE], TRACED),
    "nightlynodef": (NIGHTLY, ["--no-default-features"], ""),
}


class CheckError(Exception):
    pass


def env(rustflags):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR",
              "RUSTC_WRAPPER", "RUSTC", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS"):
        e.pop(k, None)
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build(config, crate="mc", profile="release", artifact=None, bin=None):
    tc, args, flags = CONFIGS[config]
    tdir = os.path.join(TARGET, crate + "-" + config)
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--offline", "--quiet", "--profile", profile,
                                               "--target-dir", tdir] + args
    if crate == "mc":
        cmd += ["--bin", bin or "mc"]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env(flags), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode:
        sys.stderr.write(p.stderr[-6000:])
        raise CheckError("building %s (%s) failed" % (crate, config))
    if TRIPLE in args:
        tdir = os.path.join(tdir, TRIPLE)
    return os.path.join(tdir, profile, artifact or bin or crate)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def run_mc(binary, argv, flags="", timeout=840, extra_env=None, lines=None):
    """Runs a harness, returns its MC-RESULT, turning a crash into a violation."""
    e = env(flags)
    e["RUST_BACKTRACE"] = "0"
    e.update(extra_env or {})
    t = time.time()
    try:
        p = subprocess.run([binary] + argv, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise CheckError("harness did not finish within %d s" % timeout)
    res = None
    case = ""
    if lines is not None:
        lines += p.stdout.split("\n")
    for line in p.stdout.split("\n"):
        if line.startswith("MC-RESULT "):
            res = json.loads(line[10:])
        elif line.startswith("CASE "):
            case = line[5:]
    if p.returncode < 0 and -p.returncode in CRASHES and res is None:
        what = "the harness (safe code using the library) died with %s: %s" % (
            signal.Signals(-p.returncode).name, p.stderr.strip()[-400:])
        return {"states": 0, "transitions": 0, "validated": 0, "open": 0, "spaces": [], "samples": [], "notes": [],
                "violations": [[case or "crash", what]], "seconds": time.time() - t}
    if res is None:
        sys.stderr.write(p.stderr[-4000:])
        raise CheckError("harness gave no result (exit %d)" % p.returncode)
    if (p.returncode == 0) != (not res["violations"]):
        raise CheckError("harness exit status %d contradicts its result" % p.returncode)
    return res


def mc(config, *argv):
    """A step: the mc harness in one configuration."""
    def step(prop, tier):
        b = build(config)
        a = [prop] + (["thorough"] if tier == "thorough" else ["quick"]) + list(argv)
        return run_mc(b, a)
    step.label = "mc/%s %s" % (config, " ".join(argv))
    return step


def digests(configs, max_report=6):
    """A step: the outcome of every case of every space must be the same in all configurations.
    A configuration is a name of CONFIGS, or name+fast for no debug assertions or overflow checks."""
    def step(prop, tier):
        t = time.time()

        def one(c):
            name, _, prof = c.partition("+")
            return build(name, profile=prof or "release", bin="digest")
        with ThreadPoolExecutor(3) as ex:
            bins = dict(zip(configs, ex.map(one, configs)))
        tot = {"states": 0, "transitions": 0, "validated": 0, "open": 0, "spaces": [], "samples": [], "notes": [],
               "violations": []}
        got = {}

        def run(c):
            lines = []
            r = run_mc(bins[c], [prop, tier], lines=lines)
            return c, r, lines
        seen = set()
        for c in configs:
            _, r, lines = run(c)
            tot["transitions"] += r["transitions"]
            tot["validated"] += r["validated"]
            tot["violations"] += [[a, "configuration %s: %s" % (c, b)] for a, b in r["violations"]]
            tot["spaces"] = r["spaces"]
            got[c] = {tuple(x.split()[1:3]): x.split()[3:] for x in lines if x.startswith("D ")}
            seen |= set(h for h, _ in got[c].values())
            if tot["violations"]:
                break
        tot["states"] = len(seen)
        if not tot["violations"]:
            first = {}
            for c in configs:
                # exact texts among configurations of one compiler, texts up to the spelling of
                # non-ASCII escapes between compilers
                tc = CONFIGS[c.partition("+")[0]][0]
                ref, col = (first[tc], 0) if tc in first else (configs[0], 1)
                first.setdefault(tc, c)
                if ref == c:
                    continue
                if set(got[c]) != set(got[ref]):
                    raise CheckError("configurations %s and %s enumerated different blocks" % (ref, c))
                bad = sorted(k for k in got[ref] if got[c][k][col] != got[ref][k][col])
                for k in bad[:3]:
                    a, b = [subprocess.run([bins[x], prop, tier, "list", k[0], k[1]], env=env(""), stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL).stdout.decode("utf-8", "replace").split("\n") for x in (ref, c)]
                    diff = [(x.split("\t"), y.split("\t")) for x, y in zip(a, b) if x.split("\t")[-1 if col else 0:] != y.split("\t")[-1 if col else 0:]]
                    if not diff:
                        tot["violations"].append(["block %s" % (k,), "%s: outcomes in %s and %s differ between runs (block %s)" % (
                            tot["spaces"][int(k[0])][0], ref, c, k)])
                    for x, y in diff[:2]:
                        cx, ox, oy = [json.loads(z) for z in (x[0], x[1], y[1])]
                        tot["violations"].append([cx, "case %r: outcome %r in configuration %s but %r in %s" % (cx, ox[:200], ref, oy[:200], c)])
                if len(tot["violations"]) >= max_report:
                    break
        tot["samples"] = ["%s block %s: %s" % (ref_, k, v[0]) for ref_, g in got.items() for k, v in list(g.items())[5000:5002]]
        tot["seconds"] = time.time() - t
        return tot
    step.label = "configurations " + " ".join(configs)
    return step


def merge(rs):
    """Adds up the results of shards."""
    tot = {"states": 0, "transitions": 0, "validated": 0, "open": 0, "spaces": [], "samples": [], "notes": [], "violations": []}
    for r in rs:
        for k in ("states", "transitions", "validated", "open"):
            tot[k] += r[k]
        tot["samples"] += r["samples"][:1]
        tot["notes"] += [n for n in r["notes"] if n not in tot["notes"]]
        tot["violations"] += r["violations"]
        for n, c in r["spaces"]:
            for e in tot["spaces"]:
                if e[0] == n:
                    if n.endswith("in this shard"):
                        e[1] += c
                    break
            else:
                tot["spaces"].append([n, c])
    tot["violations"] = tot["violations"][:20]
    return tot


def sharded(config, bin, n=16):
    """A step: one of mc's binaries, its work spread over n processes."""
    def step(prop, tier):
        t = time.time()
        b = build(config, bin=bin)
        with ThreadPoolExecutor(8) as ex:
            tot = merge(ex.map(lambda i: run_mc(b, [prop, tier, str(i), str(n)]), range(n)))
        tot["seconds"] = time.time() - t
        return tot
    step.label = "%s/%s" % (bin, config)
    return step


def raced(config, *argv, n=16):
    """A step: schedules that preempt at accesses to memory the threads share, found by instrumentation."""
    def step(prop, tier):
        t = time.time()
        try:
            b = build(config, "race")
        except CheckError:
            tot = merge([])
            tot["notes"].append("the crate could not be built with memory-access instrumentation; this step decided nothing in this run")
        else:
            with ThreadPoolExecutor(8) as ex:
                tot = merge(ex.map(lambda i: run_mc(b, [prop, tier, str(i), str(n)] + list(argv)), range(n)))
        tot["seconds"] = time.time() - t
        return tot
    step.label = "race/%s %s" % (config, " ".join(argv))
    return step


def interpreted(n=24):
    """A step: short histories in an interpreter that stops at undefined behaviour (Miri), and at leaks."""
    def step(prop, tier):
        t = time.time()
        e = env("")
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        e["MIRI_SYSROOT"] = os.path.join(TARGET, "miri-sysroot")
        cmd = ["cargo", NIGHTLY, "miri"]
        p = subprocess.run(cmd + ["setup"], cwd=os.path.join(HERE, "mc"), env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode:
            sys.stderr.write(p.stderr[-2000:])
            raise CheckError("miri setup failed")
        cmd += ["run", "--offline", "--quiet", "--bin", "mc", "--target-dir", os.path.join(TARGET, "mc-miri"), "--", prop, tier]

        def one(i):
            p = subprocess.run(cmd + ["%d/%d" % (i, n)], cwd=os.path.join(HERE, "mc"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace", timeout=3600)
            for line in p.stdout.split("\n"):
                if line.startswith("MC-RESULT "):
                    r = json.loads(line[10:])
                    if "error: memory leaked" in p.stderr:
                        r["violations"].append(["shard %d/%d" % (i, n), p.stderr[p.stderr.index("error: memory leaked"):][:600]])
                    return r
            if "error: Undefined Behavior" in p.stderr:
                r = merge([])
                r["violations"] = [["shard %d/%d" % (i, n), p.stderr[p.stderr.index("error: Undefined Behavior"):][:900]]]
                return r
            sys.stderr.write(p.stderr[-3000:])
            raise CheckError("miri gave no result (exit %d)" % p.returncode)
        first = one(0)
        with ThreadPoolExecutor(8) as ex:
            tot = merge([first] + list(ex.map(one, range(1, n))))
        tot["seconds"] = time.time() - t
        return tot
    step.label = "interpreted"
    return step


def detection():
    """A step: every interleaving of the crate's backend detection under a controlled scheduler."""
    def step(prop, tier):
        t = time.time()
        tot = {"states": 0, "transitions": 0, "validated": 0, "open": 0, "spaces": [], "samples": [], "notes": [],
               "violations": []}
        try:
            b = build("plain", "det")
        except CheckError:
            # the module was rewritten in terms the substitution does not cover: say so, decide nothing
            tot["notes"].append("src/detection.rs could not be built on its own with controlled primitives; "
                                "its interleavings were NOT explored in this run")
            tot["seconds"] = time.time() - t
            return tot
        n = 24
        with ThreadPoolExecutor(8) as ex:
            tot = merge(ex.map(lambda i: run_mc(b, [tier, str(i), str(n)]), range(n)))
        tot["seconds"] = time.time() - t
        return tot
    step.label = "detection schedules"
    return step


def expand(config, so, work, i, what, tier, shards, extra, timeout):
    """Compiles the driver once, so that the exploration runs inside rustc."""
    tc, _, flags = CONFIGS[config]
    out = os.path.join(work, "%d.json" % i)
    e = env(flags)
    e.update({"PM_WHAT": what, "PM_TIER": tier, "PM_OUT": out, "PM_SHARD": str(i if shards > 1 else 0),
              "PM_SHARDS": str(shards), "RUST_BACKTRACE": "0"})
    e.update(extra)
    cmd = ["rustc"] + ([tc] if tc else []) + ["--edition", "2021", "--crate-type", "lib", "--emit=metadata",
                                               "-o", os.path.join(work, "%d.rmeta" % i),
                                               os.path.join(HERE, "pm", "driver.rs"), "--extern", "pm=" + so]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None, "did not finish within %d s" % timeout, i
    res = None
    if os.path.exists(out):
        res = json.load(open(out, encoding="utf-8"))
        a = array.array("Q")
        b = open(out + ".states", "rb").read()
        a.frombytes(b[:len(b) // 8 * 8])
        res["hashes"] = set(a)
    bad = None
    if p.returncode != 0 or "error" in p.stderr:
        bad = "the compilation of a crate that only expands the macro failed (exit %d): %s" % (
            p.returncode, p.stderr.strip()[-600:])
    return res, bad, i


def in_macro(config, what, shards=16, timeout=800, histories=None):
    """A step: exploration inside a procedural macro. With `histories`, one fresh rustc per history."""
    def step(prop, tier):
        t = time.time()
        so = build(config, "pm", artifact="libpm.so")
        work = tempfile.mkdtemp(prefix="pm-", dir=TARGET)
        tot = {"states": 0, "transitions": 0, "validated": 0, "open": 0, "spaces": [], "samples": [], "notes": [],
               "violations": []}
        try:
            if histories:
                hs = histories(tier)
                jobs = [(i, 1, {"PM_HISTORY": h}, 60, h) for i, h in enumerate(hs)]
                tot["spaces"].append(["every history of the listed lengths as the first operations of a fresh process", len(hs)])
                tot["samples"] += hs[:3] + hs[-3:]
            else:
                jobs = [(i, shards, {}, timeout, "shard %d of %d" % (i, shards)) for i in range(shards)]
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda j: (j, expand(config, so, work, j[0], what, tier, j[1], j[2], j[3])), jobs))
            hashes = set()
            for j, (r, bad, i) in rs:
                if r:
                    hashes |= r["hashes"]
                    for k in ("transitions", "validated", "open"):
                        tot[k] += r[k]
                    tot["violations"] += r["violations"]
                    if i == 0:
                        tot["spaces"] += r["spaces"]
                    tot["samples"] += r["samples"][:2]
                if bad and (not r or not r["violations"]):
                    if not histories and "did not finish" in bad:
                        raise CheckError("exploration inside a macro " + bad)
                    tot["violations"].append([j[4], "%s: %s" % (j[4], bad)])
            tot["states"] = len(hashes)
            tot["violations"] = tot["violations"][:20]
        finally:
            shutil.rmtree(work, ignore_errors=True)
        tot["seconds"] = time.time() - t
        return tot
    step.label = "macro/%s %s" % (config, "first operations" if histories else "")
    return step


def validated_reference():
    """A step: the reference lexer itself against rustc's own lexer. A difference is a fault of the reference."""
    def step(prop, tier):
        b = build("nightly", "oracle")
        sysroot = subprocess.run(["rustc", NIGHTLY, "--print", "sysroot"], env=env(""), stdout=subprocess.PIPE, text=True).stdout.strip()
        r = run_mc(b, [prop, tier], extra_env={"LD_LIBRARY_PATH": os.path.join(sysroot, "lib")})
        if r["violations"]:
            raise CheckError("the reference lexer disagrees with rustc's: %s" % r["violations"][:3])
        return r
    step.label = "reference lexer against rustc's"
    return step
