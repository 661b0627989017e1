"""Shared machinery: builds the code of /repo's working tree in a scratch directory, runs TLC,
runs Minim programs, compares, and writes evidence."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
BEGIN, BUDGET = time.time(), 330        # seconds for the runs of a quick check
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out."""


class Work:
    """Scratch directory of one check run, removed at exit."""

    def __init__(self, name):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize < (2 << 30):
                base = None
        except OSError:
            base = None
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % name, dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, self.dir, True)
        self.n = 0

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        d = self.path(name)
        os.makedirs(d, exist_ok=True)
        return d


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


ASAN_GC = """#ifndef _MINIM_GC_SHIM_H_
#define _MINIM_GC_SHIM_H_
#include <stdlib.h>
#define GC_alloc(n) calloc(1, (n))
#define GC_calloc(s, n) calloc((s), (n))
#define GC_realloc(p, n) realloc(p, n)
#define GC_alloc_atomic(n) malloc(n)
#define GC_calloc_atomic(s, n) calloc((s), (n))
#define GC_realloc_atomic(p, n) realloc(p, n)
#define GC_register_root(o) ((void) 0)
#define GC_register_dtor(o, p) ((void) 0)
#define GC_init(x) ((void) 0)
#define GC_finalize() ((void) 0)
#define GC_pause() ((void) 0)
#define GC_resume() ((void) 0)
#define GC_REGISTER_LOCAL_ARRAY(x)
#endif
"""


class Build:
    """A build of /repo's sources (its current working tree) outside /repo."""

    def __init__(self, work, need=("vmini", "minim"), boot=None, opt="-O2", tag="src", asan=False):
        self.work = work
        self.src = work.path(tag)
        shutil.copytree(os.path.join(REPO, "src"), self.src, symlinks=True,
                        ignore=shutil.ignore_patterns("build", "*.a", "boehm-gc"))
        for p in ("src/boot/minim",):
            q = os.path.join(work.dir, tag, "boot", "minim")
            if os.path.exists(q):
                os.unlink(q)
        os.makedirs(self.src + "/gc/build", exist_ok=True)
        os.makedirs(self.src + "/gc/boehm-gc", exist_ok=True)
        os.makedirs(self.src + "/core/build", exist_ok=True)
        os.makedirs(self.src + "/boot/build", exist_ok=True)
        inc = self.src + "/gc/boehm-gc/include"
        if os.path.lexists(inc):
            os.unlink(inc)
        os.symlink("/usr/include", inc)
        w = lambda p, s: open(self.src + p, "w").write(s)
        w("/gc/build/config.h", "// #define USE_MINIM_GC 1\n")
        self.san = []
        if asan:      # every object is a malloc block of its own and none is collected
            os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:quarantine_size_mb=1"
            self.san = ["-fsanitize=address", "-fno-omit-frame-pointer"]
            w("/gc/gc.h", ASAN_GC)
        w("/core/build/config.h", '#define MINIM_X86_64 1\n#define PRELUDE_PATH "%s/core/s/prelude.min"\n' % self.src)
        w("/boot/build/config.h", '#define BOOT_DIR "%s/boot/s/"\n' % self.src)
        if boot is not None:
            shutil.copy(boot, self.src + "/boot/s/boot.min")
        shutil.copy(VERIF + "/harness/vmini.c", self.src + "/boot/c/vmini.c")
        self.opt = opt
        self.obj = work.sub(tag + "-obj")
        core = sorted(self.src + "/core/c/" + f for f in os.listdir(self.src + "/core/c") if f.endswith(".c"))
        boots = sorted(self.src + "/boot/c/" + f for f in os.listdir(self.src + "/boot/c")
                       if f.endswith(".c") and f not in ("minim.c", "vmini.c"))
        jobs = [(c, self._o(c)) for c in core + boots]
        mains = {}
        if "vmini" in need:
            mains["vmini"] = self.src + "/boot/c/vmini.c"
        if "minim" in need:
            mains["minim"] = self.src + "/boot/c/minim.c"
        jobs += [(c, self._o(c)) for c in mains.values()]
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(lambda j: self._cc(*j), jobs):
                if r.returncode != 0:
                    raise CheckError("build failed: " + r.stderr.decode("latin1")[-2000:])
        common = [self._o(c) for c in core + boots]
        self.common = common
        for name, c in mains.items():
            exe = work.path(tag + "-" + name)
            self.link(exe, [self._o(c)])
            setattr(self, name, exe)
        self.lib = self.src + "/library"

    def _o(self, c):
        return os.path.join(self.obj, os.path.relpath(c, self.src).replace("/", "_")[:-2] + ".o")

    def _cc(self, c, o, extra=()):
        return sh(["gcc", "-w", "-std=c11", self.opt, "-g", *self.san, *extra, "-c", "-o", o, c])

    def link(self, exe, objs):
        gc = self.san or ["/usr/lib/x86_64-linux-gnu/libgc.a", "-lpthread", "-ldl"]
        r = sh(["gcc", "-o", exe, *objs, *self.common, *gc])
        if r.returncode != 0:
            raise CheckError("link failed: " + r.stderr.decode("latin1")[-2000:])

    def program(self, exe, csrc, extra=()):
        """Compile a C driver against the core library."""
        o = exe + ".o"
        r = self._cc(csrc, o, ["-I" + self.src + "/boot/c", "-I" + self.src + "/boot", *extra])
        if r.returncode != 0:
            raise CheckError("driver build failed: " + r.stderr.decode("latin1")[-2000:])
        self.link(exe, [o])
        return exe


class Result:
    __slots__ = ("out", "err", "kind", "code", "rss")

    def __init__(self, out, err, kind, code, rss=0):
        self.out, self.err, self.kind, self.code, self.rss = out, err, kind, code, rss

    @property
    def status(self):
        return "exit %d" % self.code if self.kind == "exit" else "%s %d" % (self.kind, self.code)


class Runner:
    """Runs Minim program texts with the fork server."""

    def __init__(self, build, lib=False, tag="run", preload=None):
        """preload: library file imported once before the programs are run (they still import it)."""
        self.build, self.lib, self.preload = build, lib, None
        self.dir = build.work.sub("%s-%s" % (tag, "lib" if lib else "core"))
        self.count = 0
        if preload:
            self.preload = self.write(self.imp(preload), path=os.path.join(self.dir, "preload.min"))

    def imp(self, name="base.min"):
        """An import form for a library file, usable from a program of this runner."""
        return '(import "%s")\n' % os.path.relpath(self.build.lib + "/" + name, self.dir)

    def write(self, text, stdin=None, path=None):
        if path is None:
            path = os.path.join(self.dir, "p%d.min" % self.count)
            self.count += 1
        with open(path, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("latin1"))
        if stdin is not None:
            with open(path + ".in", "wb") as f:
                f.write(stdin if isinstance(stdin, bytes) else stdin.encode("latin1"))
        return path

    def run_paths(self, items, timeout=10, jobs=None):
        """items: list of (path, [args]); returns list of Result."""
        jobs = min(jobs or NCPU, max(1, len(items)))
        res = [None] * len(items)
        tf = os.path.join(self.dir, "tasks%d" % self.count)
        self.count += 1
        with open(tf, "w") as f:
            f.writelines("%d %d %s %s\n" % (i, timeout, p, " ".join(args)) for i, (p, args) in enumerate(items))
        cmd = [self.build.vmini] + (["-l"] if self.lib else [])
        if self.preload:
            cmd += ["-p", self.preload]
        if os.environ.get("VERIF_TIER", "quick") == "quick":          # a broken tree on which programs hang still gets an answer in time
            cmd += ["-b", str(max(20, int(BUDGET - (time.time() - BEGIN))))]
        sr = sh(cmd + ["-j", str(jobs), tf], cwd=self.dir)
        rs = [sr]
        os.unlink(tf)
        status = {}
        for r in rs:
            for ln in r.stdout.decode("latin1").splitlines():
                m = re.match(r"(\d+) (exit|signal) (\d+) (\d+)$", ln)
                if m:
                    status[int(m.group(1))] = (m.group(2), int(m.group(3)), int(m.group(4)))
        for i, (p, _) in enumerate(items):
            if i not in status and status:
                res[i] = Result(b"", b"", "skipped", 0)
                continue
            if i not in status:
                # the runtime itself failed to start: report as a failed start
                r = sr
                res[i] = Result(b"", r.stderr, "nostart", r.returncode)
                continue
            k, c, rss = status[i]
            rd = lambda e: open(p + e, "rb").read() if os.path.exists(p + e) else b""
            res[i] = Result(rd(".out"), rd(".err"), k, c, rss)
        return res

    def run(self, texts, timeout=10, keep=False):
        """texts: programs, or pairs of a program and its standard input."""
        items = [(self.write(*t) if isinstance(t, tuple) else self.write(t), []) for t in texts]
        res = self.run_paths(items, timeout)
        if not keep:
            for p, _ in items:
                for e in ("", ".out", ".err", ".in"):
                    try:
                        os.unlink(p + e)
                    except OSError:
                        pass
        return res

    def run_real(self, text, timeout=30, args=(), flags=None, stdin=b""):
        """The same program with the real `minim` executable."""
        p = self.write(text, stdin)
        if flags is None:
            flags = ["-q"] if self.lib else ["-q", "--no-libs"]
        try:
            r = subprocess.run([self.build.minim, *flags, p, *args], input=stdin if isinstance(stdin, bytes) else stdin.encode("latin1"), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=self.dir)
            k, c = ("exit", r.returncode) if r.returncode >= 0 else ("signal", -r.returncode)
            return Result(r.stdout, r.stderr, k, c)
        except subprocess.TimeoutExpired as e:
            return Result(e.stdout or b"", e.stderr or b"", "signal", 14)


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, wall):
        self.rc, self.wall = rc, wall
        self.generated = self.distinct = 0
        self.all, out = out, "\n".join(l for l in out.split("\n") if not l.startswith(('"{', '"[')))
        for m in re.finditer(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct", out):
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m.groups())
        if self.generated == 0:
            m = re.search(r"The number of states generated: (\d[\d,]*)", out)
            if m:
                self.generated = self.distinct = int(m.group(1).replace(",", ""))
        self.out = out
        self.ok = "No error has been found" in out or (rc == 0 and "Error:" not in out)

    def json(self):
        """Values printed with PrintT(ToJson(..))."""
        res = []
        for ln in self.all.split("\n"):
            if ln.startswith('"{') or ln.startswith('"['):
                res.append(json.loads(json.loads(ln)))
        return res


def tlc(work, module, cfg, workers=None, args=(), files=None, timeout=800, heap="6g", stack="512m", lazy=False):
    """Run TLC on spec/<module>.tla with configuration text cfg, in its own directory."""
    work.n += 1
    d = work.sub("tlc%d" % work.n)
    for f in os.listdir(VERIF + "/spec"):
        if f.endswith(".tla"):
            os.symlink(VERIF + "/spec/" + f, os.path.join(d, f))
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", JARS, "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           *args, "-config", module + ".cfg", module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    res = Tlc(r.stdout.decode("utf8", "replace"), r.returncode, time.time() - t)
    res.dir = d
    return res


def tlc_ok(work, module, cfg, **kw):
    r = tlc(work, module, cfg, **kw)
    if not r.ok:
        text = "\n".join(l[:400] for l in r.out.split("\n"))
        raise CheckError("TLC found an error in %s:\n%s" % (module, text[-3000:]))
    return r


# ---------------------------------------------------------------- checks

class Check:
    def __init__(self, prop, level, seed=None):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = Work(prop)
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = self._known()
        self.known_hit = {}

    quick = property(lambda self: TIER == "quick")

    def n(self, quick, thorough):
        return quick if TIER == "quick" else thorough

    def _known(self):
        p = VERIF + "/known_findings.json"
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get("property") == self.prop and k.get("status") == "known"]

    def mc(self, t):
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated

    def sample(self, s, cap=4):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def traced(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, text):
        """key identifies the failing input; text is the replay."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k["what"]
                return
        self.violations.append((key, text))

    def finish(self):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        stale = VERIF + "/evidence/%s.replay.txt" % self.prop
        if os.path.exists(stale):
            os.unlink(stale)
        if self.violations:
            path = VERIF + "/evidence/%s.replay.txt" % self.prop
            with open(path, "w", errors="backslashreplace") as f:
                for key, text in self.violations[:int(os.environ.get('VERIF_REPLAYS', '20'))]:
                    f.write("=== %s\n%s\n" % (key, text))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            for key, text in self.violations[:3]:
                print(text[:1500].encode("ascii", "backslashreplace").decode())
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 0


def main(prop, level, fn):
    c = None
    try:
        c = Check(prop, level)
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


# ---------------------------------------------------------------- comparing programs

def compare(check, runner, tests, timeout=10, what="program", res=None):
    """tests: list of dicts with text, out (expected stdout, str), status (expected, default
    'exit 0'; 'error' means exit 1 with a message on stderr).  Returns number of mismatches.
    A mismatch is re-run with the real executable before it is reported."""
    texts = [(t["text"], t["stdin"]) if "stdin" in t else t["text"] for t in tests]
    if res is None:
        res = runner.run(texts, timeout)
    bad, left = 0, 0
    for t, r in zip(tests, res):
        if r.kind == "skipped":
            left += 1
        elif not agrees(t, r):
            if bad and time.time() - BEGIN > BUDGET: break
            r2 = runner.run_real(t["text"], timeout=min(max(30, 3 * timeout), 90), stdin=t.get("stdin", b""))
            if agrees(t, r2):
                r3 = runner.run([(t["text"], t["stdin"]) if "stdin" in t else t["text"]], timeout * 3)[0]
                if agrees(t, r3):
                    continue
                r2 = r3
            bad += 1
            check.violation(t.get("key", t["text"]), report(t, r2, what))
            if bad >= int(os.environ.get("VERIF_REPLAYS", "10")):      # re-running costs seconds with the library
                break
        else:
            check.traced()
    if left and not bad: raise CheckError("%d programs not run: out of time" % left)
    return bad


def agrees(t, r):
    want = t.get("status", "exit 0")
    exp = t["out"]
    exp = exp if isinstance(exp, bytes) else exp.encode("latin1")
    if want == "error":
        ok = r.kind == "exit" and r.code == 1 and len(r.err) > 0
    elif want == "any-exit":
        ok = r.kind == "exit"
    else:
        ok = r.status == want
    return ok and r.out == exp and all(m.encode("latin1") in r.err for m in t.get("err", ()))


def report(t, r, what):
    t = dict(t, text=t["text"] if isinstance(t["text"], str) else t["text"].decode("latin1"))
    if "stdin" in t:
        what = t.get("key", what)
        t = dict(t, text=t["text"] + "\n--- standard input\n" + (t["stdin"] if isinstance(t["stdin"], str) else t["stdin"].decode("latin1")))
    return "%s\n--- program\n%s\n--- expected (%s)\n%s\n--- got (%s)\n%s\n--- stderr\n%s\n" % (
        t.get("key", what), t["text"], t.get("status", "exit 0"),
        t["out"] if isinstance(t["out"], str) else t["out"].decode("latin1"),
        r.status, r.out.decode("latin1"), r.err.decode("latin1")[:500])


# ---------------------------------------------------------------- operation histories

def enc(t):
    """Text for a TLA+ string: characters TLC would not print plainly become {hh}."""
    return re.sub(r'[^ -!#-\[\]-z|~]', lambda m: "{%02x}" % ord(m.group()), t)


def dec(t):
    return re.sub(r"\{([0-9a-f]{2})\}", lambda m: chr(int(m.group(1), 16)), t)


def run_scripts(check, module, prefix, scripts, chunk=50, inv=(), consts="", timeout=700, files=None):
    """Run operation histories (dicts with "ops" and what <prefix>Start needs) on spec/<module>.tla,
    which extends Script.tla; returns the list of results, one list per history."""
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Start <- %sStart\n Step <- %sStep\n Chunk = %d\n%s\nINVARIANTS Report %s\n" % (
        prefix, prefix, chunk, consts, " ".join(inv))
    t = tlc_ok(check.work, module, cfg, files=dict({"scripts.json": json.dumps(scripts)}, **(files or {})), timeout=timeout)
    check.mc(t)
    res = [None] * len(scripts)
    for j in t.json():
        res[j["id"] - 1] = j["res"]
    if any(r is None for r in res):
        raise CheckError("%s: no result for some histories" % module)
    return res
