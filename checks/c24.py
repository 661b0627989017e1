"""C24: minim-gc keeps everything reachable and reclaims each block at most once."""
import sys, os, subprocess, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SIZES = [0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 40, 64, 100]


def history(r, n, deep=0, heavy=False):
    """operations of a mutator; what they do when a register holds no block is fixed, so any sequence is meaningful"""
    ops = [dict(k="mode", s=r.choice([0, 1, 1, 2, 2]) if not heavy else r.choice([0, 3, 3, 3]))]
    kind = lambda: r.choice([0, 0, 0, 1, 2])
    reg = lambda: r.randint(1, 8)
    size = lambda: r.choice(SIZES)
    # a few kinds of histories: general, many roots, many frees, accounting
    w = dict(alloc=20, store=22, load=10, copy=5, clear=10, realloc=6, free=4, root=2, dtor=3, mrk=2, collect=8, reg=3, pause=1, resume=1, stats=5, chain=3)
    for k in r.sample(sorted(w), 3): w[k] *= 4
    if heavy: w.update(root=12, alloc=60, chain=9)
    names, ws = list(w), list(w.values())
    paused = False
    big = 0
    for _ in range(n):
        k = r.choices(names, ws)[0]
        if k == "alloc": ops.append(dict(k=k, s=reg(), kind=kind(), d=r.random() < .5, size=size(), zero=r.random() < .3))
        elif k == "realloc": ops.append(dict(k=k, s=reg(), kind=kind(), d=r.random() < .5, size=size() if r.random() < .85 else 0))
        elif k == "store": ops.append(dict(k=k, s=reg(), i=r.choice([1, 1, 1, 2, 2, 3, 4, 8]), t=reg() if r.random() < .9 else -r.randint(1, 4000)))
        elif k == "load": ops.append(dict(k=k, s=reg(), t=reg(), i=r.choice([1, 1, 2, 3])))
        elif k == "copy": ops.append(dict(k=k, s=reg(), t=reg()))
        elif k in ("clear", "free", "root"): ops.append(dict(k=k, s=reg()))
        elif k == "dtor": ops.append(dict(k=k, s=reg(), d=r.random() < .8))
        elif k == "mrk": ops.append(dict(k=k, s=reg(), kind=kind()))
        elif k == "reg": ops.append(dict(k=k, s=reg(), r=r.choice([0, 2, 3, 4, 5])))      # not rbp, which setjmp may hide
        elif k == "chain":
            if big > (12 if heavy else 4): continue
            big += 1
            cnt = r.choice([1, 2, 10, 300, 3000] if not heavy else [2, 5000, 7000, 9000, 14000])
            ops.append(dict(k=k, s=reg(), cnt=cnt, size=r.choice([8, 16, 24, 64]), kind=r.choice([0, 0, 2]), d=cnt <= 300 and r.random() < .5, loose=r.random() < .4))
        else: ops.append(dict(k=k))
        if k in ("pause", "resume"): paused = k == "pause"
        if k == "collect" and r.random() < .3: ops.append(dict(k=k))
    if heavy:      # more than enough garbage that collections come by themselves
        if paused: ops.append(dict(k="resume"))
        for _ in range(3): ops.append(dict(k="chain", s=1, cnt=150, size=1 << 20, kind=1, d=False, loose=True))
    if deep:
        ops += [dict(k="chain", s=2, cnt=deep, size=16, kind=r.choice([0, 2]), d=False, loose=False), dict(k="collect"), dict(k="stats"), dict(k="clear", s=2), dict(k="collect"), dict(k="collect")]
    ops += [dict(k="collect"), dict(k="collect"), dict(k="stats"), dict(k="end")]
    return ops


def line(o):
    z = lambda *ks: " ".join(str(int(o[k])) for k in ks)
    k = o["k"]
    s = (o["s"] - 1) if "s" in o else 0
    t = o.get("t", 0)
    t = t - 1 if t > 0 else t
    return {"alloc": lambda: "alloc %d %s" % (s, z("kind", "d", "size", "zero")), "realloc": lambda: "realloc %d %s" % (s, z("kind", "d", "size")),
            "store": lambda: "store %d %d %d" % (s, o["i"] - 1, t), "load": lambda: "load %d %d %d" % (s, t, o["i"] - 1), "copy": lambda: "copy %d %d" % (s, t),
            "clear": lambda: "clear %d" % s, "free": lambda: "free %d" % s, "root": lambda: "root %d" % s, "dtor": lambda: "dtor %d %s" % (s, z("d")), "mrk": lambda: "mrk %d %s" % (s, z("kind")),
            "reg": lambda: "reg %d %s" % (s, z("r")), "chain": lambda: "chain %d %s" % (s, z("cnt", "size", "kind", "d", "loose")), "mode": lambda: "mode %d" % (s + 1)}.get(k, lambda: k)()


def drivers(c):
    gc = REPO + "/src/gc/minim-gc/"
    src = sorted(gc + f for f in os.listdir(gc) if f.endswith(".c"))
    out = []
    for opt in ("-O0", "-O2"):
        exe = c.work.path("gcdrv" + opt)
        subprocess.run(["gcc", opt, "-g", "-w", "-I", gc, VERIF + "/harness/gcdrv.c"] + src + ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")), "-o", exe], check=True)
        out.append((opt, exe))
    return out


def record(exe, ops):
    """the history, with what was observed of each operation"""
    try:
        p = subprocess.run([exe], input="".join(line(o) + "\n" for o in ops).encode(), capture_output=True, timeout=120)
        out, st = p.stdout.decode("latin1").split("\n"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, st = (e.stdout or b"").decode("latin1").split("\n"), "timeout"
    tr = []
    for o, ln in zip(ops, out):
        try: obs = json.loads(ln)
        except ValueError: break
        tr.append(dict(o, obs=obs))
    if len(tr) < len(ops) or st != 0: tr.append(dict(k="died", what=str(st)))
    return tr


def check(c):
    c.mc(tlc_ok(c.work, "HeapTables", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 3 Regs = {%s} Tables <- Tiny\nINVARIANTS TypeOK Safe OnceOnly\nPROPERTY Exact\nSYMMETRY Sym\n" % c.n("r1, r2", "r1, r2, r3")))
    r = c.rng
    hs = [history(r, r.choice([20, 60, 120])) for _ in range(c.n(600, 6000))]
    hs += [history(r, 150, heavy=True) for _ in range(c.n(40, 300))]
    hs += [history(r, 5, deep=d) for d in c.n([300000], [300000, 1000000, 2000000])]
    for opt, exe in drivers(c):
        with concurrent.futures.ThreadPoolExecutor(8) as ex: ts = list(ex.map(lambda h: record(exe, h), hs))
        rs = run_scripts(c, "Heap", "H", [dict(ops=t) for t in ts], chunk=40)
        for h, t, x in zip(hs, ts, rs):
            c.traced(); c.add("histories"); c.add("operations", len(x)); c.add("collections", sum(o["k"] in ("collect", "reg") for o in t)); c.add("blocks freed", sum(n for o in t for _, n in o.get("obs", {}).get("freed", [])))
            if x[-1][0] != "ok":
                c.violation("heap %s" % x[-1][1], "%s (driver %s)\n%s\nlast operation observed: %s" % (x[-1][1], opt, "\n".join(line(o) for o in h[:len(x)]), json.dumps(t[len(x) - 1])[:400]))
    c.sample(dict(history=[line(o) for o in hs[0]][:30]))
    c.assumptions = ["a reference is the address that the allocator returned (not one inside the block), held in a register, on the stack above the collector, or in a scanned word of a block", "a word that happens to look like a reference keeps a block for at most one collection in these histories", "destructors do not use the collector"]


if __name__ == "__main__":
    main("C24", "model_checking", check)
