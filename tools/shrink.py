"""Development aid: reduce core programs on which specification and implementation disagree."""
import sys, json
sys.path.insert(0, '/verif/lib')
from vlib import *
import corelang as L

def subs(e):
    """(rebuild, child expression) pairs."""
    t = e[0]
    if t in ("q", "v"): return
    if t == "lam":
        for i, b in enumerate(e[3]): yield (lambda x, i=i: ["lam", e[1], e[2], e[3][:i] + [x] + e[3][i+1:]]), b
    elif t == "cl":
        for j, c in enumerate(e[1]):
            for i, b in enumerate(c[2]):
                yield (lambda x, i=i, j=j, c=c: ["cl", e[1][:j] + [[c[0], c[1], c[2][:i] + [x] + c[2][i+1:]]] + e[1][j+1:]]), b
    elif t in ("letv", "letrec"):
        for i, b in enumerate(e[1]): yield (lambda x, i=i, b=b: [t, e[1][:i] + [[b[0], x]] + e[1][i+1:], e[2]]), b[1]
        for i, b in enumerate(e[2]): yield (lambda x, i=i: [t, e[1], e[2][:i] + [x] + e[2][i+1:]]), b
    elif t in ("set", "def"): yield (lambda x: [t, e[1], x]), e[2]
    elif t in ("seq", "values"):
        for i, b in enumerate(e[1]): yield (lambda x, i=i: [t, e[1][:i] + [x] + e[1][i+1:]]), b
    elif t == "app":
        yield (lambda x: ["app", x, e[2]]), e[1]
        for i, b in enumerate(e[2]): yield (lambda x, i=i: ["app", e[1], e[2][:i] + [x] + e[2][i+1:]]), b
    else:
        for i in range(1, len(e)): yield (lambda x, i=i: e[:i] + [x] + e[i+1:]), e[i]

def size(e): return 1 + sum(size(c) for _, c in subs(e))

def variants(e, top=False):
    for mk, c in subs(e):
        if not top: yield c
        for v in variants(c): yield mk(v)
    if not top and e[0] not in ("q", "v"): yield L.I(0)
    t = e[0]
    if t in ("letv", "letrec"):
        for i in range(len(e[1])): yield [t, e[1][:i] + e[1][i+1:], e[2]]
        if len(e[2]) > 1:
            for i in range(len(e[2])): yield [t, e[1], e[2][:i] + e[2][i+1:]]
    if t in ("seq", "values"):
        for i in range(len(e[1])): yield [t, e[1][:i] + e[1][i+1:]]
    if t == "lam" and len(e[3]) > 1:
        for i in range(len(e[3])): yield ["lam", e[1], e[2], e[3][:i] + e[3][i+1:]]
    if t == "app":
        for i in range(len(e[2])): yield ["app", e[1], e[2][:i] + e[2][i+1:]]
    if t == "cl":
        for i in range(len(e[1])):
            if len(e[1]) > 1: yield ["cl", e[1][:i] + e[1][i+1:]]

def mism(c, r, ps):
    rs, _ = L.interpret(c, ps)
    out = []
    ok = [(p, q) for p, q in zip(ps, rs) if q["status"] in ("done", "error", "exit")]
    ts = L.tests([p for p, _ in ok], [q for _, q in ok])
    res = r.run([t["text"] for t in ts])
    return [(p, t, x) for (p, _), t, x in zip(ok, ts, res) if not agrees(t, x)]

def shrink(c, r, p):
    best = p
    while True:
        cand = [best[:i] + best[i+1:] for i in range(len(best)) if len(best) > 1]
        for i, f in enumerate(best):
            cand += [best[:i] + [v] + best[i+1:] for v in variants(f, top=f[0] == "def")]
        tot = lambda q: sum(map(size, q))
        cand = [q for q in cand if tot(q) < tot(best)]
        cand.sort(key=tot)
        found = None
        for k in range(0, len(cand), 150):
            m = mism(c, r, cand[k:k+150])
            if m:
                found = min(m, key=lambda x: tot(x[0])); break
        if not found: return best
        best = found[0]

if __name__ == "__main__":
    c = Check("C01", "model_checking"); c.rng.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 5)
    b = Build(c.work); r = Runner(b)
    ps = [L.Gen(c.rng).program() for _ in range(int(sys.argv[1]))]
    ms = mism(c, r, ps)
    print(len(ms), "mismatches")
    for p, t, x in ms[:int(sys.argv[3]) if len(sys.argv) > 3 else 5]:
        q = shrink(c, r, p)
        m = mism(c, r, [q])
        print("-----"); print("\n".join(map(L.text, q)))
        if m: print("expected", m[0][1]["status"], repr(m[0][1]["out"]), "got", m[0][2].status, m[0][2].out, m[0][2].err[:200])
        sys.stdout.flush()
