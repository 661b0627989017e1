"""C07: hashtables are exact finite maps under their equivalence."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L

# key universes: Minim expression, identity ("" = a new object for every key), structure, number
def numbers(n, off=0, step=1):
    return [dict(x=str(off + i * step), id="n%d" % (off + i * step), cls="n%d" % (off + i * step), n=off + i * step) for i in range(n)]


def mixed():
    ks = []
    def k(x, cls, same=None): ks.append(dict(x=x, id=same or "o%d" % len(ks), cls=cls, n=0))
    for i in (0, 1, 13, 29, -1, 2 ** 40): k(str(i), "n%d" % i, "n%d" % i)
    for c in "ab0": k("#\\" + c, "c" + c, "c" + c)
    for s in ("a", "b", "sym"): k("'" + s, "y" + s, "y" + s)
    for s in ("a", "b", "", "a", "aaaaaaaa"): k('(string-append "" "%s")' % s, "s" + s)
    for l in ("1 2", "1 2", "2 1", "1 (2)", '"a"', "a"): k("(list %s)" % re.sub(r"\((\S+)\)", r"(list \1)", l.replace("a", "'a").replace("\"'a\"", '"a"')), "l" + l)
    for v in ("1 2", "1 2", "1"): k("(vector %s)" % v, "v" + v)
    for b in ("1", "1", "2"): k("(box %s)" % b, "b" + b)
    for x in ("#t", "#f", "'()"): k(x, x, x)
    k("(cons 1 2)", "p12"); k("(cons 1 2)", "p12"); k("(cons 1 (cons 2 3))", "p123")
    k("(list (vector 1 (list \"x\")) (box 'y))", "deep"); k("(list (vector 1 (list \"x\")) (box 'y))", "deep")
    return ks


KINDS = {"eq": ("eq", 0, ["(make-eq-hashtable)"]),
         "equal": ("equal", 0, ["(make-hashtable)"]),
         "const": ("equal", 1, ["(make-custom-hashtable zero-hash equal?)"]),
         "neg": ("equal", 2, ["(make-custom-hashtable neg-hash equal?)"]),
         "few": ("equal", 3, ["(make-custom-hashtable few-hash equal?)"]),
         "eqfew": ("eq", 4, ["(make-custom-hashtable few-eq-hash eq?)"]),
         "mod7": ("mod", 7, ["(make-custom-hashtable hash7 equiv7)"]),
         "mod50": ("mod", 50, ["(make-custom-hashtable hash50 equiv50)"])}

PRE = L.PRELUDE + '''
(define-values (mod) (lambda (a b) (modulo a b)))
(define-values (zero-hash) (lambda (k) 0))
(define-values (neg-hash) (lambda (k) (- 0 (equal-hash k))))
(define-values (few-hash) (lambda (k) (+ 1000000007 (mod (equal-hash k) 3))))
(define-values (few-eq-hash) (lambda (k) (mod (eq-hash k) 5)))
(define-values (hash7) (lambda (k) (- (mod k 7) 3)))
(define-values (equiv7) (lambda (a b) (= (mod a 7) (mod b 7))))
(define-values (hash50) (lambda (k) (* 2 (mod k 50))))
(define-values (equiv50) (lambda (a b) (= (mod a 50) (mod b 50))))
(define-values (sum) (lambda (v i) (if (= i (vector-length v)) 0 (+ (vector-ref v i) (sum v (+ i 1))))))
(define-values (count) (lambda (v k equiv i) (if (= i (vector-length v)) 0 (+ (if (equiv k (vector-ref v i)) 1 0) (count v k equiv (+ i 1))))))
; every view of the table must tell the same
(define-values (agree) (lambda (t ks vs ks2 vs2 i)
  (if (= i (vector-length ks)) #t
    (if (eq? (vector-ref ks i) (vector-ref ks2 i))
      (if (= (vector-ref vs i) (vector-ref vs2 i))
        (if (= (hashtable-ref t (vector-ref ks i)) (vector-ref vs i))
          (if (= 1 (count ks (vector-ref ks i) (hashtable-equiv-proc t) 0)) (agree t ks vs ks2 vs2 (+ i 1)) 'twice) 'ref) 'vals) 'keys))))
(define-values (view) (lambda (t)
  (let-values ([(ks vs) (hashtable-entries t)])
    (display (hashtable-size t)) (display " ") (display (sum vs 0)) (display " ")
    (display (if (= (vector-length ks) (hashtable-size t)) (if (= (vector-length vs) (hashtable-size t))
       (agree t ks vs (hashtable-keys t) (hashtable-vals t) 0) 'len) 'len))
    (for-each (lambda (k) (display " ") (display (if (hashtable-contains? t k) (hashtable-ref t k 'gone) (hashtable-ref t k '-)))) universe)
    (newline))))
'''


def render(s):
    lines = ["(define-values (k%d) %s)" % (i + 1, k["x"]) for i, k in enumerate(s["keys"])]
    lines.append("(define-values (universe) (list %s))" % " ".join("k%d" % (i + 1) for i in range(len(s["keys"]))))
    nt = 0

    def ex(o):
        op, t = o["op"], "t%d" % o.get("t", 0)
        k = "k%s" % o.get("k")
        if op == "set": return "(hashtable-set! %s %s %d)" % (t, k, o["v"])
        if op == "del": return "(hashtable-delete! %s %s)" % (t, k)
        if op == "ref": return "(hashtable-ref %s %s)" % (t, k)
        if op == "refd": return "(hashtable-ref %s %s %d)" % (t, k, o["v"])
        if op == "reft": return "(hashtable-ref %s %s (lambda () %s %d))" % (t, k, " ".join(map(ex, o["sub"])), o["v"])
        if op == "has": return "(hashtable-contains? %s %s)" % (t, k)
        if op == "upd":
            d = {"none": "", "val": " %d" % o["dv"], "proc": " (lambda () %d)" % o["dv"]}[o["d"]]
            return "(hashtable-update! %s %s (lambda (v) %s (+ v %d))%s)" % (t, k, " ".join(map(ex, o["sub"])), o["v"], d)
        if op == "size": return "(hashtable-size %s)" % t
        if op == "clear": return "(hashtable-clear! %s)" % t
        if op == "equal": return "(equal? %s t%d)" % (t, o["u"])
        if op == "hash": return "(= (equal-hash %s) (equal-hash t%d))" % (t, o["u"])
        raise ValueError(op)
    for o in s["ops"]:
        if o["op"] == "make":
            nt += 1
            lines.append("(define-values (t%d) %s)" % (nt, KINDS[o["kind"]][2][0]))
        elif o["op"] == "copy":
            nt += 1
            lines.append("(define-values (t%d) (hashtable-copy t%d))" % (nt, o["t"]))
        elif o["op"] == "view":
            lines.append("(view t%d)" % o["t"])
        elif o["op"] == "hash":
            # only promised when the tables are equal
            lines.append("(if (equal? t%d t%d) (out %s) (out '?))" % (o["t"], o["u"], ex(o)))
        else:
            lines.append("(out %s)" % ex(o))
    return PRE + "\n".join(lines) + "\n"


def expect(s, res):
    out, status, err = [], "exit 0", []
    for o, r in zip(s["ops"], res):
        if r[0] == "stop":
            status, err = "error", ["key not found"]
            break
        if o["op"] in ("make", "copy"): continue
        if o["op"] == "view": out.append("%s %s #t %s" % (r[2], r[3], " ".join(r[1])))
        else: out.append(r[1])
    return "".join(x + "\n" for x in out), status, err


def op(o, t=1, **k): return dict(op=o, t=t, **k)
def mk(kind): return dict(op="make", t=1, kind=kind, eqv=KINDS[kind][0], m=KINDS[kind][1])


def history(rng, kinds, keys, n, pdel=0.25, views=3, nested=True, errs=0.0):
    ops = [mk(rng.choice(kinds)) for _ in range(rng.randint(1, 2))]
    nt = len(ops)
    nk = len(keys)

    def key(): return rng.randint(1, nk)
    def simple(depth=0):
        nonlocal nt
        t = rng.randint(1, nt)
        x = rng.random()
        if x < 0.45: return op("set", t, k=key(), v=rng.randint(0, 99))
        if x < 0.45 + pdel: return op("del", t, k=key())
        if x < 0.8: return op("upd", t, k=key(), v=rng.randint(0, 9), d=rng.choice(["val", "proc"]), dv=rng.randint(0, 9),
                              sub=[simple(depth + 1) for _ in range(rng.choice([0, 0, 1, 2, 4]))] if nested and depth < 2 else [])
        if x < 0.84: return op("refd", t, k=key(), v=-1)
        if x < 0.88: return op("reft", t, k=key(), v=-2, sub=[simple(depth + 1) for _ in range(rng.choice([0, 1, 2]))] if depth < 2 else [])
        if x < 0.91: return op("has", t, k=key())
        if x < 0.94: return op("size", t)
        if x < 0.95: return op("clear", t)
        return op("equal", t, u=rng.randint(1, nt))
    for i in range(n):
        x = rng.random()
        if x < 0.02 and nt < 5:
            ops.append(op("copy", rng.randint(1, nt))); nt += 1
        elif x < 0.02 + views / n: ops.append(op("view", rng.randint(1, nt)))
        elif x < 0.05 + views / n: ops.append(op("hash", rng.randint(1, nt), u=rng.randint(1, nt)))
        else: ops.append(simple())
    if rng.random() < errs:
        ops.append(rng.choice([op("ref", rng.randint(1, nt), k=key()), op("upd", rng.randint(1, nt), k=key(), v=1, d="none", dv=0, sub=[])]))
    return ops + [op("view", t) for t in range(1, nt + 1)]


def growth(kind, n, order):
    """Insert n keys, look at all, delete most of them, look, insert again."""
    ks = list(range(1, n + 1))
    ops = [mk(kind)] + [op("set", 1, k=k, v=k % 97) for k in order(ks)] + [op("view", 1), op("copy", 1)]
    gone = order(ks)[:n * 9 // 10]
    ops += [op("del", 1, k=k) for k in gone] + [op("view", 1)]
    ops += [op("upd", 1, k=k, v=1, d="val", dv=5, sub=[]) for k in order(ks)[::2]] + [op("view", 1), op("view", 2), op("equal", 1, u=2)]
    ops += [op("set", 1, k=k, v=k % 97) for k in ks] + [op("equal", 1, u=2), op("hash", 1, u=2), op("del", 1, k=ks[0]), op("equal", 1, u=2), op("equal", 2, u=1)]
    return ops


def check(c):
    b = Build(c.work)
    r = Runner(b)
    # the bucket representation implements a map, for every hash function
    c.mc(tlc_ok(c.work, "BucketsMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Keys = {%s} Vals = {0, 1} Sizes <- TinySizes MinSize = 1 MaxHash = %d\n"
                "INVARIANTS Implements Placed Lookup\n" % (", ".join(map(str, range(1, c.n(5, 6)))), c.n(3, 5)), timeout=700))
    scripts = []
    # every short history over two keys
    alpha = [op("set", 1, k=1, v=1), op("set", 1, k=2, v=2), op("del", 1, k=1), op("del", 1, k=2), op("clear", 1),
             op("upd", 1, k=1, v=10, d="val", dv=5, sub=[]), op("upd", 1, k=2, v=10, d="proc", dv=5, sub=[op("del", 1, k=2)]),
             op("upd", 1, k=1, v=10, d="val", dv=5, sub=[op("set", 1, k=1, v=3), op("set", 1, k=2, v=4)]),
             op("reft", 1, k=1, v=7, sub=[op("set", 1, k=1, v=8)])]
    import itertools
    for ks in ([mixed()[15], mixed()[18]], numbers(2, 0, 50), numbers(2)):
        for kind in (("const", "eqfew", "equal") if ks[0]["x"][0] == "(" else ("mod50", "neg")):
            for n in range(1, c.n(3, 4)):
                for h in itertools.product(alpha, repeat=n):
                    scripts.append(dict(keys=ks, ops=[mk(kind), *h, op("view", 1)]))
    mx = mixed()
    for i in range(c.n(160, 4000)):
        scripts.append(dict(keys=mx, ops=history(c.rng, ["eq", "equal", "const", "neg", "few", "eqfew"], mx, c.rng.choice([20, 60, 150]), errs=0.3)))
    for i in range(c.n(60, 2000)):
        ks = numbers(c.rng.choice([8, 40, 120]), c.rng.choice([-20, 0]), c.rng.choice([1, 13, 1000003]))
        kinds = ["mod7", "mod50"] if i % 2 else ["eq", "equal", "few", "const", "neg"]
        scripts.append(dict(keys=ks, ops=history(c.rng, kinds, ks, c.rng.choice([30, 150]), errs=0.3)))
    for n in c.n([14, 30, 120], [14, 15, 30, 60, 120, 300, 600]):
        for kind in ("eq", "equal", "few", "const", "mod50"):
            if n > 200 and kind == "const": continue
            for order in (lambda l: list(l), lambda l: l[::-1], lambda l: sorted(l, key=lambda x: x * 7919 % 1009)):
                scripts.append(dict(keys=numbers(n, 0, 1), ops=growth(kind, n, order)))
    res = run_scripts(c, "Tables", "T", scripts, inv=["OneEntryPerKey", "SizeBound"])
    tests = []
    for s, x in zip(scripts, res):
        out, status, err = expect(s, x)
        tests.append(dict(key="hashtable history", text=render(s), out=out, status=status, err=err))
        c.add("operations", len(x))
    c.sample(dict(program=tests[-1]["text"][len(PRE):][-600:], expected=tests[-1]["out"][-300:]))
    c.sample(dict(program=tests[5]["text"][len(PRE):], expected=tests[5]["out"]))
    compare(c, r, tests, timeout=20)
    c.assumptions = ["user-supplied hash procedures are functions consistent with the equivalence"]


if __name__ == "__main__":
    main("C07", "model_checking", check)
