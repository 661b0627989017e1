"""C13: sort returns a stable ordered permutation and leaves its input alone."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

POOL = ["1", "-7", "'a", "'b", "(cons 'k 1)", "(cons 'k 1)", "(cons 'k 2)", "(string #\\s)", "(string #\\s)", "#\\c", "#\\d", "(vector 1)", "(vector 1)", "(box 0)", "(list 1 2)", "#t", "#f", "'()", "(lambda () 1)", "4611686018427387", "2", "3", "4", "5"]
PRE = '''(define-values (out) (lambda (x) (begin (write x) (newline))))
(define-values (pool) (list %s))
(define-values (nth) (lambda (l i) (if (= i 0) (car l) (nth (cdr l) (- i 1)))))
(define-values (place) (lambda (x l i) (if (null? l) 'foreign (if (eq? x (car l)) i (place x (cdr l) (+ i 1))))))
(define-values (id) (lambda (x) (place x pool 0)))
(define-values (show) (lambda (s) (if (vector? s) (begin (write 'vector) (out (map id (vector->list s)))) (if (list? s) (begin (write 'list) (out (map id s))) (out 'neither)))))
(define-values (less) (lambda (ranks yes) (lambda (x y) (if (< (vector-ref ranks (id x)) (vector-ref ranks (id y))) yes #f))))
(define-values (nest) (lambda (f other s) (lambda (x y) (begin (sort s other) (f x y)))))
(define-values (ids) (lambda (s) (map id (if (vector? s) (vector->list s) s))))
(define-values (look) (lambda (f s was) (lambda (x y) (begin (if (equal? (ids s) was) (void) (out 'changed)) (f x y)))))
(define-values (boom) (lambda (x y) (raise 'boom)))
''' % " ".join(POOL)

def render(s, res, head):
    out, exp, nv, status = [PRE], "", 0, "exit 0"
    for i, rk in enumerate(s["ords"]): out.append("(define-values (o%d) (less (vector %s) %s))" % (i + 1, " ".join(map(str, rk)), s["yes"]))
    for o, x in zip(s["ops"], res):
        k = o["op"]
        if k == "make": nv += 1; out.append("(define-values (v%d) (%s %s)) (show v%d)" % (nv, o["kind"], " ".join("p%d" % e for e in o["es"]), nv))
        elif k == "sort": nv += 1; out.append("(define-values (v%d) (sort v%d o%d)) (show v%d)" % (nv, o["v"], o["o"], nv))
        elif k == "nest": nv += 1; out.append("(define-values (v%d) (sort v%d (nest o%d o%d v%d))) (show v%d)" % (nv, o["v"], o["o"], o["o2"], o["v"], nv))
        elif k == "look": out.append("(define-values (w%d) (sort v%d (look o%d v%d (ids v%d)))) (show v%d)" % (len(out), o["v"], o["o"], o["v"], o["v"], o["v"]))
        elif k == "raise": out.append("(define-values (w) (sort v%d boom)) (show v%d)" % (o["v"], o["v"]))
        elif k == "show": out.append("(show v%d)" % o["v"])
        if x[0] == "stop": status = "error"; break
        exp += x[1] + "(" + " ".join(str(e - 1) for e in x[2]) + ")\n"
    used = sorted({e for o in s["ops"] for e in o.get("es", [])})
    defs = "".join("(define-values (p%d) (nth pool %d))\n" % (e, e - 1) for e in used)
    out.insert(1, defs)
    return head + "\n".join(out) + "\n", exp, status

def history(r):
    n = r.choice([2, 4, 8, len(POOL)])
    pool = r.sample(range(1, len(POOL) + 1), n)
    ords = []
    for _ in range(r.randint(1, 3)):
        m = r.choice([1, 2, 2, 3, 5, 30])
        ords.append([r.randrange(m) - r.choice([0, 0, 3]) for _ in POOL])
    ops, nv = [], 0
    def make():
        nonlocal nv
        q = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17, 25])
        es = [r.choice(pool) for _ in range(q)]
        if r.random() < .2: es = sorted(es, key=lambda e: ords[0][e - 1], reverse=r.random() < .5)
        ops.append(dict(op="make", kind=r.choice(["list", "vector"]), es=es)); nv += 1
    for _ in range(r.randint(1, 2)): make()
    for _ in range(r.randint(2, 8)):
        k = r.choice(["make", "sort", "sort", "sort", "nest", "look"])
        v = r.randint(1, nv)
        o = r.randint(1, len(ords))
        if k == "make": make()
        elif k == "sort": ops.append(dict(op="sort", v=v, o=o)); nv += 1
        elif k == "nest": ops.append(dict(op="nest", v=v, o=o, o2=r.randint(1, len(ords)))); nv += 1
        else: ops.append(dict(op="look", v=v, o=o))
        if k in ("sort", "nest") and r.random() < .5: ops.append(dict(op="show", v=v))
    if r.random() < .1: ops.append(dict(op="raise", v=r.randint(1, nv)))
    else:
        for i in range(nv): ops.append(dict(op="show", v=i + 1))
    return dict(ops=ops, ords=ords, yes=r.choice(["#t", "#t", "0", "'()", "'yes"]))

def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="private/sort.min")
    r = c.rng
    scripts = [history(r) for _ in range(c.n(700, 8000))]
    # every list of up to 5 (6) elements of 3 ranks, two elements each: all patterns of ties
    ranks = [[[0, 0, 1, 1, 2, 2][i % 6] for i in range(len(POOL))]]
    allshapes = [t for n in range(0, c.n(6, 8)) for t in itertools.product(range(3), repeat=n)]
    for i in range(0, len(allshapes), 20):
        ops = []
        for j, t in enumerate(allshapes[i:i + 20]):
            seen = {}
            es = []
            for x in t: seen[x] = seen.get(x, 0) + 1; es.append(1 + 2 * x + (seen[x] - 1) % 2 + 6 * ((seen[x] - 1) // 2 % 4))
            ops.append(dict(op="make", kind=["list", "vector"][(i // 20 + j) % 2], es=es))
            ops.append(dict(op="sort", v=2 * j + 1, o=1)); ops.append(dict(op="show", v=2 * j + 1))
        scripts.append(dict(ops=ops, ords=ranks, yes="#t"))
    for m in ([64, 100, 500, 1000] if c.quick else [64, 100, 500, 1000, 3000]):
        for kind in ("list", "vector"):
            for rk in (2, 5, len(POOL)):
                es = [r.randint(1, len(POOL)) for _ in range(m)]
                scripts.append(dict(ops=[dict(op="make", kind=kind, es=es), dict(op="sort", v=1, o=1), dict(op="show", v=1), dict(op="sort", v=2, o=2), dict(op="show", v=2)], ords=[[r.randrange(rk) for _ in POOL] for _ in range(2)], yes="#t"))
    
    res = run_scripts(c, "Sort", "So", scripts, chunk=20, inv=["SortOK"], consts="Small = 24")
    
    head = lib.imp("private/sort.min")
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        text, out, status = render(s, rs, head)
        tests.append(dict(key="history %d" % i, text=text, out=out, status=status))
        c.add("histories"); c.add("sorts", sum(o["op"] in ("sort", "nest") for o in s["ops"])); c.add("sorts whose ordering looks at the input", sum(o["op"] == "look" for o in s["ops"]))
        if i in (3, 60): c.sample(dict(program=text[len(PRE):][:500], expected=out[:300]))
    compare(c, lib, tests, timeout=60)
    c.assumptions = ["the ordering is a strict weak ordering (given by ranks) that does not change while sort runs"]

if __name__ == "__main__":
    main("C13", "model_checking", check)
