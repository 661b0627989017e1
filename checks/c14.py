"""C14: sets and enumeration sets obey set algebra."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# ways of making an object; no two entries are equal?, the ways of one entry are
POOL = [["1"], ["0"], ["-1"], ["4611686018427387904"], ["'a"], ["'b", "(string->symbol (string #\\b))"], ["(string #\\s)", '"s"'], ["(string)", '""'], ["#\\c"], ["#t"], ["#f"], ["'()"],
        ["(list 1 2)", "(cons 1 (list 2))", "'(1 2)"], ["(list 2 1)"], ["(cons 1 2)"], ["(vector 1 2)"], ["(vector)"], ["(box 0)"], ["(box (list 0))"], ["(list (string #\\s))", "(list \"s\")"],
        ["(make-set)"], ["(make-set 1 'a)", "(make-set 'a 1)", "(set-union (make-set 'a) (make-set 1))"], ["(make-set (list 1 2) (make-set 1) 0)", "(make-set 0 (make-set 1) (list 1 2))"], ["(list (make-set 3 4 5))", "(list (make-set 5 4 3))"], ["1000000"], ["999"]]
SYMS = ["red", "green", "blue", "a", "b", "c", "x1", "lambda", "define", "->", "zeta", "quote"]
PRE = '''(define-values (out) (lambda (x) (begin (write x) (newline))))
(define-values (pool) (list %s))
(define-values (place) (lambda (x l i) (if (null? l) 'foreign (if (equal? x (car l)) i (place x (cdr l) (+ i 1))))))
(define-values (id) (lambda (x) (if (if (fixnum? x) (> x 1000) #f) (if (< x 1000000) x (place x pool 0)) (place x pool 0))))
(define-values (insert) (lambda (i l) (if (null? l) (list i) (if (< i (car l)) (cons i l) (cons (car l) (insert i (cdr l)))))))
(define-values (isort) (lambda (l acc) (if (null? l) acc (isort (cdr l) (insert (car l) acc)))))
(define-values (ids) (lambda (l) (out (isort (map id l) '()))))
(define-values (show) (lambda (s) (if (set? s) (ids (set->list s)) (out 'no-set))))
(define-values (collect) (lambda (s) (let-values ([(acc) '()]) (begin (set-for-each (lambda (x) (set! acc (cons x acc))) s) acc))))
(define-values (eshow) (lambda (e) (if (enum-set? e) (out (enum-set->list e)) (out 'no-enum-set))))
''' % " ".join(p[0] for p in POOL)


def obj(r, e): return r.choice(POOL[e - 1]) if e <= 900 else str(e)
def sid(e): return str(e - 1 if e <= 900 else e)


def render(s, res, head):
    r = random.Random(s["seed"])
    out, exp, ns, ne, status = [PRE], "", 0, 0, "exit 0"
    for o, x in zip(s["ops"], res):
        k = o["op"]
        pre = "e" if k[:2] in ("e-", "e=") or k == "universe" else "s"
        vs = " ".join("%s%d" % (pre, v) for v in o.get("vs", []))
        es = " ".join(obj(r, e) for e in o.get("es", [])) if pre == "s" else ""
        syms = "'(%s)" % " ".join(SYMS[e - 1] for e in o.get("es", []) if pre == "e")
        e = (obj(r, o["e"]) if pre == "s" else "'" + SYMS[o["e"] - 1]) if "e" in o else ""
        if k == "make": ns += 1; t = "(define-values (s%d) (make-set %s)) (show s%d)" % (ns, es, ns)
        elif k in ("copy", "union", "intersect", "subtract", "symmetric-difference"): ns += 1; t = "(define-values (s%d) (set-%s %s)) (show s%d)" % (ns, k, vs, ns)
        elif k in ("add!", "remove!"): t = "(set-%s %s %s) (show %s)" % (k, vs, e, vs)
        elif k == "clear!": t = "(set-clear! %s) (show %s)" % (vs, vs)
        elif k == "member?": t = "(out (set-member? %s %s))" % (vs, e)
        elif k in ("count", "empty?"): t = "(out (set-%s %s))" % (k, vs)
        elif k == "list": t = "(show %s)" % vs
        elif k == "map": t = "(out (isort (set-map id %s) '()))" % vs
        elif k == "for-each": t = "(ids (collect %s))" % vs
        elif k in ("subset?", "proper-subset?", "set=?", "equal?"): t = "(out (%s %s))" % (k, vs)
        elif k == "universe": ne += 1; t = "(define-values (e%d) (make-enumeration %s)) (eshow e%d)" % (ne, syms, ne)
        elif k == "e-list": t = "(eshow %s)" % vs
        elif k == "e-universe": ne += 1; t = "(define-values (e%d) (enum-set-universe %s)) (eshow e%d)" % (ne, vs, ne)
        elif k == "e-construct": ne += 1; t = "(define-values (e%d) ((enum-set-constructor %s) %s)) (eshow e%d)" % (ne, vs, syms, ne)
        elif k == "e-index": t = "(out ((enum-set-indexer %s) %s))" % (vs, e)
        elif k == "e-member?": t = "(out (enum-set-member? %s %s))" % (e, vs)
        elif k in ("e-subset?", "e=?"): t = "(out (enum-set%s %s))" % (k[1:], vs)
        else:
            ne += 1
            name = {"e-union": "union", "e-intersect": "intersect", "e-difference": "difference", "e-complement": "complement", "e-project": "projection"}[k]
            t = "(define-values (e%d) (enum-set-%s %s)) (eshow e%d)" % (ne, name, vs, ne)
        out.append(t)
        if x[0] == "stop": status = "error"; break
        v = x[1]
        exp += {"s": lambda y: "(%s)" % " ".join(map(sid, sorted(y))), "b": lambda y: "#t" if y else "#f", "n": str, "l": lambda y: "(%s)" % " ".join(SYMS[q - 1] for q in y)}[v[0]](v[1]) + "\n"
    return head + "\n".join(out) + "\n", exp, status


def set_history(r):
    ops, n = [], 0
    es = r.sample(range(1, len(POOL) + 1), r.choice([2, 4, 8, len(POOL)]))
    if r.random() < .2: es += range(1001, 1001 + r.choice([10, 60]))
    el = lambda: r.choice(es)
    def add(op, new=False, **kw):
        nonlocal n
        ops.append(dict(dict(op=op), **kw)); n += new
    for _ in range(r.randint(1, 3)): add("make", True, es=[el() for _ in range(r.choice([0, 1, 2, 4, 8, 20]))])
    for _ in range(r.randint(5, 25)):
        v = lambda: r.randint(1, n)
        k = r.choice(["make", "copy"] + ["add!", "remove!"] * 3 + ["clear!", "member?", "member?", "count", "empty?", "map", "for-each", "subset?", "proper-subset?", "set=?", "equal?"] + ["union", "intersect", "subtract", "symmetric-difference"] * 2)
        if k == "make": add(k, True, es=[el() for _ in range(r.choice([0, 1, 2, 4, 8]))])
        elif k == "copy": add(k, True, vs=[v()])
        elif k in ("add!", "remove!", "member?"): add(k, vs=[v()], e=el())
        elif k == "clear!":
            if r.random() < .3: add(k, vs=[v()])
        elif k in ("count", "empty?", "map", "for-each"): add(k, vs=[v()])
        elif k in ("subset?", "proper-subset?", "set=?", "equal?"):
            a = v()
            if r.random() < .5:      # the comparison of related sets
                add(r.choice(["copy", "union", "intersect"]), True, vs=[a] if r.random() < .5 else [a])
                if r.random() < .5: add(r.choice(["add!", "remove!"]), vs=[n], e=el())
                b = n
            else: b = v()
            add(k, vs=r.choice([[a, b], [b, a]]))
        else: add(k, True, vs=[v() for _ in range(r.choice([0, 1, 2, 2, 2, 3, 4]) if k in ("union", "intersect") else r.choice([1, 2, 2, 2, 3, 4]))])
    for i in range(n): add("list", vs=[i + 1])
    return dict(ops=ops, seed=r.randrange(10 ** 6))


def enum_history(r):
    ops, us = [], []      # us: universe of each enumeration set
    univs = []
    def add(op, u=None, **kw):
        ops.append(dict(dict(op=op), **kw))
        if u is not None: us.append(u)
    def universe():
        if univs and r.random() < .6:      # related to an earlier one
            b = list(r.choice(univs))
            q = r.random()
            if q < .3: b = b[:r.randint(0, len(b))]
            elif q < .6: r.shuffle(b)
            elif q < .8: b = b + [e for e in range(1, len(SYMS) + 1) if e not in b][:2]
        else: b = r.sample(range(1, len(SYMS) + 1), r.choice([0, 1, 2, 3, 5, 8, len(SYMS)]))
        univs.append(b); add("universe", len(univs) - 1, es=b)
    for _ in range(r.randint(1, 3)): universe()
    for _ in range(r.randint(6, 25)):
        v = r.randint(1, len(us))
        u = univs[us[v - 1]]
        k = r.choice(["universe", "e-universe"] + ["e-construct"] * 4 + ["e-index", "e-member?", "e-subset?", "e=?", "e-union", "e-intersect", "e-difference", "e-complement", "e-project", "e-project"])
        same = [i + 1 for i, x in enumerate(us) if x == us[v - 1]]
        w = r.choice(same)
        if k == "universe": universe()
        elif k in ("e-universe", "e-complement"): add(k, us[v - 1], vs=[v])
        elif k == "e-construct": add(k, us[v - 1], vs=[v], es=[r.choice(u) for _ in range(r.choice([0, 1, 2, 3, 5]))] if u else [])
        elif k in ("e-index", "e-member?"): add(k, vs=[v], e=r.choice(u) if u and r.random() < .7 else r.randint(1, len(SYMS)))
        elif k in ("e-subset?", "e=?"): add(k, vs=[v, w if r.random() < .6 else r.randint(1, len(us))])
        elif k == "e-project": w = r.randint(1, len(us)); add(k, us[w - 1], vs=[v, w])
        else: add(k, us[v - 1], vs=[v, w])
    if r.random() < .1 and len(univs) > 1:
        a, b = r.sample(range(1, len(us) + 1), 2)
        if us[a - 1] != us[b - 1]: add(r.choice(["e-union", "e-intersect", "e-difference"]), us[a - 1], vs=[a, b]); return dict(ops=ops, seed=0)
    for i in range(len(us)): add("e-list", vs=[i + 1])
    return dict(ops=ops, seed=0)


def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="base.min")
    r = c.rng
    scripts = [set_history(r) for _ in range(c.n(600, 8000))] + [enum_history(r) for _ in range(c.n(500, 6000))]
    # all pairs of subsets of three elements under every operation
    subs = [[e for i, e in enumerate([1, 13, 22]) if m >> i & 1] for m in range(8)]
    for k in ("subset?", "proper-subset?", "set=?", "equal?", "union", "intersect", "subtract", "symmetric-difference"):
        ops = [dict(op="make", es=x) for x in subs]
        for a in range(8):
            for d in range(8): ops.append(dict(op=k, vs=[a + 1, d + 1]))
        scripts.append(dict(ops=ops + [dict(op="list", vs=[i + 1]) for i in range(8)], seed=1))
    for k in ("e-subset?", "e=?", "e-union", "e-intersect", "e-difference"):
        ops = [dict(op="universe", es=[3, 1, 2])] + [dict(op="e-construct", vs=[1], es=[i + 1 for i in range(3) if m >> i & 1]) for m in range(8)]
        for a in range(8):
            for d in range(8): ops.append(dict(op=k, vs=[a + 2, d + 2]))
        scripts.append(dict(ops=ops + [dict(op="e-list", vs=[i + 1]) for i in range(9)], seed=1))
    for m in (200, 800):      # big sets
        ops = [dict(op="make", es=list(range(1001, 1001 + m))), dict(op="make", es=[1001 + 2 * i for i in range(m // 2)])]
        ops += [dict(op=k, vs=[1, 2]) for k in ("union", "intersect", "subtract", "symmetric-difference", "subset?")] + [dict(op="subtract", vs=[2, 1])]
        ops += [dict(op="remove!", vs=[1], e=1001 + 3 * i) for i in range(10)] + [dict(op="count", vs=[i]) for i in range(1, 5)] + [dict(op="clear!", vs=[2])]
        scripts.append(dict(ops=ops + [dict(op="list", vs=[i]) for i in (1, 2, 3)], seed=1))
    res = run_scripts(c, "Sets", "X", scripts, chunk=20, inv=["SetsOK"], consts="Law = {1, 2, 3, 4}")
    head = lib.imp("private/set.min") + lib.imp("private/enum.min")
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        text, out, status = render(s, rs, head)
        tests.append(dict(key="history %d" % i, text=text, out=out, status=status))
        c.add("histories"); c.add("operations", len(rs))
        if i in (3, 700): c.sample(dict(program=text[len(PRE):][:600], expected=out[:300]))
    # the macro layer agrees with the procedures
    base = lib.imp("base.min")
    ms = []
    for _ in range(c.n(40, 300)):
        u = r.sample(range(1, len(SYMS) + 1), r.choice([1, 2, 3, 5, 12]))
        picks = [[r.choice(u) for _ in range(r.choice([0, 1, 2, 4]))] for _ in range(3)]
        ms.append((u, picks, r.choice(u), r.random() < .2))
    mres = run_scripts(c, "Sets", "X", [dict(ops=[dict(op="universe", es=u)] + [dict(op="e-construct", vs=[1], es=p) for p in ps] + [dict(op="e-union", vs=[2, 3]), dict(op="e=?", vs=[2, 3])]) for u, ps, _, _ in ms], consts="Law = {1}")
    for j, ((u, ps, one, bad), rs) in enumerate(zip(ms, mres)):
        t = [base, "(define-enumeration color (%s) colors)" % " ".join(SYMS[e - 1] for e in u)]
        exp = ""
        for i, p in enumerate(ps):
            t.append("(define c%d (colors %s)) (write (enum-set->list c%d)) (newline)" % (i, " ".join(SYMS[e - 1] for e in p), i))
            exp += "(%s)\n" % " ".join(SYMS[e - 1] for e in rs[1 + i][1][1])
        t.append("(write (enum-set->list (enum-set-union c0 c1))) (newline) (write (enum-set=? c0 c1)) (newline)")
        exp += "(%s)\n" % " ".join(SYMS[e - 1] for e in rs[4][1][1]) + ("#t\n" if rs[5][1][1] else "#f\n")
        t.append("(write (color %s)) (newline)" % SYMS[one - 1])
        exp += SYMS[one - 1] + "\n"
        tests.append(dict(key="define-enumeration %d" % j, text="\n".join(t) + "\n", out=exp))
        c.add("define-enumeration forms")
    compare(c, lib, tests, timeout=60)
    c.assumptions = ["elements are not mutated while they are in a set", "a universe has no repeated symbol and constructors get members of it"]


if __name__ == "__main__":
    main("C14", "model_checking", check)
