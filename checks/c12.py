"""C12: list procedures compute their specified sequence functions."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# expressions making a fresh object each time, and how they are written; no two are equal?
U = [("1", "1"), ("2", "2"), ("-1", "-1"), ("'a", "a"), ("'b", "b"), ("(string #\\s)", '"s"'), ("(string #\\t)", '"t"'), ("#\\c", "#\\c"), ("'()", "()"), ("#t", "#t"), ("#f", "#f"),
     ("(list 1 2)", "(1 2)"), ("(cons 1 2)", "(1 . 2)"), ("(vector 1 (list 2))", "#(1 (2))"), ("(box 3)", "#&3"), ("(string)", '""'), ("(list (string #\\s))", '("s")'), ("4611686018427387904", "4611686018427387904")]
NTH = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"]
PRE = '''(define-values (out) (lambda (x) (begin (write x) (newline))))
(define-values (in?) (lambda (x l) (if (null? l) #f (if (equal? x (car l)) #t (in? x (cdr l))))))
(define-values (any?) (lambda (xs l) (if (null? xs) #f (if (in? (car xs) l) #t (any? (cdr xs) l)))))
(define-values (proc) (lambda (sel boom yes ret) (lambda args (begin (out args) (if (any? args boom) (raise 'boom) (if ret args (if (any? args sel) yes #f)))))))
(define-values (fold) (lambda (boom) (lambda (acc x) (begin (out (list x)) (if (in? x boom) (raise 'boom) (cons x acc))))))
'''


def val(v):
    k = v[0]
    if k == "e": return U[v[1]][1]
    if k == "n": return str(v[1])
    if k == "b": return "#t" if v[1] else "#f"
    if k == "l": return "(" + " ".join(val(x) for x in v[1]) + ")"
    if k == "p":
        if v[2][0] in ("p", "l"): return "(" + val(v[1]) + " " + val(v[2])[1:] if val(v[2]) != "()" else "(" + val(v[1]) + ")"
        d = val(v[2])
        return "(%s)" % val(v[1]) if d == "()" else "(%s %s" % (val(v[1]), d[1:]) if d[0] == "(" else "(%s . %s)" % (val(v[1]), d)


def tree(t): return U[t[1]][0] if t[0] == "e" else "(cons %s %s)" % (tree(t[1]), tree(t[2]))


def render(s, res, head=""):
    out, nv, exp, status = [PRE], 0, "", "exit 0"
    for o, x in zip(s["ops"], res):
        k = o["op"]
        vs = ["v%d" % v for v in o["vs"]]
        es = " ".join(U[e][0] for e in o.get("es", []))
        sel = "(list %s)" % " ".join(U[e][0] for e in o["sel"])
        boom = "(list %s)" % " ".join(U[e][0] for e in o["boom"])
        e = U[o["e"]][0] if "e" in o else ""
        pred = "(proc %s %s %s #f)" % (sel, boom, o.get("yes", "#t"))
        new = True
        if k == "list": x0 = "(list %s)" % es
        elif k == "iota": x0 = "(iota %d)" % o["n"]
        elif k == "make-list": x0 = "(make-list %d %s)" % (o["n"], e)
        elif k == "cons*": x0 = "(cons* %s %s)" % (es, vs[0])
        elif k in ("length", "show"): x0, new = ("(length %s)" % vs[0] if k == "length" else vs[0]), False
        elif k in ("reverse", "append"): x0 = "(%s %s)" % (k, " ".join(vs))
        elif k == "list-ref": x0, new = "(list-ref %s %d)" % (vs[0], o["n"]), False
        elif k == "nth": x0, new = "(%s %s)" % (NTH[o["n"] - 1], vs[0]), False
        elif k == "list-set": x0 = "(list-set %s %d %s)" % (vs[0], o["n"], e)
        elif k in ("member", "index-of"): x0, new = "(%s %s %s)" % (k, e, vs[0]), False
        elif k == "assoc": x0, new = "(assoc %s (map cons %s %s))" % (e, vs[0], vs[1]), False
        elif k == "remove": x0 = "(remove %s %s)" % (e, vs[0])
        elif k == "remove*": x0 = "(remove* %s %s)" % (sel, vs[0])
        elif k == "filter": x0 = "(filter %s %s)" % (pred, vs[0])
        elif k == "map": x0 = "(map (proc '() %s #t #t) %s)" % (boom, " ".join(vs))
        elif k == "for-each": x0, new = "(for-each %s %s)" % (pred, " ".join(vs)), None
        elif k in ("andmap", "ormap"): x0, new = "(%s %s %s)" % (k, pred, " ".join(vs)), False
        elif k in ("foldl", "foldr"): x0 = "(%s (fold %s) (list %s) %s)" % (k, boom, e, vs[0])
        elif k == "nest": x0 = "(map (lambda (x) (begin (out (list x)) (for-each (lambda (y) (out (list y))) %s) (map (lambda (y) (begin (out (list y)) (list x y))) %s))) %s)" % (vs[1], vs[1], vs[0])
        elif k == "cxr": x0, new = "(c%sr %s)" % ("".join(reversed(o["ls"])), tree(o["t"])), False
        if new: nv += 1; out.append("(define-values (v%d) %s)" % (nv, x0) + (" (out v%d)" % nv if not o.get("quiet") else ""))
        else: out.append(x0 if new is None else "(out %s)" % x0)
        for t in x[1]: exp += val(["l", t]) + "\n"
        if x[0] == "stop": status = "error"; break
        if new is not None and not o.get("quiet"): exp += val(x[2]) + "\n"
    return head + "\n".join(out) + "\n", exp, status


def history(r, lib):
    ops, n, plain = [], [], []      # length of each variable, are its elements all of U
    def add(op, size=None, pl=True, **kw):
        ops.append(dict(dict(op=op, vs=[], sel=[], boom=[]), **kw))
        if size is not None: n.append(size); plain.append(pl)
    es = r.sample(range(len(U)), r.randint(1, 5)) if r.random() < .6 else list(range(len(U)))
    el = lambda: r.choice(es)
    def mk(): m = r.choice([0, 1, 2, 3, 3, 4, 5, 8, 12]); add("list", m, es=[el() for _ in range(m)])
    for _ in range(r.randint(1, 3)): mk()
    wild = r.random() < .3
    steps = r.randint(5, 25)
    for step in range(steps):
        p = [i + 1 for i in range(len(n)) if plain[i]]
        a = [i + 1 for i in range(len(n))]
        v = r.choice(p)
        m = n[v - 1]
        sub = lambda q: [e for e in es if r.random() < q]
        boom = r.sample(es, 1) if wild and step > steps / 2 and r.random() < .3 else []
        kinds = ["list", "iota", "make-list", "length", "reverse", "append", "map", "map", "for-each", "andmap", "ormap", "nest"]
        if lib: kinds += ["cons*", "list-ref", "nth", "list-set", "member", "member", "index-of", "assoc", "remove", "remove*", "filter", "foldl", "foldr"] * 2
        k = r.choice(kinds)
        yes = r.choice(["#t", "0", "'()", '""'])
        def lists():      # lists of one length for a procedure of several arguments
            w = [x for x in p if n[x - 1] == m]
            return [r.choice(w) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))] if not (wild and r.random() < .1) else [r.choice(p) for _ in range(2)]
        if k == "list": mk()
        elif k == "iota": q = r.choice([0, 1, 2, 3, 7, 8, 100]); add("iota", q, False, n=q)
        elif k == "make-list": q = r.choice([0, 1, 2, 5, 50]); add("make-list", q, n=q, e=el())
        elif k == "cons*": x = [el() for _ in range(r.randint(1, 3))]; add("cons*", m + len(x), es=x, vs=[v])
        elif k in ("length",): add(k, vs=[r.choice(a)])
        elif k == "reverse": w = r.choice(a); add(k, n[w - 1], plain[w - 1], vs=[w])
        elif k == "append":
            w = [r.choice(a) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            q = sum(n[x - 1] for x in w)
            if any(n[x - 1] < 0 for x in w): q = -1
            if q < 500: add(k, q, all(plain[x - 1] for x in w), vs=w)
        elif k in ("list-ref", "nth"):
            w = r.choice(a); q = max(0, n[w - 1])
            if q or wild: add(k, vs=[w], n=(r.randrange(q) if q and not (wild and r.random() < .2) else q + r.choice([0, 1, 5])) if k == "list-ref" else (r.randint(1, min(10, q)) if q and not (wild and r.random() < .2) else r.randint(1, 10)))
        elif k == "list-set":
            if m > 0 or wild and m == 0: add(k, m, vs=[v], e=el(), n=r.randrange(m) if m and not (wild and r.random() < .2) else m + r.choice([0, 1]))
        elif k in ("member", "index-of"): add(k, vs=[v], e=r.choice(es + [0]))
        elif k == "assoc": w = [x for x in p if n[x - 1] == m]; add(k, vs=[v, r.choice(w)], e=r.choice(es + [0]))
        elif k == "remove": add(k, None, vs=[v], e=el()); n.append(-1); plain.append(True)
        elif k == "remove*": add(k, None, vs=[v], sel=sub(.3)); n.append(-1); plain.append(True)
        elif k == "filter": add(k, None, vs=[v], sel=sub(.6), boom=boom, yes=yes); n.append(-1); plain.append(True)
        elif k == "map":
            w = lists(); add(k, m, False, vs=w, boom=boom)
        elif k in ("for-each", "andmap", "ormap"): add(k, vs=lists(), sel=sub({"andmap": .85, "ormap": .2}.get(k, .5)), boom=boom, yes=yes)
        elif k in ("foldl", "foldr"): add(k, m + 1, vs=[v], e=el(), boom=boom)
        elif k == "nest":
            w = r.choice(p)
            if 0 <= m <= 12 and 0 <= n[w - 1] <= 12: add(k, m, False, vs=[v, w])
        # lengths the generator does not know
        for i, x in enumerate(n):
            if x == -1: n[i] = -2 - i
    for i in range(len(n)): add("show", vs=[i + 1])
    return dict(ops=ops)


def check(c):
    b = Build(c.work)
    core, lib = Runner(b), Runner(b, lib=True, preload="private/list.min")
    scripts, where = [], []
    def add(s, l): scripts.append(s); where.append(l)
    r = c.rng
    for _ in range(c.n(700, 10000)): add(history(r, False), False)
    for _ in range(c.n(900, 10000)): add(history(r, True), True)
    op = lambda k, **kw: dict(dict(op=k, vs=[], sel=[], boom=[]), **kw)
    # every c[ad]+r on full trees and on trees with a leaf on its way
    for d in (1, 2, 3, 4):
        leaf = iter(range(10 ** 6))
        def full(k): return ["e", next(leaf) % len(U)] if k == 0 else ["p", full(k - 1), full(k - 1)]
        def cut(t, ls): return ["e", 3] if not ls else ["p", cut(t[1], ls[1:]), t[2]] if ls[0] == "a" else ["p", t[1], cut(t[2], ls[1:])]
        for ls in itertools.product("ad", repeat=d):
            for t in [full(d), full(d)] + [cut(full(d), ls[:k]) for k in range(d)] + [cut(full(d), [{"a": "d", "d": "a"}[ls[0]]])]:
                add(dict(ops=[op("cxr", t=t, ls=list(ls))]), False)
    # long lists
    for m in (1000, 5000) if c.quick else (1000, 5000, 30000):
        es = [r.randrange(len(U)) for _ in range(m)]
        q = dict(quiet=1)
        add(dict(ops=[op("list", es=es[:200], quiet=1), op("append", vs=[1] * (m // 200), quiet=1), op("length", vs=[2]), op("reverse", vs=[2], quiet=1), op("list-ref", vs=[3], n=m - 1), op("list-ref", vs=[2], n=m - 1), op("show", vs=[2])]), True)
        for k in ("remove", "remove*", "filter", "foldl", "foldr", "map"):
            add(dict(ops=[op("list", es=es[:200], quiet=1), op("append", vs=[1] * (m // 200), quiet=1), op(k, vs=[2], e=5, sel=[1, 2, 3, 5, 9], quiet=1), op("length", vs=[3]), op("show", vs=[3]), op("show", vs=[2])]), True)
        add(dict(ops=[op("iota", n=m), op("make-list", n=m, e=5), op("length", vs=[1]), op("length", vs=[2])]), False)
    for m in range(0, 12):      # positions
        for k in range(1, 11): add(dict(ops=[op("iota", n=m), op("nth", vs=[1], n=k)]), True)
        for k in range(-1 if m < 3 else 0, m + 2): add(dict(ops=[op("iota", n=m), op("list-ref", vs=[1], n=k)]), True); add(dict(ops=[op("iota", n=m), op("list-set", vs=[1], n=k, e=4), op("show", vs=[1])]), True)
    add(dict(ops=[op("make-list", n=-1, e=0)]), False)
    res = run_scripts(c, "Lists", "L", scripts, chunk=20, inv=["ListsOK"])
    tests = {False: [], True: []}
    head = lib.imp("private/list.min")
    for i, (s, rs, l) in enumerate(zip(scripts, res, where)):
        text, out, status = render(s, rs, head if l else "")
        tests[l].append(dict(key="history %d" % i, text=text, out=out, status=status))
        c.add("histories"); c.add("operations", len(rs))
        if status != "exit 0": c.add("histories ending in an error")
        if i in (3, 900): c.sample(dict(program=text[len(PRE):][:600], expected=out[:300]))
    compare(c, core, tests[False])
    compare(c, lib, tests[True], timeout=30)
    c.assumptions = ["arguments are proper lists, except for the selectors; improper ones belong to C06"]


if __name__ == "__main__":
    main("C12", "model_checking", check)
