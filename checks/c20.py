"""C20: a promise's body runs at most once and every force sees the same result."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CONST = ["1", "#f", "'()", "(string #\\s)", "(list 1 2)", "'sym", "#t", "(vector 1 (list 2))", "0", "(lambda () 1)"]
SHOWN = ["1", "#f", "()", '"s"', "(1 2)", "sym", "#t", "#(1 (2))", "0", "procedure"]
PRE = '''(define-values (ps) (make-vector %d #f))
(define-values (starts) (make-vector %d 0))
(define-values (place) (lambda (x i) (if (= i (vector-length ps)) 'foreign (if (eq? x (vector-ref ps i)) i (place x (+ i 1))))))
(define-values (show) (lambda (k x) (begin (write k) (write (if (promise? x) (cons 'p (place x 0)) (if (procedure? x) 'procedure x))) (newline))))
(define-values (start) (lambda (i) (begin (write 'start) (write i) (newline) (vector-set! starts i (+ 1 (vector-ref starts i))))))
(define-values (chain) (lambda (i last) (delay (start i) (if (= i last) 'end (chain (+ i 1) last)))))
'''


def val(v):
    if v[0] == "c": return SHOWN[v[1]]
    if v[0] == "r": return "(%d %d)" % (v[1] - 1, v[2])
    if v[0] == "p": return "(p . %d)" % (v[1] - 1)
    if v[0] == "b": return "#t" if v[1] else "#f"


def act(i, a):
    p = "(vector-ref ps %d)" % (a[1] - 1)
    if a[0] == "force": return "(show 'got (force %s))" % p
    if a[0] == "lazy": return "(show 'got (lazy %s))" % p
    if a[0] == "forced": return "(show 'got (promise-forced? %s))" % p
    if a[0] == "again": return "(if (< (vector-ref starts %d) %d) (show 'got (force %s)) (void))" % (i, a[2], p)
    return "(show 'got %s)" % CONST[a[1]]


def ending(i, e):
    if e[0] == "const": return CONST[e[1]]
    if e[0] == "count": return "(list %d (vector-ref starts %d))" % (i, i)
    if e[0] == "run": return "(list %d run)" % i
    if e[0] == "promise": return "(vector-ref ps %d)" % (e[1] - 1)
    if e[0] == "force": return "(force (vector-ref ps %d))" % (e[1] - 1)
    return "(raise %s)" % CONST[e[1]]


def render(s, res, head):
    n = len(s["bodies"])
    out, exp = [PRE % (n, n)], ""
    for i, b in enumerate(s["bodies"]):
        out.append("(vector-set! ps %d (delay (start %d) (let-values ([(run) (vector-ref starts %d)]) (begin %s %s))))" % (i, i, i, " ".join(act(i, a) for a in b["acts"]), ending(i, b["end"])))
    steps = []
    for o, x in zip(s["ops"], res):
        p = "(vector-ref ps %d)" % (o["p"] - 1)
        steps.append("(show 'is %s)" % {"force": "(force %s)", "lazy": "(lazy %s)", "forced": "(promise-forced? %s)", "eq": "(let-values ([(a) (force %s)]) (eq? a (force %s)))"}[o["op"]].replace("%s", p))
        for l in x[1]: exp += "start%d\n" % (l[1] - 1) if l[0] == "start" else "got" + val(l[1]) + "\n"
        exp += ("is" if x[0] == "ok" else "caught") + val(x[2]) + "\n"
    # a handler that goes on with the history
    out.append("(define-values (todo) (list %s))" % " ".join("(lambda () %s)" % t for t in steps))
    out.append("(define-values (go) (lambda () (if (null? todo) (exit 0) (let-values ([(t) (car todo)]) (begin (set! todo (cdr todo)) (t) (go))))))")
    out.append("(current-error-handler (lambda (e) (begin (show 'caught e) (go))))\n(go)")
    return head + "\n".join(out) + "\n", exp


def history(r):
    n = r.choice([1, 2, 2, 3, 4, 6])
    bodies = []
    for i in range(1, n + 1):
        acts = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.choice(["force", "lazy", "forced", "again", "again", "say"])
            if k in ("force", "lazy"):
                if i < n: acts.append([k, r.randint(i + 1, n)])
            elif k == "forced": acts.append([k, r.randint(1, n)])
            elif k == "again": acts.append([k, r.randint(1, n), r.choice([2, 2, 3])])
            else: acts.append([k, r.randrange(len(CONST))])
        e = r.choice(["const", "count", "run", "run", "promise", "force", "raise"])
        if e in ("promise", "force") and i == n or e == "raise" and r.random() < .6: e = "count"
        end = [e, r.randint(i + 1, n)] if e in ("promise", "force") else [e] if e in ("count", "run") else [e, r.randrange(len(CONST))]
        bodies.append(dict(acts=acts, end=end))
    return dict(bodies=bodies, ops=[dict(op=r.choice(["force", "force", "lazy", "lazy", "forced", "eq"]), p=r.randint(1, n)) for _ in range(r.randint(3, 10))])


def small():
    """two promises, bodies of at most one act, every order of two forces"""
    for acts1, acts2 in itertools.product([[], [["again", 1, 2]], [["again", 2, 2]], [["force", 2]], [["lazy", 2]], [["forced", 1]], [["again", 1, 3], ["forced", 1]]], [[], [["again", 1, 2]], [["again", 2, 2]], [["forced", 2]]]):
        for e1 in (["count"], ["run"], ["promise", 2], ["force", 2], ["raise", 5]):
            for e2 in (["run"], ["raise", 0], ["const", 1]):
                for ops in itertools.product([("force", 1), ("lazy", 1), ("force", 2)], [("force", 1), ("lazy", 1), ("eq", 2)]):
                    yield dict(bodies=[dict(acts=acts1, end=e1), dict(acts=acts2, end=e2)],
                               ops=[dict(op="forced", p=1)] + [dict(op=o, p=p) for o, p in ops] + [dict(op="forced", p=1), dict(op="forced", p=2), dict(op="eq", p=1), dict(op="force", p=2)])


def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="base.min")
    r = c.rng
    scripts = [history(r) for _ in range(c.n(900, 10000))]
    every = list(small())
    scripts += every if not c.quick else r.sample(every, 500)
    res = run_scripts(c, "Promises", "P", scripts, chunk=1, inv=["PromisesOK\nPROPERTY Kept"])
    head = lib.imp("private/promise.min")
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        text, out = render(s, rs, head)
        tests.append(dict(key="history %d" % i, text=text, out=out))
        c.add("histories"); c.add("operations", len(rs)); c.add("errors caught", sum(x[0] == "caught" for x in rs))
        if i in (3, 1000): c.sample(dict(program=text[len(PRE):][:700], expected=out[:300]))
    # chains made while they are followed
    for m in (1, 2, 50) if c.quick else (1, 2, 50, 400):
        bodies = [dict(acts=[], end=["promise", i + 2]) for i in range(m)] + [dict(acts=[], end=["const", 5])]
        ops = [dict(op="lazy", p=1), dict(op="lazy", p=1), dict(op="forced", p=1)]
        rs = run_scripts(c, "Promises", "P", [dict(bodies=bodies, ops=ops)], chunk=1, inv=["PromisesOK\nPROPERTY Kept"])[0]
        text = head + PRE % (m + 1, m + 1) + "(define-values (p) (chain 0 %d))\n(show 'is (lazy p)) (show 'is (lazy p)) (show 'is (promise-forced? p))\n" % m
        out = ""
        for x in rs: out += "".join("start%d\n" % (l[1] - 1) for l in x[1]) + "is" + val(x[2]) + "\n"
        tests.append(dict(key="chain %d" % m, text=text.replace("'end", "'sym"), out=out))
    compare(c, lib, tests, timeout=60)
    c.assumptions = ["a raised object reaches the handler (C05), which goes on with the history without returning", "no chain of promises is a cycle"]


if __name__ == "__main__":
    main("C20", "model_checking", check)
