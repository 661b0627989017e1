"""C06: procedures of the base environment reject bad arguments and never crash the runtime."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAX = (1 << 63) - 1
PRE = r'''(define-values (kind) (lambda (v)
  (if (boolean? v) 'bool (if (integer? v) 'int (if (char? v) 'char (if (symbol? v) 'symbol (if (string? v) 'string (if (null? v) 'null (if (pair? v) 'pair
  (if (vector? v) 'vector (if (box? v) 'box (if (procedure? v) 'procedure (if (void? v) 'void (if (eof-object? v) 'eof (if (input-port? v) 'iport (if (output-port? v) 'oport
  (if (hashtable? v) 'hashtable (if (exn? v) 'exn (if (pattern-variable? v) 'patvar (if (record-type-descriptor? v) 'rtd (if (record? v) 'record (if (environment? v) 'env (if (syntax? v) 'syntax 'other)))))))))))))))))))))))
(define-values (class) (lambda (e) (if (argument-exn? e) 'arg (if (arity-exn? e) 'arity (if (range-exn? e) 'range (if (missing-exn? e) 'missing (if (syntax-exn? e) 'syntax (if (exn? e) 'exn 'object))))))))
(define-values (res) #f)
(define-values (now) 0)
(define-values (cur) '())
(define-values (note) (lambda xs (begin (for-each (lambda (x) (begin (display x res) (put-char res #\space))) xs) (newline res) (flush-output-port res))))
(define-values (where) (lambda (x l) (if (null? l) '() (cons (if (eq? x (car l)) 1 0) (where x (cdr l))))))
(define-values (bits) (lambda (l) (if (null? l) "-" (string-append (if (= (car l) 1) "1" "0") (bits (cdr l))))))
(define-values (pending) '())
(define-values (go) (lambda () (if (null? pending) (begin (note 'end) (exit 0)) (let-values ([(t) (car pending)] [() (begin (set! pending (cdr pending)) (values))])
  (begin (call-with-values t (lambda vs (begin (if (if (pair? vs) (null? (cdr vs)) #f) (note now 'ret (kind (car vs))) (note now 'values (length vs)))))) (go))))))
(define-values (fail) (lambda (e) (begin (note now (class e) (if (argument-exn? e) (bits (where (argument-exn-actual e) cur)) "-") (if (exn? e) (write-string (exn-message e)) "")) (go))))
(define-values (write-string) (lambda (x) (if (string? x) x 'none)))
(define-values (file) (string-append (car (command-line)) ".f"))
(define-values (run) (lambda (l) (begin (set! res (open-output-file (string-append (car (command-line)) ".res"))) (set! pending l) (current-error-handler fail) (go))))
(define-values (rtd1) (make-record-type-descriptor 'point #f #f #f #f '#((mutable x) (immutable y))))
(define-values (rtd2) (make-record-type-descriptor 'p2 rtd1 'uid #f #t '#()))
(define-values (closed) (lambda (p) (begin (if (input-port? p) (close-input-port p) (close-output-port p)) p)))
(define-values (ht1) (lambda () (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 1 'a) (hashtable-set! h 'abc 2) h))))
'''


def leaf(k): return ["e", k]


def V(expr, k, **kw):
    d = dict(k=k, n=0, len=0, list=k == "null", els=[], tree=leaf(k), f=False, exn="", sport=False, arity=False)
    d.update(kw)
    return (expr, d)


def lst(expr, els, trees=None, **kw):
    t = leaf("null")
    for e, x in reversed(list(zip(els, trees or [leaf(e) for e in els]))): t = ["p", x, t]
    return V(expr, "pair" if els else "null", list=True, els=els, tree=t, len=len(els), **kw)


def integer(n): return V(str(n), "int", n=max(-2000000000, min(2000000000, n)), big=abs(n) > 70000, arity=n >= 0)


def tree(t): return "'x" if t[0] == "e" else "(cons %s %s)" % (tree(t[1]), tree(t[2]))


def full(d): return leaf("symbol") if d == 0 else ["p", full(d - 1), full(d - 1)]


POOL = [integer(n) for n in (0, 1, -1, 2, 3, 7, 255, 256, 65, 100, 1 << 31, 1 << 32, 1 << 62, MAX, -MAX, -256, -(1 << 32))]
POOL += [V("#t", "bool"), V("#f", "bool", f=True), V("#\\a", "char"), V("#\\nul", "char"), V("(integer->char 255)", "char"), V("'abc", "symbol"), V("'immutable", "symbol"),
         V('(string #\\a #\\b #\\c)', "string", len=3), V('(string)', "string"), V('(string-append "1" "2")', "string", len=2), V('"/"', "string", len=1), V('"no/such/file"', "string", len=12), V('"~a"', "string", len=2),
         V('"~"', "string", len=1), V('(make-string 300 #\\x)', "string", len=300), V("(string #\\nul #\\a)", "string", len=2), V('"()"', "string", len=2)]
POOL += [lst("'()", []), lst("(list 1)", ["int"], arity=False), lst("(list 1 2 3)", ["int"] * 3, arity=True), lst("(list 'a 'b)", ["symbol"] * 2), lst("(list #\\a #\\b)", ["char"] * 2), lst('(list "x" "y" 3)', ["string", "string", "int"]),
         lst("(list car)", ["procedure"]), lst("(list #\\a 98)", ["char", "int"]), lst("(list (cons 1 2) (list 3))", ["pair", "pair"], [["p", leaf("int"), leaf("int")], ["p", leaf("int"), leaf("null")]]), lst("(list 'a 'b 1)", ["symbol", "symbol", "int"]),
         lst("(make-list 40 'q)", ["symbol"] * 40), V("(cons 1 2)", "pair", tree=["p", leaf("int"), leaf("int")]), V("(cons 1 (cons 2 3))", "pair", tree=["p", leaf("int"), ["p", leaf("int"), leaf("int")]]),
         V("(cons 1 #f)", "pair", tree=["p", leaf("int"), leaf("bool")], arity=True), V("(cons 'a (cons 'b 'c))", "pair", tree=["p", leaf("symbol"), ["p", leaf("symbol"), leaf("symbol")]])]
POOL[-14] = lst("(list 1)", ["int"], arity=True)
POOL += [V(tree(full(d)), "pair", tree=full(d)) for d in (2, 3, 4)]
POOL += [V("(vector)", "vector"), V("(vector 1 2 3)", "vector", len=3), V("(vector 'a (vector))", "vector", len=2), V("(make-vector 50 0)", "vector", len=50), V("(box 1)", "box"), V("(box (box '()))", "box")]
POOL += [V(p, "procedure") for p in ("car", "(lambda (x) x)", "(lambda () 0)", "(lambda (x y) (cons x y))", "(lambda xs xs)", "(lambda (x . r) r)", "(case-lambda [(x) x] [(x y z) y])", "values", "vector", "(lambda (x) (values 1 2))", "(record-constructor rtd1)", "raise", "string-ref")]
POOL += [V("(void)", "void"), V("eof", "eof"), V('(open-input-string "ab (1 2) #\\\\x")', "iport", sport=True), V('(open-input-string "")', "iport", sport=True), V('(closed (open-input-string "z"))', "ciport", sport=True),
         V("(open-output-string)", "oport", sport=True), V("(closed (open-output-string))", "coport", sport=True), V("(open-output-file file)", "oport"), V("(closed (open-output-file file))", "coport"),
         V("(current-error-port)", "oport", std=True), V("(current-input-port)", "iport", std=True), V('(begin (closed (open-output-file file)) (open-input-file file))', "iport")]
POOL += [V("(make-eq-hashtable)", "hashtable"), V("(ht1)", "hashtable"), V("(make-custom-hashtable (lambda (x) 3) equal?)", "hashtable"), V("rtd1", "rtd", len=2), V("rtd2", "rtd"), V("((record-constructor rtd1) 1 2)", "record"), V("((record-constructor rtd2) 1 2)", "orecord"),
         V("(make-empty-environment)", "env"), V("(make-base-environment)", "env"), V("(datum->syntax '(a b))", "syntax"), V("(datum->syntax 'a)", "syntax"), V("(make-pattern-variable 'x 0)", "patvar")]
POOL += [V("(make-exn 'a \"m\")", "exn", exn="exn"), V("(make-argument-exn 'a \"m\" \"e\" 1)", "exn", exn="argument-exn"), V("(make-arity-exn 'a \"m\" 1 2)", "exn", exn="arity-exn"),
         V("(make-range-exn 'a \"m\" 'v \"d\" 0 1 2)", "exn", exn="range-exn"), V("(make-missing-exn 'a \"m\" \"d\" 1 2)", "exn", exn="missing-exn"), V("(make-syntax-exn 'a \"m\" 1 2)", "exn", exn="syntax-exn")]
NEEDS_SMALL = ("nat16",)
# what the test program itself relies on is called in separate programs, or not with arguments that it would need
SKIP_FILE = ("open-output-file",)


def sigs():
    out = {}
    for ln in open(VERIF + "/spec/sigs.txt"):
        if not ln.strip() or ln[0] == "#": continue
        name, rest = ln.split(" : ", 1)
        args, ret = rest.strip().rsplit("->", 1)
        a, r = (args.split(" & ") + [None])[:2] if " & " in args else (args, None)
        if args.startswith("& "): a, r = "", args[2:]
        def guard(g):
            m = re.match(r"(\w+)\((\w+)\)$", g)
            if not m: return dict(k=g, path=[], of=0)
            return dict(k=m.group(1), path=list(m.group(2)) if m.group(1) == "pair" else [], of=int(m.group(2)) if m.group(1) == "idx" else 0)
        ret = ret.strip()
        how = "ret"
        if ret[:2] == "??": how, ret = "late", ret[2:]
        elif ret[0] == "?": how, ret = "may", ret[1:]
        if ret == "!!": how, ret = "raise", "any"
        if ret[0] == "!": how, ret = "missing", ret[1:]
        ks = []
        for k in ret.split("|"): ks += {"nat": ["int"], "list": ["null", "pair"], "values2": ["values"]}.get(k, [k])
        out.setdefault(name, []).append(dict(args=[guard(x) for x in a.split()], rest=[guard(r.strip())] if r else [], how=how, ret=ks))
    return out


def good(g):
    """values of the pool that satisfy a guard (only used to choose arguments; the specification decides)"""
    k = g["k"]
    sel = {"any": lambda v: True, "int": lambda v: v["k"] == "int", "nonzero": lambda v: v["k"] == "int" and v["n"] != 0, "byte": lambda v: v["k"] == "int" and 0 <= v["n"] < 256,
           "nat": lambda v: v["k"] == "int" and v["n"] >= 0, "nat16": lambda v: v["k"] == "int" and 0 <= v["n"] <= 70000, "idx": lambda v: v["k"] == "int" and v["n"] >= 0,
           "boolean": lambda v: v["k"] == "bool", "list": lambda v: v["list"], "list/char": lambda v: v["list"] and all(e == "char" for e in v["els"]), "list/symbol": lambda v: v["list"] and all(e == "symbol" for e in v["els"]),
           "string0": lambda v: v["k"] == "string", "envset": lambda v: v["k"] == "env", "nofile": lambda v: v["k"] == "string", "sport": lambda v: v["k"] in ("oport", "coport") and v["sport"], "iport": lambda v: v["k"] in ("iport", "ciport"),
           "oport": lambda v: v["k"] in ("oport", "coport"), "arecord": lambda v: v["k"] in ("record", "orecord", "hashtable", "patvar", "exn"), "symbol/f": lambda v: v["k"] == "symbol" or v["f"],
           "syntax/f": lambda v: v["k"] == "syntax" or v["f"], "who": lambda v: v["k"] in ("symbol", "string") or v["f"], "arity": lambda v: v["arity"],
           "pair": lambda v: v["k"] == "pair" and (not g["path"] or len(v["els"]) == 0)}.get(k)
    if sel is None: sel = (lambda v: v["exn"] == k) if k.endswith("-exn") else (lambda v: v["k"] == k)
    return [v for v in POOL if sel(v[1])]


def calls(c, table):
    out = []
    r = c.rng
    def usable(f, vs, cl):
        """is the call one whose effect stays inside the program"""
        for i, v in enumerate(vs):
            g = cl["args"][i]["k"] if i < len(cl["args"]) else cl["rest"][0]["k"] if cl["rest"] else "any"
            if g in NEEDS_SMALL and v[1].get("big"): return False
            if v[1].get("std") and f in ("close-output-port", "close-input-port"): return False
            if g == "nofile" and v[1]["k"] == "string" or g == "envset" and v[1]["k"] == "env": return False
        if f in ("eval",) and vs and vs[0][1]["k"] in ("symbol", "pair", "null"): return False      # forms are C01's matter
        if f == "current-directory" and vs and vs[0][1]["k"] == "string": return False
        return True
    def put(f, vs, cl):
        if usable(f, vs, cl): out.append((f, vs))
    for f, cls in sorted(table.items()):
        for n in range(0, 8):      # the number of arguments
            cl = next((x for x in cls if len(x["args"]) == n or x["rest"] and n >= len(x["args"])), None)
            if cl is None:
                for _ in range(2): out.append((f, [r.choice(POOL[:30]) for _ in range(n)]))
        for cl in cls:
            base = [good(g) for g in cl["args"]]
            m = len(cl["args"])
            pick = lambda: [r.choice(b) for b in base]
            for _ in range(c.n(12, 100) if m else 1): put(f, pick(), cl)      # good calls
            for i in range(m):      # one argument arbitrary
                for v in (POOL if m == 1 or not c.quick else r.sample(POOL, 45)):
                    vs = pick()
                    vs[i] = v
                    put(f, vs, cl)
            if cl["rest"]:
                gr = good(cl["rest"][0])
                for _ in range(c.n(25, 300)):
                    vs = pick() + [r.choice(gr) for _ in range(r.randint(1, 4))]
                    if r.random() < .5: vs[r.randrange(m, len(vs))] = r.choice(POOL)
                    put(f, vs, cl)
            if m > 1:
                for _ in range(c.n(30, 1500)): put(f, [r.choice(POOL) for _ in range(m)], cl)
            # indices around the length
            for i, g in enumerate(cl["args"]):
                if g["k"] == "idx":
                    for v in base[g["of"] - 1]:
                        for x in (-1, 0, v[1]["len"] - 1, v[1]["len"], v[1]["len"] + 1, 1 << 61, 1 << 32):
                            vs = pick()
                            vs[g["of"] - 1], vs[i] = v, integer(x)
                            put(f, vs, cl)
    return out


def program(batch):
    ls = []
    for i, (n, (f, vs)) in enumerate(batch):
        b = "".join("[(a%d) %s]" % (j + 1, v[0]) for j, v in enumerate(vs))
        names = " ".join("a%d" % (j + 1) for j in range(len(vs)))
        ls.append("(lambda () (let-values (%s) (begin (set! now %d) (set! cur (list %s)) (%s %s))))" % (b, n, names, f, names))
    # each call is a closure of its own: a list of any length without a long argument list
    return PRE + "(define-values (calls) '())\n" + "\n".join("(set! calls (cons %s calls))" % x for x in ls) + "\n(run (reverse calls))\n"


def run(runner, todo):
    """run calls (index, call) in batches; returns index -> words, or ("died", status)"""
    got = {}
    size = 60
    while todo:
        batches = [todo[i:i + size] for i in range(0, len(todo), size)]
        paths = [runner.write(program(b)) for b in batches]
        rs = runner.run_paths([(p, []) for p in paths], timeout=60 if size > 1 else 20)
        again = []
        for p, b, x in zip(paths, batches, rs):
            rf = p + ".res"
            lines = open(rf, errors="surrogateescape").read().split("\n") if os.path.exists(rf) else []
            seen = {}
            done = False
            for ln in lines:
                w = ln.split(" ")
                if w[0] == "end": done = True
                elif w[0].isdigit() and len(w) > 1: seen.setdefault(int(w[0]), w[1:])
            for e in ("", ".out", ".err", ".res", ".f"):
                if os.path.exists(p + e): os.unlink(p + e)
            rest = [t for t in b if t[0] not in seen]
            got.update(seen)
            if rest:
                if size == 1: got[rest[0][0]] = ["died", x.status, x.err.decode("latin1")[-1500:] if isinstance(x.err, bytes) else x.err[-1500:]]
                else: again += rest
            elif not done or x.status != "exit 0": got[b[-1][0]] = ["died", x.status + " afterwards"]
        todo, size = again, 1 if len(again) < 400 or size <= 8 else 8
    return got


def judge(exp, w):
    """does the observation w agree with the allowed outcome"""
    if w[0] == "died": return False
    cl = exp["class"]
    if w[0] == "exn" and any(x in w for x in ("unbound", "undefined", "initialization")): return False
    if cl == "argrange": return w[0] in ("arg", "range")
    if cl in ("arg", "range", "arity"):
        if cl == "arg" and w[0] == "exn": return True
        if w[0] != cl and not (cl == "arity" and w[0] == "exn" and w[2:4] == ["arity", "mismatch"] or cl == "arity" and w[:1] == ["exn"] and w[2:4] == ["arity", "mismatch,"]): return False
        if cl == "arg" and exp["at"]:
            return any(b == "1" and a for a, b in zip(exp["at"], w[1]))
        return True
    ret = w[0] == "ret" and (w[1] in exp["kinds"] or exp["kinds"] == ["any"]) or w[0] == "values" and exp["kinds"] == ["values"] and w[1] == "2" or w[0] == "values" and exp["kinds"] == ["any"] and cl == "may"
    raised = w[0] not in ("ret", "values")
    if cl == "ret": return ret
    if cl in ("exn", "raise"): return raised
    if cl == "may": return ret or raised
    if cl == "missing": return ret or w[0] in ("missing", "exn", "arg")


def check(c):
    b = Build(c.work)
    core = Runner(b)
    table = sigs()
    cs = calls(c, table)
    scripts = [dict(ops=[dict(f=f, args=[v[1] for v in vs]) for f, vs in cs[i:i + 200]]) for i in range(0, len(cs), 200)]
    with open(c.work.path("sigs.json"), "w") as fh: json.dump(table, fh)
    exps = [x[1] for rs in run_scripts(c, "Calls", "C", scripts, chunk=200, files={"sigs.json": json.dumps(table)}) for x in rs]
    assert len(exps) == len(cs)
    got = run(core, list(enumerate(cs)))
    asan = Build(c.work, asan=True, tag="asan", need=("vmini",))
    arun = Runner(asan, tag="asan")
    agot = run(arun, list(enumerate(cs)))
    for i, ((f, vs), e) in enumerate(zip(cs, exps)):
        text = "(%s%s)" % (f, "".join(" " + v[0] for v in vs))
        c.add("calls"); c.traced()
        c.add("calls that must raise" if e["class"] in ("arg", "argrange", "range", "arity", "exn", "raise") else "calls that return")
        w = got.get(i, ["died", "?"])
        if not judge(e, w):
            c.violation("call " + f, "%s\nallowed: %s %s\nobserved: %s" % (text, e["class"], [j + 1 for j, x in enumerate(e["at"]) if x] or e["kinds"], " ".join(map(str, w))))
        elif agot.get(i, ["died"])[0] == "died":
            c.violation("memory " + f, "%s\ninvalid memory access:\n%s" % (text, "\n".join(map(str, agot.get(i, ["?"])))))
        if i in (100, 4000): c.sample(dict(call=text, allowed=e["class"], observed=w[:2]))
    c.cov["procedures"] = len(table)
    c.assumptions = ["lists are acyclic; lengths that exhaust memory are not tried; reads and writes outside objects are those AddressSanitizer sees when every object is its own malloc block"]


if __name__ == "__main__":
    main("C06", "model_checking", check)
