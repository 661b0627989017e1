"""C15: records keep type identity, field integrity, inheritance and genericity."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = '''(define-values (known) '())
(define-values (know!) (lambda (x name) (set! known (cons (cons x name) known))))
(define-values (who) (lambda (x)
  (letrec-values ([(find) (lambda (l) (if (null? l) (plain x) (if (eq? (car (car l)) x) (display (cdr (car l))) (find (cdr l)))))]
                  [(plain) (lambda (x) (if (eq? x (void)) (display "void") (if (vector? x) (begin (display "[") (for-each who (vector->list x)) (display "]")) (write x))))])
    (begin (find known) (display " ")))))
(define-values (out) (lambda (x) (begin (who x) (newline))))
(define-values (writer) (lambda (k acc) (lambda (x port display?)
  (begin (put-string port "[") ((if display? display write) k port) (put-string port (if display? "d" "w"))
         (if acc (begin (put-string port " ") ((if display? display write) (acc x) port)) (void)) (put-string port "]")))))
(define-values (isrec) (lambda (x) (vector (record? x) (record-type-descriptor? x))))
(define-values (info) (lambda (t) (vector (record-type-name t) (record-type-parent t) (record-type-uid t) (record-type-sealed? t) (record-type-opaque? t) (record-type-field-names t)
  (list->vector (map (lambda (i) (record-type-field-mutable? t i)) (iota (vector-length (record-type-field-names t))))))))
(define-values (fields) (lambda (x t)
  (letrec-values ([(go) (lambda (t i acc) (if (= i 0) (if (record-type-parent t) (start (record-type-parent t) acc) acc)
                                                    (go t (- i 1) (cons ((record-accessor t (- i 1)) x) acc))))]
                  [(start) (lambda (t acc) (go t (vector-length (record-type-field-names t)) acc))])
    (list->vector (start t '())))))
'''
BAD = ["1 {p} #f #f #f #()", "\"n\" {p} #f #f #f #()", "'n 1 #f #f #f #()", "'n 'a #f #f #f #()", "'n {p} 1 #f #f #()", "'n {p} \"u\" #f #f #()", "'n {p} #f 1 #f #()", "'n {p} #f #f '() #()",
       "'n {p} #f #f #f '()", "'n {p} #f #f #f #f", "'n (lambda (x) x) #f #f #f #()", "'n #t #f #f #f #()"]
BADFIELD = ["(mutable)", "x", "(immut x)", "(mutable . x)", "(mutable x y)", "(mutable 5)", "5", "()", "((mutable x))", "(x mutable)", "\"x\"", "(mutable x . y)"]


def val(v):
    k = v[0]
    if k == "i": return str(v[1])
    if k == "s": return '"%s"' % v[1]
    if k == "b": return "#t" if v[1] else "#f"
    if k == "y": return "'" + v[1]
    return "%s%d" % (k, v[1])


def shown(v):
    if v[0] == "v": return "void "
    if v[0] == "l": return "[" + "".join(shown(x) for x in v[1]) + "] "
    if v[0] == "y": return v[1] + " "
    return val(v) + " "


class Render:
    def __init__(self): self.nt = self.nr = self.np = self.ng = self.na = self.nm = 0

    def op(self, o, res):
        """program text of an operation and the output it is to make"""
        k, rv, new = o["op"], res[1] if res[0] == "ok" else None, ""
        def define(kind, e): n = getattr(self, "n" + kind) + 1; setattr(self, "n" + kind, n); return "(define-values (%s%d) %s)" % (kind, n, e), "(know! %s%d '%s%d)" % (kind, n, kind, n)
        if k == "type":
            if o["bad"]: return "(make-record-type-descriptor %s)" % o["bad"]
            fs = " ".join(f["text"] or "(%smutable %s)" % ("" if f["mut"] else "im", f["name"]) for f in o["fields"])
            return "\n".join(define("t", "(make-record-type-descriptor '%s %s %s %s %s '#(%s))" % (o["name"], "t%d" % o["parent"] if o["parent"] else "#f", "'" + o["uid"] if o["uid"] else "#f",
                                                   "#t" if o["sealed"] else "#f", "#t" if o["opaque"] else "#f", fs)))
        if k == "form": return self.form(o)
        if k == "ctor": return define("p", "(record-constructor t%d)" % o["t"])[0]
        if k == "pred": return define("p", "(record-predicate t%d)" % o["t"])[0]
        if k in ("acc", "mut"): return define("p", "(record-%s t%d %d)" % ({"acc": "accessor", "mut": "mutator"}[k], o["t"], o["i"] - 1))[0]
        if k == "call":
            e = "(p%d%s)" % (o["p"], "".join(" " + val(a) for a in o["args"]))
            if rv and rv[0] == "r" and rv[1] == self.nr + 1: d, kn = define("r", e); return d + kn + "(out r%d)" % self.nr
            return "(out %s)" % ("(if %s #t #f)" % e if o.get("truth") else e)
        if k == "info": return "(out (info t%d))" % o["t"]
        if k == "mutable?": return "(out (record-type-field-mutable? t%d %d))" % (o["t"], o["i"] - 1)
        if k == "is": return "(out (isrec %s))" % val(o["v"])
        if k == "rtd": return "(out (record-rtd %s))" % val(o["v"])
        if k == "show": return ["(write %s)", "(display %s)", "(fprintf (current-output-port) \"~s\" %s)", "(fprintf (current-output-port) \"~a\" %s)"][o["d"] + 2 * o["how"]] % val(o["v"]) + "(newline)"
        if k == "equal": return "(out (equal? %s %s))" % (val(o["a"]), val(o["b"]))
        if k == "hash": return "(out (if (equal? {0} {1}) (= (equal-hash {0}) (equal-hash {1})) #f))".format(val(o["a"]), val(o["b"]))
        if k == "eq!": return self.eqproc(o["id"], o["t"], o["i"]) + "(record-type-equal-procedure t%d e%d) (record-type-hash-procedure t%d h%d)" % (o["t"], o["id"], o["t"], o["id"])
        if k == "wr!": return "(define-values (w%d) (writer %d %s)) (know! w%d %d) (record-writer t%d w%d)" % (o["id"], o["id"], self.acc(o["t"], o["i"]), o["id"], o["id"], o["t"], o["id"])
        if k == "attached": return "(out (vector (record-type-equal-procedure t%d) (record-type-hash-procedure t%d) (record-writer t%d)))" % ((o["t"],) * 3)
        if k == "generics":
            ms = " ".join("(%s %s)" % (m["name"], self.formals(m)) for m in o["methods"]).replace(" )", ")").replace("( ", "(")
            self.ng += 1; self.np += 1
            if o["how"]: return "(define-values (g%d) ($make-generics-type 'g%d '(%s))) (define-values (p%d) (generic-instance? g%d))" % (self.ng, self.ng, self.table(o), self.np, self.ng)
            return "(define-generics n%d %s) (define-values (g%d) gen:n%d) (define-values (p%d) gen:n%d?)" % (self.ng, " ".join("[%s . %s]" % (m["name"], self.formals(m)) for m in o["methods"]), self.ng, self.ng, self.np, self.ng)
        if k == "gen!":
            ds = []
            for m in o["impls"]: ds.append("(define-values (m%d) (lambda %s 0)) (know! m%d 'm%d)" % (m["id"], self.formals(m), m["id"], m["id"]))
            return " ".join(ds) + " (record-type-add-generic! t%d g%d (list %s))" % (o["t"], o["g"], " ".join("m%d" % m["id"] for m in o["impls"]))
        if k == "gacc": return define("p", "(generics-accessor g%d '%s)" % (o["g"], o["name"]))[0]
        if k == "dump": return "(out (fields r%d %s))" % (o["r"], o["rt"])

    def formals(self, m):
        xs = ["x%d" % i for i in range(m["n"])]
        if m["rest"]: return "r" if not xs else "(%s . r)" % " ".join(xs)
        return "(%s)" % " ".join(xs)

    def table(self, o):
        out = []
        for m in o["methods"]:
            f = self.formals(m)
            out.append("(%s . %s)" % (m["name"], f))
        return " ".join(out)

    def acc(self, t, i): return "(record-accessor t%d %d)" % (t, i - 1) if i else "#f"

    def eqproc(self, id, t, i):
        a = self.acc(t, i)
        return "(define-values (e%d) (let-values ([(acc) %s]) (lambda (a b rec) (rec (acc a) (acc b))))) (define-values (h%d) (let-values ([(acc) %s]) (lambda (a rec) (rec (acc a))))) (know! e%d %d) (know! h%d %d)" % (id, a, id, a, id, id, id, id)

    def form(self, o):
        n, cls, defs = o["name"], [], []
        ctor, pred = ("mk" + n, "is" + n) if o["named"] else ("make-" + n, n + "?")
        fs, accs, muts = [], [], []
        for i, f in enumerate(o["fields"]):
            a, m = "%s-%s" % (n, f["name"]), "%s-%s-set!" % (n, f["name"])
            if f["full"]: a, m = "get%d%s" % (i, n), "set%d%s" % (i, n)
            if f["mut"]: fs.append("(mutable %s%s)" % (f["name"], " %s %s" % (a, m) if f["full"] else ""))
            elif f["full"]: fs.append("(immutable %s %s)" % (f["name"], a))
            else: fs.append(f["name"] if f["bare"] else "(immutable %s)" % f["name"])
            accs.append(a)
            if f["mut"]: muts.append(m)
        if o["parent"]: cls.append("(parent t%d)" % o["parent"])
        if o["uid"]: cls.append("(uid '%s)" % o["uid"])
        if o["sealed"] or o["explicit"]: cls.append("(sealed %s)" % ("#t" if o["sealed"] else "#f"))
        if o["opaque"] or o["explicit"]: cls.append("(opaque %s)" % ("#t" if o["opaque"] else "#f"))
        if fs or o["explicit"]: cls.append("(fields %s)" % " ".join(fs))
        if o["proto"] == "rev": cls.append("(protocol (lambda (p) (lambda args (apply p (reverse args)))))")
        if o["proto"] == "dup": cls.append("(protocol (lambda (p) (lambda (x) (p%s))))" % (" x" * o["total"]))
        g = lambda w: "(lambda (x) (%s x))" % accs[w[1] - 1] if w[1] else "#f"
        if o["wr"]: cls.append("(methods gen:custom-write (lambda (v port mode) ((writer %d %s) v port mode)))" % (o["wr"][0], g(o["wr"])))
        if o["eq"]: cls.append("(methods gen:equal+hash (lambda (a b rec) (rec ({0} a) ({0} b))) (lambda (a rec) (rec ({0} a))))".format(accs[o["eq"][1] - 1]))
        if o["shuffle"]: cls.reverse()
        self.nt += 1
        defs.append("(define-record-type %s %s)" % ("(%s %s %s)" % (n, ctor, pred) if o["named"] else n, " ".join(cls)))
        defs.append("(define-values (t%d) %s) (know! t%d 't%d)" % (self.nt, n, self.nt, self.nt))
        if o["wr"]: defs.append("(know! (record-writer t%d) %d)" % (self.nt, o["wr"][0]))
        if o["eq"]: defs.append("(know! (record-type-equal-procedure t%d) %d) (know! (record-type-hash-procedure t%d) %d)" % (self.nt, o["eq"][0], self.nt, o["eq"][0]))
        for x in [ctor, pred] + accs + muts:
            self.np += 1
            defs.append("(define-values (p%d) %s)" % (self.np, x))
        return "\n".join(defs)


ERR = {"arg": ["contract violation"], "arity": ["arity"], "range": ["out of"], "error": []}


def render(s, res, head=""):
    R, out, exp, status, err = Render(), [PRE], "", "exit 0", []
    for o, x in zip(s["ops"], res):
        out.append(R.op(o, x))
        if x[0] == "stop": status, err = "error", ERR[x[1]]; break
        if o["op"] in ("call", "info", "mutable?", "is", "rtd", "equal", "hash", "attached", "dump"): exp += shown(x[1]) + "\n"
        if o["op"] == "show": exp += x[1] + "\n"
    return head + "\n".join(out) + "\n", exp, status, err


class Gen:
    def __init__(self, r, lib):
        self.r, self.lib = r, lib
        self.ops, self.ty, self.re, self.pr, self.ge, self.ids = [], [], [], [], [], 0

    def add(self, k, **kw): self.ops.append(dict(op=k, **kw))
    def id(self): self.ids += 1; return self.ids
    def total(self, t): return 0 if t == 0 else len(self.ty[t - 1]["fields"]) + self.total(self.ty[t - 1]["parent"])
    def isa(self, t, u): return t == u or t != 0 and self.isa(self.ty[t - 1]["parent"], u)

    def fields(self, form):
        r, n = self.r, self.r.choice([0, 1, 1, 2, 2, 3, 5])
        names = r.sample(["x", "y", "z", "name", "a", "b", "c1"], n)
        return [dict(mut=r.random() < .6, name=m, ok=True, text="", full=form and r.random() < .4, bare=r.random() < .5) for m in names]

    def parent(self, wild):
        r = self.r
        if self.ty and r.random() < .6:
            p = r.randint(1, len(self.ty))
            if wild and r.random() < .3 or not self.ty[p - 1]["sealed"]: return p
        return 0

    def type(self, wild):
        r, form = self.r, self.lib and self.r.random() < .5
        fs, p = self.fields(form), self.parent(wild)
        name = "n%d" % len(self.ty) if form else r.choice(["point", "point", "a", "hashtable", "x->y"])
        d = dict(name=name, parent=p, uid=r.choice(["", "", "u", "v"]), sealed=r.random() < .15, opaque=r.random() < .2, fields=fs)
        if wild and not form and r.random() < .2:
            if r.random() < .5:
                b = r.choice(BAD)
                return self.add("type", bad=b.format(p="#f"), **dict(d, parent=0))
            if fs and r.random() < .5: fs.append(dict(fs[0], mut=not fs[0]["mut"]))
            else: fs.insert(r.randint(0, len(fs)), dict(mut=False, name="q", ok=False, text=r.choice(BADFIELD), full=False, bare=False))
            return self.add("type", bad="", **d)
        self.ty.append(dict(d, n=len(fs)))
        t = len(self.ty)
        if form:
            n = len(fs)
            proto = r.choice(["", "", "rev", "dup"])
            self.ty[t - 1]["proto"] = proto
            self.add("form", proto=proto, named=r.random() < .3, explicit=r.random() < .3, shuffle=r.random() < .3, total=self.total(t),
                     wr=[self.id(), r.randint(0, n)] if r.random() < .3 else [], eq=[self.id(), r.randint(1, n)] if n and r.random() < .3 else [], **d)
            self.pr.append(dict(k="ctor", t=t, n=1 if proto == "dup" else self.total(t)))
            self.pr.append(dict(k="pred", t=t))
            for i in range(n): self.pr.append(dict(k="acc", t=t, i=i + 1))
            for i in range(n):
                if fs[i]["mut"]: self.pr.append(dict(k="mut", t=t, i=i + 1))
        else:
            self.add("type", bad="", **d)
            self.add("ctor", t=t); self.pr.append(dict(k="ctor", t=t, n=self.total(t)))
            for i in range(len(fs)):
                for k in ("acc", "mut"):
                    if r.random() < .7 and (k == "acc" or fs[i]["mut"]): self.add(k, t=t, i=i + 1); self.pr.append(dict(k=k, t=t, i=i + 1))
            if r.random() < .6: self.add("pred", t=t); self.pr.append(dict(k="pred", t=t))

    def value(self, below=None):
        r, x = self.r, self.r.random()
        n = len(self.re) if below is None else below
        if n and x < .35: return ["r", r.randint(1, n)]
        if x < .45 and self.ty: return ["t", r.randint(1, len(self.ty))]
        return r.choice([["i", r.randint(-3, 3)], ["i", 7], ["s", "s"], ["b", 0], ["b", 1], ["i", 99]])

    def history(self):
        r = self.r
        self.type(False); self.type(False)
        wild, steps = r.random() < .35, r.randint(10, 45)
        for step in range(steps):
            w = wild and step > steps * .6
            x = r.random()
            if x < .12: self.type(w)
            elif x < .3: self.make(w)
            elif x < .6 and self.pr: self.call(w)
            elif x < .64: self.add("info", t=r.randint(1, len(self.ty)))
            elif x < .66:
                t = r.randint(1, len(self.ty)); n = len(self.ty[t - 1]["fields"])
                if n or w: self.add("mutable?", t=t, i=r.randint(1, n + (1 if w else 0)))
            elif x < .70: self.add("is", v=self.value())
            elif x < .73:
                ok = [i + 1 for i, t in enumerate(self.re) if not self.ty[t - 1]["opaque"]]
                if w: self.add("rtd", v=self.value())
                elif ok: self.add("rtd", v=["r", r.choice(ok)])
            elif x < .80: self.add("show", v=self.value(), d=r.random() < .5, how=r.randint(0, 1))
            elif x < .88:
                a, b = self.value(), self.value()
                if r.random() < .6 and self.re: a, b = ["r", r.randint(1, len(self.re))], ["r", r.randint(1, len(self.re))]
                self.add(r.choice(["equal", "equal", "hash"]), a=a, b=b)
            elif x < .94:
                t = r.randint(1, len(self.ty)); n = len(self.ty[t - 1]["fields"])
                if r.random() < .5:
                    if n: self.add("eq!", t=t, id=self.id(), i=r.randint(1, n))
                else: self.add("wr!", t=t, id=self.id(), i=r.randint(0, n))
            elif x < .95: self.add("attached", t=r.randint(1, len(self.ty)))
            elif x < .97:
                t = r.randint(1, len(self.ty)); n = len(self.ty[t - 1]["fields"])
                k = r.choice(["acc", "mut", "pred"])
                if k == "pred": self.add(k, t=t); self.pr.append(dict(k=k, t=t))
                else:
                    i = r.randint(1, n) if n else 0
                    if w and r.random() < .5: i = n + 1
                    if i == 0 or i > n and not w or k == "mut" and i <= n and not self.ty[t - 1]["fields"][i - 1]["mut"] and not w: continue
                    self.add(k, t=t, i=i); self.pr.append(dict(k=k, t=t, i=i))
            elif self.lib: self.generics(w)
        for t in range(1, len(self.ty) + 1):
            if r.random() < .3: self.add("info", t=t)
            if r.random() < .3: self.add("attached", t=t)
        for i, t in enumerate(self.re): self.add("dump", r=i + 1, rt="t%d" % t)
        for i, t in enumerate(self.re): self.add("show", v=["r", i + 1], d=r.random() < .5, how=0)
        return dict(ops=self.ops)

    def make(self, w):
        r = self.r
        cs = [i + 1 for i, p in enumerate(self.pr) if p["k"] == "ctor"]
        if not cs: return
        c = r.choice(cs[-4:])
        n = self.pr[c - 1]["n"]
        m = n if not (w and r.random() < .2) else max(0, n + r.choice([-1, 1]))
        self.add("call", p=c, args=[self.value() for _ in range(m)])
        if m == n: self.re.append(self.pr[c - 1]["t"])

    def call(self, w):
        r = self.r
        p = r.randint(1, len(self.pr))
        q = self.pr[p - 1]
        if q["k"] == "ctor": return self.make(w)
        if q["k"] in ("isgen", "gacc"):
            ok = [t for t in range(1, len(self.ty) + 1) if any(g == q["g"] for g in self.ty[t - 1].get("gens", []))]
            v = self.value() if q["k"] == "isgen" or w else ["t", r.choice(ok)] if ok else None
            if r.random() < .5: v = ["t", r.randint(1, len(self.ty))] if q["k"] == "isgen" else v
            if v: self.add("call", p=p, args=[v], truth=q["k"] == "isgen")
            return
        ok = [i + 1 for i, t in enumerate(self.re) if self.isa(t, q["t"])]
        if q["k"] == "pred": return self.add("call", p=p, args=[self.value() if not self.re or r.random() < .2 else ["r", r.randint(1, len(self.re))]])
        if w and r.random() < .15: v = self.value()
        elif ok: v = ["r", r.choice(ok)]
        else: return
        args = [v] + ([self.value(v[1] - 1 if v[0] == "r" else None)] if q["k"] == "mut" else [])
        if w and r.random() < .05: args = args[:-1] if r.random() < .5 else args + [["i", 0]]
        self.add("call", p=p, args=args)

    def generics(self, w):
        r = self.r
        if not self.ge or r.random() < .4:
            ms = [dict(name="m%d" % i, n=r.randint(0, 3), rest=r.random() < .3) for i in range(r.choice([0, 1, 2, 3]))]
            self.ge.append(ms); self.add("generics", methods=ms, how=r.random() < .5)
            self.pr.append(dict(k="isgen", g=len(self.ge)))
        g, t = r.randint(1, len(self.ge)), r.randint(1, len(self.ty))
        impls = [dict(id=self.id(), n=m["n"], rest=m["rest"]) for m in self.ge[g - 1]]
        if w and r.random() < .3:
            if impls and r.random() < .5: m = r.choice(impls); m["n"] += 1
            elif impls and r.random() < .5: m = r.choice(impls); m["rest"] = not m["rest"]
            else: impls.append(dict(id=self.id(), n=1, rest=False))
        else: self.ty[t - 1].setdefault("gens", []).append(g)
        self.add("gen!", t=t, g=g, impls=impls)
        ns = [m["name"] for m in self.ge[g - 1]] + (["nope"] if w and r.random() < .2 else [])
        for n in ns: self.add("gacc", g=g, name=n); self.pr.append(dict(k="gacc", g=g))


def check(c):
    b = Build(c.work)
    core, lib = Runner(b), Runner(b, lib=True, preload="base.min")
    lib2 = [lib.imp("base.min") + lib.imp("private/generics.min")]
    scripts, where = [], []
    for i in range(c.n(900, 12000)): scripts.append(Gen(c.rng, False).history()); where.append(False)
    for i in range(c.n(250, 4000)): scripts.append(Gen(c.rng, True).history()); where.append(True)
    ty = lambda **kw: dict(dict(op="type", bad="", name="a", parent=0, uid="", sealed=False, opaque=False, fields=[]), **kw)
    fd = lambda n, mut=True: dict(mut=mut, name=n, ok=True, text="", full=False, bare=False)
    fixed = [[ty(bad=x.format(p="#f"))] for x in BAD] + [[ty(), ty(bad=x.format(p="t1"))] for x in BAD if "{p}" in x]
    for x in BADFIELD: fixed += [[ty(fields=[fd("a")] * k + [dict(fd("q"), ok=False, text=x)] + [fd("b")] * j)] for k in (0, 1) for j in (0, 1)]
    # chains: every level's fields through every level's procedures
    for depth in range(1, 5):
        for sizes in ([1] * depth, [0, 2] * depth, [2, 0, 1] * depth, [3, 1] * depth):
            ops = []
            for d in range(depth): ops.append(ty(name="c%d" % d, parent=d, fields=[fd("f%d" % i, (i + d) % 2 == 0) for i in range(sizes[d])]))
            for d in range(depth): ops.append(dict(op="ctor", t=d + 1))
            for d in range(depth): ops.append(dict(op="pred", t=d + 1))
            np, acc = 2 * depth, []
            for d in range(depth): ops.append(dict(op="call", p=d + 1, args=[["i", 100 * d + i] for i in range(sum(sizes[:d + 1]))]))
            for d in range(depth):
                for i in range(sizes[d]):
                    np += 1; ops.append(dict(op="acc", t=d + 1, i=i + 1)); acc.append((np, d))
            mut = []
            for d in range(depth):
                for i in range(sizes[d]):
                    if (i + d) % 2 == 0: np += 1; ops.append(dict(op="mut", t=d + 1, i=i + 1)); mut.append((np, d))
            for d in range(depth):
                for r in range(depth): ops.append(dict(op="call", p=depth + d + 1, args=[["r", r + 1]]))
            for p, d in mut:
                for r in range(d, depth): ops.append(dict(op="call", p=p, args=[["r", r + 1], ["i", 1000 * p + r]]))
                ops += [dict(op="dump", r=r + 1, rt="t%d" % (r + 1)) for r in range(depth)]
            for p, d in acc:
                for r in range(d, depth): ops.append(dict(op="call", p=p, args=[["r", r + 1]]))
            fixed.append(ops)
            for p, d in acc + mut:      # an instance of an ancestor is refused
                for r in range(d): fixed.append(ops + [dict(op="call", p=p, args=[["r", r + 1], ["i", 0]][:1 if (p, d) in acc else 2])])
    for o in fixed: scripts.append(dict(ops=o)); where.append(False)
    res = run_scripts(c, "Records", "R", scripts, chunk=20, inv=["RecordsOK"])
    tests = {False: [], True: []}
    for i, (s, rs, l) in enumerate(zip(scripts, res, where)):
        text, out, status, err = render(s, rs, "".join(lib2) if l else "")
        tests[l].append(dict(key="history %d" % i, text=text, out=out, status=status, err=err))
        c.add("histories"); c.add("operations", len(rs))
        if status != "exit 0": c.add("histories ending in an error")
        if i in (3, 1000): c.sample(dict(program=text[len(PRE):][:900], expected=out[:300]))
    compare(c, core, tests[False])
    compare(c, lib, tests[True], timeout=60)
    c.assumptions = ["structures of records are acyclic when compared, hashed or written; the procedures attached to a type are pure"]


if __name__ == "__main__":
    main("C15", "model_checking", check)
