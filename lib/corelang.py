"""Programs of the core language: the tuples Core.tla interprets, their Minim text, and generators."""
import json

PRELUDE = '''(define-values (show) (lambda (x n)
  (if (= n 0) (display "~")
  (if (pair? x) (begin (display "(") (show (car x) (- n 1)) (display " . ") (show (cdr x) (- n 1)) (display ")"))
  (if (vector? x) (begin (display "[") (show-seq x 0 (- n 1)) (display "]"))
  (if (box? x) (begin (display "&") (show (unbox x) (- n 1)))
  (if (string? x) (begin (display "s") (display x))
  (if (char? x) (begin (display "c") (put-char (current-output-port) x))
  (if (void? x) (display "V")
  (if (exn? x) (display "E")
  (if (procedure? x) (display "P") (display x))))))))))))
(define-values (show-seq) (lambda (v i n)
  (if (= i (vector-length v)) (void)
    (begin (if (= i 0) (void) (display " "))
           (show (vector-ref v i) n) (show-seq v (+ i 1) n)))))
(define-values (out) (lambda (x) (begin (show x 8) (newline) x)))
'''


def datum(d):
    t = d[0]
    if t == "int": return str(d[1])
    if t == "bool": return "#t" if d[1] else "#f"
    if t == "null": return "()"
    if t == "sym": return d[1]
    if t == "char": return "#\\" + d[1]
    if t == "strl": return '"%s"' % d[1]
    if t == "list": return "(" + " ".join(map(datum, d[1])) + ")"
    if t == "vecl": return "#(" + " ".join(map(datum, d[1])) + ")"
    if t == "boxl": return "#&" + datum(d[1])
    raise ValueError(d)


def clause(xs, rest):
    if rest and not xs: return rest
    return "(" + " ".join(xs) + (" . " + rest if rest else "") + ")"


def text(e):
    t = e[0]
    if t == "q":
        d = e[1]
        return datum(d) if d[0] in ("int", "bool", "char", "strl") else "'" + datum(d)
    if t == "v": return e[1]
    if t == "lam": return "(lambda %s %s)" % (clause(e[1], e[2]), " ".join(map(text, e[3])))
    if t == "cl": return "(case-lambda %s)" % " ".join("[%s %s]" % (clause(c[0], c[1]), " ".join(map(text, c[2]))) for c in e[1])
    if t == "if": return "(if %s %s %s)" % tuple(map(text, e[1:4]))
    if t == "seq": return "(begin%s)" % "".join(" " + text(x) for x in e[1])
    if t in ("letv", "letrec"):
        return "(%s (%s) %s)" % ("let-values" if t == "letv" else "letrec-values",
                                 " ".join("[(%s) %s]" % (" ".join(b[0]), text(b[1])) for b in e[1]),
                                 " ".join(map(text, e[2])))
    if t == "set": return "(set! %s %s)" % (e[1], text(e[2]))
    if t == "app": return "(%s)" % " ".join(map(text, [e[1]] + e[2]))
    if t == "values": return "(values%s)" % "".join(" " + text(x) for x in e[1])
    if t == "cwv": return "(call-with-values %s %s)" % (text(e[1]), text(e[2]))
    if t == "def": return "(define-values (%s) %s)" % (" ".join(e[1]), text(e[2]))
    raise ValueError(e)


def program_text(forms):
    return PRELUDE + "".join(text(f) + "\n" for f in forms)


ATOMS = ("int", "bool", "null", "sym", "char", "void")


def model(forms):
    """The program as Core.tla reads it: compound literals are numbered objects."""
    lits = []

    def conv(e):
        t = e[0]
        if t == "q":
            if e[1][0] in ATOMS: return e
            lits.append(e[1])
            return ["v", "lit:%d" % len(lits)]
        if t == "v": return e
        if t == "lam": return ["lam", e[1], e[2], [conv(x) for x in e[3]]]
        if t == "cl": return ["cl", [[c[0], c[1], [conv(x) for x in c[2]]] for c in e[1]]]
        if t in ("letv", "letrec"): return [t, [[b[0], conv(b[1])] for b in e[1]], [conv(x) for x in e[2]]]
        if t == "set": return ["set", e[1], conv(e[2])]
        if t == "def": return ["def", e[1], conv(e[2])]
        if t == "seq": return ["seq", [conv(x) for x in e[1]]]
        if t == "values": return ["values", [conv(x) for x in e[1]]]
        if t == "app": return ["app", conv(e[1]), [conv(x) for x in e[2]]]
        return [t] + [conv(x) for x in e[1:]]
    fs = [conv(f) for f in forms]
    return {"lits": lits, "forms": fs}


# ---------------------------------------------------------------- helpers to write programs by hand

def I(n): return ["q", ["int", n]]
def V(x): return ["v", x]
def S(x): return ["q", ["sym", x]]
def B(b): return ["q", ["bool", b]]
def app(f, *args): return ["app", V(f) if isinstance(f, str) else f, list(args)]
def lam(xs, *body, rest=""): return ["lam", list(xs), rest, list(body)]
def vals(*es): return ["values", list(es)]
def letv(bs, *body): return ["letv", [[list(x), e] for x, e in bs], list(body)]
def letrec(bs, *body): return ["letrec", [[list(x), e] for x, e in bs], list(body)]
def seq(*es): return ["seq", list(es)]
def define(xs, e): return ["def", list(xs) if not isinstance(xs, str) else [xs], e]


# ---------------------------------------------------------------- random programs

class Gen:
    """Random core programs.  Expressions have a kind (int, bool, list, vec, box, str, any, or ("fn", n))
    so that most programs run for a while; with probability `wild` an expression of another kind is used,
    and with probability `misfit` a number of values or arguments is wrong."""

    NAMES = ["a", "b", "c", "d", "x", "y", "z", "p", "q"]
    KINDS = ["int"] * 6 + ["list"] * 3 + ["vec"] * 2 + ["box"] * 2 + ["bool", "str", "any"]

    def __init__(self, rng, wild=0.01, misfit=0.01, mut=1.0, err=False):
        self.r, self.wild, self.misfit, self.mut, self.err = rng, wild, misfit, mut, err
        self.fresh = 0
        self.glob = {}

    def kind(self):
        if self.r.random() < 0.15:
            return ("fn", self.r.choice([0, 1, 1, 2, 2, 3]))
        return self.r.choice(self.KINDS)

    def name(self):
        return self.r.choice(self.NAMES)

    def names(self, n):
        return self.r.sample(self.NAMES, n)

    def var(self, k, sc):
        c = [x for x, t in {**self.glob, **sc}.items() if t == k]
        return ["v", self.r.choice(c)] if c else None

    def out(self, e):
        return app("out", e)

    def expr(self, k, sc, d):
        r = self.r
        if r.random() < self.wild:
            k = self.kind()
        if k == "any":
            k = r.choice(["int", "int", "list", "vec", "box", "bool", "str"])
        if d <= 0:
            return self.leaf(k, sc)
        if r.random() < 0.3:
            v = self.var(k, sc)
            if v: return v
        x = r.random()
        if x < 0.5:
            return self.special(k, sc, d)
        return self.op(k, sc, d)

    def leaf(self, k, sc):
        r = self.r
        v = self.var(k, sc)
        if v and r.random() < 0.75: return v
        if k == "int": return I(r.randint(-3, 9))
        if k == "bool": return B(r.random() < 0.5)
        if k == "str": return ["q", ["strl", r.choice(["", "ab", "xyz", "q"])]]
        if k == "list": return ["q", r.choice([["null"], ["list", [["int", r.randint(0, 5)], ["int", 7]]], ["list", [["int", 1]]],
                                               ["list", [["sym", "s"], ["list", [["int", 2]]], ["strl", "k"]]]])]
        if k == "vec": return r.choice([app("vector", I(1), I(r.randint(0, 5))), ["q", ["vecl", [["int", 4], ["int", 5], ["int", 6]]]],
                                        app("make-vector", I(2), I(3))])
        if k == "box": return app("box", I(r.randint(0, 5)))
        if isinstance(k, tuple):
            xs = self.names(k[1])
            return ["lam", xs, "", [self.leaf("int", {**sc, **{x: "int" for x in xs}})]]
        return I(0)

    def args(self, kinds, sc, d):
        return [self.expr(k, sc, d - 1) for k in kinds]

    # every form of the language in a position where a single value of kind k is wanted
    def special(self, k, sc, d):
        r = self.r
        x = r.randrange(18)
        if x < 2:
            return ["if", self.expr("bool", sc, d - 1), self.expr(k, sc, d - 1), self.expr(k, sc, d - 1)]
        if x < 4:
            return ["seq", self.effects(sc, d) + [self.expr(k, sc, d - 1)]]
        if x < 8:
            return self.bind(k, sc, d, lambda s, dd: self.expr(k, s, dd))
        if x == 8:
            return vals(self.expr(k, sc, d - 1))
        if x == 9:
            return self.out(self.expr(k, sc, d - 1))
        # calls
        n = r.choice([0, 1, 1, 2, 2, 3])
        ks = [self.kind() for _ in range(n)]
        if x == 10:
            v = self.var(("fn", n), sc) if k == "int" else None
            if v:
                return ["app", v, self.count([self.expr("int", sc, d - 1) for _ in range(n)], sc)]
        if x == 11:        # consumer of several values
            return ["cwv", ["lam", [], "", self.effects(sc, d, 1) + [self.producer(ks, sc, d - 1)]],
                    self.consumer(k, ks, sc, d)]
        if x == 12:        # rest arguments
            m = r.randint(0, n)
            xs = self.names(m + 1)
            s2 = {**sc, **dict(zip(xs[:m], ks)), xs[m]: "list"}
            return ["app", ["lam", xs[:m], xs[m], self.body(k, s2, d)], self.count(self.args(ks, sc, d), sc, extra=True)]
        if x == 13:        # apply
            m = r.randint(0, n)
            l = ["app", V("list"), self.args(ks[m:], sc, d)]
            return ["app", V("apply"), [self.consumer(k, ks, sc, d)] + self.args(ks[:m], sc, d) + [l]]
        return ["app", self.consumer(k, ks, sc, d), self.count(self.args(ks, sc, d), sc)]

    def count(self, args, sc, extra=False):
        if self.r.random() < self.misfit:
            return args + [I(1)] if self.r.random() < 0.5 or not args else args[1:]
        return args

    def consumer(self, k, ks, sc, d):
        """A procedure of arguments of kinds ks returning kind k."""
        r = self.r
        n = len(ks)
        xs = self.names(n)
        s2 = {**sc, **dict(zip(xs, ks))}
        x = r.random()
        if x < 0.55:
            return ["lam", xs, "", self.body(k, s2, d)]
        if x < 0.65:
            ys = self.names(n + 1)
            return ["lam", ys[:n], ys[n], self.body(k, {**sc, **dict(zip(ys, ks)), ys[n]: "list"}, d)]
        if x < 0.9:
            good = [xs, "", self.body(k, s2, d)]
            cs = []
            for _ in range(r.randint(0, 2)):
                m = r.choice([i for i in range(4) if i != n])
                ys = self.names(m + 1)
                if r.random() < 0.3 and m > n:
                    cs.append([ys[:m], ys[m], [S("other")]])
                else:
                    cs.append([ys[:m], "", [S("other")]])
            p = r.randint(0, len(cs))
            tail = [[[], "zz", [self.out(S("many")), self.expr(k, sc, 1)]]] if r.random() < 0.3 else []
            return ["cl", cs[:p] + [good] + cs[p:] + tail]
        m = r.randint(0, n)
        ys = self.names(m + 1)
        return ["cl", [[ys[:m], ys[m], self.body(k, {**sc, **dict(zip(ys[:m], ks)), ys[m]: "list"}, d)]]]

    def body(self, k, sc, d):
        return self.effects(sc, d, 1) + [self.expr(k, sc, d - 1)]

    def producer(self, ks, sc, d):
        """An expression producing values of kinds ks."""
        r = self.r
        if r.random() < self.misfit:
            ks = ks + ["int"] if r.random() < 0.5 or not ks else ks[1:]
        x = r.random()
        if len(ks) == 1 and x < 0.4:
            return self.expr(ks[0], sc, d)
        if d <= 0 or x < 0.45:
            return ["values", self.args(ks, sc, d)]
        if x < 0.55:
            return ["if", self.expr("bool", sc, d - 1), self.producer(ks, sc, d - 1), self.producer(ks, sc, d - 1)]
        if x < 0.65:
            return ["seq", self.effects(sc, d) + [self.producer(ks, sc, d - 1)]]
        if x < 0.8:
            return self.bind(None, sc, d, lambda s, dd: self.producer(ks, s, dd))
        if x < 0.9:
            return ["app", V("apply"), [V("values"), ["app", V("list"), self.args(ks, sc, d)]]]
        k2 = [self.kind() for _ in range(r.randint(0, 2))]
        ys = self.names(len(k2))
        return ["cwv", ["lam", [], "", [self.producer(k2, sc, d - 1)]],
                ["lam", ys, "", [self.producer(ks, {**sc, **dict(zip(ys, k2))}, d - 1)]]]

    def bind(self, k, sc, d, inner):
        r = self.r
        x = r.random()
        if x < 0.65:
            n = r.choice([1, 1, 2, 2, 3])
            names, bs, s2 = [], [], dict(sc)
            pool = self.names(6)
            for _ in range(n):
                m = r.choice([1, 1, 1, 0, 2]) if len(pool) >= 2 else 0
                xs = [pool.pop() for _ in range(m)]
                ks = [self.kind() for _ in xs]
                bs.append([xs, self.producer(ks, sc, d - 1)])
                s2.update(zip(xs, ks))
            return ["letv", bs, self.effects(s2, d, 1) + [inner(s2, d - 1)]]
        n = r.choice([1, 2, 2, 3])
        xs = self.names(n)
        ks = [self.kind() for _ in xs]
        s2, bs = dict(sc), []
        for x_ in xs:
            s2.pop(x_, None)
        # a local binding in progress hides a variable of the same name: closures may refer to all
        # names, other initial expressions only to the ones before
        for i, (x_, k_) in enumerate(zip(xs, ks)):
            if isinstance(k_, tuple):
                ys = self.names(k_[1])
                s3 = {**s2, **{u: w for u, w in zip(xs, ks) if not isinstance(w, tuple)}, **{y: "int" for y in ys}}
                bs.append([[x_], ["lam", ys, "", self.effects(s3, d - 1, 1) + [self.expr("int", s3, d - 2)]]])
            else:
                bs.append([[x_], self.producer([k_], {u: w for u, w in s2.items()} if r.random() < .97 else {**s2, x_: k_}, d - 1)])
            s2[x_] = k_
        return ["letrec", bs, self.effects(s2, d, 1) + [inner(s2, d - 1)]]

    def effects(self, sc, d, most=2):
        r = self.r
        res = []
        for _ in range(r.choice([0, 0, 1, 1, 2])if most > 1 else r.choice([0, 0, 1])):
            res.append(self.effect(sc, d - 1))
        return res

    def effect(self, sc, d):
        r = self.r
        x = r.random()
        both = {**self.glob, **sc}
        if both and x < 0.4 * self.mut:
            y = r.choice(sorted(both))
            return ["set", y, self.expr(both[y], sc, d - 1)]
        if x < 0.55:
            return self.out(self.expr(self.kind(), sc, d - 1))
        if x < 0.65:
            return self.producer([self.kind() for _ in range(r.randint(0, 3))], sc, d - 1)
        if x < 0.75:
            return app("set-box!", self.expr("box", sc, d - 1), self.expr("int", sc, d - 1))
        if x < 0.85:
            v = self.var("vec", sc)
            if v: return app("vector-set!", v, I(r.choice([0, 0, 1])), self.expr(self.kind() if r.random() < .1 else "int", sc, d - 1))
        if x < 0.92:
            return app("for-each", self.consumer("int", ["int"], sc, d - 1), app("list", *self.args(["int"] * r.randint(0, 3), sc, d - 1)))
        if x < 0.96:
            v = self.var("list", sc)
            if v:
                return ["if", app("pair?", v), app(r.choice(["set-car!", "set-car!", "set-cdr!"]), v,
                        self.expr("int", sc, d - 1) if r.random() < .6 else ["q", ["null"]]), ["seq", []]]
        return self.out(self.expr("int", sc, d - 1))

    def op(self, k, sc, d):
        r = self.r
        E = lambda kk: self.expr(kk, sc, d - 1)
        if k == "int":
            x = r.randrange(12)
            if x < 4: return app(r.choice(["+", "+", "-", "*"]), *[E("int") for _ in range(r.choice([1, 2, 2, 3]))])
            if x == 4: return app("unbox", E("box")) if r.random() < .5 else app("vector-length", E("vec"))
            if x == 5: return app("length", E("list"))
            if x == 6: return app("vector-ref", E("vec"), I(r.choice([0, 0, 0, 1, 1, 2 if r.random() < .1 else 0])))
            if x == 7: return app("string-length", E("str"))
            if x == 8: return app("car", app("cons", E("int"), E("any")))
            v = self.var(("fn", x % 3), sc)
            if v: return ["app", v, self.count([E("int") for _ in range(x % 3)], sc)]
            return self.special(k, sc, d)
        if k == "bool":
            x = r.randrange(5)
            if x == 0: return app(r.choice(["<", "<=", "=", ">", ">="]), *[E("int") for _ in range(r.choice([1, 2, 2, 3]))])
            if x == 1: return app("eq?", E("any"), E("any")) if r.random() < .5 else app("not", E("any"))
            if x == 2: return app(r.choice(["null?", "pair?", "procedure?", "integer?", "list?"]), E(self.kind()))
            if x == 3:
                v = self.var(r.choice(["list", "vec", "box"]), sc)
                if v: return app("eq?", v, E("any"))
            return app("=", E("int"), E("int"))
        if k == "list":
            x = r.randrange(8)
            if x < 2: return app("list", *[E(self.kind() if r.random() < .2 else "int") for _ in range(r.randint(0, 3))])
            if x == 2: return app("cons", E("int"), E("list"))
            if x == 3: return app("reverse", E("list"))
            if x == 4: return app("append", *[E("list") for _ in range(r.randint(0, 3))])
            if x == 5: return app("vector->list", E("vec"))
            if x == 6: return app("map", self.consumer("int", ["int"], sc, d - 1), app("list", *[E("int") for _ in range(r.randint(0, 3))]))
            return app("cdr", app("cons", E("int"), E("list")))
        if k == "vec":
            x = r.randrange(3)
            if x == 0: return app("vector", E("int"), E("int"))
            if x == 1: return app("make-vector", I(r.randint(2, 3)), E("int"))
            return app("list->vector", app("list", E("int"), E("int"), E("int")))
        if k == "box": return app("box", E("int"))
        if k == "str": return app("string-append", *[E("str") for _ in range(r.randint(0, 2))])
        if isinstance(k, tuple):
            xs = self.names(k[1])
            s2 = {**sc, **{x: "int" for x in xs}}
            # no recursion through globals: the body sees functions that exist already
            return ["lam", xs, "", self.body("int", s2, d)]
        return self.leaf(k, sc)

    def program(self, n=None, depth=4):
        r = self.r
        forms = []
        for i in range(n or r.randint(3, 6)):
            x = r.random()
            if x < 0.45:
                m = r.choice([1, 1, 1, 2, 3])
                xs = r.sample(["g0", "g1", "g2", "g3", "g4", "g5"], m)
                ks = [self.kind() if self.r.random() < .6 else ("fn", r.choice([0, 1, 2])) for _ in xs]
                e = self.producer(ks, {}, depth)
                # redefinition keeps the kind only of the last definition
                for y in xs: self.glob.pop(y, None)
                self.glob.update(zip(xs, ks))
                forms.append(["def", xs, e])
            elif x < 0.55:
                forms.append(self.effect({}, depth))
            else:
                forms.append(self.out(self.expr(self.kind(), {}, depth)))
        for y, k in sorted(self.glob.items(), key=lambda t: t[0]):
            if isinstance(k, tuple):
                forms.append(self.out(["app", V(y), [I(j + 1) for j in range(k[1])]]))
                forms.append(self.out(["app", V(y), [I(j + 2) for j in range(k[1])]]))
            else:
                forms.append(self.out(V(y)))
        return forms


# ---------------------------------------------------------------- running programs on the specification

def cfg(chunk=60, max_steps=4000, props=False, extra=""):
    s = "INIT Init\nNEXT Next\nCONSTANTS Chunk = %d MaxSteps = %d\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" % (chunk, max_steps)
    if props:
        s += "INVARIANT TypeOK\nPROPERTIES FrameRule OutputRule CallRule ValuesRule ErrorRule\n"
    return s + extra


def interpret(check, programs, chunk=60, max_steps=4000, props=False, module="CoreRun"):
    """Run programs (lists of forms) on the specification; returns one dict per program."""
    from vlib import tlc_ok
    t = tlc_ok(check.work, module, cfg(chunk, max_steps, props), files={"progs.json": json.dumps([model(p) for p in programs])})
    check.mc(t)
    res = [None] * len(programs)
    for j in t.json():
        res[j["i"] - 1] = j
    if any(r is None for r in res):
        from vlib import CheckError
        raise CheckError("specification gave no result for a program: " + t.out[-1500:])
    return res, t


STATUS = {"done": "exit 0", "error": "error"}


def tests(programs, results, check=None):
    """Expected observations of the programs in the implementation."""
    ts = []
    for p, r in zip(programs, results):
        if r["status"] not in ("done", "error", "exit"):
            if check: check.add("discarded")
            continue
        ts.append(dict(text=program_text(p), out="".join(l + "\n" for l in r["out"]),
                       status=STATUS.get(r["status"]) or "exit %d" % r["code"], err=[m for m in r["err"] if m]))
        if check: check.add("programs_" + r["status"])
    return ts


# ---------------------------------------------------------------- systematic programs

def contexts(n=1):
    """Every syntactic position an expression can stand in; each is (name, function of the expression).
    The expression may use the variables x (a number that it may assign) and k (a procedure)."""
    o = lambda e: app("out", e)
    t = [
        ("if-test", lambda e: ["if", e, o(I(1)), o(I(2))]),
        ("if-then", lambda e: ["if", B(True), e, o(I(2))]),
        ("if-else", lambda e: ["if", B(False), o(I(2)), e]),
        ("begin-first", lambda e: seq(e, o(V("x")))),
        ("begin-last", lambda e: seq(o(V("x")), e)),
        ("let-init", lambda e: letv([(["y"], e)], o(V("y")), V("x"))),
        ("let-first", lambda e: letv([(["y"], e), (["z"], o(V("x")))], app("list", V("y"), V("z")))),
        ("let-second", lambda e: letv([(["x"], o(I(7))), (["z"], e)], app("list", V("x"), V("z")))),
        ("let-body", lambda e: letv([(["x"], I(5))], e)),
        ("let-body2", lambda e: letv([(["x", "q"], vals(I(5), I(6)))], o(V("q")), e)),
        ("letrec-init", lambda e: letrec([(["f"], lam([], V("x"))), (["y"], e)], app("list", V("y"), app(V("f"))))),
        ("letrec-proc", lambda e: letrec([(["f"], lam(["x"], e)), (["h"], lam([], app("f", I(3))))], app("h"))),
        ("letrec-body", lambda e: letrec([(["f"], lam([], V("x")))], e)),
        ("set", lambda e: seq(["set", "x", e], V("x"))),
        ("operator", lambda e: ["app", ["if", e, V("list"), V("vector")], [o(I(1)), V("x")]]),
        ("arg-first", lambda e: app("list", e, o(V("x")), V("x"))),
        ("arg-last", lambda e: app("list", o(V("x")), V("x"), e)),
        ("arg-of-lambda", lambda e: app(lam(["x", "y"], o(V("x")), app("list", V("x"), V("y"))), V("x"), e)),
        ("values", lambda e: vals(e)),
        ("producer", lambda e: ["cwv", lam([], e), lam(["x"], o(V("x")), V("x"))]),
        ("producer-seq", lambda e: ["cwv", lam([], o(V("x")), e), lam([], V("x"), rest="r")]),
        ("producer-cl", lambda e: ["cwv", lam([], e), ["cl", [[[], "", [S("none")]], [["a"], "", [V("a")]], [[], "r", [V("r")]]]]]),
        ("consumer", lambda e: ["cwv", lam([], vals(I(3), o(I(4)))), lam(["x", "y"], e)]),
        ("consumer0", lambda e: ["cwv", lam([], vals()), lam([], e)]),
        ("immediate", lambda e: app(lam([], o(V("x")), e))),
        ("immediate1", lambda e: app(lam(["x"], e), app("out", V("x")))),
        ("rest-body", lambda e: app(lam(["y"], app("out", V("r")), e, rest="r"), I(1), V("x"), I(3))),
        ("clause", lambda e: app(["cl", [[["x"], "", [I(0)]], [["x", "y"], "", [e]]]], I(8), I(9))),
        ("closure", lambda e: letv([(["f"], lam([], e))], app("list", app("f"), V("x"), app("f")))),
        ("apply", lambda e: app("apply", lam(["a", "b"], app("list", V("b"), V("a"))), o(I(1)), app("list", e))),
        ("captured", lambda e: letv([(["f"], lam(["x"], e))], seq(["set", "x", I(50)], app("f", V("x"))))),
        ("map", lambda e: app("map", lam(["y"], e), app("list", I(1), I(2)))),
    ]
    return t


def wrap(e, mode=0):
    """A whole program around an expression over x and k."""
    if mode == 0:       # variables of an enclosing procedure
        body = lam(["x", "k"], letv([(["r"], e)], app("out", V("r")), app("out", V("x")), app("out", app("k"))))
        return [define("main", body), app("main", I(10), lam([], S("k"))),
                app("out", S("end"))]
    if mode == 1:       # global variables
        return [define(["x", "k"], vals(I(10), lam([], V("x")))), app("out", e), app("out", V("x")), app("out", app("k")),
                app("out", S("end"))]
    # in tail position of a procedure whose variable is captured by k
    body = lam(["x"], letv([(["k"], lam([], ["set", "x", app("+", V("x"), I(1))], V("x")))], app("out", app("k")), e))
    return [define("main", body), define("r", app("main", I(10))), app("out", V("r")), app("out", S("end"))]


def nullary_core():
    """Expressions that observe and change x."""
    o = lambda e: app("out", e)
    return [
        ("read", V("x")),
        ("bump", seq(["set", "x", app("+", V("x"), I(1))], V("x"))),
        ("call-k", app("k")),
        ("make", lam([], V("x"))),
        ("false", B(False)),
        ("cap", letv([(["f"], lam(["v"], ["set", "x", V("v")]))], app("f", I(77)), V("x"))),
        ("cons", app("cons", V("x"), o(app("list", V("x"))))),
    ]


def run_core(check, runner, programs, batch=6000, **kw):
    """Interpret the programs on the specification and compare the implementation with it."""
    from vlib import compare
    bad = 0
    for i in range(0, len(programs), batch):
        ps = programs[i:i + batch]
        rs, t = interpret(check, ps, **kw)
        ts = tests(ps, rs, check)
        if ts: check.sample(dict(program=ts[0]["text"][len(PRELUDE):][:600], expected=ts[0]["out"][:200], status=ts[0]["status"]))
        bad += compare(check, runner, ts, what="core program")
    return bad
