"""C09: symbols with one spelling are one object; generated symbols are fresh."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = '''
(define-values (show) (lambda (xs) (for-each (lambda (x) (display x) (display "|")) xs) (newline)))
(define-values (bulk) (lambda (pre lo hi)
  (letrec-values ([(v) (make-vector (+ 1 (- hi lo)))]
                  [(go) (lambda (i) (if (<= i hi) (begin (vector-set! v (- i lo) (string->symbol (string-append pre (number->string i)))) (go (+ i 1))) v))])
    (go lo))))
(define-values (again) (lambda (v pre lo hi)
  (letrec-values ([(go) (lambda (i) (if (<= i hi)
                      (if (eq? (vector-ref v (- i lo)) (string->symbol (string-append pre (number->string i))))
                          (if (equal? (symbol->string (vector-ref v (- i lo))) (string-append pre (number->string i))) (go (+ i 1)) i)
                          i) #t))])
    (go lo))))
(define-values (count) (lambda (vs ss)
  (let-values ([(h) (make-eq-hashtable)])
    (for-each (lambda (v) (for-each (lambda (s) (hashtable-set! h s #t)) (vector->list v))) vs)
    (for-each (lambda (s) (hashtable-set! h s #t)) ss)
    (hashtable-size h))))
'''
SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&*/:<=>?^_~+-.@"


def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def readable(s):
    return s != "" and s != "." and all(c in SAFE for c in s) and not (s[0] in "0123456789" or s[0] in "+-" and s[1:2].isdigit()) and s[0] != "#"


def collide(s, rng):
    """Another spelling of the same hash (33 h + c): one character up, the next 33 down."""
    js = [j for j in range(len(s) - 1) if 33 <= ord(s[j]) + 1 < 127 and 33 <= ord(s[j + 1]) - 33 and chr(ord(s[j]) + 1) not in '"\\' and chr(ord(s[j + 1]) - 33) not in '"\\']
    if not js: return s + "x"
    j = rng.choice(js)
    return s[:j] + chr(ord(s[j]) + 1) + chr(ord(s[j + 1]) - 33) + s[j + 2:]


class Hist:
    def __init__(self, rng):
        self.r, self.ops, self.lines, self.ns, self.nt, self.nb = rng, [], [], 0, 0, 0
        self.text, self.strs = {}, []
        self.pool = []
        for _ in range(rng.choice([1, 3, 6])):
            n = rng.choice([1, 1, 2, 3, 4, 8, 8, 9, 30])
            s = "".join(rng.choice("abAB~zpq09") for _ in range(n))
            self.pool += [s, s[:-1], s + "a"]
            for _ in range(3): self.pool.append(collide(rng.choice(self.pool), rng))
        if rng.random() < .3: self.pool += ["car", "lambda", "t0", "t1", "quote", "+", "a b", "", "Car"]
        if rng.random() < .15: self.pool += ["x" * n for n in (255, 256, 1000, 4000, 4094)]
        if rng.random() < .2: self.pool += ["\xff\xfe", "\xe9t\xe9", "\x80", "\x7f\x01"]

    def op(self, o, line, **k):
        self.ops.append(dict(op=o, **k)); self.lines.append(line)

    def sym(self, expr): self.ns += 1; return "(define-values (s%d) %s)" % (self.ns, expr)
    def str(self, expr): self.nt += 1; return "(define-values (t%d) %s)" % (self.nt, expr)

    def step(self):
        r = self.r
        x = r.random()
        if x < .25:
            p = r.choice(self.pool)
            if readable(p): self.op("sym", self.sym(r.choice(["(quote %s)" % p, "(read (open-input-string %s))" % q(p + r.choice(["", " ", ")"])), "(car '(%s b))" % p])), text=p)
            else: self.strs.append(p); self.op("str", self.str("(string-append %s %s)" % (q(p[:1]), q(p[1:]))), text=p)
        elif x < .45:
            p = r.choice(self.pool)
            self.strs.append(p)
            self.op("str", self.str(r.choice(["(string-append %s %s)" % (q(p[:len(p) // 2]), q(p[len(p) // 2:])), "(list->string (string->list %s))" % q(p)])), text=p)
        elif x < .7 and self.nt:
            i = r.randint(1, self.nt)
            self.op("conv", self.sym("(string->symbol t%d)" % i), i=i)
        elif x < .78 and self.ns:
            i = r.randint(1, self.ns)
            self.strs.append(None)
            self.op("name", self.str("(symbol->string s%d)" % i), i=i)
        elif x < .9 and self.nt:
            c = [i for i, s in enumerate(self.strs) if s]
            if not c: return
            i = r.choice(c)
            j = r.randrange(len(self.strs[i]))
            ch = r.choice("abzAB~")
            self.op("put", "(string-set! t%d %d #\\%s)" % (i + 1, j, ch), i=i + 1, j=j, ch=ch)
        elif self.ns:
            i = r.randint(1, self.ns)
            self.op("eq", "(show (map (lambda (s) (eq? s s%d)) (list %s)))" % (i, " ".join("s%d" % k for k in range(1, self.ns + 1))), i=i)

    def bulk(self, pre, lo, hi):
        self.nb += 1
        self.op("bulk", "(define-values (b%d) (bulk %s %d %d))" % (self.nb, q(pre), lo, hi), text=pre, lo=lo, hi=hi)

    def end(self):
        for i in range(1, self.ns + 1):
            self.op("eq", "(show (map (lambda (s) (eq? s s%d)) (list %s)))" % (i, " ".join("s%d" % k for k in range(1, self.ns + 1))), i=i)
        self.op("show", "(show (list %s %s))" % (" ".join("s%d" % k for k in range(1, self.ns + 1)), " ".join("t%d" % k for k in range(1, self.nt + 1))))


def history(rng, n, bulks=0):
    h = Hist(rng)
    at = sorted(rng.sample(range(n), min(n, bulks)))
    fam = []
    for i in range(n):
        if i in at:
            pre = rng.choice(["g", "h", rng.choice(h.pool)[:5] or "e"])
            lo = rng.choice([0, 1, 900, 5000])
            hi = lo + rng.choice([50, 800, 2500])
            h.bulk(pre, lo, hi); fam.append((pre, lo, hi))
        h.step()
    for k, f in enumerate(fam): h.op("again", "(show (list (again b%d %s %d %d)))" % (k + 1, q(f[0]), f[1], f[2]))
    h.end()
    return h


def growth(rng, steps, prefixes):
    """Enough symbols to grow the table several times, with the same spellings looked up before, between and after."""
    h = Hist(rng)
    fam = []
    for _ in range(12): h.step()
    for k, (pre, lo, hi) in enumerate(prefixes):
        h.bulk(pre, lo, hi); fam.append((pre, lo, hi))
        for _ in range(steps): h.step()
        for m in range(len(fam)):
            f = fam[m]
            h.op("again", "(show (list (again b%d %s %d %d)))" % (m + 1, q(f[0]), f[1], f[2]))
    h.op("count", "(show (list (count (list %s) (list %s))))" % (" ".join("b%d" % (i + 1) for i in range(h.nb)), " ".join("s%d" % (i + 1) for i in range(h.ns))))
    h.end()
    return h


def expect(h, res):
    out = ""
    for o, x in zip(h.ops, res):
        if o["op"] in ("eq", "show"): out += "".join(y + "|" for y in x[1]) + "\n"
        elif o["op"] in ("again", "count"): out += x[1] + "|\n"
    return out


def temporaries(base, n, values):
    """A program whose variables are named like the compiler's temporaries: rewriting must not capture them."""
    names = ["t%d" % i for i in range(base, base + n)]
    half = "(list %s)" % " ".join(names)
    if values == 0:
        body = "(let-values ([(x y) (if c (values 1 2) (values 3 4))]) (cons x (cons y %s)))" % half
    elif values == 1:
        body = "(call-with-values (lambda () (if c (values 1 2) (values 3 4))) (lambda (x y) (cons x (cons y %s))))" % half
    elif values == 2:
        body = "(letrec-values ([(x y) (values (lambda () y) (lambda () x))]) (let-values ([(a) 1] [(u v) (values 1 2)]) (cons a (cons v %s))))" % half
    else:
        body = "(letrec-values ([(x y) (values (lambda () %s) (lambda () (x)))]) (cons 1 (cons 2 (y))))" % half
    text = "".join("(define-values (%s) %d)\n" % (t, i) for i, t in enumerate(names))
    text += "(define-values (f) (lambda (c) %s))\n(display (f #t))\n" % body
    inner = "(define-values (g) (lambda (c %s) %s))\n(display (apply g (cons #t (list %s))))\n" % (" ".join(names[:60]), body.replace(half, "(list %s)" % " ".join(names[:60])), " ".join(str(i) for i in range(60)))
    out = "(1 2 %s)" % " ".join(map(str, range(n))) + "(1 2 %s)" % " ".join(map(str, range(60)))
    return dict(key="temporaries named like variables", text=text + inner, out=out)


def check(c):
    b = Build(c.work)
    r = Runner(b)
    c.mc(tlc_ok(c.work, "InternMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Spellings = {%s} MaxHash = %d Sizes <- TinySizes Num = 3 Den = 4\nINVARIANTS OnceOnly Findable Exact\n"
                % (", ".join('"%s"' % x for x in "abcdef"[:c.n(5, 6)]), c.n(4, 6)), timeout=800))
    hs = [history(c.rng, c.rng.choice([10, 30, 60]), 0) for _ in range(c.n(400, 10000))]
    hs += [history(c.rng, 30, c.rng.choice([1, 2])) for _ in range(c.n(40, 400))]
    hs += [growth(c.rng, 4, ps) for ps in ([("g", 1000, 4999), ("h", 0, 3000), ("G", 1000, 4999)], [("a", 0, 6200), ("aa", 0, 100), ("b", 0, 6200), ("A", 0, 3000)],
                                            [(p, 1, 700) for p in ("x", "y", "z", "xy", "yx", "p", "q", "r", "B1", "B2", "C1")])]
    if not c.quick:
        hs.append(growth(c.rng, 4, [("a", 0, 20000), ("b", 0, 20000), ("c", 0, 20000), ("d", 0, 9000)]))
    res = run_scripts(c, "Symbols", "S", [dict(ops=h.ops) for h in hs], chunk=1000, inv=["OneObject"])
    tests = [dict(key="symbol history", text=PRE + "\n".join(h.lines) + "\n", out=expect(h, x)) for h, x in zip(hs, res)]
    c.add("operations", sum(len(h.ops) for h in hs))
    c.sample(dict(program="\n".join(hs[0].lines)[-600:], expected=tests[0]["out"][-300:]))
    # the compiler's temporaries t<n> never capture a variable of that name
    step = 400
    for base in range(0, c.n(12000, 60000), step):
        for v in (0, 1, 2, 3): tests.append(temporaries(base, step, v))
    compare(c, r, tests, timeout=30)
    # temporaries generated for macros
    rl = Runner(b, lib=True)
    gt = rl.imp("private/gen-temp.min")
    compare(c, rl, [dict(key="gen-temp-id is fresh", text=gt + '(let-values ([(a) (syntax->datum (gen-temp-id "zz"))] [(b) (syntax->datum (gen-temp-id "zz"))]) (display (eq? a b)) (newline))\n', out="#f\n"),
                    dict(key="gen-temp-id is not interned", text=gt + '(let-values ([(a) (syntax->datum (gen-temp-id "zz"))]) (display (eq? a (string->symbol (symbol->string a)))) (newline))\n', out="#f\n")])
    c.assumptions = ["spellings of at most 4094 characters without NUL"]


if __name__ == "__main__":
    main("C09", "model_checking", check)
