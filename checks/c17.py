"""C17: environments isolate and eval uses exactly the environment given."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["a", "b", "c", "f", "g"]
BASE = ["+", "car", "cdr", "list", "add1"]

PRE = '''(define-values (show) (lambda (v) (if (integer? v) (display v) (if (procedure? v) (display "proc") (if (environment? v) (display (ename v)) (if (void? v) (display "void") (display "?")))))))
(define-values (base0) (length (environment-symbols (make-base-environment))))
(define-values (count) (lambda (xs p) (if (null? xs) 0 (+ (if (p (car xs)) 1 0) (count (cdr xs) p)))))
(define-values (in?) (lambda (x xs) (if (null? xs) #f (if (eq? x (car xs)) #t (in? x (cdr xs))))))
(define-values (twice) (lambda (xs t) (if (null? xs) 0 (if (hashtable-contains? t (car xs)) (+ 1 (twice (cdr xs) t)) (begin (hashtable-set! t (car xs) 1) (twice (cdr xs) t))))))
(define-values (basesyms) (environment-symbols (make-base-environment)))
(define-values (basetab) (make-eq-hashtable))
(for-each (lambda (x) (hashtable-set! basetab x 1)) basesyms)
(define-values (tracked) '(+ car cdr list add1))
(define-values (fail) (list 'fail))
(define-values (view) (lambda (e names)
  (let-values ([(syms) (environment-symbols e)])
   (for-each (lambda (x) (let-values ([(v) (environment-ref e x fail)])
      (if (eq? v fail) (if (in? x syms) (display "listed but missing") (display "-"))
          (if (in? x syms) (show v) (display "there but not listed"))) (display " "))) names)
   (display (count syms (lambda (x) (not (hashtable-contains? basetab x))))) (display " ")
   (display (count syms (lambda (x) (in? x tracked)))) (display " ")
   (display (twice syms (make-eq-hashtable))) (newline))))
(define-values (fill) (lambda (e lo hi v) (if (> lo hi) (void) (begin
   (if (even lo) (environment-set! e (name lo) v) (eval (list 'define-values (list (name lo)) v) e)) (fill e (add1 lo) hi v)))))
(define-values (even) (lambda (n) (= 0 (remainder n 2))))
(define-values (name) (lambda (i) (string->symbol (string-append "n" (number->string i)))))
(define-values (not) (lambda (x) (if x #f #t)))
(define-values (e1) (current-environment))
(define-values (ename) (lambda (v) (loop-envs v 1)))
(define-values (loop-envs) (lambda (v i) (let-values ([(e) (environment-ref e1 (string->symbol (string-append "e" (number->string i))) #f)])
   (if e (if (eq? e v) (string-append "env" (number->string i)) (loop-envs v (+ i 1))) "unknown"))))
(define-values (host-eval) eval)
'''
# the program's own environment holds helper names; only the scripts' names count there


class Gen:
    """Expressions; q: inside a quoted expression evaluated elsewhere."""

    def __init__(self, r, n): self.r, self.n = r, n

    def env(self): return self.r.randint(1, self.n)

    def expr(self, d, loc=(), top=False, env=1):
        r = self.r
        k = r.random()
        if d == 0 or k < .15: return dict(t="num", n=r.randint(0, 99)) if r.random() < .4 else dict(t="ref", x=r.choice(list(loc) + NAMES[:3]))
        if k < .3: return dict(t="ref", x=r.choice(list(loc) + NAMES))
        if k < .42 and top: return dict(t="def", x=r.choice(NAMES), e=self.expr(d - 1, loc, env=env))
        if k < .5:
            x = r.choice([n for n in NAMES if n not in loc] or [None])
            if x and not loc: return dict(t="set", x=x, e=self.expr(d - 1, loc, env=env))
        if k < .58:
            x = r.choice(NAMES[:3] + ["u"])
            return dict(t="let", x=x, e=self.expr(d - 1, loc, env=env), body=self.expr(d - 1, tuple(loc) + (x,), env=env))
        if k < .68:
            ps = r.choice([[], [], ["a"], ["v"]])
            return dict(t="lam", ps=ps, body=r.choice([self.expr(d - 1, tuple(loc) + tuple(ps), env=env), dict(t="ref", x=r.choice(NAMES[:3]))]))
        if k < .78:
            return dict(t="call", f=dict(t="ref", x=r.choice(["f", "g"])), args=[self.expr(d - 1, loc, env=env) for _ in range(r.choice([0, 0, 1]))])
        if k < .84 and top: return dict(t="seq", es=[self.expr(d - 1, loc, top, env) for _ in range(r.choice([1, 2, 3]))])
        if k < .95:
            e = self.env()
            return dict(t="eval", env=e, e=self.expr(d - 1, (), True, e))
        if k < .97: return dict(t="eset", env=self.env(), x=r.choice(NAMES), e=self.expr(d - 1, loc, env=env))
        if k < .99: return dict(t="eref", env=self.env(), x=r.choice(NAMES), d=r.randint(100, 120))
        return dict(t="cur")


def text(x, loc=()):
    """Expression text; environment objects and host procedures are spliced with quasi-building in quote()."""
    t = x["t"]
    if t == "num": return str(x["n"])
    if t == "ref": return x["x"]
    if t == "def": return "(define-values (%s) %s)" % (x["x"], text(x["e"]))
    if t == "set": return "(set! %s %s)" % (x["x"], text(x["e"]))
    if t == "let": return "(let-values ([(%s) %s]) %s)" % (x["x"], text(x["e"]), text(x["body"]))
    if t == "lam": return "(lambda (%s) %s)" % (" ".join(x["ps"]), text(x["body"]))
    if t == "seq": return "(begin %s)" % " ".join(map(text, x["es"]))
    if t == "call": return "(%s)" % " ".join([text(x["f"])] + [text(a) for a in x["args"]])
    if t == "eval": return "(eval %s e%d)" % (build(x["e"]), x["env"])
    if t == "eset": return "(environment-set! e%d '%s %s)" % (x["env"], x["x"], text(x["e"]))
    if t == "eref": return "(environment-ref e%d '%s %d)" % (x["env"], x["x"], x["d"])
    if t == "cur": return "(current-environment)"


def build(x):
    """An expression that builds the datum of x; environments and host procedures appear in it as quoted objects."""
    t = x["t"]
    q = lambda s: "(list 'quote %s)" % s
    if not any(k in json.dumps(x) for k in ('"eval"', '"eset"', '"eref"', '"cur"')): return "'" + text(x)
    if t == "def": return "(list 'define-values '(%s) %s)" % (x["x"], build(x["e"]))
    if t == "set": return "(list 'set! '%s %s)" % (x["x"], build(x["e"]))
    if t == "let": return "(list 'let-values (list (list '(%s) %s)) %s)" % (x["x"], build(x["e"]), build(x["body"]))
    if t == "lam": return "(list 'lambda '(%s) %s)" % (" ".join(x["ps"]), build(x["body"]))
    if t == "seq": return "(list 'begin %s)" % " ".join(map(build, x["es"]))
    if t == "call": return "(list %s)" % " ".join([build(x["f"])] + [build(a) for a in x["args"]])
    if t == "eval": return "(list %s %s %s)" % (q("eval"), q(build(x["e"])), q("e%d" % x["env"]))
    if t == "eset": return "(list %s %s ''%s %s)" % (q("environment-set!"), q("e%d" % x["env"]), x["x"], build(x["e"]))
    if t == "eref": return "(list %s %s ''%s %d)" % (q("environment-ref"), q("e%d" % x["env"]), x["x"], x["d"])
    if t == "cur": return "(list %s)" % q("current-environment")
    raise CheckError(t)


def render(s):
    out = [PRE]
    n = 1
    for o in s["ops"]:
        k = o["op"]
        if k in ("make", "copy", "copysyms"):
            n += 1
            out.append("(define-values (e%d) %s)" % (n, "(make-%s-environment)" % ("base" if o["base"] else "empty") if k == "make" else
                       "(copy-environment e%d%s)" % (o["env"], o["m"]) if k == "copy" else "(copy-environment e%d %s '(%s))" % (o["env"], o["m"], " ".join(o["syms"]))))
        elif k == "do":
            out.append("(show %s) (newline)" % text(o["e"]) if o["e"]["t"] not in ("def",) else text(o["e"]))
        elif k == "fill": out.append("(fill e%d %d %d %d)" % (o["env"], o["lo"], o["hi"], o["v"]))
        elif k == "view": out.append("(view e%d '(%s))" % (o["env"], " ".join(o["names"])))
    return "\n".join(out) + "\n"


def history(r, i, quick):
    ops = []
    n = 1
    for x in NAMES: ops.append(dict(op="do", e=dict(t="def", x=x, e=dict(t="num", n=r.randint(100, 200)) if x < "f" else dict(t="lam", ps=[] if r.random() < .7 else ["v"], body=dict(t="ref", x=r.choice(NAMES[:3]))))))
    filled = {}
    for _ in range(r.randint(8, 30)):
        g = Gen(r, n)
        k = r.random()
        if n < 2 or (k < .08 and n < 7):
            ops.append(dict(op="make", base=r.random() < .4)); n += 1
            for x in r.sample(NAMES, r.randint(1, 5)):
                if r.random() < .8: ops.append(dict(op="do", e=dict(t="eval", env=n, e=dict(t="def", x=x, e=g.expr(1, (), env=n) if r.random() < .3 else dict(t="num", n=r.randint(0, 99)) if x < "f" else dict(t="lam", ps=[], body=dict(t="ref", x=r.choice(NAMES[:3])))))))
        elif k < .16 and n < 7:
            ops.append(dict(op="copy", env=r.randint(2, n), m=r.choice(["", " #t", " #f"]))); n += 1
        elif k < .2 and n < 7:
            ops.append(dict(op="copysyms", env=r.randint(1, n), m=r.choice(["#t", "#f"]), syms=[r.choice(NAMES + ["zz", "+"]) for _ in range(r.randint(0, 7))])); n += 1
        elif k < .25:
            e = r.randint(2, n)
            lo = r.randint(1, 60); hi = lo + r.choice([0, 1, 5, 30, 150] + ([] if quick else [600, 2000]))
            ops.append(dict(op="fill", env=e, lo=lo, hi=hi, v=r.randint(0, 99)))
        elif k < .34: ops.append(dict(op="view", env=r.randint(2, n), names=NAMES + ["n1", "n30", "n60", "zz", "+"]))
        elif k < .4:          # a procedure of the base environment is redefined in one environment, and looked up in all
            e, x, v = r.randint(2, n), r.choice(BASE), dict(t="num", n=r.randint(0, 99))
            ops.append(dict(op="do", e=dict(t="eset", env=e, x=x, e=v) if r.random() < .6 else dict(t="eval", env=e, e=dict(t="def", x=x, e=v))))
        else: ops.append(dict(op="do", e=Gen(r, n).expr(r.choice([2, 3, 4]), (), True)))
    for e in range(2, n + 1): ops.append(dict(op="view", env=e, names=NAMES + ["n%d" % j for j in (1, 2, 3, 20, 59, 60, 61, 100, 150)] + BASE))
    for x in NAMES: ops.append(dict(op="do", e=dict(t="ref", x=x)))
    ops.append(dict(op="do", e=dict(t="cur")))
    return dict(ops=ops)


def expected(s, rs):
    out, status = "", "exit 0"
    for o, x in zip(s["ops"], rs):
        if x[0] == "stop": status = "error"; break
        if o["op"] == "view": out += "".join(v + " " for v in x[1]) + x[2] + " " + x[3] + " 0\n"
        elif o["op"] == "do" and o["e"]["t"] != "def": out += x[1] + "\n"
    return out, status


def prune(c, scripts):
    """Histories whose errors come early say little: drop the operations that fail, once."""
    res = run_scripts(c, "Envs", "E", scripts, chunk=20, inv=["WellFormed"])
    for _ in range(6):
        again = []
        for i, (s, rs) in enumerate(zip(scripts, res)):
            if rs[-1][0] == "stop" and i % 10:
                del s["ops"][len(rs) - 1]
                again.append(i)
        if not again: break
        for i, rs in zip(again, run_scripts(c, "Envs", "E", [scripts[i] for i in again], chunk=20, inv=["WellFormed"])): res[i] = rs
    return res


def check(c):
    b = Build(c.work)
    r = Runner(b)
    scripts = [history(c.rng, i, c.quick) for i in range(c.n(500, 8000))]
    res = prune(c, scripts)
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        if rs[-1] == ["stop", "fuel"]: continue
        o = json.dumps(s["ops"][len(rs) - 1])
        if rs[-1][0] == "stop" and '"set"' in o and ('"def"' in o or '"lam"' in o or '"let"' in o): continue     # set! of an undefined variable inside another form is not specified
        out, status = expected(s, rs)
        c.add("histories"); c.add("operations", len(rs))
        if status != "exit 0": c.add("histories ending in an error")
        tests.append(dict(key="history %d" % i, text=render(s), out=out, status=status))
        if i in (7, 50): c.sample(dict(program=tests[-1]["text"][len(PRE):][:600], expected=out[:300]))
    compare(c, r, tests, timeout=20)
    c.assumptions = ["set! of an undefined variable from inside a procedure is outside the property", "the mutable flag of a copy is not examined"]


if __name__ == "__main__":
    main("C17", "model_checking", check)
