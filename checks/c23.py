"""C23: integer arithmetic is exact within the 64-bit range."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAX, MIN = 2 ** 63 - 1, -2 ** 63
EDGE = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 255, 256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, -2 ** 32,
        3037000499, 3037000500, -3037000500, 2 ** 62, -2 ** 62, MAX - 1, MAX, MIN + 1, MIN]
NARY = ["+", "-", "*", "/", "=", "<", ">", "<=", ">="]
TWO = ["remainder", "modulo", "eq?", "equal?"]
ONE = ["add1", "sub1", "zero?", "negative?", "positive?", "non-negative?", "negative-integer?", "positive-integer?", "non-negative-integer?"]


def big(n):
    return dict(neg=n < 0, d=[int(ch) for ch in reversed(str(abs(n)))] if n else [])


def val(b):
    n = int("".join(map(str, reversed(b["d"]))) or "0")
    return -n if b["neg"] else n


def operand(r):
    k = r.random()
    if k < .3: return r.choice(EDGE)
    if k < .5: return r.randint(-20, 20)
    if k < .7: return r.randint(MIN, MAX)
    b = r.randint(1, 62)
    return r.choice([1, -1]) * (2 ** b + r.randint(-2, 2))


def calcs(c):
    r = c.rng
    out = []
    for o in ONE:
        for x in EDGE: out.append((o, [x]))
    for o in NARY + TWO:
        for x in EDGE:
            for y in EDGE: out.append((o, [x, y]))
    for o in NARY:
        for x in EDGE: out.append((o, [x]))
    out += [("+", []), ("*", [])]
    small = [0, 1, -1, 2, -3, MAX, MIN]
    for o in NARY:
        for x in small:
            for y in small:
                for z in small:
                    if c.quick and r.random() < .5: continue
                    out.append((o, [x, y, z]))
    for _ in range(c.n(3000, 60000)):
        o = r.choice(NARY + NARY + TWO + ["remainder", "modulo"])
        n = 2 if o in TWO else r.choice([2, 2, 3, 3, 4, 5, 8, 20])
        xs = [operand(r) for _ in range(n)]
        if o in "+-" and r.random() < .7:      # a total in range by way of totals out of it
            xs = [r.choice([MAX, MIN, operand(r)]) for _ in range(n)]
            t = (xs[0] if o == "-" else -xs[0]) - sum(xs[1:]) + r.choice([0, 1, MAX, MIN, r.randint(MIN, MAX)])
            if MIN <= t <= MAX: xs.insert(r.randint(1, len(xs)), t)
        if o == "*" and r.random() < .7:
            xs = [r.choice([1, -1, 2, -2, 3, 2 ** r.randint(1, 31), r.randint(-10 ** 6, 10 ** 6)]) for _ in range(n)]
        if o == "/" and r.random() < .8: xs = [xs[0]] + [r.choice([1, -1, 2, -2, 3, 10, 7, x]) for x in xs[1:]]
        if o in ("=", "<", ">", "<=", ">=") and r.random() < .7:
            xs = sorted(xs, reverse=o in (">", ">="))
            if r.random() < .4: i = r.randrange(n); xs[i] = xs[i - 1] if o != "=" else xs[i]
            if o == "=": xs = [xs[0]] * n
            if r.random() < .4: xs[r.randrange(n)] = operand(r)
        out.append((o, xs))
    return out


FORMS = [lambda o, xs: "(%s)" % " ".join([o] + xs),
         lambda o, xs: "(let-values (%s) (%s))" % (" ".join("[(x%d) %s]" % (i, x) for i, x in enumerate(xs)), " ".join([o] + ["x%d" % i for i in range(len(xs))])),
         lambda o, xs: "(apply %s (list %s))" % (o, " ".join(xs)),
         lambda o, xs: "((lambda (f %s) (f %s)) %s %s)" % (" ".join("x%d" % i for i in range(len(xs))), " ".join("x%d" % i for i in range(len(xs))), o, " ".join(xs)),
         lambda o, xs: "(apply (lambda args (apply %s args)) %s '())" % (o, " ".join(xs)),
         lambda o, xs: "(%s)" % " ".join([o] + ["(identity %s)" % x for x in xs])]


def check(c):
    cs = calcs(c)
    per = 50
    scripts = [dict(ops=[dict(op=o, args=[big(x) for x in xs]) for o, xs in cs[i:i + per]]) for i in range(0, len(cs), per)]
    res = run_scripts(c, "Arith", "A", scripts, chunk=1000, inv=["DivisionIdentity", "RingLaws"])
    flat = [x for rs in res for x in rs]
    b = Build(c.work)
    r = Runner(b)
    tests, group, want, what = [], [], [], []
    def flush():
        if group:
            tests.append(dict(key=" ".join(group[:3]), text="".join("(write %s)\n(newline)\n" % g for g in group), out="".join(w + "\n" for w in want)))
            group.clear(); want.clear()
    for i, ((o, xs), x) in enumerate(zip(cs, flat)):
        c.add(x[0] + " results")
        f = FORMS[c.rng.randrange(len(FORMS)) if i % 2 else 0](o, [str(x) for x in xs])
        if x[0] == "any":      # out of range: any value, but the process goes on
            group.append("(begin %s 'went-on)" % f); want.append("went-on")
        elif x[0] == "error":
            tests.append(dict(key=f, text="(display 1)\n%s\n(display 2)" % f, out="1", status="error", err=[o]))
        else:
            w = str(val(x[1])) if x[0] == "num" else "#t" if x[1] else "#f"
            group.append(f); want.append(w)
            if i % 1000 == 7: c.sample(dict(expression=f, result=w))
        if len(group) == 40: flush()
    flush()
    compare(c, r, tests, timeout=20)
    c.assumptions = ["results outside the signed 64-bit range are unspecified"]


if __name__ == "__main__":
    main("C23", "model_checking", check)
