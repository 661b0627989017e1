"""C18: syntax-case patterns and templates.  spec/Macros.tla defines matching and
instantiation; TLC gives the expansion of generated macro uses and classifies
malformed macros, the library expands the same macros."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NIL = ["n", 0]
DOTS = ["s", "..."]
def S(x): return ["s", x]
def lst(xs, e=NIL):
    d = e
    for x in reversed(xs): d = ["p", x, d]
    return d
def spine(d):
    xs = []
    while d[0] == "p": xs.append(d[1]); d = d[2]
    return xs, d

def text(d):
    if d[0] == "n": return "()"
    if d[0] == "v": return "#(" + " ".join(text(x) for x in d[1]) + ")"
    if d[0] == "p":
        xs, e = spine(d)
        return "(" + " ".join(text(x) for x in xs) + ("" if e == NIL else " . " + text(e)) + ")"
    return d[1]

LITS = ["k0", "k1", "=>"]
ATOMS = [["a", t] for t in ("1", "2", "-7", "#t", "#f", '"s"', '"t u"', "#\\a", "1152921504606846975", "0")]
NAMES = ["a", "b", "c", "d", "e", "x", "y", "z", "body", "rest", "a1", "b2", "out", "key", "p", "tmp", "val", "n"]


class P:
    """a pattern"""
    def __init__(self, r, lits): self.r, self.lits, self.names, self.vars = r, lits, r.sample(NAMES, len(NAMES)), []
    def leaf(self, depth):
        r = self.r; k = r.random()
        if k < .62 and self.names: v = self.names.pop(); self.vars.append((v, depth)); return S(v)
        if k < .74: return S("_")
        if k < .86 and self.lits: return S(r.choice(self.lits))
        return r.choice(ATOMS + [NIL])
    def pat(self, level, depth, top=False):
        r = self.r; k = r.random()
        if not top and (level == 0 or k < .5): return self.leaf(depth)
        if not top and k > .9:
            xs = self.items(level, depth)
            return ["v", xs]
        xs = self.items(level, depth)
        e = self.leaf(depth) if r.random() < .2 and xs else NIL
        return lst(xs, e)
    def items(self, level, depth):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        at = r.randrange(n) if n and r.random() < .5 and depth < 3 else -1
        xs = []
        for i in range(n):
            if i == at: xs += [self.pat(level - 1, depth + 1), DOTS]
            else: xs.append(self.pat(level - 1, depth))
        return xs


def instance(r, p, lits, vary=.012):
    """a form that matches p, or nearly"""
    if r.random() < vary: return datum(r, 1)
    if p[0] == "s": return S(p[1]) if p[1] in lits else datum(r, r.choice([0, 0, 0, 1, 2]))
    if p[0] == "p":
        if p[2][0] == "p" and p[2][1] == DOTS:
            xs = [instance(r, p[1], lits, vary / 2) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
            return lst(xs, instance(r, p[2][2], lits, vary))
        d = instance(r, p[2], lits, vary)
        if r.random() < vary: return d
        return ["p", instance(r, p[1], lits, vary), d]
    if p[0] == "v": return ["v", spine(instance(r, lst(p[1]), lits, 0))[0]] if r.random() > vary else ["v", spine(instance(r, lst(p[1]), lits, .3))[0]]
    return p

def datum(r, n):
    k = r.random()
    if n == 0 or k < .3: return r.choice([S(r.choice(["u", "v", "w", "k0", "k1", "=>", "a", "b", "if", "_", "lambda"])), r.choice(ATOMS), NIL]) if k > .1 else S(r.choice("uvw"))
    xs = [datum(r, n - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    if k > .85: return ["v", xs]
    return lst(xs, NIL if not xs or r.random() < .8 else datum(r, 0))


def template(r, vars, level, n=0):
    """vars: name -> depth; n ellipses follow"""
    here = [v for v, d in vars.items() if d in (0, n)]
    k = r.random()
    if level == 0 or k < .3:
        if here and r.random() < .8: return S(r.choice(here))
        if r.random() < .03 and vars: return S(r.choice(list(vars)))
        return r.choice([S(r.choice(["q", "r", "list", "_", "if", "k0"])), r.choice(ATOMS), NIL])
    xs = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        deep = [v for v, d in vars.items() if d > n]
        if deep and r.random() < .6:
            v = r.choice(deep)
            xs += [around(r, vars, v, n + 1, level - 1), DOTS]
        else: xs.append(template(r, vars, level - 1, n))
    if r.random() < .12: return ["v", xs]
    return lst(xs, template(r, vars, 0, n) if r.random() < .15 else NIL)

def around(r, vars, v, n, level):
    """a template under n ellipses that uses v (of depth at least n)"""
    core = S(v) if vars[v] == n else lst([around(r, vars, v, n + 1, level - 1), DOTS])
    if r.random() < .4: return core
    xs = [core] + [template(r, {u: d for u, d in vars.items() if d in (0, vars[v])}, max(0, level), n) if r.random() < .6 else template(r, {}, 0, n) for _ in range(r.choice([0, 1, 1, 2]))]
    r.shuffle(xs)
    return lst(xs) if r.random() < .85 else ["v", xs]


def fender(r, vars):
    zero = [v for v, d in vars if d == 0]; one = [v for v, d in vars if d == 1]
    opts = []
    if zero: opts += [["id", r.choice(zero)]]
    if len(zero) > 1: opts += [["eq"] + r.sample(zero, 2)]
    if one: opts += [["len", r.choice(one), r.choice([0, 1, 2])]]
    if not opts: return ["none"]
    g = r.choice(opts)
    return ["not", g] if r.random() < .4 else g

def ftext(g):
    if g[0] == "id": return "(identifier? #'%s)" % g[1]
    if g[0] == "eq": return "(let ([f1 (syntax-e #'%s)] [f2 (syntax-e #'%s)]) (and (symbol? f1) (symbol? f2) (eq? f1 f2)))" % (g[1], g[2])
    if g[0] == "len": return "(= (length (syntax->list #'(%s ...))) %d)" % (g[1], g[2])
    if g[0] == "not": return "(not %s)" % ftext(g[1])


def macro(r):
    lits = r.sample(LITS, r.choice([0, 0, 1, 2]))
    clauses = []
    for _ in range(r.choice([1, 1, 2, 3])):
        p = P(r, lits)
        pat = p.pat(r.choice([1, 2, 2, 3]), 0, top=True)
        vars = dict(p.vars)
        c = dict(pat=["p", S("_") if r.random() < .9 else S("self"), pat], fender=fender(r, p.vars) if r.random() < .25 else ["none"], tmpl=template(r, vars, r.choice([1, 2, 2, 3])))
        c["with"] = []
        if "self" == c["pat"][1][1]: vars["self"] = 0
        if r.random() < .2:
            ws = {}
            for _ in range(r.choice([1, 1, 2])):
                w = P(r, []); w.names = [x for x in w.names if x not in ws and (x not in vars or r.random() < .3)]
                t = template(r, vars, 1)
                q = generalize(r, t, w) if r.random() < .7 else S(w.names.pop())
                if q[0] == "s" and not w.vars and q[1] not in ("_", "..."): w.vars.append((q[1], 0))
                c["with"].append([q, t]); ws.update(w.vars)
            vars = dict(vars, **ws)
            c["tmpl"] = template(r, vars, 2)
        clauses.append(c)
    m = dict(lits=lits, clauses=clauses, then=r.choice(["quote", "list"]))
    if r.random() < .8: clauses.append(dict(pat=S("_"), fender=["none"], tmpl=S("no-match"), **{"with": []}))
    return m

def generalize(r, t, w):
    """a pattern that what t makes may match"""
    if t[0] == "p":
        if t[2][0] == "p" and t[2][1] == DOTS: return lst([w.leaf(1) if r.random() < .9 else S("_"), DOTS], generalize(r, t[2][2], w) if t[2][2] != NIL else NIL)
        return ["p", generalize(r, t[1], w), generalize(r, t[2], w)]
    if t[0] == "s":
        w.lits = []
        if w.names: v = w.names.pop(); w.vars.append((v, 0)); return S(v)
        return S("_")
    return t


LISTIT = "(define-syntax list-it (syntax-rules () [(_ x ...) '(list x ...)] [(_ x ... . y) '(dot (x ...) y)]))\n"

def define(r, name, m):
    made = lambda t: "(list-it" + (")" if t == NIL else " . %s)" % text(t) if t[0] != "p" else " " + text(t)[1:]) if m.get("then") == "list" else "'" + text(t)
    sugar = all(c["fender"] == ["none"] and not c["with"] and c["pat"][0] == "p" and c["pat"][1] == S("_") for c in m["clauses"])
    if sugar and r.random() < .6:
        return "(define-syntax %s (syntax-rules (%s)\n%s))" % (name, " ".join(m["lits"]), "\n".join("  [%s %s]" % (text(["p", S(name), c["pat"][2]]), made(c["tmpl"])) for c in m["clauses"]))
    out = []
    for c in m["clauses"]:
        t = "#'" + made(c["tmpl"]) if r.random() < .5 else "(syntax %s)" % made(c["tmpl"])
        if c["with"]: t = "(with-syntax (%s) %s)" % (" ".join("[%s #'%s]" % (text(p), text(q)) for p, q in c["with"]), t)
        out.append("  [%s%s %s]" % (text(c["pat"]), "" if c["fender"] == ["none"] else " " + ftext(c["fender"]), t))
    return "(define-syntax (%s stx) (syntax-case stx (%s)\n%s))" % (name, " ".join(m["lits"]), "\n".join(out))


def rename(d, a, b):
    if d == S(a): return S(b)
    if d[0] == "p": return ["p", rename(d[1], a, b), rename(d[2], a, b)]
    if d[0] == "v": return ["v", [rename(x, a, b) for x in d[1]]]
    return d


def small(r):
    """all patterns of up to three parts"""
    parts = [["var"], S("_"), S("k0"), ["a", "1"], DOTS, ["l1"], ["l2"], ["ld"], ["v1"], NIL]
    forms = [S("u"), S("k0"), ["a", "1"], NIL, lst([S("u")]), lst([S("u"), S("k0")]), ["p", S("u"), ["a", "1"]], ["v", [S("u")]], ["v", []], lst([lst([S("u")])])]
    uses = [lst(list(xs), e) for k in range(4) for xs in itertools.product(forms, repeat=k) for e in ((NIL, S("u")) if k else (NIL,))]
    for k in range(4):
        for xs in itertools.product(parts, repeat=k):
            for e in ((NIL, ["var"]) if k else (NIL,)):
                names = list("cba" "fed" "ihg"); vs = []
                def var(d=0): vs.append((names.pop(), d)); return S(vs[-1][0])
                def part(x, d): return var(d) if x == ["var"] else lst([var(d)]) if x == ["l1"] else lst([var(d + 1), DOTS]) if x == ["l2"] else ["p", var(d), var(d)] if x == ["ld"] else ["v", [var(d)]] if x == ["v1"] else x
                items = [part(x, 1 if i + 1 < k and xs[i + 1] == DOTS else 0) for i, x in enumerate(xs)]
                pat = lst(items, var() if e == ["var"] else NIL)
                tmpl = lst([S("t")] + [y for v, d in vs for y in ([S(v)] if d == 0 else [S(v), DOTS] if d == 1 else [lst([S(v), DOTS]), DOTS])])
                m = dict(lits=["k0"], clauses=[{"pat": ["p", S("_"), pat], "fender": ["none"], "tmpl": tmpl, "with": []},
                                               {"pat": S("_"), "fender": ["none"], "tmpl": S("no-match"), "with": []}])
                yield m, uses


def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="base.min")
    r = c.rng
    for size, mv in ((2, 9),) if c.quick else ((2, 9), (3, 1)):
        if not os.environ.get("C18_GROUP"): c.mc(tlc_ok(c.work, "MacrosMC", "INIT Init0\nNEXT Next0\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Size = %d\n MaxVars = %d\n Start <- MStart\n Step <- MStep\n Chunk = 1\nINVARIANTS Declared\n" % (size, mv), files={"scripts.json": "[]"}, timeout=600))
    cases = []
    for _ in range(c.n(2500, 25000)):
        m = macro(r)
        fs = []
        for _ in range(6):
            cl = r.choice(m["clauses"])
            f = ["p", S("m"), instance(r, cl["pat"][2], m["lits"])] if cl["pat"][0] == "p" else ["p", S("m"), datum(r, 2)]
            fs.append(f)
        cases.append((m, fs))
    every = list(small(r))
    c.cov["small patterns"] = len(every)
    for m, uses in every if not c.quick else r.sample(every, 500):
        fs = []
        for _ in range(c.n(8, 40)):
            fs.append(["p", S("m"), r.choice(uses) if r.random() < .4 else instance(r, m["clauses"][0]["pat"][2], ["k0"], .12)])
        cases.append((m, fs))
    res = run_scripts(c, "Macros", "M", [dict(macro=m, then=m.get("then", "quote"), ops=[dict(f=f) for f in fs]) for m, fs in cases], chunk=1, inv=["MacrosOK"])
    head = lib.imp("base.min")
    tests, malformed, group = [], [], ["", "", 0]
    def flush():
        if group[0]: tests.append(dict(key="macros %d" % len(tests), text=head + LISTIT + group[0], out=group[1]))
        group[:] = ["", "", 0]
    errors = 0
    for (m, fs), rs in zip(cases, res):
        if rs[0][0] == "stop":
            c.add("macros: " + {"bad": "malformed", "open": "not specified"}[rs[0][1]])
            if rs[0][1] == "bad" and len(malformed) < c.n(400, 4000): malformed.append(define(r, "m", m))
            continue
        c.add("macros: well formed")
        name = "m%d" % group[2]
        d = define(r, name, m)
        t, out = d + "\n", ""
        for f, x in zip(fs, rs):
            if x[0] == "ok":
                use = text(["p", S(name), f[2]])
                t += r.choice(["(write %s) (newline)\n", "(let ([w 1]) (write %s) (newline))\n"]) % use
                out += text(rename_self(m, x, name)) + "\n"
                c.add("expansions"); c.add("matches of clause %d" % x[1] if x[2] not in (S("no-match"), lst([S("dot"), NIL, S("no-match")])) else "no match")
            else:
                c.add("uses rejected")
                if errors < c.n(300, 3000):
                    errors += 1
                    tests.append(dict(key="rejected %d" % errors, text=head + LISTIT + define(r, "m", m) + '\n(write (quote evaluated))\n(write %s)\n' % text(f), out="", status="exit 1"))
        group[0] += t; group[1] += out; group[2] += 1
        if group[2] == int(os.environ.get("C18_GROUP", "12")): flush()
    flush()
    c.sample(dict(program=tests[-1]["text"][:900], expected=tests[-1]["out"][:300]))
    errs = [t for t in tests if t.get("status")]
    compare(c, lib, [t for t in tests if not t.get("status")], timeout=60)
    errs += [dict(key="malformed macro %d" % i, text=head + LISTIT + "(write (quote evaluated))\n" + d + "\n") for i, d in enumerate(malformed)]
    for t, x in zip(errs, lib.run([t["text"] for t in errs], 60)):
        if x.kind == "skipped": continue
        seen = x.out + x.err
        if not (x.kind == "exit" and x.code == 1 and b"evaluated" not in seen and seen.strip()):
            c.violation(t["key"].rsplit(" ", 1)[0], "%s\n--- program\n%s\n--- expected: an error before anything is evaluated\n--- got (%s)\n%s" % (t["key"], t["text"], x.status, seen.decode("latin1")[-600:]))
        else: c.traced()
    c.assumptions = ["no pattern variable has the name of a library function or keyword the expansion uses (the expander is not hygienic)",
                     "pattern variables of one pattern differ; a variable under more ellipses than its depth has depth 0"]


def rename_self(m, x, name):
    """the form used m<i> instead of m as the macro's name"""
    return rename(x[2], "m", name)


if __name__ == "__main__":
    main("C18", "model_checking", check)
