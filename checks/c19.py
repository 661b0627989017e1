"""C19: derived forms evaluate each part at most once, in order, with the right scope."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

QUOTES = ["'sym", '"str"', "#\\c", "'(1 2)", "'()"]
LITS = ["sym", '"str"', "#\\c", "(1 2)", "()"]
NAMES = ["x", "y", "z", "tmp", "loop", "or-t", "e", "t", "v", "k", "arg", "rslt", "i", "acc", "case-t", "do-loop", "pre", "es", "xs", "self", "id", "fn", "a", "b"]
PRE = '''(define-values (say) (lambda (l v) (begin (write l) (write-char #\\space) (write (if (procedure? v) 'procedure (if (void? v) 'void v))) (newline) v)))
(define-values (num) (lambda (v) (if (fixnum? v) v 0)))
(define-values (plus) (lambda (p q) (+ (num p) (num q))))
(define-values (less) (lambda (p q) (< (num p) (num q))))
(define-values (same) (lambda (p q) (if (procedure? p) #f (equal? p q))))
(define-values (ignore) (lambda (p) (void)))
'''


def lit(l): return LITS[l[1] - 1] if l[0] == "q" else str(l[1]) if l[0] == "n" else "#t" if l[1] else "#f"


def body(items): return " ".join(item(i) for i in items)


def item(i):
    if i[0] == "def": return "(define %s %s)" % (i[1], text(i[2]))
    if i[0] == "defn": return "(define (%s) %s)" % (" ".join([i[1]] + i[2]), body(i[3]))
    return text(i)


def binds(bs): return "(%s)" % " ".join("[%s]" % " ".join([b[0]] + [text(x) for x in b[1:]]) for b in bs)


def text(e):
    k = e[0]
    if k == "n": return str(e[1])
    if k == "b": return "#t" if e[1] else "#f"
    if k == "q": return QUOTES[e[1] - 1]
    if k == "v": return e[1]
    if k == "say": return "(say %d %s)" % (e[1], text(e[2]))
    if k == "set": return "(set! %s %s)" % (e[1], text(e[2]))
    if k in ("plus", "less", "same"): return "(%s %s %s)" % (k, text(e[1]), text(e[2]))
    if k == "lam": return "(lambda (%s) %s)" % (" ".join(e[1]), body(e[2]))
    if k == "app": return "(%s)" % " ".join([text(e[1])] + [text(x) for x in e[2]])
    if k == "if": return "(if %s %s %s)" % tuple(map(text, e[1:]))
    if k in ("begin", "and", "or"): return "(%s)" % " ".join([k] + [text(x) for x in e[1]])
    if k in ("let", "let*", "letrec"): return "(%s %s %s)" % (k, binds(e[1]), body(e[2]))
    if k == "nlet": return "(let %s %s %s)" % (e[1], binds(e[2]), body(e[3]))
    if k == "cond": return "(%s)" % " ".join(["cond"] + ["[%s %s]" % ("else" if c[0][0] == "else" else text(c[0]), body(c[1])) for c in e[1]])
    if k == "case": return "(%s)" % " ".join(["case", text(e[1])] + ["[(%s) %s]" % (" ".join(map(lit, c[0])), body(c[1])) for c in e[2]] + (["[else %s]" % body(e[3])] if e[3] else []))
    if k in ("when", "unless"): return "(%s %s %s)" % (k, text(e[1]), body(e[2]))
    if k == "do": return "(do %s (%s) %s)" % (binds(e[1]), " ".join(map(text, [e[2]] + e[3])), " ".join(map(text, e[4])))
    raise Exception(e)


class G:
    """random programs; scope maps names to None (a value) or the arity of a procedure"""
    def __init__(self, r):
        self.r, self.n = r, 0

    def say(self, e): self.n += 1; return ["say", self.n, e]

    def const(self):
        k = self.r.choice("nnbbq")
        return ["n", self.r.randint(-2, 4)] if k == "n" else ["b", self.r.randint(0, 1)] if k == "b" else ["q", self.r.randint(1, 5)]

    def var(self, sc):
        vs = [x for x in sc]
        return ["v", self.r.choice(vs)] if vs else self.const()

    def leaf(self, sc):
        e = self.var(sc) if self.r.random() < .55 else self.const()
        return self.say(e) if self.r.random() < .6 else e

    def names(self, n): return self.r.sample(NAMES, n)

    def items(self, sc, d, extra=()):
        """a body; extra: items before it"""
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3, 4]) if d > 0 else 1
        kinds = [r.choice(["def", "defn", "ex", "ex"]) for _ in range(n - 1)] + ["ex"]
        names = self.names(sum(k != "ex" for k in kinds))
        sc = {x: a for x, a in sc.items() if x not in names}
        out = []
        for k in kinds:
            if k == "ex": out.append(self.ex(sc, d - 1))
            elif k == "def":
                x = names.pop(); out.append(["def", x, self.ex(sc, d - 1)]); sc = dict(sc, **{x: None})
            else:
                x = names.pop(); ps = self.names(r.choice([0, 1, 1, 2]))
                inner = dict({y: a for y, a in sc.items() if y != x}, **{p: None for p in ps})
                out.append(["defn", x, ps, self.items(inner, d - 1)]); sc = dict(sc, **{x: len(ps)})
        return out

    def ex(self, sc, d):
        r = self.r
        if d <= 0: return self.leaf(sc)
        E = lambda s=sc: self.ex(s, d - 1)
        k = r.choice(["leaf", "say", "set", "plus", "less", "same", "app", "app", "if", "begin", "let", "let", "let*", "let*", "letrec", "nlet", "cond", "cond", "case", "case", "and", "or", "or", "when", "unless", "do", "lam"])
        if k == "leaf": return self.leaf(sc)
        if k == "say": return self.say(E())
        if k == "set":
            vs = [x for x, a in sc.items() if a is None]
            return ["set", r.choice(vs), E()] if vs else self.leaf(sc)
        if k in ("plus", "less", "same"): return [k, E(), E()]
        if k == "app":
            fs = [(x, a) for x, a in sc.items() if isinstance(a, int)]
            if fs and r.random() < .7: x, a = r.choice(fs); return ["app", ["v", x], [E() for _ in range(a)]]
            ps = self.names(r.choice([0, 1, 2]))
            return ["app", ["lam", ps, self.items(dict(sc, **{p: None for p in ps}), d - 1)], [E() for _ in ps]]
        if k == "lam":
            ps = self.names(r.choice([0, 1, 2]))
            return ["lam", ps, self.items(dict(sc, **{p: None for p in ps}), d - 2)]
        if k == "if": return ["if", E(), E(), E()]
        if k == "begin": return ["begin", [E() for _ in range(r.choice([1, 2, 3]))]]
        if k in ("and", "or"): return [k, [E() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]]
        if k == "let":
            xs = self.names(r.choice([0, 1, 2, 3]))
            bs, inner = [], dict(sc)
            for x in xs:
                if r.random() < .2:
                    ps = self.names(r.choice([0, 1])); bs.append([x, ["lam", ps, self.items(dict(sc, **{p: None for p in ps}), d - 2)]]); inner[x] = len(ps)
                else: bs.append([x, E()]); inner[x] = None
            return ["let", bs, self.items(inner, d - 1)]
        if k == "let*":
            bs, inner = [], dict(sc)
            for _ in range(r.choice([0, 1, 2, 3])):
                x = r.choice(NAMES[:6]); bs.append([x, E(inner)]); inner[x] = None
            return ["let*", bs, self.items(inner, d - 1)]
        if k == "letrec":
            if r.random() < .5:      # two procedures that count down together
                f, g, n = self.names(3)
                inner = {x: a for x, a in sc.items() if x not in (f, g)}
                bind = lambda me, other: [me, ["lam", [n], [["cond", [[["less", ["v", n], ["n", 1]], [self.ex(dict(inner, **{n: None}), d - 2)]], [["else"], [self.say(["v", n]), ["app", ["v", other], [["plus", ["v", n], ["n", -1]]]]]]]]]]]
                return ["letrec", [bind(f, g), bind(g, f)], [["app", ["v", f], [["n", r.randint(0, 4)]]]]]
            xs = self.names(r.choice([1, 2]))
            inner = {x: a for x, a in sc.items() if x not in xs}
            bs, after = [], dict(inner)
            for x in xs:
                ps = self.names(r.choice([0, 1])); bs.append([x, ["lam", ps, self.items(dict(inner, **{p: None for p in ps}), d - 2)]]); after[x] = len(ps)
            return ["letrec", bs, self.items(after, d - 1)]
        if k == "nlet":
            f, i, a = self.names(3)
            bs = [[i, ["n", r.randint(0, 4)]], [a, E()]]
            inner = dict({x: y for x, y in sc.items() if x != f}, **{a: None})
            ro = dict({x: y for x, y in inner.items() if x != i})
            step = ["app", ["v", f], [["plus", ["v", i], ["n", -1]], self.ex(ro, d - 2)]]
            done = ["less", ["v", i], ["n", 1]]
            b = r.choice([lambda: [["if", done, self.ex(inner, d - 2), step]],
                          lambda: [["cond", [[done, self.items(ro, d - 2)], [["else"], [self.say(["v", i]), step]]]]],
                          lambda: [["or", [["and", [done, self.ex(ro, d - 2)]], ["and", [["less", ["n", 0], ["v", i]], step]]]]],
                          lambda: [["unless", done, [self.ex(ro, d - 2), step]]]])()
            return ["nlet", f, bs, b]
        if k == "cond":
            cs = [[E(), self.items(sc, d - 1)] for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if r.random() < .6: cs.append([["else"], self.items(sc, d - 1)])
            return ["cond", cs]
        if k == "case":
            cs = [[[self.const() for _ in range(r.choice([0, 1, 2, 3]))], self.items(sc, d - 1)] for _ in range(r.choice([0, 1, 2, 3]))]
            return ["case", E(), cs, self.items(sc, d - 1) if r.random() < .6 else []]
        if k in ("when", "unless"): return [k, E(), self.items(sc, d - 1)]
        if k == "do":
            i, a = self.names(2)
            inner = dict(sc, **{a: None}); inner.pop(i, None)
            bs = [[i, ["n", 0], ["plus", ["v", i], ["n", 1]]]]
            if r.random() < .6: bs.insert(r.randint(0, 1), [a, E({x: y for x, y in sc.items() if x != i}), self.ex(inner, d - 2)])
            else: inner = {x: y for x, y in inner.items() if x != a}
            return ["do", bs, ["less", ["n", r.randint(0, 3)], ["v", i]], [self.ex(inner, d - 2) for _ in range(r.choice([0, 1, 2]))], [self.ex(inner, d - 2) for _ in range(r.choice([0, 1, 1, 2]))]]

    def program(self):
        r = self.r
        sc, items, defined = {}, [], []
        names = r.sample(NAMES, 8)
        for _ in range(r.randint(2, 6)):
            k = r.choice(["def", "defn", "ex", "ex", "ex"])
            vis = {x: a for x, a in sc.items()}
            d = r.choice([1, 2, 3, 3, 4])
            if k == "def": x = names.pop(); items.append(["def", x, self.ex(vis, d)]); sc[x] = None; defined.append(x)
            elif k == "defn":
                x = names.pop(); ps = self.names(r.choice([0, 1, 2]))
                inner = dict(vis, **{p: None for p in ps})
                items.append(["defn", x, ps, self.items(inner, d)]); sc[x] = len(ps); defined.append(x)
            else: items.append(self.say(self.ex(vis, d)))
        items += [self.say(["v", x]) for x, a in sc.items() if a is None]
        return items, defined


def top(r, i):
    """an expression at the top of a module, as such or inside a form that passes it on"""
    t = "(ignore %s)" % text(i)
    return r.choice(["%s", "%s", "(begin %s)", "(let () %s)", "(when #t %s)", "(cond [#f 1] [else %s])", "(case 1 [(1) %s])", "(and #t %s)", "(begin (begin) %s)"]) % t


def pairs():
    """every derived form inside every part of every derived form, with every choice of truth values"""
    n = [0]
    def say(e): n[0] += 1; return ["say", n[0], e]
    F, T = ["b", 0], ["n", 1]
    # name, number of parts, builder
    forms = [
        ("and", 3, lambda p: ["and", p]), ("or", 3, lambda p: ["or", p]), ("when", 2, lambda p: ["when", p[0], [p[1]]]), ("unless", 2, lambda p: ["unless", p[0], [p[1]]]),
        ("cond", 4, lambda p: ["cond", [[p[0], [p[1]]], [p[2], [p[3]]]]]), ("cond else", 4, lambda p: ["cond", [[p[0], [p[1]]], [["else"], [p[2], p[3]]]]]),
        ("case", 3, lambda p: ["case", p[0], [[[["n", 1], ["q", 2]], [p[1]]], [[["b", 0]], [p[2]]]], []]), ("case else", 3, lambda p: ["case", p[0], [[[["n", 1]], [p[1]]]], [p[2]]]),
        ("let", 3, lambda p: ["let", [["x", p[0]], ["y", p[1]]], [say(["v", "x"]), p[2]]]), ("let*", 3, lambda p: ["let*", [["x", p[0]], ["x", p[1]]], [say(["v", "x"]), p[2]]]),
        ("letrec", 2, lambda p: ["letrec", [["f", ["lam", ["x"], [p[0], ["v", "x"]]]]], [["app", ["v", "f"], [p[1]]]]]),
        ("nlet", 3, lambda p: ["nlet", "f", [["x", p[0]], ["i", ["n", 1]]], [["if", ["less", ["v", "i"], ["n", 0]], p[1], ["app", ["v", "f"], [p[2], ["plus", ["v", "i"], ["n", -1]]]]]]]),
        ("do", 4, lambda p: ["do", [["x", p[0], p[1]], ["i", ["n", 0], ["plus", ["v", "i"], ["n", 1]]]], ["less", ["n", 0], ["v", "i"]], [p[2]], [p[3]]]),
        ("body", 3, lambda p: ["let", [], [["def", "x", p[0]], p[1], ["defn", "f", ["y"], [["v", "x"]]], ["app", ["v", "f"], [p[2]]]]]),
        ("begin", 2, lambda p: ["begin", p]), ("set", 1, lambda p: ["let", [["x", ["n", 5]]], [["set", "x", p[0]], ["v", "x"]]]), ("lambda", 2, lambda p: ["app", ["lam", ["x"], [p[0], ["v", "x"]]], [p[1]]]),
    ]
    for g, gn, gb in forms:
        for hole in range(gn):
            for f, fn, fb in forms:
                for vals in itertools.product([F, T], repeat=min(gn - 1, 2)):
                    for fvals in itertools.product([F, T], repeat=min(fn, 2)):
                        fill = lambda vs, m: [say(vs[i % len(vs)] if vs else T) for i in range(m)]
                        parts = fill(vals, gn)
                        parts[hole] = fb(fill(fvals, fn))
                        yield say(gb(parts))
    # forms without parts and with one
    for e in (["and", []], ["or", []], ["cond", []], ["let", [], [["n", 1]]], ["let*", [], [["n", 1]]], ["letrec", [], [["n", 1]]], ["case", ["n", 1], [], []]): yield say(e)
    for v in (F, T):
        for e in (["and", [say(v)]], ["or", [say(v)]], ["cond", [[say(v), [say(T)]]]], ["case", say(v), [], [say(F)]], ["case", say(v), [], []]): yield say(e)


def datum(t):
    """the data of a program text"""
    toks = re.findall(r'"[^"]*"|#\\\\.|[()\[\]\']|[^\s()\[\]\']+', t)
    pos = 0
    def read():
        nonlocal pos
        x = toks[pos]; pos += 1
        if x in "([":
            xs = []
            while toks[pos] not in ")]": xs.append(read())
            pos += 1
            return ["l", xs]
        if x == "'": return ["l", [["s", "quote"], read()]]
        return ["a", x] if re.match(r'[-0-9"#]', x) and x != "-" else ["s", x]
    return read()


def written(d):
    if d[0] in "sa": return d[1]
    if d[0] == "l": return "(%s)" % " ".join(map(written, d[1]))
    return "(%s . %s )" % (" ".join(map(written, d[1])), written(d[2]))


def mutate(r, d):
    """one change at a random place of the tree"""
    places = []
    def walk(x, path):
        places.append(path)
        if x[0] == "l":
            if x[1] and x[1][0] == ["s", "quote"]: return
            for i, y in enumerate(x[1]): walk(y, path + [i])
    walk(d, [])
    d = json.loads(json.dumps(d))
    path = r.choice(places)
    up, x = None, d
    for i in path: up, x = x, x[1][i]
    def put(y):
        if up is None: return y
        up[1][path[-1]] = y
        return d
    k = r.choice(["drop", "drop", "cut", "dot", "atom", "symbol", "wrap", "empty", "twice", "swap", "splice"])
    if k == "drop":
        if up is None: return d
        del up[1][path[-1]]
    elif k == "cut" and x[0] == "l" and x[1]: return put(["l", x[1][:r.randrange(len(x[1]))]])
    elif k == "dot" and x[0] == "l" and len(x[1]) > 1: return put(["d", x[1][:-1], x[1][-1]] if x[1][-1][0] != "l" else ["d", x[1], ["a", "1"]])
    elif k == "atom": return put(["a", r.choice(["1", "#t", '"s"'])])
    elif k == "symbol": return put(["s", r.choice(["say", "else", "ignore"])])
    elif k == "wrap": return put(["l", [x]])
    elif k == "empty": return put(["l", []])
    elif k == "twice" and up is not None: up[1].insert(path[-1], x)
    elif k == "swap" and up is not None and len(up[1]) > path[-1] + 1: up[1][path[-1]], up[1][path[-1] + 1] = up[1][path[-1] + 1], up[1][path[-1]]
    elif k == "splice" and up is not None and x[0] == "l": up[1][path[-1]:path[-1] + 1] = x[1]
    return d


def malformed(c, lib, head, tests):
    r = c.rng
    cases = []
    while len(cases) < c.n(4000, 40000):
        g = G(r)
        e = g.ex({}, r.choice([1, 2, 2, 3]))
        t = datum(item(e))
        if r.random() < .15: t = ["l", [["s", "define"], ["s", "q0"], t]] if r.random() < .5 else ["l", [["s", "define"], ["l", [["s", "q0"], ["s", "x"]]], t]]
        if t[0] != "l": continue
        cases.append(mutate(r, t))
    res = run_scripts(c, "Grammar", "G", [dict(ops=[dict(d=d)]) for d in cases], chunk=1)
    good = run_scripts(c, "Grammar", "G", [dict(ops=[dict(d=datum(text(e)))]) for e in pairs()], chunk=1)      # no alarm on the forms themselves
    assert all(x[0][0] == "ok" for x in good), next(x for x in zip(pairs(), good) if x[1][0][0] != "ok")
    n = 0
    for d, x in zip(cases, res):
        c.add("changed forms: " + {"ok": "well formed", "bad": "malformed", "open": "not specified"}[x[0][0]])
        if x[0][0] == "bad" and n < c.n(1200, 12000):
            n += 1
            where = r.choice(["%s", "%s", "(define (f0 %%s) %s)" % "x", "(let ([w 1]) (ignore w) %s)", "(define g0 (lambda (w) (if w %s 1)))"])
            if "f0" in where: where = "(define (f0 w) (say 0 w) %s)"
            if d[1][:1] == [["s", "define"]]: where = "%s"
            t = head + PRE + '(say 1 "evaluated")\n' + where.replace("%s", written(d)) + "\n(say 2 2)\n"
            tests.append(dict(key="malformed %d: %s" % (n, written(d)), text=t))


def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="base.min")
    r = c.rng
    progs = []
    for _ in range(c.n(900, 12000)):
        items, defined = G(r).program()
        progs.append((items, defined))
    every = list(pairs())
    c.cov["pairs of forms"] = len(every)
    if c.quick: every = r.sample(every, 2500)
    progs += [(every[i:i + 12], []) for i in range(0, len(every), 12)]
    scripts = [dict(defined=d, ops=[dict(item=i) for i in its]) for its, d in progs]
    res = run_scripts(c, "Derived", "D", scripts, chunk=1)
    head = lib.imp("base.min")
    tests = []
    for n, ((its, d), rs) in enumerate(zip(progs, res)):
        if rs[-1][0] == "stop": c.add("programs left out: out of fuel"); continue
        t, exp = head + PRE, ""
        for i, x in zip(its, rs):
            t += (item(i) if i[0] in ("def", "defn") else top(r, i)) + "\n"
            for l, v in x[1]: exp += "%d %s\n" % (l, "procedure" if v[0] == "c" else "void" if v[0] == "u" else lit(v))
        tests.append(dict(key="program %d" % n, text=t, out=exp))
        c.add("programs"); c.add("evaluations observed", exp.count("\n"))
        if n in (3, 1000): c.sample(dict(program=t[len(PRE):][:800], expected=exp[:300]))
    compare(c, lib, tests, timeout=60)
    bad = []
    malformed(c, lib, head, bad)
    for t, x in zip(bad, lib.run([t["text"] for t in bad], 60)):
        if x.kind == "skipped": continue
        seen = x.out + x.err
        if not (x.kind == "exit" and x.code == 1 and b"evaluated" not in seen and seen.strip() and b"contract violation" not in seen):
            c.violation("malformed", "%s\n--- program\n%s\n--- expected: a syntax error before anything is evaluated\n--- got (%s)\n%s" % (t["key"], t["text"], x.status, seen.decode("latin1")[-600:]))
        else: c.traced()
    c.assumptions = ["keywords of the derived forms are not rebound", "a name defined in a body is not used in it before its definition"]


if __name__ == "__main__":
    main("C19", "model_checking", check)
