"""C04: tail calls run in constant stack; deep recursion returns every frame intact."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L
from corelang import *

M = 10007
n_ = V("n")
n1 = app("-", V("n"), I(1))


def mod(e): return app("modulo", e, I(M))
def stop(base, e): return ["if", app("=", V("n"), I(0)), base, e]


# ---------------------------------------------------------------- loops in tail position

def loops():
    """(name, definitions, call of f on expression k, terms, c): f(k) computes R(k) with a loop."""
    # acc_{i} = (3*acc_{i-1} + i) : the loop counts up so that acc is R
    up = lambda a="acc": mod(app("+", app("*", I(3), V(a)), V("i")))
    i1 = app("+", V("i"), I(1))
    T = [[1, 0]]

    def simple(name, body):          # loop (i n acc), called with i = 1
        return name, [define("loop", lam(["i", "n", "acc"], body))], lambda k: app("loop", I(1), k, I(5)), T, 3
    done = app(">", V("i"), V("n"))
    go = app("loop", i1, n_, up())
    yield simple("if-else", ["if", done, V("acc"), go])
    yield simple("if-then", ["if", app("not", done), go, V("acc")])
    yield simple("if-nested", ["if", done, V("acc"), ["if", B(False), I(0), ["if", B(True), go, I(1)]]])
    yield simple("begin", seq(I(1), ["if", done, V("acc"), seq(app("void"), go)]))
    yield simple("let", ["if", done, V("acc"), letv([(["j", "a"], vals(i1, up()))], app("loop", V("j"), n_, V("a")))])
    yield simple("let-two", ["if", done, V("acc"), letv([(["j"], i1), (["a"], up())], app("void"), app("loop", V("j"), n_, V("a")))])
    yield simple("letrec", ["if", done, V("acc"), letrec([(["h"], lam([], V("i"))), (["j"], app("+", V("i"), I(1)))], app("loop", V("j"), n_, up()))])
    yield simple("cwv", ["if", done, V("acc"), ["cwv", lam([], vals(i1, up())), lam(["j", "a"], app("loop", V("j"), n_, V("a")))]])
    yield simple("cwv-loop", ["if", done, V("acc"), ["cwv", lam([], vals(i1, n_, up())), V("loop")]])
    yield simple("cwv-begin", ["if", done, V("acc"), ["cwv", lam([], app("void"), vals(i1, n_, up())), V("loop")]])
    yield simple("cwv-if", ["if", done, V("acc"), ["cwv", lam([], ["if", done, I(0), vals(i1, n_, up())]), V("loop")]])
    yield simple("cwv-first", ["if", done, V("acc"), app("apply", V("call-with-values"), app("list", lam([], vals(i1, n_, up())), V("loop")))])
    yield simple("cwv-rest", ["if", done, V("acc"), ["cwv", lam([], vals(i1, n_, up())), lam([], app("apply", V("loop"), V("r")), rest="r")]])
    yield simple("apply", ["if", done, V("acc"), app("apply", V("loop"), i1, app("list", n_, up()))])
    yield simple("apply2", ["if", done, V("acc"), app("apply", V("apply"), V("loop"), i1, app("list", n_, app("list", up())))])
    yield simple("immediate", ["if", done, V("acc"), app(lam(["j", "a"], app("loop", V("j"), n_, V("a"))), i1, up())])
    yield simple("immediate0", ["if", done, V("acc"), app(lam([], go))])
    yield simple("rest", ["if", done, V("acc"), app(lam(["j"], app("loop", V("j"), n_, app("car", V("r"))), rest="r"), i1, up())])
    yield simple("set", seq(["set", "acc", ["if", done, V("acc"), up()]], ["if", done, V("acc"), app("loop", i1, n_, V("acc"))]))
    yield simple("computed", ["if", done, V("acc"), ["app", ["if", B(True), V("loop"), V("list")], [i1, n_, up()]]])
    yield "case-lambda", [define("loop", ["cl", [[["i", "n"], "", [app("loop", V("i"), n_, I(5))]],
                                                  [["i", "n", "acc"], "", [["if", done, V("acc"), app("loop", i1, n_, up(), I(0))]]],
                                                  [["i", "n", "acc"], "r", [app("loop", V("i"), n_, V("acc"))]]]])], \
        lambda k: app("loop", I(1), k), T, 3
    yield "mutual", [define("even", lam(["i", "n", "acc"], ["if", done, V("acc"), app("odd", i1, n_, up())])),
                     define("odd", lam(["i", "n", "acc"], ["if", done, V("acc"), app("third", n_, i1, up())])),
                     define("third", lam(["n", "i", "acc"], app("even", V("i"), n_, V("acc"))))], lambda k: app("even", I(1), k, I(5)), T, 3
    yield "cps", [define("loop", lam(["i", "n", "acc", "k"], ["if", done, app("k", V("acc")), app("loop", i1, n_, up(), V("k"))]))], \
        lambda k: app("loop", I(1), k, I(5), lam(["v"], V("v"))), T, 3
    yield "closure", [define("start", lam(["n"], letrec([(["loop"], lam(["i", "acc"], ["if", done, V("acc"), app("loop", i1, up())]))], app("loop", I(1), I(5)))))], \
        lambda k: app("start", k), T, 3
    yield "trampoline", [define("loop", lam(["i", "n", "acc"], ["if", done, lam([], V("acc")), lam([], app("loop", i1, n_, up()))])),
                         define("run", lam(["t", "c"], ["if", app("=", V("c"), I(0)), app("t"), app("run", app("t"), app("-", V("c"), I(1)))]))], \
        lambda k: app("run", app("loop", I(1), k, I(5)), k), T, 3
    yield "values-result", [define("loop", lam(["i", "n", "acc"], ["if", done, vals(V("acc"), V("i")), go]))], \
        lambda k: letv([(["a", "j"], app("loop", I(1), k, I(5)))], V("a")), T, 3
    yield "wide", [define("loop", lam(["i", "n", "acc"] + ["w%d" % j for j in range(12)],
                                      ["if", done, V("acc"), ["app", V("loop"), [i1, n_, up()] + [V("w%d" % ((j + 1) % 12)) for j in range(12)]]]))], \
        lambda k: ["app", V("loop"), [I(1), k, I(5)] + [I(j) for j in range(12)]], T, 3


# ---------------------------------------------------------------- recursions with pending work

def mixer(k, hole):
    """Combine k arguments, the one at position hole being the recursive result (weight 3)."""
    xs = ["m%d" % j for j in range(k)]
    return lam(xs, mod(["app", V("+"), [app("*", I(3 if j == hole else j % 5 + 1), V(x)) for j, x in enumerate(xs)]])), \
        [3 if j == hole else j % 5 + 1 for j in range(k)]


def recursions(full):
    """Like loops(): f(k) computes R(k) by recursion with p values pending before the call and q after."""
    R = app("f", n1)

    def fam(name, p, q, make, extra=()):
        # pending terms: a*n + b with different a, b
        pre = [(j % 3 + 1, j) for j in range(p)]
        post = [(2, j + 1) for j in range(q)]
        mix, w = mixer(p + q + 1, p)
        te = lambda ab: app("+", app("*", I(ab[0]), n_), I(ab[1]))
        P, Q = [te(t) for t in pre], [te(t) for t in post]
        terms = [[w[j] * a, w[j] * b] for j, (a, b) in enumerate(pre)] + [[w[p + 1 + j] * a, w[p + 1 + j] * b] for j, (a, b) in enumerate(post)]
        return "%s-%d-%d" % (name, p, q), [define("mix", mix)] + list(extra) + [define("f", make(P, Q))], lambda k: app("f", k), terms, 3

    sizes = [(0, 1), (1, 0), (2, 1), (5, 1), (13, 0), (30, 1)] if not full else \
        [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 2), (4, 0), (5, 1), (6, 0), (7, 0), (8, 1), (13, 0), (21, 1), (30, 1), (45, 0), (61, 2)]
    b = I(5)
    for p, q in sizes:
        yield fam("arg", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("mix"), P + [R] + Q])))
    for p, q in (sizes[2:4] if not full else sizes[2:10]):
        yield fam("let", p, q, lambda P, Q: lam(["n"], stop(b, letv([(["u"], n_), (["r"], R), (["v"], app("+", n_, I(0)))],
                    app("list", V("u")), ["app", V("mix"), P + [V("r")] + Q]))))
        yield fam("producer", p, q, lambda P, Q: lam(["n"], stop(b, ["cwv", lam([], ["values", P + [R] + Q]), V("mix")])))
        yield fam("apply", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("apply"), [V("mix")] + P[:1] + [["app", V("list"), P[1:] + [R] + Q]]])))
        yield fam("multi", p, q, lambda P, Q: lam(["n"], letv([(["r", "m"], app("g", n_))], ["if", app("=", V("m"), n_), V("r"), S("lost")])),
                  [define("g", lam(["n"], stop(vals(b, I(0)), letv([(["u", "w"], vals(n_, I(1))), (["r", "m"], app("g", n1))],
                       ["if", app("=", app("+", V("m"), V("w")), V("u")),
                        vals(["app", V("mix"), [app("+", app("*", I(j % 3 + 1), n_), I(j)) for j in range(p)] + [V("r")]
                              + [app("+", app("*", I(2), n_), I(j + 1)) for j in range(q)]], V("u")), vals(S("lost"), S("lost"))]))))])
        yield fam("set", p, q, lambda P, Q: lam(["n"], stop(b, letv([(["r", "k"], vals(I(0), n_))], seq(["set", "r", R], ["set", "k", app("-", V("k"), n_)]),
                    ["app", V("mix"), P + [app("+", V("r"), V("k"))] + Q]))))
        yield fam("test", p, q, lambda P, Q: lam(["n"], letv([(["r"], I(0))], stop(b, ["if", seq(["set", "r", R], B(False)), I(0), ["app", V("mix"), P + [V("r")] + Q]]))))
        yield fam("rest", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("mix"), P + [app("f", n1, n_, n_, n_)] + Q]), rest="more"))
        yield fam("clauses", p, q, lambda P, Q: ["cl", [[["n"], "", [stop(b, app("f", n_, I(1)))]],
                    [["n", "x"], "", [stop(b, ["app", V("mix"), P + [app("f", n1, V("x"), I(0))] + Q])]],
                    [["n"], "r", [app("f", n_, app("car", V("r")))]]]])
        yield fam("map", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("mix"), P + [app("car", app("map", lam(["m"], app("f", V("m"))), app("list", n1)))] + Q])))
        yield fam("mutual", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("mix"), P + [app("g", n1)] + Q])),
                  [define("g", lam(["m"], letv([(["v"], app("f", V("m")))], app("list", V("m")), V("v"))))])
        # every level also makes calls that go down a little and come back
        yield fam("bounce", p, q, lambda P, Q: lam(["n"], stop(b, ["app", V("mix"), [app("leaf", I(4), x) for x in P] + [R] + [app("leaf", I(2), x) for x in Q]])),
                  [define("leaf", lam(["d", "x"], ["if", app("=", V("d"), I(0)), V("x"),
                                                   app("-", app("+", I(1), app("leaf", app("-", V("d"), I(1)), V("x")), I(0)), I(1))]))])


def fams(full):
    fs = []
    for kind, gen in (("loop", loops()), ("rec", recursions(full))):
        for name, defs, call, terms, c in gen:
            small = [0, 1, 2, 3, 6] if not full else [0, 1, 2, 3, 7, 12]
            forms = defs + [app("out", call(I(k))) for k in small]
            fs.append(dict(name=kind + "-" + name, tail=kind == "loop", defs=defs, call=call, small=small, terms=terms, c=c, m=M, base=5,
                           prog=L.model(forms)))
    return fs


def frame(p):
    """Definitions that call a procedure below a frame of p pending words."""
    return define("below%d" % p, lam(["t"], ["app", V("list"), [I(j) for j in range(p)] + [app("t")] + [I(77)]]))


def check(c):
    b = Build(c.work)
    r = Runner(b)
    fs = fams(not c.quick)
    enc = lambda pts: json.dumps([{k: v for k, v in dict(f, points=p).items() if k not in ("defs", "call", "name")} for f, p in zip(fs, pts)])
    conf = "INIT Init\nNEXT Next\nCONSTANTS Mode = \"%s\" Chunk = %d Bound = 12\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    # the segmented stack refines the unbounded one
    c.mc(tlc_ok(c.work, "Stack", "INIT Init\nNEXT Next\nCONSTANTS SegSize = 9 Slop = 3 MaxDepth = %d MaxArgs = 3 MaxWords = %d\nINVARIANTS InBounds Intact\n"
                "CONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n" % (c.n(3, 5), c.n(8, 12)), timeout=700))
    # small n on the machine: the recurrence is what the programs compute, and loops keep their continuation short
    pts0 = [[1]] * len(fs)
    c.mc(tlc_ok(c.work, "Deep", conf % ("machine", 1, "Agree TailDepth"), files={"fams.json": enc(pts0)}))
    # values for large n
    pts = []
    for f in fs:
        if f["tail"]:
            pts.append([20000, c.n(150000, 2000000)])
        else:
            p = int(f["name"].split("-")[-2])
            edge = (65520 - 1024) // 8 // (p + 1)
            top = c.n(9000, 60000)
            ps = {top} | ({edge + d for d in range(-4, 5)} if p >= 4 or not c.quick else {edge, edge - 2})
            pts.append(sorted(x for x in ps if x <= 60000))
    t = tlc_ok(c.work, "Deep", conf % ("recur", 1, "Report Doubling"), files={"fams.json": enc([p + list(range(0, 70, 7)) for p in pts])})
    c.mc(t)
    val = {(j["f"] - 1, j["n"]): j["r"] for j in t.json()}
    # loops: one run per size, comparing memory; recursions
    lo, hi, ts = [], [], []
    for i, f in enumerate(fs):
        pre = L.PRELUDE + "".join(L.text(d) + "\n" for d in f["defs"])
        if f["tail"]:
            for k, dst in zip(pts[i], (lo, hi)):
                dst.append(dict(key=f["name"], text=pre + L.text(app("out", f["call"](I(k)))), out="%d\n" % val[i, k]))
        else:
            ts.append(dict(key=f["name"], text=pre + "".join(L.text(app("out", f["call"](I(k)))) + "\n" for k in pts[i] + [0, 5]),
                           out="".join("%d\n" % val[i, k] for k in pts[i]) + "5\n%s\n" % small(f, 5)))
            # the same recursion below frames of every size: every alignment with the segment boundary
            if f["name"].startswith(("rec-arg", "rec-bounce", "rec-producer")):
                top = pts[i][0]
                body, exp = "", ""
                for ph in range(0, 9) if not c.quick else (1, 2, 5):
                    body += L.text(frame(ph)) + "\n" + L.text(app("out", app("below%d" % ph, lam([], f["call"](I(top)))))) + "\n"
                    exp += show([*range(ph), val[i, top], 77]) + "\n"
                ts.append(dict(key=f["name"] + "-below", text=pre + body, out=exp))
    c.sample(dict(family=ts[0]["key"], program=ts[0]["text"][len(L.PRELUDE):][:500], expected=ts[0]["out"]))
    both = r.run([x["text"] for x in hi + lo], 60)
    compare(c, r, hi + lo, timeout=60, res=both)
    for x, a, z in zip(hi, both[len(hi):], both):
        if z.rss > a.rss + 24 * 1024:
            again = r.run([x["text"]], 60)[0]
            if again.rss > a.rss + 24 * 1024:
                c.violation(x["key"], "loop does not run in constant space: %d KB for %d iterations, %d KB for %d\n%s" %
                            (a.rss, 20000, again.rss, c.n(150000, 2000000), x["text"]))
    compare(c, r, ts, timeout=60)
    c.add("loops", len(hi)); c.add("recursions", len(ts))
    c.assumptions = ["a pending frame takes at least 150 bytes, so a loop that is not constant in space grows by more than 24 MB"]


def small(f, k):
    v = f["base"]
    for i in range(1, k + 1):
        v = (sum(a * i + b for a, b in f["terms"]) + f["c"] * v) % M
    return v


def show(xs):
    def sh(xs, d):
        if d == 0: return "~"
        if not xs: return "()"
        return "(%s . %s)" % (xs[0] if d > 1 else "~", sh(xs[1:], d - 1))
    return sh(xs, 8)


if __name__ == "__main__":
    main("C04", "model_checking", check)
