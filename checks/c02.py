"""C02: multiple values arrive complete, in order, and only where accepted."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L
from corelang import *


def producers(n):
    """Expressions delivering the values 1..n in every shape."""
    es = [I(i + 1) for i in range(n)]
    o = lambda e: app("out", e)
    yield "values", vals(*es)
    yield "traced", vals(*[o(e) for e in es])
    yield "begin", seq(o(S("b")), vals(*es))
    yield "if", ["if", V("t"), vals(*es), vals(I(0))]
    yield "if2", ["if", V("t"), ["if", app("not", V("t")), I(0), vals(*es)], I(0)]
    yield "call", app(lam([], vals(*es)))
    yield "call1", app(lam(["u"], vals(*es)), o(I(0)))
    yield "var", app("pr")
    yield "apply", app("apply", V("values"), app("list", *es))
    yield "let", letv([(["u"], I(3))], vals(*es))
    yield "let2", letv([(["u", "w"], vals(I(3), I(4)))], o(V("w")), vals(*es))
    yield "letrec", letrec([(["f"], lam([], vals(*es)))], app("f"))
    yield "cwv", ["cwv", lam([], vals(*es)), lam([], app("apply", V("values"), V("r")), rest="r")]
    yield "cwv-first", ["cwv", lam([], vals(*es)), V("values")]
    yield "cl", app(["cl", [[["u"], "", [I(0)]], [[], "", [vals(*es)]]]])
    if n:
        yield "nested", vals(*[vals(e) for e in es])
        yield "nested-lets", vals(*[letv([(["u"], e)], V("u")) for e in es])
        yield "nested-calls", vals(*[app("+", e, I(0)) for e in es])
    if n == 1:
        yield "plain", I(1)
        yield "quote", S("one")
        yield "lambda", lam([], I(1))
        yield "set", ["set", "gg", I(4)]


def receivers():
    """Contexts accepting m values (None: any number) and showing them."""
    o = lambda e: app("out", e)
    N = ["a", "b", "c", "d", "e"]
    for m in range(4):
        xs = N[:m]
        show = o(app("list", *map(V, xs)))
        yield "let%d" % m, m, lambda p, xs=xs, s=show: letv([(xs, p)], s, I(9))
        yield "let%d-second" % m, m, lambda p, xs=xs, s=show: letv([(["x"], o(I(5))), (xs, p), (["y"], o(I(6)))], s, o(app("list", V("x"), V("y"))))
        yield "let%d-first" % m, m, lambda p, xs=xs, s=show: letv([(xs, p), (["x", "y"], vals(I(5), I(6)))], s, o(app("list", V("x"), V("y"))))
        yield "letrec%d" % m, m, lambda p, xs=xs, s=show: letrec([(["f"], lam([], app("list", *map(V, xs)))), (xs, p)], s, o(app("f")))
        yield "cwv%d" % m, m, lambda p, xs=xs, s=show: ["cwv", lam([], p), lam(xs, s, I(9))]
        yield "cwv%d-seq" % m, m, lambda p, xs=xs, s=show: ["cwv", lam([], o(S("p")), p), lam(xs, s)]
        yield "cwv%d-var" % m, m, lambda p, xs=xs, s=show: letv([(["f"], lam(xs, s))], ["cwv", lam([], p), V("f")])
        yield "cwv%d-first" % m, m, lambda p, xs=xs, s=show: letv([(["f"], lam(xs, s))], app("apply", V("call-with-values"), app("list", lam([], p), V("f"))))
        yield "cwv%d-cl" % m, m, lambda p, xs=xs, s=show: ["cwv", lam([], p), ["cl", [[N[:m + 1], "q", [o(S("more"))]], [xs, "", [s]]]]]
    for m in range(3):
        yield "cwv%d+" % m, None, lambda p, m=m: ["cwv", lam([], p), lam(N[:m], o(app("list", *map(V, N[:m]))), o(V("r")), rest="r")]
    yield "discard", None, lambda p: seq(p, o(S("ok")))
    yield "discard-body", None, lambda p: app(lam(["u"], p, o(V("u"))), I(4))
    yield "nested", None, lambda p: letv([(["u"], seq(p, I(3))), (["v"], seq(I(1), p, I(4)))], o(app("list", V("u"), V("v"))))
    yield "pass-through", None, lambda p: ["cwv", lam([], ["cwv", lam([], p), V("values")]), lam([], o(V("r")), rest="r")]


def wrong():
    """Contexts needing exactly one value."""
    o = lambda e: app("out", e)
    yield lambda p: ["if", p, o(I(1)), o(I(2))]
    yield lambda p: ["set", "gg", p]
    yield lambda p: o(app("list", I(0), p, I(2)))
    yield lambda p: o(app("+", p, I(2)))
    yield lambda p: ["app", p, [I(1)]]
    yield lambda p: vals(I(1), p)
    yield lambda p: app("apply", V("list"), p)
    yield lambda p: letv([(["u"], vals(p))], o(I(1)))
    yield lambda p: app(lam(["u"], o(I(1))), p)
    yield lambda p: app(lam(["u", "v"], o(I(1))), I(1), p)
    yield lambda p: ["cwv", lam([], vals(I(1), p)), lam([], o(I(1)), rest="r")]
    yield lambda p: app("map", lam(["u"], p), app("list", I(1), I(2)))


def contexts():
    ident = lambda e: e
    yield "top", lambda e: [e]
    yield "proc", lambda e: [define("f", lam(["x"], e)), app("f", I(1)), app("f", I(1))]
    yield "nontail", lambda e: [define("f", lam(["x"], e, app("out", V("x")), V("x"))), app("out", app("+", app("f", I(1)), I(2)))]
    yield "arg", lambda e: [define("f", lam(["x"], app("list", V("x"), e, V("x")))), app("out", app("f", I(1)))]
    yield "init", lambda e: [define("f", lam(["x"], letv([(["k"], e)], app("out", app("list", V("k"), V("x")))))), app("f", I(1))]


def systematic(c, full):
    ps = []
    i = 0
    for n in range(4):
        pre = [define("t", B(True)), define("gg", I(0)), define("pr", lam([], vals(*[I(j + 1) for j in range(n)])))]
        for pn, p in producers(n):
            for rn, m, rc in receivers():
                for cn, cx in contexts():
                    i += 1
                    if full or i % 4 == 0 or (m is not None and m != n and i % 4 == 1):
                        ps.append(pre + cx(rc(p)) + [app("out", S("end"))])
            for w in wrong():
                for cn, cx in contexts():
                    i += 1
                    if full or i % 4 == 0: ps.append(pre + cx(w(p)) + [app("out", S("end"))])
            for m in range(4):
                xs = ["a", "b", "c"][:m]
                ps.append(pre + [["def", xs, p], app("out", app("list", *map(V, xs))), define("k", lam([], app("list", *map(V, xs))))]
                          + ([["def", xs, p], ["set", xs[0], I(7)], app("out", app("k"))] if m else []))
    return ps


def big(c):
    """Many values at once: across the stack cushion and stack segments."""
    ps = []
    for n in c.n([7, 8, 20, 150], [6, 7, 8, 9, 15, 16, 17, 20, 63, 64, 65, 130, 190]):
        es = [I(j) for j in range(n)]
        xs = ["v%d" % j for j in range(n)]
        tot = app("out", app("list", V(xs[0]), V(xs[-1]), V(xs[n // 2])))
        sum_ = app("out", app("+", *map(V, xs)))
        ps += [[letv([(xs, vals(*es))], tot, sum_)],
               [["cwv", lam([], vals(*es)), lam(xs, tot, sum_)]],
               [["cwv", lam([], vals(*es)), lam(xs[:2], app("out", app("length", V("r"))), app("out", app("apply", V("+"), V("r"))), rest="r")]],
               [["def", xs, vals(*es)], tot, sum_],
               [letrec([(["f"], lam([], tot)), (xs, vals(*es))], app("f"), sum_)],
               [define("l", app("list", *es)), app("call-with-values", lam([], app("apply", V("values"), V("l"))), lam([], app("out", app("length", V("r"))), app("out", app("apply", V("+"), V("r"))), rest="r"))],
               [define("f", lam([], vals(*es))), define("g", lam(["i"], ["if", app("=", V("i"), I(0)), app("f"), letv([(xs, app("g", app("-", V("i"), I(1))))], vals(*map(V, xs[::-1])))])),
                ["cwv", lam([], app("g", I(3))), lam(xs, tot, sum_)]],
               [letv([(xs, vals(*es[1:]))], tot)]]
    return ps


def check(c):
    b = Build(c.work)
    r = Runner(b)
    L.interpret(c, systematic(c, False)[::c.n(60, 8)], chunk=1, max_steps=300, props=True)
    L.run_core(c, r, systematic(c, not c.quick))
    L.run_core(c, r, big(c), max_steps=40000)
    L.run_core(c, r, [L.Gen(c.rng, misfit=0.05).program(depth=4) for _ in range(c.n(400, 15000))])
    c.assumptions = ["TLC evaluates the specification correctly"]


if __name__ == "__main__":
    main("C02", "model_checking", check)
