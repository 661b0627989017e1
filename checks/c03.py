"""C03: procedure calls respect arity; case-lambda and apply dispatch exactly."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L
from corelang import *

SHAPES = [(0, False), (1, False), (2, False), (3, False), (0, True), (1, True), (2, True)]


def clause(i, m, rest):
    xs = ["a", "b", "c", "d"][:m]
    body = [app("out", S("c%d" % i)), app("out", app("list", *map(V, xs)))]
    if rest: body.append(app("out", V("r")))
    return [xs, "r" if rest else "", body]


def calls(f, n):
    """Every way to call the procedure f with n arguments."""
    es = [I(j + 1) for j in range(n)]
    o = [app("out", e) for e in es]
    yield ["app", f, o]
    for k in range(n + 1):
        yield ["app", V("apply"), [f] + es[:k] + [app("list", *es[k:])]]
    yield ["cwv", lam([], vals(*es)), f]
    yield ["cwv", lam([], app("apply", V("values"), app("list", *es))), f]
    yield app("out", app("list", ["app", f, o], I(0)))
    yield letv([(["z"], ["app", f, es])], app("out", V("z")))


def systematic(full):
    ps = []
    k = 0
    for cnt in (1, 2, 3):
        for cl in itertools.product(SHAPES, repeat=cnt):
            f = ["cl", [clause(i, m, r) for i, (m, r) in enumerate(cl)]]
            lamf = ["lam"] + f[1][0] if cnt == 1 else None
            for n in range(5):
                for v, call in enumerate(calls(V("f"), n)):
                    k += 1
                    if full or cnt == 1 or (cnt == 2 and k % 3 == 0) or (cnt == 3 and k % 23 == 0):
                        ps.append([define("f", f), call, app("out", S("end"))])
                        if lamf: ps.append([define("f", lamf), call, app("out", S("end"))])
                if cnt < 3 or full or k % 7 == 0:
                    for v, call in enumerate(calls(lamf or f, n)):     # called where it is written
                        k += 1
                        if full or cnt == 1 or k % 4 == 0:
                            ps.append([call, app("out", S("end"))])
                            ps.append([define("g", lam(["a", "r"], call, app("out", app("list", V("a"), V("r"))))), app("g", I(50), I(60)), app("out", S("end"))])
    return ps


def wide(c):
    """Long argument lists: the surplus is collected exactly, on every side of the stack cushion."""
    ps = []
    for n in c.n([7, 33, 150], [5, 6, 7, 8, 9, 10, 17, 31, 32, 33, 100, 150, 195]):
        es = [I(j) for j in range(n)]
        xs = ["v%d" % j for j in range(n)]
        for m in (0, 1, n - 1, n):
            f = lam(xs[:m], app("out", app("length", V("r"))), app("out", V("r")), app("out", app("list", *map(V, xs[max(0, m - 2):m]))), rest="r")
            ps += [[define("f", f), ["app", V("f"), es]], [define("f", f), app("apply", V("f"), app("list", *es))],
                   [define("f", f), app("apply", V("f"), es[0], es[1], app("list", *es[2:]))],
                   [["app", f, es]]]
        g = lam(xs, app("out", app("+", *map(V, xs))))
        ps += [[define("g", g), ["app", V("g"), es]], [define("g", g), app("apply", V("g"), app("list", *es))],
               [define("g", g), ["app", V("g"), es[1:]]], [define("g", g), app("apply", V("g"), I(1), app("list", *es))],
               [define("h", lam([], app("apply", V("g"), V("l")), rest="l")), define("g", g), ["app", V("h"), es]]]
    return ps


def builtins(c):
    """Built-in procedures called with every number of arguments outside their arity, and apply's own contract."""
    ps = []
    from corelang import ATOMS
    table = {"+": (0, -1), "*": (0, -1), "list": (0, -1), "vector": (0, -1), "string-append": (0, -1), "string": (0, -1),
             "values": (0, -1), "void": (0, 0), "append": (0, -1), "-": (1, -1), "=": (1, -1), "<": (1, -1), ">": (1, -1),
             "<=": (1, -1), ">=": (1, -1), "cons": (2, 2), "set-car!": (2, 2), "set-cdr!": (2, 2), "eq?": (2, 2),
             "vector-ref": (2, 2), "set-box!": (2, 2), "string-ref": (2, 2), "vector-fill!": (2, 2), "call-with-values": (2, 2),
             "vector-set!": (3, 3), "string-set!": (3, 3), "make-vector": (1, 2), "make-string": (1, 2), "substring": (2, 3),
             "apply": (2, -1), "error": (2, -1), "map": (2, -1), "for-each": (2, -1), "exit": (0, 1),
             "car": (1, 1), "cdr": (1, 1), "null?": (1, 1), "pair?": (1, 1), "list?": (1, 1), "not": (1, 1),
             "vector-length": (1, 1), "vector->list": (1, 1), "list->vector": (1, 1), "box": (1, 1), "unbox": (1, 1),
             "procedure?": (1, 1), "integer?": (1, 1), "length": (1, 1), "reverse": (1, 1), "raise": (1, 1),
             "string-length": (1, 1), "void?": (1, 1), "symbol?": (1, 1), "boolean?": (1, 1), "char?": (1, 1)}
    for f, (lo, hi) in sorted(table.items()):
        if f in ("current-error-handler", "values", "call-with-values"): continue
        bad = [n for n in range(6) if n < lo or (hi >= 0 and n > hi)]
        for n in bad:
            es = [I(1)] * n
            ps += [[app("out", S("a")), ["app", V(f), es], app("out", S("b"))],
                   [app("apply", V(f), app("list", *es)), app("out", S("b"))],
                   [define("f", lam([], app("out", S("in")), app("apply", V(f), V("r")), rest="r")), ["app", V("f"), es], app("out", S("b"))]]
    for bad in (I(3), app("cons", I(1), I(2)), S("x"), app("vector", I(1))):
        for k in range(3):
            ps.append([["app", V("apply"), [V("list")] + [I(9)] * k + [bad]], app("out", S("b"))])
            ps.append([["app", V("apply"), [bad] + [I(9)] * k + [app("list", I(1))]], app("out", S("b"))])
            ps.append([["app", bad, [app("out", I(j)) for j in range(k)]], app("out", S("b"))])
    return ps


def check(c):
    b = Build(c.work)
    r = Runner(b)
    L.interpret(c, systematic(False)[::c.n(40, 6)], chunk=1, max_steps=300, props=True)
    L.run_core(c, r, systematic(not c.quick))
    L.run_core(c, r, wide(c) + builtins(c), max_steps=40000)
    L.run_core(c, r, [L.Gen(c.rng, misfit=0.04).program(depth=4) for _ in range(c.n(300, 10000))])
    c.assumptions = ["TLC evaluates the specification correctly"]


if __name__ == "__main__":
    main("C03", "model_checking", check)
