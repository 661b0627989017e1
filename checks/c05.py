"""C05: a raised exception reaches the handler once and nothing after it runs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L
from corelang import *

o = lambda e: app("out", e)


def triggers():
    yield "raise-int", app("raise", V("x"))
    yield "raise-list", app("raise", V("obj"))
    yield "raise-proc", app("raise", lam([], I(1)))
    yield "raise-false", app("raise", B(False))
    yield "raise-traced", app("raise", o(S("r")))
    yield "error", app("error", S("who"), ["q", ["strl", "msg"]])
    yield "error-anon", app("error", B(False), ["q", ["strl", "msg"]])
    yield "error-bad", app("error", I(4), ["q", ["strl", "msg"]])
    yield "car", app("car", V("x"))
    yield "plus", app("+", I(1), V("obj"), S("q"))
    yield "less", app("<", V("x"), S("s"))
    yield "set-box", app("set-box!", V("obj"), I(1))
    yield "range", app("vector-ref", app("vector", I(1), V("x")), I(2))
    yield "range2", app("vector-set!", app("vector", I(1), V("x")), o(I(5)), I(0))
    yield "range3", app("string-ref", ["q", ["strl", "ab"]], I(2))
    yield "negative", app("vector-ref", app("vector", I(1), V("x")), I(-1))
    yield "arity", app("k", I(1))
    yield "arity-prim", app("cons", o(I(1)))
    yield "not-proc", ["app", V("x"), [o(I(1))]]
    yield "unbound", V("nowhere")
    yield "early", letrec([(["u"], V("u"))], I(1))
    yield "values", letv([(["u", "w"], o(I(1)))], I(1))
    yield "values2", app("list", vals(I(1), I(2)))
    yield "apply", app("apply", V("list"), V("x"))
    yield "map-callback", app("map", lam(["v"], o(V("v")), ["if", app("=", V("v"), I(2)), app("raise", V("v")), V("v")]), app("list", I(1), I(2), I(3)))
    yield "map-lists", app("map", V("list"), app("list", I(1)), V("x"))
    yield "deep", letrec([(["f"], lam(["n"], ["if", app("=", V("n"), I(0)), app("raise", S("deep")), app("+", I(1), app("f", app("-", V("n"), I(1))))]))], app("f", I(60)))
    yield "exit0", app("exit", I(0))
    yield "exit", app("exit")
    yield "exit255", app("exit", I(255))
    yield "exit9", app("exit", o(I(9)))
    yield "exit-bad", app("exit", I(256))
    yield "exit-neg", app("exit", I(-1))
    yield "ok", I(3)
    yield "nested-handler", seq(app("current-error-handler", lam(["e"], o(S("inner")), o(V("x")), app("exit", I(4)))), app("raise", I(2)))


def describe(e, code):
    return [o(S("caught")), o(app("exn?", e)), o(app("argument-exn?", e)), o(app("range-exn?", e)),
            ["if", app("argument-exn?", e), o(app("list", app("exn-who", e), app("argument-exn-actual", e))), V("#v")],
            ["if", app("range-exn?", e), o(app("list", app("exn-who", e), app("range-exn-index", e), app("range-exn-value", e))), V("#v")],
            ["if", app("exn?", e), V("#v"), seq(o(e), o(app("eq?", e, V("obj"))))],
            app("exit", I(code))]


def novoid(e):
    """V("#v") stands for (begin)."""
    if isinstance(e, list):
        return ["seq", []] if e == ["v", "#v"] else [novoid(x) for x in e]
    return e


def handlers():
    E = V("e")
    yield "default", []
    yield "exit", [app("current-error-handler", lam(["e"], *describe(E, 7)))]
    yield "case", [app("current-error-handler", ["cl", [[[], "", [o(S("none"))]], [["e"], "", describe(E, 8)], [["a", "b"], "", [o(S("two"))]]]])]
    yield "rest", [app("current-error-handler", lam([], o(app("length", V("r"))), letv([(["e"], app("car", V("r")))], *describe(E, 9)), rest="r"))]
    yield "captured", [letv([(["n"], I(0)), (["x"], I(30))], app("current-error-handler", lam(["e"], ["set", "n", app("+", V("n"), I(1))], o(V("n")), o(V("x")),
                       ["if", app("<", V("n"), I(3)), app("raise", V("n")), app("exit", V("n"))])))]
    yield "chained", [letv([(["h"], app("current-error-handler"))], app("current-error-handler", lam(["e"], o(S("before")), app("h", E))))]
    yield "replaced", [app("current-error-handler", lam(["e"], o(S("wrong")))), app("current-error-handler", lam(["e"], o(S("right")), app("exit", I(2))))]
    yield "refused", [app("current-error-handler", lam(["e"], o(app("argument-exn?", E)), app("exit", I(3)))), app("current-error-handler", V("obj"))]


def systematic(full):
    ps = []
    i = 0
    for hn, h in handlers():
        for tn, t in triggers():
            progs = [L.wrap(t, m) for m in (0, 1)]
            for cn, cx in L.contexts():
                for m in (0, 1, 2): progs.append(L.wrap(cx(t), m))
            for p in progs:
                i += 1
                if full or i % 9 == 0 or p is progs[0]:
                    ps.append([define("obj", app("list", I(1), I(2)))] + novoid(h) + p)
        # assignment to a variable that does not exist (written at top level)
        ps.append([define("obj", app("list", I(1), I(2)))] + novoid(h) + L.wrap(["set", "nowhere", o(I(2))], 1))
    return ps


def with_files(c, r):
    """Output before the error is delivered however much there is; the rest of the file is not run."""
    ts = []
    for n in (10, 5000, 60000):
        body = '(define-values (f) (lambda (n) (if (= n 0) (void) (begin (display "line") (newline) (f (- n 1)))))) (f %d)' % n
        for end, st, err in (("(raise 'stop) (display 1)", "error", ["uncaught exception: stop"]), ("(exit 3) (display 1)", "exit 3", []),
                             ("(error 'me \"bad thing\" 7) (f 3)", "error", ["me: bad thing", "7"]), ("(car 1) (f 3)", "error", ["car: "]), ("", "exit 0", [])):
            ts.append(dict(text=body + end, out="line\n" * n, status=st, err=err))
    ts += [dict(text="(display 1) (exit %d)" % k, out="1", status="exit %d" % k) for k in range(0, 256, 5)]
    compare(c, r, ts)


def check(c):
    b = Build(c.work)
    r = Runner(b)
    ps = systematic(not c.quick)
    L.interpret(c, c.rng.sample(ps, c.n(80, 800)), chunk=1, max_steps=400, props=True)
    L.run_core(c, r, ps)
    with_files(c, r)
    c.assumptions = ["TLC evaluates the specification correctly", "handlers leave through exit: what a returning handler resumes is not specified"]


if __name__ == "__main__":
    main("C05", "model_checking", check)
