"""C25: mutable data have identity: an update is seen through every alias and nowhere else."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L
from corelang import *

q = lambda *d: ["q", list(d)]
i_ = lambda n: ["int", n]

# an object of each mutable kind, made in each way: (kind, expression)
MAKE = [("pair", app("cons", I(1), I(2))), ("pair", app("list", I(1), I(2), I(3))), ("pair", q("list", [i_(1), i_(2)])),
        ("pair", app("reverse", app("list", I(1), I(2)))), ("pair", app("append", app("list", I(1)), app("list", I(2)))),
        ("pair", app("vector->list", app("vector", I(1), I(2)))), ("pair", app(lam([], V("r"), rest="r"), I(1), I(2))),
        ("pair", app("map", lam(["e"], app("+", V("e"), I(1))), app("list", I(1), I(2)))),
        ("vec", app("vector", I(1), I(2))), ("vec", app("make-vector", I(2), I(0))), ("vec", q("vecl", [i_(4), i_(5)])),
        ("vec", app("list->vector", app("list", I(1), I(2)))), ("vec", app("vector", app("list", I(1)), I(2))),
        ("box", app("box", I(1))), ("box", q("boxl", i_(3))), ("box", app("box", app("box", I(1)))),
        ("str", app("make-string", I(2), q("char", "x"))), ("str", app("string", q("char", "a"), q("char", "b"))),
        ("str", app("string-append", q("strl", "a"), q("strl", "b"))), ("str", app("substring", q("strl", "abcd"), I(1), I(3))),
        ("str", q("strl", "lit"))]

# expressions over x that give the same object
SAME = [V("x"), app(lam([], V("x"))), app(lam(["y"], V("y")), V("x")), app("car", app("list", V("x"), I(0))),
        app("cdr", app("cons", I(0), V("x"))), app("vector-ref", app("vector", I(0), V("x")), I(1)), app("unbox", app("box", V("x"))),
        app("car", app(lam([], V("r"), rest="r"), V("x"))), app("apply", lam(["y"], V("y")), app("list", V("x"))),
        ["cwv", lam([], vals(I(0), V("x"))), lam(["a", "b"], V("b"))], letv([(["a", "b"], vals(V("x"), I(0)))], V("a")),
        letrec([(["y"], V("x")), (["g"], lam([], V("y")))], app("g")), letv([(["y"], I(0))], ["set", "y", V("x")], V("y")),
        app("car", app("map", lam(["e"], V("e")), app("list", V("x")))), app("car", app("reverse", app("list", I(0), V("x")))),
        app("car", app("append", app("list", V("x")), app("list", I(0)))), app("cdr", app("append", app("list", I(0)), V("x"))),
        app("vector-ref", app("make-vector", I(3), V("x")), I(2)), app("car", app("vector->list", app("vector", V("x")))),
        app("vector-ref", app("list->vector", app("list", I(1), V("x"))), I(1)),
        app(["cl", [[["a", "b"], "", [I(0)]], [["a"], "", [V("a")]]]], V("x")),
        ["if", B(True), V("x"), I(0)], seq(I(0), V("x")), app("apply", V("values"), app("list", V("x"))),
        letv([(["v"], app("vector", I(0)))], app("vector-fill!", V("v"), V("x")), app("vector-ref", V("v"), I(0))),
        letv([(["b"], app("box", I(0)))], app("set-box!", V("b"), V("x")), app("unbox", V("b"))),
        letv([(["c"], app("cons", I(0), I(0)))], app("set-car!", V("c"), V("x")), app("car", V("c"))),
        letv([(["z"], I(0))], app("for-each", lam(["e"], ["set", "z", V("e")]), app("list", I(1), V("x"))), V("z")),
        app("fetch"), V("g1")]

# expressions over x that give another object with the same contents
COPY = {"pair": [app("cons", app("car", V("x")), app("cdr", V("x"))), app("append", V("x"), q("null")),
                 app("reverse", app("reverse", V("x"))), app("map", lam(["e"], V("e")), V("x")),
                 app("apply", V("list"), V("x")), app("apply", lam([], V("r"), rest="r"), V("x")),
                 app("apply", lam(["h"], app("cons", V("h"), V("r")), rest="r"), V("x")), app("vector->list", app("list->vector", V("x")))],
        "vec": [app("list->vector", app("vector->list", V("x"))), app("apply", V("vector"), app("vector->list", V("x"))),
                app("vector", app("vector-ref", V("x"), I(0)), app("vector-ref", V("x"), I(1)))],
        "box": [app("box", app("unbox", V("x")))],
        "str": [app("string-append", V("x")), app("string-append", V("x"), q("strl", "")), app("substring", V("x"), I(0)),
                app("substring", V("x"), I(0), app("string-length", V("x")))]}

MUT = {"pair": [lambda o: app("set-car!", o, I(8)), lambda o: app("set-cdr!", o, q("null")), lambda o: app("set-car!", app("cdr", o), I(9))],
       "vec": [lambda o: app("vector-set!", o, I(0), I(8)), lambda o: app("vector-set!", o, I(1), V("x")), lambda o: app("vector-fill!", o, I(9))],
       "box": [lambda o: app("set-box!", o, I(8)), lambda o: app("set-box!", o, app("list", I(1)))],
       "str": [lambda o: app("string-set!", o, I(1), q("char", "z"))]}

o = lambda e: app("out", e)


def alias_programs(full):
    n = 0
    for mi, (kind, make) in enumerate(MAKE):
        ways = [(e, True) for e in SAME] + [(e, False) for e in COPY[kind]]
        for wi, (way, same) in enumerate(ways):
            for k, mut in enumerate(MUT[kind]):
                if kind == "pair" and make == MAKE[0][1] and (k == 2 or not same and way[2][0] != app("car", V("x"))): continue
                n += 1
                if not full and n % 2: continue
                # a third name for one of the two, and the reader is a closure made before the update
                body = [o(app("eq?", V("x"), V("y"))), o(V("x")), o(V("y")), o(mut(V("y" if k % 2 == 0 else "x"))),
                        o(V("x")), o(V("y")), o(app("see")), o(app("eq?", V("x"), V("y")))]
                glob = way in SAME[-2:]
                if glob:
                    yield [define("x", make), define("g1", V("x")), define("fetch", lam([], V("g1"))), define("y", way),
                           define("see", lam([], app("list", V("x"), V("y"))))] + body
                else:
                    yield [app(lam(["x"], letv([(["y"], way)], letv([(["see"], lam([], app("list", V("x"), V("y"))))], *body))), make)]


def variable_programs():
    inc = lambda x: ["set", x, app("+", V(x), I(1))]
    mk = define("mk", lam(["n"], app("list", lam([], V("n")), lam([], inc("n"), V("n")), lam(["v"], ["set", "n", V("v")]))))
    call = lambda l, k, *a: app(app("car", V(l)) if k == 0 else app("car", app("cdr", V(l))) if k == 1 else app("car", app("cdr", app("cdr", V(l)))), *a)
    # two calls make two locations; closures of one call share one
    yield [mk, define("a", app("mk", I(1))), define("b", app("mk", I(10))), o(call("a", 1)), o(call("a", 1)), o(call("b", 1)), o(call("a", 0)),
           o(call("b", 0)), call("a", 2, I(50)), o(call("a", 0)), o(call("b", 0)), o(call("a", 1))]
    # every iteration of a loop has its own variables
    for binder in (lambda i, b: letv([(["j"], i)], b), lambda i, b: app(lam(["j"], b), i), lambda i, b: letrec([(["j"], i)], b),
                   lambda i, b: ["cwv", lam([], vals(i)), lam(["j"], b)], lambda i, b: app(["cl", [[["j"], "", [b]]]], i),
                   lambda i, b: app(lam([], letv([(["j"], app("car", V("r")))], b), rest="r"), i), lambda i, b: app("apply", lam(["j"], b), app("list", i))):
        for useloop in (False, True):
            v = "i" if useloop else "j"
            yield [define("loop", lam(["i", "acc"], ["if", app("=", V("i"), I(4)), V("acc"),
                          binder(V("i"), app("loop", app("+", V("i"), I(1)), app("cons", lam([], inc(v), V(v)), V("acc"))))])),
                   define("fs", app("loop", I(0), q("null"))), o(app("map", lam(["f"], app("f")), V("fs"))), o(app(app("car", V("fs")))),
                   o(app(app("car", app("cdr", V("fs"))))), o(app("map", lam(["f"], app("f")), V("fs")))]
    # assigning to a parameter leaves the argument's variable alone, assigning to a captured variable does not
    for f in (lam(["p"], ["set", "p", I(9)], V("p")), lam([], ["set", "p", I(9)], V("p"), rest="p"), ["cl", [[["p"], "", [["set", "p", I(9)], V("p")]]]],
              lam(["p"], letv([(["p"], V("p"))], ["set", "p", I(9)], V("p"))), lam(["p"], ["set", "x", I(9)], V("p")),
              lam(["p"], app(lam([], ["set", "p", app("+", V("x"), I(1))])), V("p"))):
        yield [app(lam(["x"], o(app(f, V("x"))), o(V("x")), o(app("+", V("x"), I(0)))), I(1))]
        yield [define("x", I(1)), o(app(f, V("x"))), o(V("x"))]
        yield [define("x", I(1)), define("f", f), define("g", lam([], app("f", V("x")))), o(app("g")), o(V("x")), o(app("g")), o(V("x"))]
    # shadowing: the innermost binding is the one assigned
    for n in range(1, 5):
        for at in range(n + 1):
            e = seq(*[o(V("x"))])
            for d in range(n, 0, -1):
                inner = [e] if d != at else [["set", "x", I(99)], e]
                e = seq(letv([(["x"], I(d))], *inner), o(V("x"))) if d % 2 else seq(app(lam(["x"], *inner), I(d)), o(V("x")))
            yield [define("x", I(0))] + ([["set", "x", I(98)]] if at == 0 else []) + [e, o(V("x"))]
    # redefinition of a global is seen by procedures that refer to it
    yield [define("g", I(1)), define("f", lam([], V("g"))), o(app("f")), define("g", I(2)), o(app("f")), ["set", "g", I(3)], o(app("f"))]
    yield [define("g", lam(["x"], V("x"))), define("f", lam(["x"], app("g", V("x")))), o(app("f", I(1))),
           define("g", lam(["x"], app("list", V("x")))), o(app("f", I(1)))]


def check(c):
    b = Build(c.work)
    r = Runner(b)
    al = list(alias_programs(not c.quick))
    L.interpret(c, al[::max(1, len(al) // c.n(30, 120))], chunk=1, max_steps=300, props=True)
    L.run_core(c, r, al)
    L.run_core(c, r, list(variable_programs()))
    L.run_core(c, r, [L.Gen(c.rng, mut=2.5, misfit=0.002, wild=0.004).program(n=4, depth=5) for _ in range(c.n(900, 20000))], max_steps=6000)
    c.assumptions = ["a literal is one object for the whole run of a program"]


if __name__ == "__main__":
    main("C25", "model_checking", check)
