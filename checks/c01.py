"""C01: core programs evaluate as lexically scoped, left-to-right call by value."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L


def systematic(full):
    ps = []
    cs, inner = L.contexts(), L.nullary_core()
    for i, (n1, c1) in enumerate(cs):
        for n, e in inner:
            for m in (0, 1, 2): ps.append(L.wrap(c1(e), m))
        for j, (n2, c2) in enumerate(cs):
            for k, (n, e) in enumerate(inner):
                for m in (0, 1, 2):
                    if full or (i + j + k + m) % 9 == 0: ps.append(L.wrap(c1(c2(e)), m))
    return ps


def check(c):
    b = Build(c.work)
    r = Runner(b)
    # the machine's own properties, one transition per state
    small = [L.wrap(c1(e), m) for m, (_, e) in enumerate(L.nullary_core()[:3]) for _, c1 in L.contexts()][:c.n(40, 200)]
    small += [L.Gen(c.rng).program(n=2, depth=2) for _ in range(c.n(40, 400))]
    L.interpret(c, small, chunk=1, max_steps=300, props=True)
    # replay of complete behaviours
    L.run_core(c, r, systematic(not c.quick))
    L.run_core(c, r, [L.Gen(c.rng).program() for _ in range(c.n(1500, 30000))])
    L.run_core(c, r, [L.Gen(c.rng, mut=2.0).program(n=3, depth=6) for _ in range(c.n(150, 6000))], max_steps=8000)
    c.assumptions = ["TLC evaluates the specification correctly", "programs stay within 64-bit integers and 10^6 in magnitude"]


if __name__ == "__main__":
    main("C01", "model_checking", check)
