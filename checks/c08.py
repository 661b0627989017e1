"""C08: equal?, eq? and hashing are coherent."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corelang as L

PRE = '''
(define-values (mark) (lambda (a b)
  (if (eq? a b)
      (if (equal? a b) (if (= (eq-hash a) (eq-hash b)) (if (= (equal-hash a) (equal-hash b)) "=" "H") "h") "!")
      (if (equal? a b) (if (= (equal-hash a) (equal-hash b)) "e" "H") "."))))
(define-values (matrix) (lambda (xs) (for-each (lambda (a) (for-each (lambda (b) (display (mark a b))) xs) (newline)) xs)))
(define-values (root) (lambda (rtd) (if (record-type-parent rtd) (root (record-type-parent rtd)) rtd)))
(define-values (first-of) (lambda (r) ((record-accessor (root (record-rtd r)) 0) r)))
(define-values (fields-of) (lambda (r)
  (letrec-values ([(go) (lambda (t i acc)
      (if (= i (vector-length (record-type-field-names t)))
          (if (record-type-parent t) (go (record-type-parent t) 0 acc) acc)
          (go t (+ i 1) (cons ((record-accessor t i) r) acc))))])
    (go (record-rtd r) 0 '()))))
(define-values (first-equal) (lambda (a b rec) (rec (first-of a) (first-of b))))
(define-values (first-hash) (lambda (a rec) (+ 1 (rec (first-of a)))))
(define-values (all-equal) (lambda (a b rec) (if (if (record? a) (if (record? b) (eq? (record-rtd a) (record-rtd b)) #f) #f) (rec (fields-of a) (fields-of b)) #f)))
(define-values (all-hash) (lambda (a rec) (rec (fields-of a))))
'''


class World:
    def __init__(self, rng):
        self.r = rng
        self.ops, self.lines, self.objs, self.types = [], [], [], []
        self.ix = {}

    def new(self, kind, parts=(), text="", ty=0, expr=""):
        self.ops.append(dict(op="new", kind=kind, parts=list(parts), text=text, ty=ty))
        self.objs.append((kind, list(parts), text, ty))
        n = len(self.objs)
        self.lines.append("(define-values (o%d) %s)" % (n, expr))
        return n

    def atom(self, t): return self.new("atom", text=t, expr=t)
    def str(self, t): return self.new("str", text=t, expr='(string-append "%s" "%s")' % (t[:1], t[1:]))
    def pair(self, a, b): return self.new("pair", [a, b], expr="(cons o%d o%d)" % (a, b))
    def vec(self, ps): return self.new("vec", ps, expr="(vector %s)" % " ".join("o%d" % p for p in ps))
    def box(self, a): return self.new("box", [a], expr="(box o%d)" % a)
    def alias(self, a): return self.new("alias", [a], expr="o%d" % a)
    def ref(self): return self.new("ref", expr=self.r.choice(["(lambda (x) x)", "(open-output-string)", "(make-record-type-descriptor 'a #f #f #f #f (vector))"]))
    def ht(self, eqv, kvs):
        e = "(let-values ([(t) %s]) %s t)" % ({"eq": "(make-eq-hashtable)", "equal": "(make-hashtable)", "mine": "(make-custom-hashtable (lambda (x) 7) equal?)"}[eqv] if eqv != "const" else "(make-custom-hashtable const-hash equal?)",
                                               " ".join("(hashtable-set! t o%d o%d)" % kv for kv in kvs))
        return self.new("ht", [x for kv in kvs for x in kv], text=eqv, expr=e)

    def type(self, parent, nf, rule):
        self.ops.append(dict(op="type", parent=parent, rule=rule))
        self.types.append((parent, nf + (self.types[parent - 1][1] if parent else 0)))
        n = len(self.types)
        self.lines.append("(define-values (ty%d) (make-record-type-descriptor 'a %s #f #f #f (vector %s)))" % (
            n, "ty%d" % parent if parent else "#f", " ".join("'(mutable f%d)" % i for i in range(nf))))
        if rule: self.setrule(n, rule)
        return n

    def setrule(self, n, rule):
        self.lines.append("(record-type-equal-procedure ty%d %s-equal) (record-type-hash-procedure ty%d %s-hash)" % (n, rule, n, rule))

    def rec(self, ty, ps): return self.new("rec", ps, ty=ty, expr="((record-constructor ty%d) %s)" % (ty, " ".join("o%d" % p for p in ps)))

    # random structure
    ATOMS = ["0", "1", "-1", "65", "#\\A", "#\\a", "'a", "'b", "'A", "#t", "#f", "'()", "9223372036854775807", "-9223372036854775807"]

    def gen(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.15:
            y = r.random()
            if y < 0.55: return self.atom(r.choice(self.ATOMS))
            if y < 0.85: return self.str(r.choice(["a", "b", "", "ab", "aa", "A"]))
            return self.ref() if r.random() < 0.5 or not self.objs else self.alias(r.randint(1, len(self.objs)))
        sub = lambda: self.gen(d - 1) if r.random() < 0.8 or not self.objs else r.randint(1, len(self.objs))
        if x < 0.45: return self.pair(sub(), sub())
        if x < 0.62: return self.vec([sub() for _ in range(r.randint(1, 3))])
        if x < 0.72: return self.box(sub())
        if x < 0.86 and self.types:
            t = r.randint(1, len(self.types))
            return self.rec(t, [sub() for _ in range(self.types[t - 1][1])])
        ks = r.sample(["0", "1", "'a", "#\\a", "'()"], r.randint(0, 3))
        return self.ht(r.choice(["eq", "equal", "const"]), [(self.atom(k), sub()) for k in ks] + ([(self.str("key"), sub())] if r.random() < .4 else []))

    def dup(self, i, p):
        """A copy of object i, each part changed with probability p."""
        r = self.r
        if r.random() < p: return self.gen(1)
        kind, parts, text, ty = self.objs[i - 1]
        if kind == "alias": return self.dup(parts[0], p)
        if kind == "atom": return self.atom(text)
        if kind == "str": return self.str(text)
        if kind == "ref": return i if r.random() < 0.8 else self.ref()
        if kind == "ht":
            kvs = [(parts[j] if text == "eq" else self.dup(parts[j], 0), self.dup(parts[j + 1], p)) for j in range(0, len(parts), 2)]
            r.shuffle(kvs)
            if kvs and r.random() < p: kvs.pop()
            return self.ht(text, kvs)
        ps = [self.dup(x, p) if r.random() < 0.9 else x for x in parts]
        if kind == "pair": return self.pair(*ps)
        if kind == "box": return self.box(*ps)
        if kind == "vec":
            if r.random() < p: ps = ps + [ps[0]]
            return self.vec(ps)
        if r.random() < 0.2:
            same = [t + 1 for t, x in enumerate(self.types) if x[1] == len(ps)]
            ty = r.choice(same)
        return self.rec(ty, ps)

    def matrix(self, watch):
        self.ops.append(dict(op="matrix", watch=watch))
        self.lines.append("(matrix (list %s))" % " ".join("o%d" % w for w in watch))

    def mutate(self):
        r = self.r
        c = [i for i, o in enumerate(self.objs, 1) if o[0] in ("pair", "vec", "box", "rec") and o[1] or o[0] == "str" and o[2] and o[2] != "key"]
        if not c: return
        i = r.choice(c)
        kind, parts, text, ty = self.objs[i - 1]
        if kind == "str":
            j = r.randrange(len(text))
            t = text[:j] + r.choice("abAz") + text[j + 1:]
            self.ops.append(dict(op="text", i=i, text=t))
            self.lines.append("(string-set! o%d %d #\\%s)" % (i, j, t[j]))
            self.objs[i - 1] = (kind, parts, t, ty)
            return
        j = r.randrange(len(parts))
        v = r.randint(1, i - 1)
        self.ops.append(dict(op="set", i=i, j=j + 1, v=v))
        parts[j] = v
        if kind == "pair": self.lines.append("(set-%s! o%d o%d)" % ("car" if j == 0 else "cdr", i, v))
        elif kind == "vec": self.lines.append("(vector-set! o%d %d o%d)" % (i, j, v))
        elif kind == "box": self.lines.append("(set-box! o%d o%d)" % (i, v))
        else:
            # fields of the ancestors come first
            t, k = ty, j
            while True:
                par, total = self.types[t - 1]
                base = self.types[par - 1][1] if par else 0
                if k >= base: break
                t = par
            self.lines.append("((record-mutator ty%d %d) o%d o%d)" % (t, k - base, i, v))


def program(rng):
    w = World(rng)
    w.lines.append("(define-values (const-hash) (lambda (k) 1))")
    for _ in range(rng.choice([0, 1, 3])):
        w.type(rng.randint(0, len(w.types)), rng.randint(1, 2) , rng.choice(["", "", "first", "all"]))
    watch = []
    for _ in range(rng.choice([2, 3, 4])):
        i = w.gen(rng.choice([1, 2, 3, 4]))
        watch.append(i)
        for p in (0, rng.choice([0, .1, .2])): watch.append(w.dup(i, p))
        if len(w.objs) > 150: break
    watch += [rng.randint(1, len(w.objs)) for _ in range(4)]
    w.matrix(watch)
    for _ in range(rng.choice([0, 2, 4])):
        if rng.random() < 0.2 and w.types:
            rule, t = rng.choice(["first", "all"]), rng.randint(1, len(w.types))
            w.ops.append(dict(op="rule", i=t, rule=rule)); w.setrule(t, rule)
        elif rng.random() < 0.2:
            w.ops.append(dict(op="default", rule="all"))
            w.lines.append("(default-record-equal-procedure all-equal) (default-record-hash-procedure all-hash)")
        else:
            for _ in range(3): w.mutate()
        w.matrix(watch)
    return w


def check(c):
    b = Build(c.work)
    r = Runner(b)
    ws = [program(c.rng) for _ in range(c.n(300, 8000))]
    # all pairs of a fixed list of atoms and small structures
    w = World(c.rng)
    a = [w.atom(x) for x in World.ATOMS] + [w.str(x) for x in ("a", "A", "", "ab", "ab")]
    small = a + [w.pair(x, y) for x in a[:4] for y in (a[11], a[0])] + [w.pair(a[0], a[11]), w.vec([a[0]]), w.vec([a[0], a[11]]), w.vec([a[0], a[11]]), w.box(a[0]), w.box(a[0]), w.box(a[11]),
             w.vec([]), w.ht("eq", []), w.ht("equal", []), w.ht("equal", [(a[0], a[1])]), w.ht("equal", [(a[0], a[1])]), w.ht("equal", [(a[1], a[0])])]
    w.lines.insert(0, "(define-values (const-hash) (lambda (k) 1))")
    w.matrix(small)
    ws.append(w)
    res = run_scripts(c, "Equal", "E", [dict(ops=w.ops) for w in ws], chunk=1000)
    # the laws hold of the specification at every step
    run_scripts(c, "Equal", "E", [dict(ops=w.ops) for w in ws[:c.n(40, 400)] if len(w.objs) < 60], chunk=1000,
                inv=["Reflexive", "Symmetric", "Transitive", "EqImpliesEqual"])
    tests = []
    for w, x in zip(ws, res):
        out = "".join(row + "\n" for o, y in zip(w.ops, x) if o["op"] == "matrix" for row in y[1])
        c.add("pairs", sum(len(y[1]) ** 2 for o, y in zip(w.ops, x) if o["op"] == "matrix"))
        tests.append(dict(key="equality matrix", text=PRE + "\n".join(w.lines) + "\n", out=out))
    c.sample(dict(program="\n".join(ws[0].lines)[:1500], expected=tests[0]["out"][:600]))
    compare(c, r, tests, timeout=20)
    c.assumptions = ["structures are acyclic", "a record type's equality and hash procedures are set together and agree"]


if __name__ == "__main__":
    main("C08", "model_checking", check)
