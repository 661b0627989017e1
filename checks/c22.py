"""C22: strings, characters and paths behave as mutable character sequences."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}
def lit(cs): return '"' + "".join(ESC.get(c, chr(c)) for c in cs) + '"'
def ch(c): return "(integer->char %d)" % c
def codes(s): return [ord(x) for x in s]

PRE = '''(define-values (num) (lambda (c) (display (if (eq? c #t) 1 (if (eq? c #f) 0 c))) (newline)))
(define-values (str) (lambda (s) (if s (for-each (lambda (c) (display (char->integer c)) (display " ")) (string->list s)) (display "#f ")) (newline)))
(define-values (refs) (lambda (s i n) (if (= i n) (newline) (begin (display (char->integer (string-ref s i))) (display " ") (refs s (+ i 1) n)))))
(define-values (strs) (lambda (l) (begin (display (length l)) (newline) (for-each str l))))
'''
COPY = ["(list->string (string->list %s))", "(string-append %s)", "(string-append %s \"\")", "(apply string (string->list %s))",
        "(let-values ([(p) (open-output-string)]) (display %s p) (get-output-string p))", "(let-values ([(p) (open-output-string)]) (put-string p %s) (get-output-string p))",
        "(let-values ([(p) (open-output-string)]) (write %s p) (read (open-input-string (get-output-string p))))", "(symbol->string (string->symbol %s))",
        "(apply string-append (map (lambda (c) (string c)) (string->list %s)))", "(format \"~a\" %s)", "(list->string (vector->list (list->vector (string->list %s))))"]
LCOPY = ["(substring %s 0 (string-length %s))", "(string-append (substring %s 0 (/ (string-length %s) 2)) (substring %s (/ (string-length %s) 2) (string-length %s)))"]


def render(s, res, head=""):
    out = [PRE]
    nv = ny = 0
    exp, status = "", "exit 0"
    def new(e):
        nonlocal nv
        nv += 1
        out.append("(define-values (v%d) %s)" % (nv, e))
    for o, x in zip(s["ops"], res):
        k, v = o["op"], "v%d" % o["v"]
        if x[0] == "any": continue
        if k == "make": new("(make-string %d %s)" % (o["n"], ch(o["c"])) if not o.get("one") else "(make-string %d)" % o["n"])
        elif k == "text": new({"lit": lit(o["t"]), "string": "(string %s)" % " ".join(map(ch, o["t"])), "list": "(list->string (list %s))" % " ".join(map(ch, o["t"])),
                               "num": "(number->string %s)" % "".join(map(chr, o["t"]))}[o["how"]])
        elif k == "copy": new(o["how"].replace("%s", v))
        elif k == "append": new("(string-append %s)" % " ".join("v%d" % i for i in o["vs"]))
        elif k == "sub": new("(substring %s %d %d)" % (v, o["a"], o["b"]))
        elif k == "alias": new(v)
        elif k == "set": out.append("(string-set! %s %d %s)" % (v, o["i"], ch(o["c"])))
        elif k == "ref": out.append("(num (char->integer (string-ref %s %d)))" % (v, o["i"]))
        elif k == "len": out.append("(num (string-length %s))" % v)
        elif k == "codes": out.append("(str %s)" % v if o["how"] else "(refs %s 0 (string-length %s))" % (v, v))
        elif k in ("eq", "equal"): out.append("(num (%s? %s v%d))" % (k, v, o["w"]))
        elif k == "tonum": out.append("(num (string->number %s))" % v)
        elif k == "tosym":
            ny += 1
            out.append("(define-values (y%d) (string->symbol %s))" % (ny, v))
        elif k == "fromsym": new("(symbol->string y%d)" % o["y"])
        elif k == "symeq": out.append("(num (eq? y%d y%d))" % (o["y"], o["z"]))
        elif k == "chr": out.append("(num (char->integer %s))" % ch(o["c"]))
        elif k == "build": new("(build-path %s)" % " ".join("v%d" % i for i in o["vs"]))
        elif k == "abs": out.append("(num (is-absolute-path? %s))" % v)
        elif k == "comps": out.append("(strs (path->list %s))" % v)
        elif k == "split": out.append("(let-values ([(p) (split-path %s)]) (strs (list (car p) (cdr p))))" % v)
        if x[0] == "stop": status = "error"; break
        one = lambda t: "".join("%d " % a for a in t) + "\n"
        if x[0] == "num": exp += "%d\n" % x[1]
        elif x[0] == "codes": exp += one(x[1])
        elif x[0] == "text": exp += "".join(map(chr, x[1])).replace("#f", "0") + "\n"
        elif x[0] == "lists":
            exp += "%d\n" % len(x[1])
            for i, t in enumerate(x[1]): exp += "#f \n" if k == "split" and i == 0 and t == [35, 102] and not o["dir"] else one(t)
    return head + "\n".join(out) + "\n", exp, status


NUMS = ["0", "-0", "+0", "7", "-7", "+7", "007", "-", "+", "", "12a", " 12", "12 ", "1 2", "--1", "+-1", "1.5", "1e3", "0x10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "+9223372036854775807", "18446744073709551616", "00000000000000000000000000000012", "99999999999999999999999", "\t5", "5\n", "#t", "10000000000000000000", "9223372036854775799", "a", "-a", "4294967296"]


def history(r, lib, kind):
    s = dict(ops=[])
    ops, lens, texts = s["ops"], [], []
    obj = []            # object of each variable
    cont = {}           # contents as far as the generator needs them (the specification decides)
    nsym = 0
    alpha = r.choice([[97, 98], [97, 98, 47], [48, 49, 45], [97, 47], list(range(256)), list(range(256)), [0, 1, 34, 92, 255, 127, 128, 10, 32], [0, 97]])
    if kind == "path": alpha = r.choice([[97, 47], [97, 98, 47, 46], [47, 255, 32]])
    if kind == "num": alpha = codes("0129+- ")
    def text(): return [r.choice(alpha) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8] + ([20, 100] if r.random() < .3 else [])))]
    def add(o, t): o.setdefault("v", 0); ops.append(o); obj.append(len(cont)); cont[len(cont)] = list(t)
    def T(v): return cont[obj[v - 1]]
    def pick(): return r.randint(1, len(obj))
    def fresh():
        t = text()
        if kind == "num": t = codes(r.choice(NUMS)) if r.random() < .6 else t
        k = r.random()
        if k < .15: n = len(t) if r.random() < .9 else r.choice([100, 1000]); c = r.choice(alpha); add(dict(op="make", n=n, c=c), [c] * n)
        elif k < .18: add(dict(op="make", n=3, c=97, one=1), [97] * 3)
        elif k < .24:
            t = codes(str(r.choice([0, 1, -1, 10, -10, 2 ** 63 - 1, -2 ** 63, 2 ** 31, -2 ** 31, r.randint(-10 ** 9, 10 ** 9), r.randint(-2 ** 63, 2 ** 63 - 1)])))
            add(dict(op="text", how="num", t=t), t)
        else: add(dict(op="text", how=r.choice(["lit", "string", "list"]), t=t), t)
    for _ in range(r.randint(1, 3)): fresh()
    steps = r.randint(5, 40)
    bad = r.random() < .3
    for _ in range(steps):
        k = r.random()
        v = pick()
        n = len(T(v))
        if k < .1: fresh()
        elif k < .17:
            how = r.choice(COPY + (LCOPY * 3 if lib else []))
            if not (0 in T(v) and "symbol" in how): add(dict(op="copy", v=v, how=how), T(v))
        elif k < .23:
            vs = [pick() for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
            if sum(len(T(x)) for x in vs) < 3000: add(dict(op="append", vs=vs), sum((T(x) for x in vs), []))
        elif k < .33 and lib and kind != "path":
            a = r.randint(0, n); b = r.randint(a, n)
            add(dict(op="sub", v=v, a=a, b=b), T(v)[a:b])
        elif k < .37: ops.append(dict(op="alias", v=v)); obj.append(obj[v - 1])
        elif k < .55:
            if n:
                i = r.choice([0, n - 1, r.randrange(n)]); c = r.choice(alpha)
                ops.append(dict(op="set", v=v, i=i, c=c)); T(v)[i] = c
        elif k < .6:
            if n: ops.append(dict(op="ref", v=v, i=r.choice([0, n - 1, r.randrange(n)])))
        elif k < .64: ops.append(dict(op="len", v=v))
        elif k < .68: ops.append(dict(op=r.choice(["eq", "equal"]), v=v, w=pick()))
        elif k < .73: ops.append(dict(op="tonum", v=v))
        elif k < .77 and (0 not in T(v) or r.random() < .1):
            ops.append(dict(op="tosym", v=v)); texts.append(list(T(v))); nsym += 1
        elif k < .8 and nsym: y = r.randint(1, nsym); add(dict(op="fromsym", y=y), texts[y - 1])
        elif k < .82 and nsym: ops.append(dict(op="symeq", y=r.randint(1, nsym), z=r.randint(1, nsym), v=0))
        elif k < .84: ops.append(dict(op="chr", c=r.choice(alpha + [0, 255]), v=0))
        elif k < .86: ops.append(dict(op="codes", v=v, how=r.randint(0, 1)))
        elif lib and kind == "path":
            if k < .9:
                vs = [pick() for _ in range(r.choice([1, 2, 2, 3, 4]))]
                if T(vs[0]) and sum(len(T(x)) for x in vs) < 500:
                    acc = T(vs[0])
                    for x in vs[1:]:
                        if T(x): acc = acc + ([] if acc[-1] == 47 else [47]) + T(x)
                    add(dict(op="build", vs=vs), acc)
            elif k < .92: ops.append(dict(op="abs", v=v))
            elif k < .96: ops.append(dict(op="comps", v=v))
            elif T(v):
                t = T(v)
                one = all(x != 47 for x in t[:-1]) if t[0] != 47 else len(t) == 1
                ops.append(dict(op="split", v=v, dir=not one))
    if bad:
        v = pick(); n = len(T(v))
        o = r.choice(["ref", "set", "sub", "sub", "chr", "make"] if lib else ["ref", "set", "chr", "make"])
        if o in ("ref", "set"): ops.append(dict(op=o, v=v, i=r.choice([n, n + 1, -1, 2 ** 31 - 1]), c=97))
        elif o == "sub":
            a, b = r.choice([(0, n + 1), (n + 1, n + 1), (n, n - 1), (-1, n), (1, 0), (0, -1), (n + 1, n), (0, 2 ** 31 - 1)])
            ops.append(dict(op="sub", v=v, a=a, b=b))
        elif o == "chr": ops.append(dict(op="chr", v=0, c=r.choice([-1, 256, 300, 2 ** 31 - 1, -256])))
        else: ops.append(dict(op="make", v=0, n=-1, c=97))
    for v in range(1, len(obj) + 1): ops += [dict(op="codes", v=v, how=v % 2), dict(op="len", v=v)]
    for v in range(1, len(obj)): ops.append(dict(op="eq", v=v, w=v + 1))
    return s


def check(c):
    b = Build(c.work)
    core = Runner(b)
    lib = Runner(b, lib=True, preload="private/path.min")
    scripts, where = [], []
    def add(s, l): scripts.append(s); where.append(l)
    for _ in range(c.n(1500, 20000)): add(history(c.rng, False, "num" if c.rng.random() < .15 else "plain"), False)
    for _ in range(c.n(500, 6000)): add(history(c.rng, True, "path" if c.rng.random() < .5 else "plain"), True)
    for t in NUMS: add(dict(ops=[dict(op="text", how="string", t=codes(t), v=0), dict(op="tonum", v=1)]), False)
    for cc in range(256): add(dict(ops=[dict(op="chr", c=cc, v=0)] + [dict(op="make", n=2, c=cc, v=0), dict(op="codes", v=1, how=1), dict(op="len", v=1), dict(op="ref", v=1, i=1)]), False)
    # every substring and every index of short strings
    for n in range(0, 5):
        for a in range(-1, n + 2):
            add(dict(ops=[dict(op="text", how="string", t=codes("abcde"[:n]), v=0), dict(op="ref", v=1, i=a)]), False)
            add(dict(ops=[dict(op="text", how="string", t=codes("abcde"[:n]), v=0), dict(op="set", v=1, i=a, c=122), dict(op="codes", v=1, how=1)]), False)
            for e in range(-1, n + 2):
                add(dict(ops=[dict(op="text", how="string", t=codes("abcde"[:n]), v=0), dict(op="sub", v=1, a=a, b=e), dict(op="codes", v=2, how=1), dict(op="len", v=2), dict(op="eq", v=1, w=2)]), True)
    # every path of up to 5 characters over two letters and the slash
    paths = [""]
    for _ in range(5): paths += [p + x for p in paths if len(p) == len(paths[-1]) for x in "a/"]
    paths = sorted(set(paths) | {"/usr/lib/x.min", "../a/b", "a b/c d", "..", ".", "./x"})
    for i in range(0, len(paths), 8):
        ops = []
        for p in paths[i:i + 8]:
            ops.append(dict(op="text", how="lit", t=codes(p), v=0))
            v = sum(o["op"] in ("text", "build") for o in ops)
            ops += [dict(op="abs", v=v), dict(op="comps", v=v)]
            if p: ops.append(dict(op="split", v=v, dir="/" in p[:-1] if p[0] != "/" else len(p) > 1))
            if p: ops.append(dict(op="build", vs=[v, max(1, v - 1)], v=0)); ops.append(dict(op="codes", v=v + 1, how=1))
        add(dict(ops=ops), True)
    res = run_scripts(c, "Strings", "S", scripts, chunk=20, inv=["StringsOK"])
    tests = {False: [], True: []}
    head = lib.imp("private/path.min") + lib.imp("private/string.min")
    for i, (s, rs, l) in enumerate(zip(scripts, res, where)):
        text, out, status = render(s, rs, head if l else "")
        tests[l].append(dict(key="history %d" % i, text=text, out=out, status=status))
        c.add("histories"); c.add("operations", len(rs))
        if status != "exit 0": c.add("histories ending in an error")
        if i in (3, 1700): c.sample(dict(program=text[len(PRE):][:500], expected=out[:200]))
    compare(c, core, tests[False])
    compare(c, lib, tests[True], timeout=30)
    c.assumptions = ["symbols are not made of strings with a NUL character (that raises)", "build-path is given a non-empty base, split-path a non-empty path"]


if __name__ == "__main__":
    main("C22", "model_checking", check)
