"""C11: fast-load serialisation returns an equal datum."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}
NAMES = {0: "nul", 7: "alarm", 8: "backspace", 9: "tab", 10: "newline", 11: "vtab", 12: "page", 13: "return", 27: "esc", 32: "space", 127: "delete"}


def lit(cs): return '"' + "".join(ESC.get(c, chr(c)) for c in cs) + '"'
def num(n): return dict(k="atom", t=str(n), x=str(n))
def sym(cs): return dict(k="atom", t=enc("".join(map(chr, cs))), x="(string->symbol %s)" % lit(cs))
def string(cs): return dict(k="atom", t=enc(lit(cs)), x="(string-append %s)" % lit(cs))
def char(c): return dict(k="atom", t=enc("#\\" + NAMES.get(c, chr(c))), x="(integer->char %d)" % c)
CONST = [dict(k="atom", t="#t", x="#t"), dict(k="atom", t="#f", x="#f"), dict(k="atom", t="#<void>", x="(void)"),
         dict(k="atom", t="#<eof>", x="(eof)"), dict(k="null", x="'()"), dict(k="atom", t="#()", x="(vector)"), dict(k="atom", t=enc('""'), x='(string-append "")')]
def lst(items): return dict(k="list", items=items) if items else CONST[4]
def vec(items): return dict(k="vec", items=items) if items else CONST[5]
def imp(items, tail):
    if tail["k"] == "null": return lst(items)
    if tail["k"] == "list": return lst(items + tail["items"])
    if tail["k"] == "imp": return dict(k="imp", items=items + tail["items"], tail=tail["tail"])
    return dict(k="imp", items=items, tail=tail)
def many(n, of, k="many"): return dict(k=k, n=n, of=of)
def deep(n, of): return dict(k="deep", n=n, of=of)
def long(n, t="a"): return dict(k="long", n=n, t=t)
def longs(n, t="s"): return dict(k="longs", n=n, t=t)


def expr(d):
    k = d["k"]
    if "x" in d: return d["x"]
    xs = [expr(x) for x in d.get("items", [])]
    if k == "list": return "(list %s)" % " ".join(xs)
    if k == "vec": return "(vector %s)" % " ".join(xs)
    if k == "imp":
        t = expr(d["tail"])
        for x in reversed(xs): t = "(cons %s %s)" % (x, t)
        return t
    if k == "many": return "(many %d %s '())" % (d["n"], expr(d["of"]))
    if k == "manyv": return "(list->vector (many %d %s '()))" % (d["n"], expr(d["of"]))
    if k == "deep": return "(nest %d %s)" % (d["n"], expr(d["of"]))
    if k == "long": return "(make-string %d #\\%s)" % (d["n"], d["t"])
    if k == "longs": return "(string->symbol (make-string %d #\\%s))" % (d["n"], d["t"])


PRE = '''(define-values (many) (lambda (n x acc) (if (= n 0) acc (many (- n 1) x (cons x acc)))))
(define-values (nest) (lambda (n x) (if (= n 0) x (nest (- n 1) (list x)))))
(define-values (eof) (lambda () (read-char (open-input-string ""))))
'''


def render(s, tag):
    out = [PRE]
    for i, d in enumerate(s["data"]):
        out.append("(define-values (d%d) %s)" % (i + 1, expr(d)))
    np = 0
    f = lambda i: '(string-append (car (command-line)) ".f%d")' % i
    for o in s["ops"]:
        k = o["op"]
        if k in ("create", "open"):
            np += 1
            out.append("(define-values (p%d) (open-%sput-file %s))" % (np, "out" if k == "create" else "in", f(o["f"])))
        elif k == "write": out.append("(fasl-write d%d p%d)" % (o["d"], o["p"]))
        elif k == "close": out.append("(close-%sput-port p%d)" % ("out" if o["out"] else "in", o["p"]))
        elif k == "read":
            out.append("(define-values (r) (fasl-read p%d)) (write r) %s(newline)" % (o["p"], "(display (equal? r d%d)) " % o["same"] if o.get("same") else ""))
        elif k == "show": out.append("(write d%d) (newline)" % o["d"])
        elif k == "poke":
            out.append("(%s d%d %s)" % ("vector-set!" if s["data"][o["d"] - 1]["k"] == "vec" else "set-car!", o["d"], ("0 " if s["data"][o["d"] - 1]["k"] == "vec" else "") + o["v"]["x"]))
    return "\n".join(out) + "\n"


class Gen:
    def __init__(self, r): self.r = r

    def atom(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            b = r.choice([0, 1, 6, 7, 8, 13, 14, 15, 21, 28, 31, 32, 35, 42, 49, 56, 62])
            return num(max(-2 ** 63, min(2 ** 63 - 1, r.choice([1, -1]) * 2 ** b + r.randint(-2, 2))))
        if k == 1: return sym([r.choice(list(range(1, 256))) for _ in range(r.choice([0, 1, 3, 10]))])
        if k == 2: return string([r.choice(list(range(256))) for _ in range(r.choice([0, 1, 3, 10, 127, 128]))])
        if k == 3: return char(r.randrange(256))
        return r.choice(CONST)

    def datum(self, d):
        r = self.r
        if d == 0 or r.random() < .25: return self.atom()
        xs = [self.datum(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        k = r.random()
        if k < .4: return lst(xs)
        if k < .7: return vec(xs)
        return imp(xs or [self.atom()], self.datum(d - 1))


def simple(data):
    """Write each datum to one file, read all back, once more."""
    n = len(data)
    ops = [dict(op="create", f=1, p=1)] + [dict(op="write", p=1, d=i + 1) for i in range(n)] + [dict(op="close", p=1, out=True), dict(op="open", f=1, p=1)]
    ops += [dict(op="read", p=2, same=i + 1) for i in range(n)]
    return dict(data=data, files=1, ops=ops)


def history(r, g):
    data = [g.datum(r.choice([0, 1, 2, 3])) for _ in range(r.randint(1, 6))]
    nf = r.randint(1, 3)
    ops, ports = [], []
    files = {f: None for f in range(1, nf + 1)}      # None, "writing", number of data
    count = {}
    for _ in range(r.randint(8, 40)):
        k = r.random()
        f = r.randint(1, nf)
        if k < .15 and files[f] != "writing" and not any(p["f"] == f and p["open"] for p in ports):
            files[f] = "writing"; count[f] = 0
            ports.append(dict(f=f, out=True, open=True, n=0)); ops.append(dict(op="create", f=f, p=1))
        elif k < .3 and isinstance(files[f], int):
            ports.append(dict(f=f, out=False, open=True, n=0)); ops.append(dict(op="open", f=f, p=1))
        elif k < .35:
            d = r.randint(1, len(data))
            ops.append(dict(op="show", d=d))
        elif k < .45:
            c = [i for i, x in enumerate(data) if x["k"] in ("vec", "list", "imp")]
            if c: ops.append(dict(op="poke", d=r.choice(c) + 1, v=g.atom()))
        else:
            live = [i for i, p in enumerate(ports) if p["open"]]
            if not live: continue
            i = r.choice(live)
            p = ports[i]
            if p["out"]:
                if k < .85: ops.append(dict(op="write", p=i + 1, d=r.randint(1, len(data)))); count[p["f"]] += 1
                else: ops.append(dict(op="close", p=i + 1, out=True)); p["open"] = False; files[p["f"]] = count[p["f"]]
            elif p["n"] < files[p["f"]] or r.random() < .05:
                ops.append(dict(op="read", p=i + 1)); p["n"] += 1
            elif r.random() < .5: ops.append(dict(op="close", p=i + 1, out=False)); p["open"] = False
    for i, p in enumerate(ports):      # drain
        if p["open"] and p["out"]:
            ops.append(dict(op="close", p=i + 1, out=True)); files[p["f"]] = count[p["f"]]
    for f in files:
        if isinstance(files[f], int) and files[f]:
            ports.append({}); ops.append(dict(op="open", f=f, p=1))
            for _ in range(files[f]): ops.append(dict(op="read", p=len(ports)))
    return dict(data=data, files=nf, ops=ops)


def check(c):
    c.mc(tlc_ok(c.work, "FaslCodec", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = 2\nINVARIANTS RoundTrip Truncated\n"))
    b = Build(c.work)
    r = Runner(b)
    g = Gen(c.rng)
    scripts = []
    # every atom near a border of the encoding
    nums = sorted({max(-2 ** 63, min(2 ** 63 - 1, s * 2 ** e + d)) for e in range(64) for s in (1, -1) for d in (-1, 0, 1)})
    scripts.append(simple([num(n) for n in nums]))
    scripts.append(simple([char(i) for i in range(256)]))
    scripts.append(simple([string([i]) for i in range(256)]))
    scripts.append(simple([sym([i]) for i in range(1, 256)]))
    scripts.append(simple(CONST + [lst([x]) for x in CONST] + [vec([x, x]) for x in CONST] + [imp([x], y) for x in CONST for y in CONST]))
    for n in (1, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 1000, 4095, 4096, 16383, 16384) + (() if c.quick else (65535, 65536, 100000, 2097152)):
        big = n > 20000
        scripts.append(simple([long(n), longs(n)] + ([] if n > 200000 else [many(n, num(1)), many(n, char(97), "manyv")]) + [num(7)]))
        if n < 20000: scripts.append(simple([deep(n, num(1)), many(3, deep(n // 4, string([34]))), num(7)]))
    for _ in range(c.n(600, 6000)): scripts.append(simple([g.datum(c.rng.choice([1, 2, 3, 4])) for _ in range(c.rng.randint(1, 5))]))
    for _ in range(c.n(900, 9000)): scripts.append(history(c.rng, g))
    res = run_scripts(c, "Fasl", "F", scripts, chunk=1000, inv=["NeverPastEnd"])
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        out, status = "", "exit 0"
        for o, x in zip(s["ops"], rs):
            if x[0] == "stop": status = "error"; break
            if o["op"] in ("read", "show"): out += dec(x[1]) + ("#t" if o.get("same") else "") + "\n"
        c.add("histories"); c.add("data read", sum(o["op"] == "read" for o in s["ops"]))
        tests.append(dict(key="history %d" % i, text=render(s, i), out=out, status=status))
        if i in (4, len(scripts) - 1): c.sample(dict(program=tests[-1]["text"][-400:], expected=out[-300:]))
    compare(c, r, tests, timeout=30)
    truncated(c, b, r, g)
    c.assumptions = ["symbols are interned", "data without records (a record type read back is a new type), nested less than 100000 deep", "strings and symbols without NUL"]


def truncated(c, b, r, g):
    """Every proper prefix of a file: the data wholly inside it are read, then an error."""
    files = []
    for i in range(c.n(30, 300)):
        data = [g.datum(c.rng.choice([1, 2])) for _ in range(c.rng.randint(1, 3))]
        if i == 0: data = [string([97] * 200), many(130, num(300)), lst([sym([98] * 3)])]
        files.append(data)
    # sizes of the files holding the first k data
    progs, where = [], []
    for i, data in enumerate(files):
        for k in range(len(data) + 1):
            ops = [dict(op="create", f=1, p=1)] + [dict(op="write", p=1, d=j + 1) for j in range(k)] + [dict(op="close", p=1, out=True)]
            path = os.path.join(r.dir, "trunc%d_%d" % (i, k))
            text = render(dict(data=data, ops=ops), 0).replace('(string-append (car (command-line)) ".f1")', '"%s"' % path)
            progs.append(text); where.append((i, k, path))
    for x in r.run(progs, 20):
        if x.status != "exit 0": raise CheckError("writing failed: %s" % x.err)
    ends = {}
    for i, k, path in where: ends.setdefault(i, []).append((os.path.getsize(path), path))
    tests, scripts, src = [], [], []
    for i, data in enumerate(files):
        sizes = [e[0] for e in ends[i]]
        whole = open(ends[i][-1][1], "rb").read()
        if sizes[0] != 0 or sorted(set(sizes)) != sizes: c.violation("sizes", "writing a datum adds no bytes: sizes %r of %s" % (sizes, [expr(d) for d in data])); continue
        cuts = range(len(whole)) if len(whole) < 400 else sorted(c.rng.sample(range(len(whole)), 150))
        for cut in cuts:
            keep = sum(1 for z in sizes[1:] if z <= cut)
            path = os.path.join(r.dir, "cut%d_%d" % (i, cut))
            with open(path, "wb") as f: f.write(whole[:cut])
            n = len(data)
            scripts.append(dict(data=data, files=1, ops=[dict(op="create", f=1, p=1)] + [dict(op="write", p=1, d=j + 1) for j in range(keep)] + [dict(op="open", f=1, p=1)] + [dict(op="read", p=2, same=j + 1) for j in range(n)]))
            rd = dict(data=data, ops=[dict(op="open", f=1, p=1)] + [dict(op="read", p=1, same=j + 1) for j in range(n)])
            src.append((render(rd, 0).replace('(string-append (car (command-line)) ".f1")', '"%s"' % path), keep, cut, i))
    for s, rs, (text, keep, cut, i) in zip(scripts, run_scripts(c, "Fasl", "F", scripts, chunk=1000, inv=["NeverPastEnd"]), src):
        reads = [x for x in rs[keep + 2:]]
        out = "".join(dec(x[1]) + "#t\n" for x in reads if x[0] != "stop")
        tests.append(dict(key="file %d cut after %d bytes" % (i, cut), text=text, out=out, status="error" if any(x[0] == "stop" for x in reads) else "exit 0"))
    c.add("truncated files", len(tests))
    compare(c, r, tests, timeout=20)


if __name__ == "__main__":
    main("C11", "model_checking", check)
