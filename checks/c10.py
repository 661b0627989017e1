"""C10: reading what was written gives back the datum; reading is a function of the text alone."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CORE = dict(same='''(define-values (same) (lambda (x)
  (let-values ([(p) (open-output-string)]) (write x p)
    (let-values ([(i) (open-input-string (get-output-string p))])
      (let-values ([(y) (read i)]) (if (equal? x y) (eof-object? (read i)) #f))))))
''', datum="x")
LIB = dict(same='''(define-values (same) (lambda (x)
  (let-values ([(p) (open-output-string)]) (write x p)
    (let-values ([(i) (open-input-string (get-output-string p))])
      (let-values ([(y) (syntax->datum (read i))]) (if (equal? x y) (eof-object? (read i)) #f))))))
''', datum="(syntax->datum x)")
ALL = '''(define-values (go) (lambda (p) (let-values ([(x) (read p)])
  (if (eof-object? x) (if (eof-object? (read p)) (display "eof") (display "more"))
      (let-values ([(x) %(datum)s]) (write x) (newline) %(check)s (go p))))))
(go %(port)s)
'''
ONE = '''(define-values (rest) (lambda (p) (let-values ([(c) (read-char p)]) (if (eof-object? c) (void) (begin (display (char->integer c)) (display " ") (rest p))))))
(define-values (go) (lambda (p) (let-values ([(x) (read p)]) (if (eof-object? x) (display "eof") (begin (write %(datum)s) (newline) (rest p))))))
(go %(port)s)
'''
PORTS = ["(current-input-port)", '(open-input-file (string-append (car (command-line)) ".in"))']


def string_port(text):
    esc = {34: b'\\"', 92: b"\\\\"}
    return b'(open-input-string "' + b"".join(esc.get(c, bytes([c])) for c in text) + b'")'


# ---------------------------------------------------------------- texts

class Gen:
    """Random data and random ways of writing them."""

    def __init__(self, rng): self.r = rng

    def atom(self):
        r = self.r
        k = r.random()
        if k < .25:
            n = r.choice([0, 1, -1, 7, 42, -300, 2**31, -2**31, 2**63 - 1, -2**63, r.randint(-10**18, 10**18)])
            return ("num", n)
        if k < .5: return ("sym", r.choice(["a", "b", "foo", "+", "-", "...", "->x", "set!", "x.y", "a|b", "#%x", "+a", "-.5", "1+", "12ab", "-5e", "a'b", "a#b", "\xe9", "q" * r.choice([1, 30, 64, 65])]))
        if k < .7: return ("str", bytes(r.choice([97, 98, 32, 10, 9, 13, 7, 8, 11, 12, 34, 92, 59, 35, 40, 124, 39, 200, 255, 1, 0, 127, 27]) for _ in range(r.choice([0, 1, 2, 5, 20]))))
        if k < .85: return ("char", r.choice(list(range(0, 35)) + [40, 41, 59, 97, 98, 100, 101, 108, 110, 112, 114, 115, 116, 118, 120, 92, 124, 127, 128, 200, 255]))
        return ("bool", r.random() < .5)

    def datum(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .3: return self.atom()
        if k < .65: return ("list", [self.datum(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))])
        if k < .75: return ("imp", [self.datum(d - 1) for _ in range(r.choice([1, 2, 3]))], self.datum(d - 1))
        if k < .85: return ("vec", [self.datum(d - 1) for _ in range(r.choice([0, 1, 2, 4]))])
        if k < .92: return ("box", self.datum(d - 1))
        return (r.choice(["quote", "quote", "qs"]), self.datum(d - 1))

    def gap(self, p, need, after=True):
        """Text between data: whitespace and comments; after: follows a datum."""
        r = self.r
        out = b""
        while r.random() < p:
            k = r.random()
            if k < .5: out += r.choice([b" ", b"\n", b"\t", b"\r", b"\f", b"\v", b"  "])
            elif k < .65: out += b";" + r.choice([b"", b" c ( \" #| |# ", b"\xff", b"#;"]) + b"\n"
            elif k < .85: out += b"#|" + r.choice([b"", b"a", b"#|x|#", b"|", b"||", b"x# ", b"#||#", b" ; \" (", b"\xff", b"#| #| |# |#"]) + b"|#"
            else: out += b"#;" + self.gap(.2, False, False) + self.text(self.datum(1), p * .5) + b" "
        if after and out[:1] == b"#": return r.choice([b" ", b"\n"]) + out
        return out if out or not need else b" "

    def text(self, x, p):
        r = self.r
        k = x[0]
        if k == "num":
            n = x[1]
            if r.random() < p * .3: return b"#x" + (b"-" if n < 0 else r.choice([b"", b"+"])) + ("%x" % abs(n)).encode()
            if r.random() < p * .3: return (b"-" if n < 0 else r.choice([b"", b"+"])) + b"0" * r.choice([0, 1, 20]) + str(abs(n)).encode()
            return str(n).encode()
        if k == "sym": return x[1].encode("latin1")
        if k == "bool": return b"#t" if x[1] else b"#f"
        if k == "char":
            nm = {0: b"nul", 7: b"alarm", 8: b"backspace", 9: b"tab", 10: b"newline", 11: b"vtab", 12: b"page", 13: b"return", 27: b"esc", 32: b"space", 127: b"delete"}
            if x[1] == 10 and r.random() < p: return b"#\\linefeed"
            return b"#\\" + (nm[x[1]] if x[1] in nm and (x[1] == 0 or r.random() > p * .5) else bytes([x[1]]))
        if k == "str":
            e = {7: b"\\a", 8: b"\\b", 10: b"\\n", 12: b"\\f", 13: b"\\r", 9: b"\\t", 11: b"\\v", 34: b'\\"', 92: b"\\\\"}
            return b'"' + b"".join(e[c] if c in (34, 92) or c in e and r.random() > p * .5 else (b"\\'" if c == 39 and r.random() < p else bytes([c])) for c in x[1]) + b'"'
        if k in ("list", "imp", "vec"):
            o, c = (b"(", b")") if k == "vec" else r.choice([(b"(", b")"), (b"[", b"]"), (b"{", b"}")]) if r.random() < p else (b"(", b")")
            out = (b"#" if k == "vec" else b"") + o + self.gap(p, False, False)
            for i, y in enumerate(x[1]):
                out += (self.gap(p, True) if i else b"") + self.text(y, p)
            if k == "imp": out += self.gap(p, True) + b"." + r.choice([b" ", b"\n"]) + self.gap(p, False, False) + self.text(x[2], p)
            return out + self.gap(p, False) + c
        return {"box": b"#&", "quote": b"'", "qs": b"#'"}[k] + self.gap(p * .3, False, False) + self.text(x[1], p)


def mutate(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        i = rng.randint(0, len(t))
        if k < .4 and t: del t[min(i, len(t) - 1)]
        elif k < .7: t[i:i] = rng.choice([b"(", b")", b"[", b"]", b"#", b";", b"|", b"'", b".", b" ", b'"', b"\\", b" . ", b"#;", b"#|", b"|#", b"a", b"-", b"9", b"#(", b"#&", b"\xff", b"#\\", b"#x"])
        elif k < .85: t = t[:i]
        elif t: t[min(i, len(t) - 1)] = rng.choice(b"()[]#;|'. \"\\a1x&")
    return bytes(t)


def depth(t):
    d = m = 0
    for c in t:
        d += (c in b"([{") - (c in b")]}")
        m = max(m, d)
    return m


def run_model(c, texts, qs):
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT QuoteSyntax <- %s\nINVARIANTS Report Bounded Complete\n" % qs
    res = [None] * len(texts)
    t = tlc_ok(c.work, "ReaderMC", cfg, files={"texts.json": json.dumps([list(x) for x in texts])})
    c.mc(t)
    for j in t.json(): res[j["id"] - 1] = j
    if None in res: raise CheckError("no result for some texts")
    return res


def tests_for(c, texts, groups, kit, qs, modes):
    res = run_model(c, texts, qs)
    # the decorations of one datum all denote it
    by = {}
    for g, x in zip(groups, res):
        if g is not None:
            v = (x["status"], [d["text"] for d in x["out"]])
            if by.setdefault(g, v) != v: raise CheckError("the specification reads decorated texts differently: group %s" % g)
    # what is written reads back
    written = sorted({bytes(d["text"]) for x in res for d in x["out"]})
    again = dict(zip(written, run_model(c, written, qs)))
    def round_trips(t, src):      # symbols spelled .x or read from #x... may not
        a = again[t]
        ok = a["status"] == "eof" and len(a["out"]) == 1 and bytes(a["out"][0]["text"]) == t
        if not ok and b"." not in t and b"#x" not in src: raise CheckError("the specification does not read back %r" % t)
        return ok
    tests = []
    for i, (t, x) in enumerate(zip(texts, res)):
        ds = [bytes(d["text"]) for d in x["out"]]
        mode = modes(i)
        port = PORTS[i % 3].encode() if i % 3 < 2 or b"\0" in t else string_port(t)
        pre = kit.get("imp", "").encode()
        if mode == "one":
            text = pre + (ONE % dict(datum=kit["datum"], port="@")).encode().replace(b"@", port)
            out = ds[0] + b"\n" + b"".join(b"%d " % ch for ch in t[x["out"][0]["pos"]:]) if ds else b"eof" if x["status"] == "eof" else b""
            ok = x["status"] == "eof" or ds
        else:
            strict = all(round_trips(d, t) for d in ds)
            text = pre + (kit["same"] if strict else "").encode() + (ALL % dict(datum=kit["datum"], port="@", check="(display (same x)) (newline)" if strict else "")).encode().replace(b"@", port)
            out = b"".join(d + b"\n" + (b"#t\n" if strict else b"") for d in ds) + (b"eof" if x["status"] == "eof" else b"")
            ok = x["status"] == "eof"
        tests.append(dict(key="text %r" % t[:200], text=text, stdin=t, out=out, status="exit 0" if ok else "error"))
        c.add("texts accepted" if x["status"] == "eof" else "texts rejected")
    return tests


def check(c):
    b = Build(c.work)
    g = Gen(c.rng)
    texts, groups = [], []
    def add(t, grp=None):
        if b"\0" not in t: texts.append(t); groups.append(grp)
    # every short text over the characters the reader distinguishes
    alpha = [b"(", b")", b"]", b"'", b"#", b";", b"|", b".", b"a", b"1", b'"', b"\\", b" ", b"\n", b"&", b"-"]
    for n in range(0, c.n(3, 4) + 1):
        for w in itertools.product(alpha, repeat=n): add(b"".join(w))
    prefixes = [b"(1 . ", b"#(a ", b"(a #;", b"[(", b"#|", b"'#&", b"#;#;", b"#\\", b'("', b"(a . b "]
    for p in prefixes:
        for n in range(1, c.n(2, 3) + 1):
            for w in itertools.product(alpha, repeat=n): add(p + b"".join(w))
    # every character literal, alone and named
    for ch in range(1, 256): add(b"#\\" + bytes([ch])); add(b"#\\" + bytes([ch]) + b"x"); add(b'"' + bytes([ch]) + b'"'); add(b'"\\' + bytes([ch]) + b'"'); add(b"a" + bytes([ch]) + b"b")
    for nm in (b"alarm", b"backspace", b"delete", b"esc", b"linefeed", b"newline", b"nul", b"page", b"return", b"space", b"tab", b"vtab"):
        for t in (nm, nm + b")", nm + b"(", nm + b"x", nm[:-1], nm[:2], nm[:1] + b" " + nm[1:], nm.upper()): add(b"#\\" + t)
    # numbers around the limits
    for n in (2**63 - 2, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 5, 10 * 2**63, 2**66, 10**19, 10**30, 0, 1, 10):
        for s in (b"", b"-", b"+"):
            for z in (b"", b"0", b"000"):
                add(s + z + str(n).encode()); add(b"#x" + s + z + (b"%x" % n)); add(b"#x" + s + z + (b"%X" % n) + b")")
    # decorated data, and damaged ones
    k = 0
    for i in range(c.n(500, 20000)):
        k += 1
        ds = [g.datum(c.rng.choice([1, 2, 3, 4])) for _ in range(c.rng.choice([1, 1, 2, 3]))]
        variants = []
        for p in (0, .2, .5):
            t = g.gap(p, False, False) + b" ".join(g.text(x, p) for x in ds) + g.gap(p, False)
            variants.append(t)
            add(t, k)
        add(mutate(c.rng, c.rng.choice(variants)))
        add(mutate(c.rng, c.rng.choice(variants)))
    # long tokens and deep nesting
    for n in (62, 63, 64, 65, 127, 128, 1000, 4094, 4095, 4096, 4097):
        if n < 200 or not c.quick: add(b'"' + b"a" * n + b'" b'); add(b"(" + b"s" * n + b")"); add(b"0" * n + b"7")
        add(b"s" * n + b" t"); add(b"0" * n + b"a")
        if n < 2000: add(b'"' + b"\\n" * n + b'"')
    for n in (100, 1000): add(b"(" * n + b"a" + b")" * n); add(b"'" * (n // 4) + b"a"); add(b"#;" * n + b" a" * n + b" b"); add(b"(" * n); add(b"#&" * (n // 4) + b"x"); add(b"#(" * n + b")" * n)
    add(b"(" + b"a " * 3000 + b")"); add(b"#(" + b"1 " * 3000 + b")"); add(b"#|" * 50 + b"|#" * 50 + b"x")
    r = Runner(b)
    tests = tests_for(c, texts, groups, CORE, "CoreQuote", lambda i: "one" if i % 5 == 4 else "all")
    # too deep for the C stack: either a datum or an error
    c.sample(dict(text=texts[-30].decode("latin1")[:300], expected=tests[-30]["out"].decode("latin1")[:300]))
    for i in c.rng.sample(range(len(texts)), 3): c.sample(dict(text=texts[i].decode("latin1")[:300], expected=tests[i]["out"].decode("latin1")[:300], status=tests[i]["status"]))
    compare(c, r, tests, timeout=20)
    deep = []
    for n in (30000, 300000):
        for t in (b"(" * n + b")" * n, b"'" * n + b"a", b"#;" * n + b" a" * n, b"#&" * n + b"a", b"#(" * n + b")" * n):
            deep.append((b"(read)", t))
    for (p, t), x in zip(deep, r.run(deep, timeout=20)):
        if x.kind != "exit": c.violation("deep text", "reading %r... (%d characters) ends with %s" % (t[:20], len(t), x.status))
        else: c.traced()
    # the library's reader
    rl = Runner(b, lib=True, preload="read.min")
    kit = dict(LIB, imp=rl.imp("read.min"))
    pick = [i for i in range(len(texts)) if len(texts[i]) < 600 and depth(texts[i]) < 40]
    pick = [i for i in pick if groups[i] is not None] [:c.n(600, 12000)] + c.rng.sample(pick, c.n(1500, 20000))
    lt = tests_for(c, [texts[i] for i in pick], [groups[i] for i in pick], kit, "LibQuote", lambda i: "one" if i % 5 == 4 else "all")
    compare(c, rl, lt, timeout=20)
    c.assumptions = ["no NUL characters in texts", "data nested less than 20000 deep are accepted; deeper ones may be rejected"]


if __name__ == "__main__":
    main("C10", "model_checking", check)
