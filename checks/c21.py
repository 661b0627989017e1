"""C21: ports deliver exactly the characters written, in order, then end of file."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}
NAMES = {0: "nul", 7: "alarm", 8: "backspace", 9: "tab", 10: "newline", 11: "vtab", 12: "page", 13: "return", 27: "esc", 32: "space", 127: "delete"}
def lit(cs): return '"' + "".join(ESC.get(c, chr(c)) for c in cs) + '"'
def codes(s): return [ord(ch) for ch in s]

PRE = '''(define-values (num) (lambda (c) (display (if (eof-object? c) -1 (if (char? c) (char->integer c) (if (eq? c #t) 1 (if (eq? c #f) 0 c))))) (newline)))
(define-values (str) (lambda (s) (for-each (lambda (c) (display (char->integer c)) (display " ")) (string->list s)) (newline)))
(define-values (dat) (lambda (x) (if (eof-object? x) (num x) (begin (write x) (newline)))))
(define-values (putn) (lambda (n f) (if (= n 0) (void) (begin (f) (putn (- n 1) f)))))
(define-values (readn) (lambda (n k sum p) (if (= n 0) (begin (display k) (display " ") (display sum) (newline))
  (let-values ([(c) (read-char p)]) (if (eof-object? c) (begin (readn 0 k sum p)) (readn (- n 1) (+ k 1) (+ sum (* (char->integer c) (+ 1 (modulo (+ k 1) 7)))) p))))))
'''
# data and what write and display print for them
DATA = [("12", "12", "12"), ("'abc", "abc", "abc"), ('"x y"', '"x y"', "x y"), ("'(a (b 1) \"s\")", '(a (b 1) "s")', "(a (b 1) s)"), ("'()", "()", "()"),
        ("'(a . b)", "(a . b)", "(a . b)"), ("#\\a", "#\\a", "a"), ("(vector 1 #\\b)", "#(1 #\\b)", "#(1 b)"), ('"q\\"\\n"', '"q\\"\\n"', 'q"\n'), ("#t", "#t", "#t"),
        ("(box 'k)", "#&k", "#&k"), ("-7", "-7", "-7"), ('""', '""', "")]


def render(s, results):
    out = [PRE, "(define-values (p1) (current-input-port))", "(define-values (p2) (current-output-port))"]
    n = 2
    f = lambda i: '(string-append (car (command-line)) ".f%d")' % i
    exp, status = b"", "exit 0"
    for o, x in zip(s["ops"], results):
        k = o["op"]
        p = "p%d" % o.get("p", 0)
        if k in ("openout", "openin", "strout", "strin"):
            n += 1
            e = {"openout": lambda: "(open-output-file %s)" % f(o["f"]), "openin": lambda: "(open-input-file %s)" % f(o["f"]),
                 "strout": lambda: "(open-output-string)", "strin": lambda: "(open-input-string %s)" % lit(o["t"])}[k]()
            out.append("(define-values (p%d) %s)" % (n, e))
            continue
        if x[0] == "skip": continue
        if k in ("put", "putn"):
            e = o["x"].replace("@", " " + p)
            out.append("(putn %d (lambda () %s))" % (o["n"], e) if k == "putn" else e)
        elif k == "sub": out.append("(put-string %s %s %d%s)" % (p, lit(o["t"]), o["start"], " %d" % o["n"] if o["form"] == 4 else ""))
        elif k == "flush": out.append("(flush-output-port %s)" % p)
        elif k == "get": out.append("(str (get-output-string %s))" % p)
        elif k == "close": out.append("(close-%sput-port %s)" % (o["dir"], p))
        elif k == "readn": out.append("(readn %d 0 0 %s)" % (o["n"], p))
        elif k == "read": out.append("(dat (read%s))" % ("" if o.get("default") else " " + p))
        else: out.append("(num (%s%s))" % (k, "" if o.get("default") else " " + p))
        if x[0] == "stop": status = "error"; break
        if x[0] == "num": exp += b"%d\n" % x[1]
        elif x[0] == "two": exp += b"%d %d\n" % (x[1], x[2])
        elif x[0] == "out": exp += bytes(x[1])
        elif k == "get": exp += b"".join(b"%d " % ch for ch in x[1]) + b"\n"
        elif k == "read": exp += bytes(x[1]) + b"\n"
    return "\n".join(out) + "\n", exp, status


def puts(r, port, wide):
    """One way of writing characters: expression with @ for the port argument, and the characters."""
    k = r.random()
    byte = lambda: r.choice([0] if r.random() < .1 else [10, 32, 40, 41, 34, 59, 97, 98, 122, 48, 57, 13, 255, 128, 254, 1, 127, 92, 35, r.choice([x for x in range(256) if x != 64])])
    if k < .15: b = byte(); return r.choice(["(put-char@ (integer->char %d))" % b] + ["(write-char (integer->char %d)@)" % b]), [b]
    if k < .3:
        t = [byte() for _ in range(r.choice([0, 1, 2, 5, 40]))]
        return r.choice(["(put-string@ %s)", "(display %s@)"]) % lit(t), t
    if k < .4: return "(newline@)", [10]
    if k < .55:
        x, w, d = r.choice(DATA)
        return r.choice([("(write %s@)" % x, codes(w)), ("(put-datum@ %s)" % x, codes(w)), ("(display %s@)" % x, codes(d))])
    if k < .8:      # what read understands
        w = r.choice(["abc", "x", "12", "0", "(a b)", "()", "((x) 1 (y z))", '"st r"', "k9"]) + r.choice([" ", "\n", " \t ", ""])
        return "(put-string@ %s)" % lit(codes(w)), codes(w)
    x, w, d = r.choice(DATA)
    y, w2, d2 = r.choice(DATA)
    return '(fprintf@ "a~~~%s-~%s~%%" %s %s)' % ("sS"[r.random() < .5], "aA"[r.random() < .5], x, y), codes("a~%s-%s\n" % (w, d2))


def history(r, quick):
    s = dict(files=3, stdin=[], ops=[])
    ops = s["ops"]
    ports = [dict(dir="in", file=0, open=True, str=False), dict(dir="out", file=0, open=True, str=False)]
    text = lambda n: [x for _ in range(n) for x in puts(r, 0, False)[1]]
    s["stdin"] = text(r.randint(0, 12))
    files = {1: False, 2: False, 3: False}      # exists
    wild = r.random() < .25
    for _ in range(r.randint(10, 60)):
        k = r.random()
        live = [i for i, p in enumerate(ports) if p["open"]]
        f = r.randint(1, 3)
        if k < .1:
            if not any(ports[i]["file"] == f for i in live):
                ops.append(dict(op="openout", f=f, p=1)); ports.append(dict(dir="out", file=f, open=True, str=False)); files[f] = True
            continue
        if k < .2:
            if files[f] and not any(ports[i]["file"] == f and ports[i]["dir"] == "out" for i in live):
                ops.append(dict(op="openin", f=f, p=1)); ports.append(dict(dir="in", file=f, open=True, str=False))
            continue
        if k < .24: ops.append(dict(op="strout", p=1)); ports.append(dict(dir="out", file=0, open=True, str=True)); continue
        if k < .29: ops.append(dict(op="strin", t=text(r.randint(0, 8)), p=1)); ports.append(dict(dir="in", file=0, open=True, str=True)); continue
        if k < .3 and wild:      # closed port or wrong direction
            i = r.randrange(len(ports))
            p = ports[i]
            if i < 2 and p["open"]: continue
            o = r.choice(["put", "get", "read-char", "peek-char", "char-ready?", "read", "flush", "closein", "closeout"])
            if o == "put": x, t = puts(r, i, not p["str"]); ops.append(dict(op="put", p=i + 1, x=x, t=t))
            elif o.startswith("close"): ops.append(dict(op="close", p=i + 1, dir=o[5:]))
            else: ops.append(dict(op=o, p=i + 1))
            if o.startswith("close") and p["dir"] == o[5:]: p["open"] = False
            continue
        i = r.choice(live if r.random() < .3 or len(live) < 3 else live[2:])
        p = ports[i]
        if p["dir"] == "out":
            if k < .8 or i == 1:
                x, t = puts(r, i, not p["str"])
                if r.random() < .08 and t and i != 1:
                    n = r.choice([2, 10, 300] + ([] if quick else [2000]))
                    ops.append(dict(op="putn", p=i + 1, x=x, t=t, n=n))
                elif r.random() < .12:
                    t = [x for x in t if x] or [97]
                    st = r.randint(0, len(t)) if r.random() < .9 or not wild else len(t) + r.randint(1, 3)
                    n = r.randint(0, max(0, len(t) - st)) if r.random() < .9 or not wild else r.choice([len(t) - st + 1, 2 ** 31 - 1])
                    form = r.choice([3, 4])
                    ops.append(dict(op="sub", p=i + 1, t=t, start=st, n=n if form == 4 else max(0, len(t) - st), form=form))
                else:
                    if i == 1 and r.random() < .5 and "(put-" not in x and "(fprintf" not in x: ops.append(dict(op="put", p=2, x=x.replace("@", ""), t=t))
                    else: ops.append(dict(op="put", p=i + 1, x=x, t=t))
            elif k < .84: ops.append(dict(op="flush", p=i + 1))
            elif p["str"] and k < .94: ops.append(dict(op="get", p=i + 1))
            else: ops.append(dict(op="close", p=i + 1, dir="out")); p["open"] = False
        else:
            d = i == 0 and r.random() < .5
            if k < .5: ops.append(dict(op="read-char", p=i + 1, default=d))
            elif k < .6: ops.append(dict(op="peek-char", p=i + 1, default=d))
            elif k < .64: ops.append(dict(op="char-ready?", p=i + 1, default=d))
            elif k < .85: ops.append(dict(op="read", p=i + 1, default=d))
            elif k < .93: ops.append(dict(op="readn", p=i + 1, n=r.choice([2, 5, 50, 100000])))
            elif i and r.random() < .4: ops.append(dict(op="close", p=i + 1, dir="in")); p["open"] = False
    # everything that can still be read
    for i, p in enumerate(ports):
        if p["open"] and p["dir"] == "out" and i > 1: ops.append(dict(op="get", p=i + 1) if p["str"] else dict(op="close", p=i + 1, dir="out"))
    for f in files:
        if files[f]: ports.append({}); ops += [dict(op="openin", f=f, p=1), dict(op="readn", p=len(ports), n=10 ** 6), dict(op="read-char", p=len(ports)), dict(op="read", p=len(ports)), dict(op="peek-char", p=len(ports))]
    return s


def check(c):
    b = Build(c.work)
    r = Runner(b)
    scripts = [history(c.rng, c.quick) for _ in range(c.n(2500, 30000))]
    # sizes around the buffers of the C library
    for n in (1, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537) if not c.quick else (1, 4095, 4096, 4097, 8193):
        ops = [dict(op="openout", f=1, p=1), dict(op="putn", p=3, x="(put-char@ #\\a)", t=[97], n=n - 1), dict(op="put", p=3, x="(write-char (integer->char 255)@)", t=[255]), dict(op="put", p=3, x="(display \"bc\"@)", t=[98, 99]),
               dict(op="flush", p=3), dict(op="openin", f=1, p=1), dict(op="readn", p=4, n=n - 1), dict(op="peek-char", p=4), dict(op="read-char", p=4), dict(op="read", p=4), dict(op="read", p=4), dict(op="close", p=3, dir="out"), dict(op="read-char", p=4),
               dict(op="strout", p=1), dict(op="putn", p=5, x="(display \"xy\"@)", t=[120, 121], n=n), dict(op="get", p=5), dict(op="put", p=5, x="(display \"z\"@)", t=[122]), dict(op="get", p=5), dict(op="get", p=5)]
        scripts.append(dict(files=1, stdin=[97] * n + [10, 98], ops=ops + [dict(op="readn", p=1, n=n + 1), dict(op="read", p=1), dict(op="read", p=1), dict(op="read-char", p=1)]))
    res = run_scripts(c, "Ports", "P", scripts, chunk=10, inv=["PortsOK"])
    tests = []
    for i, (s, rs) in enumerate(zip(scripts, res)):
        text, out, status = render(s, rs)
        tests.append(dict(key="history %d" % i, text=text, out=out, status=status, stdin=bytes(s["stdin"])))
        c.add("histories"); c.add("operations", len(rs))
        if status != "exit 0": c.add("histories ending in an error")
        for o, x in zip(s["ops"], rs):
            if o["op"] == "read": c.add("data read" if x[0] == "ok" else "other reads")
        if i in (3, 40): c.sample(dict(program=text[len(PRE):][:500], expected=out.decode("latin1")[:200]))
    compare(c, r, tests, timeout=20)
    c.assumptions = ["a file is not read while a port writes unflushed characters to it"]


if __name__ == "__main__":
    main("C21", "model_checking", check)
