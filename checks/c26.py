"""C26: the command line runs the given program with its arguments and reports status."""
import sys, os, subprocess, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

VARS = ["x", "y", "zed", "a-b"]
VALUES = [("1", ["1"]), ("-5", ["-5"]), ("#t", ["#t"]), ("'(1 2 3)", ["(1 2 3)"]), ("'sym", ["sym"]), ("'()", ["()"]), ("(values)", []), ("(values 1 2 3)", ["1", "2", "3"]), ("(values 'a)", ["a"]), ("(void)", []),
          ("((lambda (q) (+ q 1)) 4)", ["5"]), ("(if #f 1 2)", ["2"]), ("(let-values ([(q r) (values 3 4)]) (values r q))", ["4", "3"]), ("(begin 1 2)", ["2"]), ("(quote (a . b))", ["(a . b)"]), ("(vector 1 'a)", ["#(1 a)"]), ("(list)", ["()"]), ("(values 1 (void) 3)", None)]
BAD = [")", "(1 . )", "(display 1", "'", "(1 . 2 3)"]


def form(r, prompt, defined, lib):
    if r.random() < .08:
        fs = []
        while len(fs) < 3 or r.random() < .3:
            d = set(defined)
            f = form(r, True, d, lib)
            if f[0]["k"] not in ("bad", "seq") and (prompt or f[0]["k"] not in ("vals", "ref", "call")):
                fs.append(f)
                defined |= d
        return dict(k="seq", fs=[f for f, _ in fs]), "(begin %s)" % " ".join(t for _, t in fs)
    k = r.choice(["out"] * 4 + ["def"] * 3 + ["show", "ref", "set", "call", "vals", "vals", "vals", "args", "args"] + (["exit", "err", "bad"] if r.random() < .25 else []))
    x = r.choice(sorted(defined)) if defined and (lib or r.random() < .9) else r.choice(VARS)
    if lib and not defined and k in ("show", "ref", "set", "call"): k = "def"      # the expander rejects unbound names before evaluation
    if k == "out":
        t = r.choice(["hi", "a b", "\n", "", "> ", "x\n", "(1)"])
        return dict(k=k, t=t), "(display (string%s))" % "".join(" #\\newline" if ch == "\n" else " #\\space" if ch == " " else " #\\" + ch for ch in t)
    if k == "def":
        x, v = r.choice([x for x in VARS if x not in defined] or VARS), r.randint(-9, 99)
        if x in defined: return dict(k="set", x=x, v=v), "(set! %s %d)" % (x, v)
        defined.add(x)
        return dict(k=k, x=x, v=v), "(define-values (%s) %d)" % (x, v)
    if k in ("show", "ref", "set", "call"):
        v = r.randint(0, 50)
        if k == "set" and x not in defined: k = "show"
        return dict(k=k, x=x, v=v), {"show": "(begin (display %s) (newline))" % x, "ref": x, "set": "(set! %s %d)" % (x, v), "call": "((lambda (q) (+ q %s)) %d)" % (x, v)}[k]
    if k == "vals":
        t, ts = r.choice(VALUES[:-1])
        return dict(k=k, ts=ts), t
    if k == "args": return dict(k=k), "(for-each (lambda (q) (begin (display (string-length q)) (display #\\:) (display q) (newline))) (command-line))"
    if k == "exit":
        v = r.choice([0, 1, 2, 3, 7, 127, 128, 255])
        return dict(k=k, v=v), r.choice(["(exit %d)", "(begin (exit %d) (display #\\!))"]) % v if v or r.random() < .5 else "(exit)"
    if k == "err": return dict(k=k), r.choice(["(error 'me \"boom\")", "(raise 'x)", "(car 5)", "((lambda (q) q))", "(exit 256)", "(exit 'a)"])
    return dict(k="bad"), None


def program(r, n, prompt, defined, lib):
    fs, out = [], ""
    for i in range(n):
        f, t = form(r, prompt, defined, lib)
        if not prompt and f["k"] in ("vals", "ref", "call"): f, t = dict(k="out", t="v"), "(display (string #\\v))"      # what a file's values do is not stated
        fs.append(f)
        if t is None:
            t = r.choice(BAD)
            if t[-1] not in ")": n = i + 1      # the text ends there
        out += r.choice(["\n", " ", "\n\n", " ; note (\n", "\n#| x |# ", " #;(skip) "]) + t
        if f["k"] == "bad": break
    return fs, out + r.choice(["", "\n", " ", " ; end", "\n\n"])


TOK = dict(i=["-i", "--interactive"], q=["-q", "--quiet"], nolibs=["--no-libs"], end=["--"], bad=["--nope", "-z", "--interactiv", "--quiet2", "---", "-Q"])
NAMES = ["m.min", "./m.min", "sub/m.min", "sub/../m.min", "noext", "a b.min", "-dash.min", "--quiet"]
ARGS = ["a", "", "-i", "--", "-q", "--no-libs", "--nope", "x y", "(1 2)", "#t", "\"q\"", "m.min", "0" * 300, "~a", "\\", "*", "-"]


def run_case(r, lib, exe_dir, seq):
    """one invocation"""
    defined = set()
    opts = [] if lib else ["nolibs"]
    for _ in range(r.choice([0, 1, 1, 2, 3])): opts.append(r.choice(["i", "q", "q"] + ([] if lib else ["nolibs"])))
    if r.random() < .06: opts.append("bad")
    r.shuffle(opts)
    name = r.choice(NAMES)
    with_file = r.random() < .8
    if name.startswith("-") or r.random() < .15: opts.append("end")
    argv = [dict(c=o, t=r.choice(TOK[o])) for o in opts]
    files = {}
    text = None
    if with_file:
        if r.random() < .07: name = "missing.min"
        else:
            fs, text = program(r, r.randint(0, 8), False, defined, lib)
            files[name] = fs
        argv.append(dict(c="word", t=name))
        for _ in range(r.choice([0, 0, 1, 2, 5])): argv.append(dict(c="word", t=r.choice(ARGS)))
    # without a file the prompt evaluates core forms
    input, itext = program(r, r.randint(0, 9), True if with_file else "c", defined, lib and with_file)
    return dict(argv=[dict(a, n=len(a["t"])) for a in argv], files=files or {"?": []}, input=input, name=name, text=text, itext=itext, lib=lib)


def invoke(c, exe, i, case):
    d = c.work.path("run%d" % i)
    os.makedirs(d + "/sub")
    if case["text"] is not None:
        with open(os.path.join(d, case["name"]), "w") as fh: fh.write(case["text"])
    try:
        p = subprocess.run([exe] + [a["t"] for a in case["argv"]], input=case["itext"].encode(), capture_output=True, cwd=d, timeout=120)
        got = p.stdout.decode("latin1"), p.returncode, p.stderr.decode("latin1")
    except subprocess.TimeoutExpired: got = "", "timeout", ""
    shutil.rmtree(d)
    return got


def check(c):
    b = Build(c.work, need=("minim",))
    r = c.rng
    cases = [run_case(r, False, None, i) for i in range(c.n(1200, 15000))] + [run_case(r, True, None, i) for i in range(c.n(1200, 15000))]
    # no options at all: the prompt
    for i in range(6):
        x = run_case(r, True, None, i)
        cases.append(dict(x, argv=[], files={"?": []}, text=None))
        x["input"], x["itext"] = program(r, 6, "c", set(), False)
        cases[-1].update(input=x["input"], itext=x["itext"])
    exps = run_scripts(c, "CommandLine", "L", [dict(files=x["files"], ops=[dict(argv=x["argv"], input=x["input"])]) for x in cases], chunk=1)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda q: invoke(c, b.minim, *q), enumerate(cases)))
    for x, e, (out, rc, err) in zip(cases, exps, got):
        e = e[0][1]
        want, st = "".join(e["out"]), e["status"]
        c.traced(); c.add("invocations"); c.add("with the library" if x["lib"] else "without the library"); c.add("prompts", want.count("> "))
        if want.startswith("BANNER\n"): out = re.sub(r"\AMinim v[^\n]+\n", "BANNER\n", out)
        if st != "error": ok = out == want and str(rc) == st
        elif x["lib"]: ok = rc == 1 and out.startswith(want) and (out != want or err.strip() != "")      # the message may go to either
        else: ok = rc == 1 and out == want and err.strip() != ""
        if not ok:
            c.violation("invocation %s" % ("library" if x["lib"] else "core"), "minim %s\nfile:\n%s\ninput:\n%s\nexpected status %s, output:\n%s\nobserved status %s, output:\n%s\nstderr: %s" % (" ".join(repr(a["t"]) for a in x["argv"]), x["text"], x["itext"], st, want, rc, out, err[-400:]))
    c.sample(dict(argv=[a["t"] for a in cases[5]["argv"]], expected=exps[5][0][1]))
    c.assumptions = ["arguments are bytes without NUL below 128", "the prompt's own error recovery is none: an error ends the process"]


if __name__ == "__main__":
    main("C26", "model_checking", check)
