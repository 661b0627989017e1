"""C16: modules.  spec/Modules.tla loads programs of modules; TLC checks it on all small
import graphs and runs generated programs; the same programs, written to files in several
directories, are loaded by the library."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

INV = "Once DepsFirst Acyclic Hidden Complete Ends"
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n%s\nINVARIANTS " + INV + " %s\n"
DIRS = ["", "", "s/", "s/t/", "u/"]


def program(r):
    n = r.choice([2, 3, 3, 4, 5, 6])
    order = list(range(1, n + 1))
    mods, exps, kinds = {}, {}, {}
    hidden = []              # names some module does not export
    bad = r.choice([None] * 9 + ["use", "use", "use", "late", "all", "missing"])
    culprit = r.randint(1, n)
    for m in reversed(order):
        js = [j for j in range(m + 1, n + 1) if r.random() < .55]
        if m > 1 and not js and m < n and r.random() < .5: js = [r.randint(m + 1, n)]
        if m == 1 and not js: js = [2]
        r.shuffle(js)
        if js and r.random() < .25: js.append(r.choice(js))          # twice
        seen = {x for j in js for x in exps[j]}
        own, items, k = [], [], [0]
        def name(kind):
            k[0] += 1; x = "%s%d-%d" % (kind[0] if kind != "cell" else "c", m, k[0]); own.append(x); kinds[x] = kind; return x
        def vis(*ks): return [x for x in list(own) + sorted(seen) if kinds[x] in ks]
        def expr(d, macros=True):
            q = r.random()
            if d and q < .3: return ["add", expr(d - 1, macros), expr(d - 1, macros)]
            ms = [x for x in vis("mac", "via") if x not in later]
            if d and q < .6 and ms and macros: return ["use", r.choice(ms), expr(d - 1, macros)]
            fs = vis("cell", "fun"); vs = vis("val")
            if q < .85 and fs: return ["call", r.choice(fs)]
            if vs: return ["v", r.choice(vs)]
            return ["n", r.randint(0, 40)]
        later = set()
        for _ in range(r.choice([0, 1, 1])): items.append(["cell", name("cell")])
        for _ in range(r.choice([0, 0, 1, 2])):
            q = r.random(); ms = vis("mac", "via", "ct"); fs = [x for x in sorted(seen) if kinds[x] == "cell"]
            c = r.randint(0, 40)
            if q < .35 and ms:
                y = r.choice(ms); x = name("ct" if kinds[y] == "ct" else "via"); items.append(["via", x, c, y])
            elif q < .65 and fs: y = r.choice(fs); items.append(["ct", name("ct"), y])
            else: items.append(["mac", name("mac"), c])
        r.shuffle(items) if not any(i[0] == "via" for i in items) else None
        for _ in range(r.choice([1, 2, 3, 4])):
            q = r.random()
            if q < .2:
                e = expr(2); items.append(["val", name("val"), e])
            elif q < .4:
                e = expr(2); items.append(["fun", name("fun"), e])
            else:
                cts = vis("ct"); e = expr(2)
                if cts and r.random() < .5: e = ["use", r.choice(cts), expr(1, False)]
                items.append(["show", m * 100 + len(items), e])
        if bad == "use" and m == culprit:
            outs = [x for x in kinds if x not in seen and x not in own] + ["nowhere"]
            x = r.choice(outs); kd = kinds.get(x, r.choice(["val", "cell", "mac"]))
            e = ["use", x, ["n", 1]] if kd in ("mac", "via", "ct") else ["call", x] if kd in ("cell", "fun") else ["v", x]
            if r.random() < .5: e = ["add", e, ["n", 1]]
            items.append(["show", m * 100 + 90, e] if r.random() < .6 else ["fun", "f%d-90" % m, e])
        imps = [["import", j] for j in js]
        if bad == "missing" and m == culprit: imps.insert(r.randint(0, len(imps)), ["import", n + 1])
        ex = [x for x in own if r.random() < .6] + [x for x in sorted(seen) if r.random() < .1]
        exports = [["export", x] for x in dict.fromkeys(ex)]
        alls = [j for j in dict.fromkeys(js) if r.random() < .3]
        exps[m] = set(ex) | {x for j in alls for x in exps[j]}
        exports += [["all", j] for j in alls]
        if bad == "late" and m == culprit: exports.insert(r.randint(0, len(exports)), ["export", r.choice(["nowhere", "q%d" % m])])
        if bad == "all" and m == culprit:
            js2 = [j for j in range(m + 1, n + 1) if j not in js]
            if js2: exports.append(["all", r.choice(js2)])
        # imports before what needs them is not required: anywhere in the file
        r.shuffle(exports)
        out = imps + exports + items
        if r.random() < .4:
            out = list(items)
            for e in exports: out.insert(r.randint(0, len(out)), e)
            at = sorted(r.randint(0, len(out)) for _ in imps)
            for i, e in zip(reversed(at), reversed(imps)): out.insert(i, e)
            # a re-export follows the import it names
            for e in [e for e in out if e[0] == "all"]:
                out.remove(e); out.append(e)
        mods[m] = out
    missing = [n + 1] if bad == "missing" else []
    ms = [mods[m] for m in order] + ([[]] if missing else [])
    return dict(mods=ms, missing=missing)


def etext(e):
    if e[0] == "n": return str(e[1])
    if e[0] == "v": return e[1]
    if e[0] == "call": return "(%s)" % e[1]
    if e[0] == "use": return "(%s %s)" % (e[1], etext(e[2]))
    return "(+ %s %s)" % (etext(e[1]), etext(e[2]))


def spell(r, frm, to, where):
    """a way to write the path of file `to` (relative to the program's directory) in a file of directory frm"""
    p = os.path.relpath(to, frm or ".")
    k = r.random()
    if k < .5: return p
    if k < .6: return "./" + p
    if k < .7: return os.path.join(where, to)
    if k < .8: return "././" + p
    up = os.path.relpath(".", frm or ".")
    return ("" if up == "." else up + "/") + r.choice(["s/../", "s/t/../../", "u/.././"]) + to


def write(r, lib, s, where):
    files = ["%sm%d.min" % (r.choice(DIRS) if i else "", i + 1) for i in range(len(s["mods"]))]
    for d in ("s/t", "u"): os.makedirs(os.path.join(where, d), exist_ok=True)
    for i, items in enumerate(s["mods"]):
        if i + 1 in s["missing"]: continue
        d = os.path.dirname(files[i])
        base = os.path.relpath(lib.build.lib + "/base.min", os.path.join(where, d))
        t, k = '(import "%s")\n' % base, 0
        while k < len(items):
            x = items[k]; k += 1
            if x[0] in ("import", "export", "all"):
                kw = "import" if x[0] == "import" else "export"
                part = lambda x: '"%s"' % spell(r, d, files[x[1] - 1], where) if x[0] == "import" else x[1] if x[0] == "export" else '(all "%s")' % spell(r, d, files[x[1] - 1], where)
                ps = [part(x)]
                while k < len(items) and items[k][0] in (("import",) if kw == "import" else ("export", "all")) and r.random() < .6:
                    ps.append(part(items[k])); k += 1
                t += "(%s %s)\n" % (kw, " ".join(ps))
            elif x[0] == "cell": t += "(define %s (let ([c 0]) (lambda () (set! c (+ c 1)) c)))\n" % x[1]
            elif x[0] == "val": t += "(define %s %s)\n" % (x[1], etext(x[2]))
            elif x[0] == "fun": t += "(define (%s) %s)\n" % (x[1], etext(x[2]))
            elif x[0] == "show": t += '(let ([v %s]) (display "L%d ") (display v) (newline))\n' % (etext(x[2]), x[1])
            elif x[0] == "mac": t += "(define-syntax %s (syntax-rules () [(_ a) (+ %d a)]))\n" % (x[1], x[2])
            elif x[0] == "via": t += "(define-syntax %s (syntax-rules () [(_ a) (%s (+ %d a))]))\n" % (x[1], x[3], x[2])
            elif x[0] == "ct": t += "(define-syntax (%s stx) (define n (%s)) (syntax-case stx () [(_ a) (datum->syntax (list (quote-syntax +) n #'a))]))\n" % (x[1], x[2])
        with open(os.path.join(where, files[i]), "w") as f: f.write(t)
    return os.path.join(where, files[0])


def dump(where):
    out = ""
    for d, _, fs in sorted(os.walk(where)):
        for f in sorted(fs): out += "--- %s\n%s" % (os.path.relpath(os.path.join(d, f), where), open(os.path.join(d, f)).read())
    return out


def check(c):
    b = Build(c.work)
    lib = Runner(b, lib=True, preload="base.min")
    r = c.rng
    cases = []
    for n in (3, 4) if c.quick else (3, 4, 5):
        t = tlc_ok(c.work, "ModulesMC", CFG % (" N = %d\n Scripts <- Every" % n, "Seen Calls Report"), timeout=700)
        c.mc(t)
        js = sorted(t.json(), key=lambda j: j["id"])
        c.cov["import graphs of %d modules" % n] = len(js)
        cases += [(j, j) for j in (js if n == 3 else r.sample(js, min(len(js), c.n(250, 2000))))]
    scripts = [program(r) for _ in range(c.n(900, 9000))]
    t = tlc_ok(c.work, "ModulesRun", CFG % (" Scripts <- FromFile", "Report"), files={"scripts.json": json.dumps(scripts)}, timeout=700)
    c.mc(t)
    js = {j["id"]: j for j in t.json()}
    cases += [(s, js[i + 1]) for i, s in enumerate(scripts)]
    items = []
    for i, (s, j) in enumerate(cases):
        where = os.path.join(lib.dir, "g%d" % i); os.makedirs(where)
        items.append((write(r, lib, s, where), where, j))
    res = lib.run_paths([(p, []) for p, _, _ in items], timeout=40)
    left = 0
    for i, ((p, where, j), x) in enumerate(zip(items, res)):
        got = x.out.decode("latin1")
        want = "".join("L%d %d\n" % (l, v) for l, v in j["log"])
        def agrees(x):
            got = x.out.decode("latin1")
            if j["status"] == "done": return x.status == "exit 0" and got == want
            if x.status != "exit 1" or not (x.out + x.err).strip(): return False
            seen = "".join(l + "\n" for l in got.split("\n") if re.match(r"L\d+ -?\d+$", l))
            if j["status"] == "error": return seen == want and got.startswith(want)
            return want.startswith(seen)                # the export of nothing may be found before the body runs
        c.add("programs: " + {"done": "loaded", "error": "rejected before the body", "late": "undefined export"}[j["status"]])
        c.add("effects observed", len(j["log"]))
        if i == len(items) - 1: c.sample(dict(program=dump(where)[:1500], expected=want[:300]))
        if agrees(x): c.traced(); continue
        if x.kind == "skipped": left += 1; continue
        x = lib.run_paths([(p, [])], timeout=60)[0]
        if agrees(x): continue
        c.violation("program %d" % i, "%s\n--- expected (%s)\n%s\n--- got (%s)\n%s" % (dump(where), j["status"], want, x.status, (x.out + x.err).decode("latin1")[:1500]))
        if len(c.violations) >= 3: break
    if left and not c.violations: raise CheckError("%d programs not run: out of time" % left)
    c.assumptions = ["no symbolic link makes two paths one file", "no two definitions seen by a module have the same name",
                     "an argument of a macro does not use a macro that only the module of the macro sees (the expander is not hygienic)"]


if __name__ == "__main__":
    main("C16", "model_checking", check)
