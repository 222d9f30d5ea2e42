"""P05 presumed locations: LineNumbering.tla, replayed through slimcc -E."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from ctok import lex

PRE = "#define ML __LINE__ __FILE__\n#define DUP(x) [ x : x __LINE__ __FILE__ ]\n#define N77 77\n#define ST asm(\"# MARK\");\n#define ST2(x) x(\"# MARK\");\n"
DISP = ["foo.c", "dir/b ar.y", "a\\b.c", "q\"uote", "n\\new", "\u00e9t\u00e9.c", "h1.h", "main.c", ""]


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def uncstr(t):
    s, i = "", 1
    while i < len(t) - 1:
        if t[i] == "\\":
            s += {"n": "\n"}.get(t[i + 1], t[i + 1]); i += 2
        else:
            s += t[i]; i += 1
    return s


def gen(r):
    nf = r.choice([1, 2, 3, 4])
    n = [0]

    def tok():
        n[0] += 1
        return {"o": r.choice(["t", "t", "ts"]), "s": f"tag{n[0]}"}

    def inline(depth):
        x = r.random()
        if x < .3:
            return [{"o": "L"}]
        if x < .4:
            return [{"o": "F"}]
        if x < .47:
            return [{"o": "C"}]
        if x < .5:
            return [{"o": "B"}]
        if x < .6:
            return [{"o": "ML"}]
        if x < .7:
            return [{"o": "sp"}]
        if x < .8:
            return [{"o": "cn", "n": r.choice([0, 1, 1, 2, 4])}]
        if x < .9 or depth > 1:
            return [tok()]
        a = []
        for _ in range(r.choice([1, 2, 3, 5])):
            a += [{"o": "nl"}] if r.random() < .3 else inline(depth + 1)
        return [{"o": "open"}] + a + [{"o": "close"}]

    files = []
    for k in range(1, nf + 1):
        it = []
        for _ in range(r.choice([0, 2, 4, 8]) if k > 1 else r.choice([3, 6, 10])):
            x = r.random()
            if x < .45:
                for _ in range(r.choice([0, 1, 2, 4])):
                    it += inline(0)
                it.append({"o": "nl"})
            elif x < .62 and k < nf:
                it.append({"o": "inc", "n": r.randint(k + 1, nf)})
            elif x < .78:
                named = r.random() < .5
                it.append({"o": "line", "n": r.choice([1, 7, 10, 77, 100, 999, 65535, 65536, 2147480000]), "named": named, "s": r.choice(DISP) if named else ""})
            elif x < .84:
                it.append({"o": "if", "m": (m := r.choice([2, 3, 10])), "r": r.randrange(m)})
            elif x < .88:
                it.append({"o": "ifc", "m": 2, "r": r.randrange(2)})
            elif x < .93:
                it.append({"o": "skip", "n": r.choice([2, 3, 5, 8])})
            else:
                it += [{"o": "nl"}] * r.choice([1, 3])
        files.append({"name": "main.c" if k == 1 else f"h{k}.h", "items": it})
    return {"files": files}


def gendbg(r):
    """statements of a function spread over files; their places are read from the line table"""
    nf = r.choice([1, 2, 3, 4])
    files = []
    for k in range(1, nf + 1):
        it = []
        for _ in range(r.choice([2, 4, 8]) if k > 1 else r.choice([3, 6, 10])):
            x = r.random()
            if x < .5:
                for _ in range(r.choice([1, 1, 2, 4])):
                    it += r.choice([[{"o": "st"}], [{"o": "st"}], [{"o": "sp"}], [{"o": "cn", "n": r.choice([0, 1, 2])}]])
                it.append({"o": "nl"})
            elif x < .68 and k < nf:
                it.append({"o": "inc", "n": r.randint(k + 1, nf)})
            elif x < .86:
                named = r.random() < .5
                it.append({"o": "line", "n": r.choice([1, 7, 10, 77, 100, 999, 65535, 65536, 2147480000]), "named": named, "s": r.choice(DISP[:-1]) if named else ""})
            elif x < .93:
                it.append({"o": "skip", "n": r.choice([2, 3, 5, 8])})
            else:
                it += [{"o": "nl"}] * r.choice([1, 3])
        files.append({"name": "main.c" if k == 1 else f"h{k}.h", "items": it})
    return {"files": files, "dbg": True}


def render(items, r, first):
    out = []
    i = 0
    while i < len(items):
        d = items[i]
        o = d["o"]
        bol = not out or out[-1].endswith("\n")
        if o == "t":
            out.append(d["s"] + " ")
        elif o == "ts":
            s = d["s"]
            c = r.randrange(1, len(s))
            out.append(s[:c] + "\\\n" + s[c:] + " ")
        elif o in "LFCB":
            out.append({"L": "__LINE__", "F": "__FILE__", "C": "__COUNTER__", "B": "__BASE_FILE__"}[o] + " ")
        elif o == "st":
            out.append(r.choice(['asm("# MARK"); ', '__asm__ volatile ("# MARK"); ', "ST ", "ST2(asm) ", '{ asm("# MARK"); } ', 'if (1) asm("# MARK"); ']))
        elif o == "ML":
            out.append("ML ")
        elif o == "nl":
            out.append(r.choice(["\n", "\n", "\n", " // com 'ment\n", "\t\n"]))
        elif o == "sp":
            if i + 1 < len(items) and items[i + 1]["o"] == "nl" and r.random() < .4:
                out.append("// rest \\\n still \" comment\n")
                i += 1
            else:
                out.append(r.choice(["\\\n", "\\\n", "/* \\\n ' */ ", "/\\\n* x */ "]))
        elif o == "cn":
            t = "/*"
            for _ in range(d["n"]):
                t += r.choice(["", " '", " \"", "//", " __COUNTER__", " #line 3"]) + "\n"
            out.append(t + r.choice(["*/ ", " * **/ ", "__LINE__*/ "]))
        elif o == "open":
            out.append(r.choice(["DUP( ", "DUP ( "]))
        elif o == "close":
            out.append(") ")
        elif o == "line":
            num = str(d["n"])
            f = cstr(d["s"]) if d["named"] else ""
            x = r.random()
            if x < .5:
                num = r.choice(["", "0", "00"]) + num if r.random() < .3 else num
                t = f"#line {num} {f}"
            elif x < .6 and d["n"] == 77:
                t = f"# line N77 {f}"
            elif d["named"]:
                t = f"# {num} {f}{r.choice(['', ' 1', ' 2', ' 3 4'])}"
            else:
                t = f"# {num}" if r.random() < .5 else f"#line {num}"
            out.append(r.choice(["", "", " "]) + t + r.choice(["", "", " // c", " /* c */"]) + "\n")
        elif o == "if":
            out.append(f"#if __LINE__ % {d['m']} == {d['r']}\nyes\n#else\nno\n#endif\n")
        elif o == "ifc":
            out.append(f"#if __COUNTER__ % {d['m']} == {d['r']}\nyes\n#else\nno\n#endif\n")
        elif o == "skip":
            L = ["#line 5 \"no.c\"", "__COUNTER__", "/* */ x", "# 3 \"zz\"", "\"str\\", "y\""]
            body = []
            while len(body) < d["n"] - 2:
                if d["n"] - 2 - len(body) >= 2 and r.random() < .4:
                    body += r.choice([["/* multi", "line */ z"], ["spl\\", "iced"], ["#if __COUNTER__", "#endif"]])
                else:
                    body.append(r.choice(L[:4]))
            out.append("#if 0\n" + "".join(b + "\n" for b in body) + "#endif\n")
        elif o == "inc":
            out.append(f'#include "h{d["n"]}.h"\n')
        i += 1
    t = "".join(out)
    if t.endswith("\n") and r.random() < .3 and not t.endswith("\\\n"):
        t = t[:-1]
    if r.random() < .1:
        t = t.replace("\n", "\r\n")
    if r.random() < .05:
        t = "\ufeff" + t
    return t


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 6000 if c.quick else 30000
    cases = [gen(c.rng) for _ in range(N)]
    cases += [gendbg(c.rng) for _ in range(N // 4)]
    N = len(cases)
    recs = []
    for b in chunks(list(range(N)), 5000):
        for x in c.tlc("LineNumbering", [cases[i] for i in b], invariants=["Sane"], properties=["Restored"] if not c.quick else []):
            recs.append((b[x["cid"] - 1], x["out"]))

    def one(x):
        k, exp = x
        r = random.Random(f"{c.seed}:{k}")
        d = c.path(f"w{k}")
        os.makedirs(d)
        with open(d + "/pre.h", "w") as f:
            f.write(PRE + ("void f(void) {\n" if cases[k].get("dbg") else ""))
        files = {}
        for j, f in enumerate(cases[k]["files"]):
            files[f["name"]] = render(f["items"], r, j == 0).encode()
            with open(f"{d}/{f['name']}", "wb") as fh:
                fh.write(files[f["name"]])
        bad = None
        if cases[k].get("dbg"):
            with open(d + "/main.c", "wb") as fh:
                fh.write(files["main.c"] + (b"" if files["main.c"].endswith(b"\n") else b"\n") + b"}\n")
            for attempt in range(2):
                rc, o, e = sh([cc, "-g", "-S", "-o", "-", "-include", "pre.h", "main.c"], cwd=d, timeout=15)
                names, here, got = {}, None, []
                for l in o.decode(errors="replace").split("\n"):
                    if m := re.match(r'\s*\.file (\d+) (".*")$', l):
                        n = uncstr(m[2])
                        names[m[1]] = n[2:] if n.startswith("./") else n
                    elif m := re.match(r"\s*\.loc (\d+) (\d+)", l):
                        here = (names.get(m[1]), int(m[2]))
                    elif "# MARK" in l:
                        got.append(here)
                bad = None
                if rc or len(got) != len(exp):
                    bad = {"what": "statements", "rc": rc, "n": (len(got), len(exp)), "stderr": e.decode(errors="replace")[-300:]}
                for i, (g, x2) in enumerate(zip(got, exp)):
                    if not g or g[0] != x2["s"] or not x2["lo"] <= g[1] <= x2["hi"]:
                        bad = {"what": "line table", "index": i, "got": g, "expected": x2}
                        break
                if not bad:
                    break
            shutil.rmtree(d, ignore_errors=True)
            return (k, bad, files) if bad else None
        for attempt in range(2):
            rc, o, e = sh([cc, "-E", "-P", "-include", "pre.h", "main.c"], cwd=d, timeout=15)
            got = lex(o.decode(errors="replace"))
            bad = None
            if rc or len(got) != len(exp):
                bad = {"what": "tokens", "rc": rc, "n": (len(got), len(exp)), "stderr": e.decode(errors="replace")[-300:]}
            for i, (g, x2) in enumerate(zip(got, exp)):
                if x2["k"] == "t":
                    ok = g == x2["s"]
                elif x2["k"] == "s":
                    ok = g[:1] == '"' and (lambda s: s[2:] if s.startswith("./") else s)(uncstr(g)) == x2["s"]
                else:
                    ok = g.isdigit() and x2["lo"] <= int(g) <= x2["hi"]
                if not ok:
                    bad = {"what": "token", "index": i, "got": g, "expected": x2, "context": got[max(0, i - 4):i + 4]}
                    break
            if not bad:
                break
        shutil.rmtree(d, ignore_errors=True)
        return (k, bad, files) if bad else None
    for b in c.pmap(one, recs):
        c.traces += 1
        if b:
            c.violation(f"line:seed{c.seed}:{b[0]}", b[1], b[2])
    c.extra["locations_compared"] = sum(sum(1 for y in x[1] if y["k"] != "t") for x in recs)
    # malformed directives are diagnosed
    for s in ["#line", "#line x", "#line -1", "#line 0x10", "#line 1.0", "#line 1 foo", "#line 2147483648", "#line \"f\" 1", "# 12x", "#line 1 2"]:
        rc, o, e = sh([cc, "-E", "-P", "-"], inp=(s + "\n").encode())
        c.traces += 1
        if rc <= 0:
            c.violation("badline:" + s, {"rc": rc, "source": s})
    c.samples += [{"files": cases[k]["files"], "out": o[:6]} for k, o in recs[:2]]
    c.assumptions.append("in a continued line, and for a multi-line invocation's body, any of its physical lines is accepted")


if __name__ == "__main__":
    run_check("P05", main)
