"""P04 include search and dependency output: IncludeSearch.tla; runs replayed in scratch directories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from ctok import lex

NAMES = ["a.h", "b.h", "c.h", "e.h"]
DIRS = ["d0", "d1", "d 2", "d$3", "d0/n", "d00", "d#4", "d\\ 5", "d\\\\ 6\\n", 'd"7' ]


def gen(r):
    dirs = r.sample(DIRS, r.choice([2, 3, 4, 5]))
    main = {"dir": r.choice([".", "src", "src"]), "name": "main.c"}
    places = [main["dir"], "."] + dirs + [d + "/s" for d in dirs[:2]] + [main["dir"] + "/s"]
    places = list(dict.fromkeys(places))
    I, isys, idir = [], [], []
    for d in dirs:
        x = r.random()
        (I if x < .55 else isys if x < .8 else idir if x < .92 else []).append(d)
    for l in (I, isys, idir):
        r.shuffle(l)
    if r.random() < .2 and dirs:
        r.choice([I, I, isys, idir]).append(r.choice(dirs))
    if r.random() < .15:
        I.append(r.choice([main["dir"], "."]))
    nn = r.choice([2, 3, 4, 4])
    fs = []

    def directives(k, header):
        b = []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if header else r.choice([1, 2, 3, 4])):
            x = r.random()
            sub = "s" if r.random() < .12 else ""
            lo = k + 1
            if header and x < .3:
                b.append({"o": "next", "q": r.random() < .5, "sub": sub if r.random() < .3 else "", "n": NAMES[r.randint(k, nn - 1)]})
                continue
            if x < .55:
                b.append({"o": "has", "q": r.random() < .5, "sub": sub, "n": NAMES[r.randint(0, nn - 1)]})
                continue
            if lo >= nn:
                continue
            b.append({"o": r.choice(["inc", "inc", "guardinc"]), "q": r.random() < .5, "sub": sub, "n": NAMES[r.randint(lo, nn - 1)]})
        return b
    sysd = set(isys + idir)
    for d in places:
        for k in range(nn):
            if r.random() < (.55 if "/" not in d else .3):
                t = f"T{len(fs)}"
                body = directives(k, True)
                if not body and r.random() < .2:
                    t = ""
                fs.append({"dir": d, "name": NAMES[k], "tag": t, "body": body, "sysdir": any(d == s or d.startswith(s + "/") for s in sysd)})
    fs.append({"dir": main["dir"], "name": "main.c", "tag": "TM", "body": directives(-1, False), "sysdir": False})
    pre = []
    if r.random() < .25:
        pre = [{"name": NAMES[r.randrange(nn)]} for _ in range(r.choice([1, 2]))]
    return {"fs": fs, "I": I, "isystem": isys, "idirafter": idir, "main": main, "pre": pre}


def spell(d, r, n):
    nm = (d["sub"] + "/" if d["sub"] else "") + d["n"]
    h = f'"{nm}"' if d["q"] else f"<{nm}>"
    if d["o"] == "next":
        return f"#include_next {h}"
    if d["o"] == "has":
        return r.choice([f"#if __has_include({h})\nyes\n#else\nno\n#endif", f"#if !__has_include({h})\nno\n#elif 1\nyes\n#endif",
                         f"#if 0\n#elif __has_include( {h} )\nyes\n#else\nno\n#endif"])
    if d["o"] == "guardinc":
        return f"#if __has_include({h})\n#include {h}\n#endif"
    return r.choice([f"#include {h}", f"# include {h}", f"#define HN{n} {h}\n#include HN{n}"])


def unmake(text):
    """rules of a dependency file -> list of (targets, prerequisites), quoting undone"""
    rules = []
    text = text.replace("\\\n", " ")
    for line in text.split("\n"):
        if not line.strip():
            continue
        words, cur, i, tgt = [], "", 0, None
        while i <= len(line):
            ch = line[i] if i < len(line) else " "
            if ch == "\\":
                # 2k + 1 backslashes before a blank: k backslashes and the blank; elsewhere they are literal
                k = len(line) - i - len(line[i:].lstrip("\\"))
                if line[i + k:i + k + 1] in (" ", "\t") and i + k < len(line):
                    cur += "\\" * (k // 2)
                    i += k
                    if k % 2:
                        cur += line[i]; i += 1
                    continue
                if line[i + k:i + k + 1] == "#":
                    cur += "\\" * (k - 1) + "#"; i += k + 1; continue
                cur += "\\" * k; i += k; continue
            if ch == "$" and line[i + 1:i + 2] == "$":
                cur += "$"; i += 2; continue
            if ch == "#":
                break
            if ch == ":" and tgt is None:
                if cur:
                    words.append(cur)
                tgt, words, cur = words, [], ""
            elif ch in " \t":
                if cur:
                    words.append(cur)
                cur = ""
            else:
                cur += ch
            i += 1
        rules.append((tgt or [], words))
    return rules


def marked(text):
    """words of preprocessed text with the file the line marker before them names"""
    f, res = "", []
    for l in text.split("\n"):
        m = re.match(r'# \d+ "((?:[^"\\]|\\.)*)"', l)
        if m:
            f = re.sub(r"\\(.)", r"\1", m[1])
        else:
            res += [(w, f) for w in l.split()]
    return res


def norm(p):
    return p[2:] if p.startswith("./") else p


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 2500 if c.quick else 25000
    cases = [gen(c.rng) for _ in range(N)]
    recs = []
    for b in chunks(list(range(N)), 5000):
        for x in c.tlc("IncludeSearch", [cases[i] for i in b], invariants=["TypeOk", "FirstMatch"]):
            x["cid"] = b[x["cid"] - 1]
            recs.append(x)
    amb = sum(x["amb"] for x in recs)
    recs = [x for x in recs if not x["amb"] and len(x["out"]) < 150]
    c.extra.update({"ambiguous_discarded": amb, "not_found_cases": sum(x["err"] for x in recs)})

    def one(x):
        k, case = x["cid"], cases[x["cid"]]
        r = random.Random(f"{c.seed}:{k}")
        d = c.path(f"w{k}")
        n = 0
        for p in set(case["I"] + case["isystem"] + case["idirafter"] + ["src"]):
            os.makedirs(os.path.join(d, p), exist_ok=True)
        have = {(f["dir"], f["name"]) for f in case["fs"]}
        for f in case["fs"]:
            os.makedirs(os.path.join(d, f["dir"]), exist_ok=True)
            body = [f["tag"]] if f["tag"] else []
            for y in f["body"]:
                n += 1
                body.append(spell(y, r, n))
            with open(os.path.join(d, f["dir"], f["name"]), "w") as fh:
                fh.write("\n".join(body) + ("\n" if body else ""))
        if r.random() < .2:      # a directory is not a file
            for p in case["I"][:1]:
                if (p, "c.h") not in have:
                    os.makedirs(os.path.join(d, p, "c.h"), exist_ok=True)
        opts = []
        for kind in ("I", "isystem", "idirafter"):
            for p in case[kind]:
                p2 = p + r.choice(["", "", "/"])
                opts.append([f"-{kind}", p2] if r.random() < .5 else [f"-{kind}{p2}"])
        # options of different kinds may come in any order
        order = {"I": [o for o in opts if o[0].startswith("-I")], "s": [o for o in opts if o[0].startswith("-isystem")], "d": [o for o in opts if o[0].startswith("-idirafter")]}
        args = []
        while any(order.values()):
            q = r.choice([q for q in order if order[q]])
            args += order[q].pop(0)
        for p in case["pre"]:
            args += ["-include", p["name"]]
        m = (case["main"]["dir"] + "/" if case["main"]["dir"] != "." else "") + "main.c"
        argv = [cc, "-nostdinc"] + args
        bad = None
        exp = [t for t in x["out"] if t]
        for attempt in range(2):
            bad = None
            rc, o, e = sh(argv + ["-E", m], cwd=d, timeout=15)
            if x["err"]:
                if rc <= 0 or b"internal" in e:
                    bad = {"what": "missing header not diagnosed", "rc": rc}
            else:
                got = lex("\n".join(l for l in o.decode(errors="replace").split("\n") if not re.match(r'# \d+ "', l)))
                own = {f["tag"]: (f["dir"] + "/" if f["dir"] != "." else "") + f["name"] for f in case["fs"] if f["tag"]}
                wrong = [(t, f) for t, f in marked(o.decode(errors="replace")) if t in own and norm(f) != norm(own[t])]
                if not rc and got == exp and wrong:
                    bad = {"what": "line markers", "got": wrong[:4], "expected": [own[t] for t, _ in wrong[:4]]}
                elif rc or got != exp:
                    bad = {"what": "text", "rc": rc, "got": got, "expected": exp, "stderr": e.decode(errors="replace")[-200:]}
            if not bad:
                break
        if not bad and not x["err"]:
            mm = r.choice(["-M", "-MM", "-MD", "-MMD"])
            mp = r.random() < .5
            comp = mm in ("-MD", "-MMD") and r.random() < .5
            dep = "out dir.d" if r.random() < .2 else "out.d"
            a = argv + [mm, "-MF", dep] + (["-MP"] if mp else [])
            tgt = r.choice([None, None, "-MT", "-MQ"])
            want_t = ["main.o"]
            if tgt:
                a += [tgt, "t$$1" if tgt == "-MT" else "t$1 x"]
                want_t = ["t$1"] if tgt == "-MT" else ["t$1 x"]
            a += (["-E", "-o", "o.i"] if mm in ("-MD", "-MMD") else []) + [m]
            want = [((f["dir"] + "/" if f["dir"] != "." else "") + f["name"], f["sys"]) for f in x["read"]]
            # a -include file found in a system directory: whether -MM lists it is not settled
            want = {norm(p) for p, s in want if not (s and mm in ("-MM", "-MMD"))}
            if not (mm in ("-MM", "-MMD") and any(p["name"] for p in case["pre"])):
                for attempt in range(2):
                    bad = None
                    rc, o, e = sh(a, cwd=d, timeout=15)
                    try:
                        rules = unmake(open(os.path.join(d, dep)).read())
                    except OSError:
                        rules = []
                    got = {norm(p) for p in rules[0][1]} if rules else None
                    ph = {norm(t) for ts, ps in rules[1:] for t in ts}
                    if rc or got != want:
                        bad = {"what": "dependencies", "cmd": a[1:], "rc": rc, "got": sorted(got or []), "expected": sorted(want), "stderr": e.decode(errors="replace")[-200:]}
                    elif rules[0][0] != want_t:
                        bad = {"what": "dependency target", "cmd": a[1:], "got": rules[0][0], "expected": want_t}
                    elif mp and ph != want - {norm(m)}:
                        bad = {"what": "phony targets", "cmd": a[1:], "got": sorted(ph), "expected": sorted(want - {norm(m)})}
                    elif not mp and len(rules) > 1:
                        bad = {"what": "unexpected rules", "got": rules}
                    if not bad:
                        break
        if bad:
            files = {f["dir"].replace("/", "_") + "_" + f["name"]: open(os.path.join(d, f["dir"], f["name"])).read() for f in case["fs"]}
            bad.update({"args": args, "main": m})
        shutil.rmtree(d, ignore_errors=True)
        return (k, bad, files) if bad else None
    for b in c.pmap(one, recs):
        c.traces += 1
        if b:
            c.violation(f"include:seed{c.seed}:{b[0]}:{b[1]['what']}", b[1], b[2])
    c.samples += [{"I": cases[x["cid"]]["I"], "isystem": cases[x["cid"]]["isystem"], "text": x["out"], "read": [f["dir"] + "/" + f["name"] for f in x["read"]]} for x in recs[:4]]
    c.assumptions.append("include_next in a file that was not found through the search list and could find itself is left out")


if __name__ == "__main__":
    run_check("P04", main)
