"""P02 conditional inclusion: CondIncl.tla enumerated/driven by TLC, replayed through slimcc -E."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from ctok import lex

CONDS = ["0", "1", "A", "!A", "A==2", "A<B", "defined A", "!defined(B)", "defined(A) && A", "!defined(A) || B", "A ? B : 1"]
BADS = ["1 +", "", "(", ") 1", "1 2", "defined", "defined(A"]
JUNK = ["@ `", "\\ x", "1.2.3.4e+q 0x", "#", "# 12 abc", "\"str\" 'c' )", "T999"]
JUNKDIR = ["#bad directive", "#error no", '#include "no-such-file.h"', "#define", "#include", "#undef 1", "#define 3 4",
           "#define F(x", "#line x"]


def L(o, n=""):
    return {"o": o, "n": n}


T = lambda n: L("text", n)
# headers (number -> lines); text numbers 100+ belong to headers
HEADERS = [
    [L("ifndef", "G1"), L("define", ["G1", 1]), T(101), L("endif")],                               # 1 plain guard
    [L("ifndef", "G2"), T(102), L("else"), T(103), L("endif")],                                    # 2 guard-like with #else
    [L("ifndef", "G1"), L("define", ["G1", 1]), T(104), L("endif"), T(105)],                       # 3 text after the guard
    [L("ifndef", "G1"), T(106), L("endif"), L("ifndef", "G2"), T(107), L("endif")],                # 4 two conditionals
    [L("once"), T(108)],                                                                           # 5 pragma once
    [L("if", "0"), L("once"), L("endif"), T(109)],                                                 # 6 skipped pragma once
    [L("ifndef", "G3"), T(110), L("endif")],                                                       # 7 guard defined elsewhere
    [L("ifndef", "G2"), T(111), L("elif", "A"), T(112), L("endif")],                               # 8 #elif in guard
    [L("if", "!defined(G3)"), L("define", ["G3", 1]), T(113), L("endif")],                         # 9 #if !defined
    [L("ifndef", "G1"), L("define", ["G1", 1]), L("ifdef", "G2"), T(114), L("else"), T(115), L("endif"), L("endif")],  # 10 nested
    [L("ifndef", "G4"), L("define", ["G4", 1]), L("include", 1), T(116), L("endif")],              # 11 nested include
    [L("ifndef", "G2"), L("define", ["G2", 1]), L("include", 12), T(117), L("undef", "G2"), L("endif")],  # 12 self include
    [L("ifdef", "A"), L("once"), L("endif"), T(118)],                                              # 13 conditional once
    [L("ifndef", "A"), L("define", ["A", 2]), T(119), L("endif")],                                 # 14 guard is A
    [L("ifndef", "G2"), L("elifndef", "A"), T(120), L("endif")],                                   # 15
    [L("include", 7), L("ifndef", "G3"), L("define", ["G3", 1]), T(121), L("endif")],              # 16 include before the guard
    [],                                                                                            # 17 empty
    [L("ifndef", "G1"), T(122)],                                                                   # 18 unterminated
    [T(123), L("endif")],                                                                          # 19 stray endif
    [L("ifndef", "G1"), L("if", "A"), T(124), L("endif"), L("include", 1), L("endif")],            # 20
    [L("ifndef", "G4"), L("define", ["G4", 1]), L("elif", "1"), T(125), L("endif")],               # 21
]
ILL = {18, 19}


def random_header(r):
    """near-guards: a conditional with things before, inside and after it"""
    def filler(n):
        out = []
        for _ in range(n):
            x = r.random()
            out.append(T(r.randint(126, 996)) if x < .5 else L("define", [r.choice(["G1", "G2", "A"]), 1]) if x < .75
                       else L("undef", r.choice(["G1", "G2", "A"])) if x < .9 else L("null"))
        return out
    g = r.choice(["G1", "G2"])
    h = filler(r.choice([0, 0, 0, 0, 1])) if r.random() < .5 else []
    if r.random() < .1:
        h.append(L("once"))
    h.append(L("ifndef", g) if r.random() < .85 else r.choice([L("ifdef", g), L("if", "!defined(G3)")]))
    if r.random() < .7:
        h.append(L("define", [g if r.random() < .85 else "G4", 1]))
    h += filler(r.choice([0, 1, 2]))
    if r.random() < .3:
        h += [L(r.choice(["ifdef", "ifndef"]), r.choice(["A", "G1", "G2"]))] + filler(1) + ([L("else")] + filler(1) if r.random() < .5 else []) + [L("endif")]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        h.append(L(r.choice(["elifdef", "elifndef"]), r.choice(["A", "G1", "G2"])) if r.random() < .7 else L("elif", r.choice(["A", "1", "0"])))
        h += filler(1)
    if r.random() < .2:
        h += [L("else")] + filler(1)
    h.append(L("endif"))
    x = r.random()
    if x < .15:
        h += filler(1)
    elif x < .3:
        h += [L("ifndef", r.choice(["G1", "G2", "A"]))] + filler(1) + [L("endif")]
    return h


NFIXED = len(HEADERS)


def spell(l, rng):
    o, n = l["o"], l["n"]
    h = rng.choice(["#", "#", "#", "# ", "  #", "#/**/"])
    if o == "text":
        return f"T{n}"
    if o in ("if", "elif"):
        e = rng.choice(BADS) if n == "bad" else n
        return f"{h}{o} {e}"
    if o in ("ifdef", "ifndef", "elifdef", "elifndef"):
        return f"{h}{o} {n}"
    if o in ("else", "endif"):
        return h + o
    if o == "define":
        return f"{h}define {n[0]} {n[1]}"
    if o == "undef":
        return f"{h}undef {n}"
    if o == "once":
        return h + "pragma once"
    if o == "null":
        return "#"
    if o == "junk":
        return rng.choice(JUNK)
    if o == "junkdir":
        return rng.choice(JUNKDIR)
    if o == "include":
        return f'{h}include "h{n}.h"'
    raise ValueError(o)


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def text(self):
        self.n += 1
        return T(self.n % 97 + 1)

    def simple(self):
        r = self.r
        x = r.random()
        if x < .4:
            return self.text()
        if x < .55:
            return L("define", [r.choice(["A", "B", "G1", "G2", "G3"]), r.choice([0, 1, 2])])
        if x < .68:
            return L("undef", r.choice(["A", "B", "G1", "G2", "G3", "G4"]))
        if x < .92:
            return L("include", r.choice([i for i in range(1, len(HEADERS) + 1) if i not in ILL]))
        return L("null")

    def opener(self):
        r = self.r
        x = r.random()
        if x < .5:
            return L("if", r.choice(CONDS))
        return L(r.choice(["ifdef", "ifndef"]), r.choice(["A", "B", "G1", "G2"]))

    def group(self, d, dead):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if d and r.random() < .4:
                out += self.cond(d - 1, dead)
            elif dead and r.random() < .4:
                out.append(L(r.choice(["junk", "junkdir"])))
            else:
                out.append(self.simple())
        return out

    def cond(self, d, dead=False):
        r = self.r
        o = self.opener()
        if dead and r.random() < .2:
            o = L("if", "bad")
        sure = o["o"] == "if" and o["n"] in ("0", "1")
        dead1 = dead or (sure and o["n"] == "0")
        out = [o] + self.group(d, dead1)
        taken = sure and o["n"] == "1"
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            deadn = dead or taken
            if r.random() < .65:
                c = r.choice(["bad", "1"]) if deadn and r.random() < .4 else r.choice(CONDS)
                out.append(L("elif", c))
                g = deadn or c == "0"
                taken = taken or c == "1"
            else:
                out.append(L(r.choice(["elifdef", "elifndef"]), r.choice(["A", "B", "G1"])))
                g = deadn
            out += self.group(d, g)
        if r.random() < .5:
            out.append(L("else"))
            out += self.group(d, dead or taken)
        return out + [L("endif")]

    def case(self):
        r = self.r
        out = []
        if r.random() < .4:    # the same headers again and again, their guards coming and going
            hs = r.sample([i for i in range(1, len(HEADERS) + 1) if i not in ILL], r.choice([1, 1, 2]))
            ns = [r.choice(["G1", "G2"])] + r.choice([[], ["A"], ["A", "G1", "G2", "G3", "G4"]])
            for _ in range(r.choice([4, 6, 8])):
                if r.random() < .5:
                    out.append(L("include", r.choice(hs)))
                else:
                    out.append(L("define", [r.choice(ns), 1]) if r.random() < .5 else L("undef", r.choice(ns)))
            return out + [L("include", h) for h in hs]
        for _ in range(r.choice([1, 2, 3, 4])):
            out += self.cond(2) if r.random() < .55 else [self.simple()]
        if r.random() < .25:   # break it
            i = r.randrange(len(out) + 1)
            x = r.random()
            if x < .3 and i < len(out):
                del out[i]
            elif x < .9:
                out.insert(i, r.choice([L("else"), L("endif"), L("elif", "1"), L("elifdef", "A"), L("if", "1"), L("if", "bad"),
                                        L("junkdir"), L("elif", "bad"), L("include", 18), L("include", 19)]))
            else:
                out = out[:i]
        return out


ALPHA = [T(1), L("if", "0"), L("if", "1"), L("ifdef", "A"), L("ifndef", "A"), L("elif", "0"), L("elif", "1"), L("elif", "bad"),
         L("elifdef", "A"), L("elifndef", "A"), L("else"), L("endif"), L("define", ["A", 1]), L("undef", "A"), L("if", "bad"), L("junkdir")]


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    d = c.path("src")
    os.makedirs(d)
    hr = random.Random(7)
    del HEADERS[NFIXED:]
    HEADERS.extend(random_header(c.rng) for _ in range(60 if c.quick else 300))
    for i, h in enumerate(HEADERS):
        pre = hr.choice(["", "", "/* comment */\n", "\n"])
        post = hr.choice(["\n", "\n\n", "\n// end\n", " "])
        with open(f"{d}/h{i+1}.h", "w") as f:
            f.write(pre + "\n".join(spell(l, hr) for l in h) + post)
    items = []   # (lines, err, out)
    # exhaustive enumeration: every line sequence over ALPHA
    depth = 4 if c.quick else 5
    recs = c.tlc("CondIncl", {"cases": [], "headers": HEADERS, "alphabet": ALPHA}, constants={"Depth": depth},
                 invariants=["Nested", "OuterChain"])
    c.extra["exhaustive_sequences"] = len(recs)
    enum_n = len(recs)
    if len(recs) > 20000 and c.quick:
        # every well-formed sequence, and a seeded part of the ill-formed ones
        good = [r for r in recs if not r["err"]]
        bad = [r for r in recs if r["err"]]
        c.rng.shuffle(bad)
        recs = good + bad[:5000]
    items += [([ALPHA[i - 1] for i in r["hist"]], r["err"], r["out"]) for r in recs]
    N = 4000 if c.quick else 60000
    g = Gen(c.rng)
    for _ in range(0, N, 20000):
        cases = [g.case() for _ in range(min(N, 20000))]
        recs = c.tlc("CondIncl", {"cases": cases, "headers": HEADERS, "alphabet": []}, constants={"Depth": 0},
                     invariants=["Nested", "OuterChain"])
        items += [(cases[r["cid"] - 1], r["err"], r["out"]) for r in recs]
    seeds = [c.rng.random() for _ in items]

    def src(k):
        r = random.Random(seeds[k])
        return "\n".join(spell(l, r) for l in items[k][0]) + "\n"

    def toks(out):
        return [t for t in lex("\n".join(l for l in out.decode(errors="replace").split("\n") if not re.match(r'# \d+ "', l)))]

    def one(k):
        lines, err, out = items[k]
        s = src(k).encode()
        for attempt in range(2):
            rc, o, e = sh([cc, "-E", "-xc", "-"], inp=s, cwd=d, timeout=10 * (attempt + 1))
            if err:
                ok = rc not in (0, -999) and rc > 0
            else:
                ok = rc == 0 and toks(o) == [f"T{n}" for n in out]
            if ok:
                return None
        return (k, rc, toks(o), e.decode(errors="replace")[-300:])
    bad = [b for b in c.pmap(one, range(len(items))) if b]
    c.traces += len(items)
    for k, rc, got, e in bad:
        s = src(k)
        c.violation("cond:" + s.replace("\n", "|"), {"source": s, "expected": "diagnosed" if items[k][1] else [f"T{n}" for n in items[k][2]],
                                                     "rc": rc, "got": got, "stderr": e}, {"case.c": s})
    c.extra["rejections_checked"] = sum(1 for i in items if i[1])
    c.extra["well_formed"] = sum(1 for i in items if not i[1])
    c.samples += [{"source": src(k), "text": items[k][2]} for k in range(enum_n if enum_n < len(items) else 0, len(items))[:3]]
    c.assumptions.append("headers are fixed and generated guard shapes")


if __name__ == "__main__":
    run_check("P02", main)
