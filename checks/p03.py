"""P03 the macro table is a map: MacroTable.tla; histories replayed through slimcc -E."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from ctok import lex

# identifiers with pairwise equal 64-bit FNV-1 hash
FULL = [("vwxqCAkvkcpam", "mvgmbDaiEBohf"), ("aalouzdjwCjcc", "igmdvummaecEp"), ("rCtCkxqfeFAvf", "lfoDremtikFCb"),
        ("fqhvnsjnDqthn", "whFjgDatlrpoo"), ("vgjlnnqhtgipm", "gDDwgfEjmyegc"), ("irzBbzsvuddnd", "mFqlompsAxygk")]


def fnv(s):
    h = 0xcbf29ce484222325
    for ch in s.encode():
        h = (h * 0x100000001b3) & (1 << 64) - 1
        h ^= ch
    return h


def clusters(rng):
    """names by low 16 bits of their hash; returns groups of names in adjacent home buckets"""
    byb = {}
    al = "abcdefghijklmnopqrstuvwxyz"
    for i in range(26 ** 3):
        for suf in ("", "q", "Z1", "_w", "x9"):
            n = al[i // 676] + al[i // 26 % 26] + al[i % 26] + suf
            if n in KW:
                continue
            byb.setdefault(fnv(n) & 0xffff, []).append(n)
    full = [b for b in byb if len(byb[b]) >= 3 and (b + 1) & 0xffff in byb]
    rng.shuffle(full)
    return [byb[b][:4] + byb[(b + 1) & 0xffff][:3] + byb.get((b - 1) & 0xffff, [])[:2] + byb.get((b + 2) & 0xffff, [])[:1] for b in full[:200]]


KW = set("asm auto bool case char else enum for goto if int long new static union void while do linux unix true defer".split())
NV = 4   # 1,2: object-like; 3: function-like; 4: object-like with an empty list


def define(k, v):
    return {1: f"{k} V1", 2: f"{k} V2 + V2", 3: f"{k}(x) V3[x]", 4: f"{k}"}[v]


def cli(k, v):
    return {1: f"-D{k}=V1", 2: f"-D{k}=V2 + V2", 3: f"-D{k}(x)=V3[x]", 4: f"-D{k}="}[v]


PROBES = ["{k} @", "{k}(7) @", "\n#ifdef {k}\nyes\n#else\nno\n#endif\n@", "\n#if defined({k})\nyes\n#else\nno\n#endif\n@",
          "\n#ifndef {k}\nno\n#else\nyes\n#endif\n@", "\n#if !defined {k}\nno\n#elif 1\nyes\n#endif\n@"]


def expect(k, v, p):
    if p == 0:
        return {0: [k], 1: ["V1"], 2: ["V2", "+", "V2"], 3: [k], 4: []}[v] + ["@"]
    if p == 1:
        return {0: [k, "(", "7", ")"], 1: ["V1", "(", "7", ")"], 2: ["V2", "+", "V2", "(", "7", ")"], 3: ["V3", "[", "7", "]"], 4: ["(", "7", ")"]}[v] + ["@"]
    return ["yes" if v else "no", "@"]


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    # 1. the table design refines the map, every reachable state
    for home, nv in [([0, 0, 1], 2), ([3, 3, 0], 2), ([1, 2, 1], 2), ([7, 7, 7], 2)] + ([] if c.quick else [([0, 0, 1, 7], 1), ([2, 10, 2, 3], 1)]):
        c.tlc("MacroTable", {"cases": [], "home": home, "nv": nv},
              constants={"Depth": 1, "Record": "FALSE", "InitCap": 4, "High": 70, "Low": 50},
              invariants=["Refines", "HasFree", "UsedOk"])
    r = c.rng
    items = []   # (names, ncli, ops, log)
    # 2. every history of a length over three colliding names
    depth = 4 if c.quick else 6
    recs = c.tlc("MacroTable", {"cases": [], "home": [0, 0, 1], "nv": 1 if not c.quick else 2},
                 constants={"Depth": depth, "Record": "TRUE", "InitCap": 4, "High": 70, "Low": 50}, invariants=["Refines", "HasFree"])
    cl = clusters(r)
    r.shuffle(recs)
    for b in chunks(recs, 250):      # many histories in one run of the preprocessor, so that the table keeps changing
        names = [r.choice(FULL)[0], None, r.choice(cl)[0]]
        names[1] = dict(FULL)[names[0]]
        ops, log = [], []
        for x in b:
            ops += x["hist"] + [{"o": "P"}] + [{"o": "U", "k": k} for k in r.sample([1, 2, 3], 3)] + [{"o": "P"}]
            log += [x["map"], [0, 0, 0]]
        items.append((names, 0, ops, log))
    c.extra["exhaustive_histories"] = len(recs)
    # 3. generated histories over larger colliding sets with churn and command-line prefixes
    N = 1500 if c.quick else 8000
    cases, metas = [], []
    for _ in range(N):
        names = []
        for p in r.sample(FULL, r.choice([1, 2])):
            names += p
        names += r.choice(cl)
        names += r.choice([["k", "k1", "k12", "k123"], ["_", "__", "___"], ["ab", "ba", "aab", "aba"], ["L1", "l1"]])
        names = list(dict.fromkeys(names))
        names = r.sample(names, min(len(names), r.choice([4, 8, 14])))
        nk = len(names)
        ops = []
        for _ in range(r.choice([10, 25, 60])):
            x = r.random()
            if x < .42:
                ops.append({"o": "D", "k": r.randint(1, nk), "v": r.randint(1, NV)})
            elif x < .78:
                ops.append({"o": "U", "k": r.randint(1, nk)})
            elif x < .82:
                ops.append({"o": "C", "n": r.choice([20, 60, 300, 700]), "m": r.choice([0, 1, 2])})
            else:
                ops.append({"o": "P"})
        ops.append({"o": "P"})
        ncli = r.choice([0, 0, r.randint(0, 8)])
        while any(o["o"] in "CP" for o in ops[:ncli]):
            ncli -= 1
        cases.append(ops)
        metas.append((names, ncli))
    recs = c.tlc("MacroTable", {"cases": cases, "home": [0] * 16, "nv": NV},
                 constants={"Depth": 0, "Record": "FALSE", "InitCap": 4, "High": 70, "Low": 50})
    for x in recs:
        names, ncli = metas[x["cid"] - 1]
        items.append((names, ncli, cases[x["cid"] - 1], x["log"]))

    def program(k):
        names, ncli, ops, log = items[k]
        rr = random.Random(f"{c.seed}:{k}")
        args = [cli(names[o["k"] - 1], o["v"]) if o["o"] == "D" else "-U" + names[o["k"] - 1] for o in ops[:ncli]]
        src, exp = [], []
        fresh = li = 0
        for o in ops[ncli:]:
            if o["o"] == "D":
                src.append("#define " + define(names[o["k"] - 1], o["v"]))
            elif o["o"] == "U":
                src.append("#undef " + names[o["k"] - 1])
            elif o["o"] == "C":
                ns = [f"zz{fresh+i}" for i in range(o["n"])]
                fresh += o["n"]
                if o["m"] == 0:
                    src += [f"#define {n}\n#undef {n}" for n in ns]
                else:
                    src += [f"#define {n} 1" for n in ns]
                    if o["m"] == 2:
                        rr.shuffle(ns)
                    src += [f"#undef {n}" for n in ns]
            else:
                for i, n in enumerate(names):
                    p = rr.randrange(len(PROBES))
                    src.append(PROBES[p].format(k=n))
                    exp += expect(n, log[li][i], p)
                li += 1
        return args, "\n".join(src) + "\n", exp

    def one(k):
        args, src, exp = program(k)
        for attempt in range(2):
            rc, o, e = sh([cc, "-E", "-P"] + args + ["-xc", "-"], inp=src.encode(), timeout=20 * (attempt + 1))
            got = lex("\n".join(l for l in o.decode(errors="replace").split("\n") if not re.match(r'# \d+ "', l)))
            if rc == 0 and got == exp:
                return None
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        return k, args, src, rc, got[max(0, i - 5):i + 5], exp[max(0, i - 5):i + 5], e.decode(errors="replace")[-300:]
    for b in c.pmap(one, range(len(items))):
        c.traces += 1
        if b:
            k, args, src, rc, got, exp, e = b
            c.violation(f"table:seed{c.seed}:{k}", {"args": args, "names": items[k][0], "rc": rc, "got": got, "expected": exp, "stderr": e}, {"case.c": src})
    c.samples += [{"names": items[k][0], "ops": items[k][2][:12], "lookups": items[k][3][:2]} for k in (len(items) - 1, len(items) - 2, len(items) - 3)]
    c.extra["operations_replayed"] = sum(len(i[2]) for i in items)
    c.assumptions.append("colliding names are constructed for the FNV-1 hash the table uses; with another hash they are ordinary names")


if __name__ == "__main__":
    run_check("P03", main)
