"""P13 conversions: ConvChain.tla; chains of conversions between the fifteen arithmetic types in compiled code and in constants."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from fl import *

RANK = [None, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8]


def gen(r, pair):
    a = pair[0] if pair else r.randint(1, 15)
    chain = [pair[1]] if pair else []
    while r.random() < .45 or not chain:
        chain.append(r.randint(1, 15) if r.random() < .7 else r.randint(13, 15))
    if not pair and r.random() < .2:
        a, chain[0] = r.choice([8, 9, 10, 10, 11, 12, 12]), r.choice([13, 14, 14])
    v = fvalue(r, a) if a >= 13 else ivalue(r, a)
    if a < 13 and chain[0] >= 13 and r.random() < .5:
        v = itie(r, a, (24, 53, 64)[chain[0] - 13])
    if a >= 13 and chain[0] < 13 and r.random() < .6:     # into the range of the target
        t = chain[0]
        for _ in range(30):
            v = fvalue(r, a)
            if v[0] == "num" and (v[2] == 0 or (v[3] + 63 < W[t] and (S[t] or not v[1]))):
                break
    return {"a": a, "v": v, "chain": chain}


def tlccase(k):
    d = {"ty": k["a"], "chain": k["chain"], "k": "num", "s": 0, "e": 0, "m": [0] * 4}
    if k["a"] >= 13:
        d.update({"k": k["v"][0], "s": k["v"][1], "m": limbs(k["v"][2]), "e": k["v"][3]})
    else:
        d["m"] = limbs(k["v"])
    return d


HEAD = """int printf(const char *, ...);
void *memcpy(void *, const void *, unsigned long);
static void P(int i, int j, void *p, int n) { unsigned char *c = p; printf("%d %d ", i, j); for (int k = 0; k < n; k++) printf("%02x", c[k]); printf("\\n"); }
static volatile int one = 1, zero;
"""


def source(r, k, n, decl, args, params, body, const):
    """an expression of the initial type that holds the initial value"""
    a, v = k["a"], k["v"]
    ty = NAMES[a]
    if a >= 13:
        finite = v[0] == "num"
        raw = "{" + ", ".join(map(str, encode(a, v))) + (", 0, 0, 0, 0, 0, 0" if a == 15 else "") + "}"
        l = ("-" if v[1] else "") + lit(a, v) if finite else None
    else:
        finite, l = True, ilit(v)
        l = f"({ty}){l}"
    if const:
        return f"({l})" if finite else None
    if not finite or r.random() < .15:
        if a < 13:
            raw = "{" + ", ".join(str(b) for b in (v & (1 << 64) - 1).to_bytes(8, "little")[:SIZE[a]]) + "}"
        decl.append(f"static unsigned char {n}b[] = {raw};")
        body.append(f"{ty} {n}; memcpy(&{n}, {n}b, {SIZE[a]});")
        return n
    x = r.randint(0, 7)
    if x == 0:
        decl.append(f"static {ty} {n} = {l};")
        return n
    if x == 1:
        decl.append(f"static volatile {ty} {n} = {l};")
        return n
    if x == 2:
        params.append(f"{ty} {n}")
        args.append(l)
        return n
    if x == 3:
        body.append(f"{ty} {n} = {l};")
        return n
    if x == 4:
        decl.append(f"static {ty} {n}(void) {{ return {l}; }}")
        return f"{n}()"
    if x == 5:
        decl.append(f"static struct {{ char c; {ty} m; }} {n} = {{1, {l}}};")
        return f"{n}.m"
    if x == 6:
        params.append(f"{ty} *{n}")
        args.append(f"&({ty}){{{l}}}")
        return f"*{n}"
    body.append(f"{ty} {n}[2] = {{{l}, {l}}};")
    return f"{n}[one]"


def convert(r, e, s, t, n, decl, body, explicit):
    S_, T = NAMES[s], NAMES[t]
    if explicit:
        return f"({T})({e})"
    x = r.randint(0, 13)
    if x <= 2:
        return f"({T})({e})"
    if x == 3:
        body.append(f"{T} {n} = {e};")
        return n
    if x == 4:
        decl.append(f"static {T} {n}({T} x) {{ return x; }}")
        return f"{n}({e})"
    if x == 5:
        decl.append(f"static {T} {n}({S_} x) {{ return x; }}")
        return f"{n}({e})"
    if x == 6 and t >= 13 and RANK[s] <= RANK[t]:
        return r.choice([f"(one ? ({e}) : ({T})0)", f"(zero ? ({T})0 : ({e}))"])
    if x == 7 and t >= 13 and RANK[s] <= RANK[t]:
        return r.choice([f"(({e}) * ({T})1)", f"(({T})1 * ({e}))", f"(({e}) / ({T})1)"])
    if x == 8:
        body.append(f"{T} {n} = 1; {n} *= {e};")
        return n
    if x == 9:
        body.append(f"{T} {n}; {n} = {e};")
        return n
    if x == 10:
        body.append(f"{T} {n}[2]; {n}[one] = {e};")
        return f"{n}[1]"
    if x == 11:
        return f"(({T}){{{e}}})"
    if x == 12 and t == 1:
        return r.choice([f"!!({e})", f"(_Bool)(({e}) && one)", f"(_Bool)(({e}) ? 1 : 0)", f"(_Bool)(({e}) != 0)", f"(_Bool)(0 || ({e}))"])
    if x == 13:
        body.append(f"struct {{ char c; {T} m; }} {n}; {n}.c = 3; {n}.m = {e};")
        return f"{n}.m"
    return f"({T})({e})"


def emit(k, i, r):
    decl, calls = [], []
    outs = []
    for j, const in enumerate((False, False, True)):
        args, params, body = [], [], []
        e = source(r, k, f"s{i}_{j}", decl, args, params, body, const)
        if e is None:
            continue
        s = k["a"]
        for n, t in enumerate(k["chain"]):
            e = convert(r, e, s, t, f"c{i}_{j}_{n}", decl, body, const)
            s = t
        T, sz = NAMES[s], SIZE[s]
        if const:
            decl.append(f"static {T} g{i} = {e};")
            body.append(f"{T} v = g{i}; P({i}, {j}, &v, {sz}); {T} w = {e}; P({i}, 3, &w, {sz});")
            outs += [j, 3]
        else:
            body.append(f"{T} v = {e}; P({i}, {j}, &v, {sz});")
            outs.append(j)
        decl.append(f"static void f{i}_{j}({', '.join(params) or 'void'}) {{ {' '.join(body)} }}")
        calls.append(f"f{i}_{j}({', '.join(args)});")
    return decl, calls, outs


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 20000 if c.quick else 180000
    pairs = [(a, b) for a in range(1, 16) for b in range(1, 16)]
    cases = [gen(c.rng, pairs[i % len(pairs)] if i % 3 else None) for i in range(N)]
    res = {}
    for b in chunks(list(range(N)), 9000):
        for x in c.tlc("ConvChain", [tlccase(cases[i]) for i in b], invariants=["Stable"]):
            if not x["u"]:
                i = b[x["cid"] - 1]
                v = x["v"]
                t = cases[i]["chain"][-1]
                res[i] = wrap(unlimb(v), t) if t < 13 else (v["k"], v["s"], unlimb(v["m"]), v["e"])
    good = sorted(res)
    parts = {i: emit(cases[i], i, c.rng) for i in good}

    def same(line, i):
        f = line.split()
        t = cases[i]["chain"][-1]
        b = bytes.fromhex(f[2])
        if t < 13:
            return b == (res[i] & (1 << 64) - 1).to_bytes(8, "little")[:SIZE[t]]
        d = decode(t, b)
        return d == res[i] or (d[0] == "nan" and res[i][0] == "nan")

    def run(idx, tag, opt):
        s, m, exp = [HEAD], [], []
        for i in idx:
            d, k, o = parts[i]
            s += d
            m += k
            exp += [(i, j) for j in o]
        src = "\n".join(s) + "\nint main(void) {\n" + "\n".join(m) + "\nreturn 0; }\n"
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        ok = rc == 0 and len(got) == len(exp) and all(g.startswith(f"{i} {j} ") and same(g, i) for g, (i, j) in zip(got, exp))
        return ok, rc, got, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 100)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            k = cases[i]
            c.violation("conv:" + "|".join(parts[i][0]), {"from": NAMES[k["a"]], "value": k["v"], "chain": [NAMES[t] for t in k["chain"]], "opt": opt, "expected": res[i] if isinstance(res[i], int) else encode(k["chain"][-1], res[i]).hex(), "got": x[2], "rc": x[1], "program": parts[i][0], "stderr": x[3].decode(errors="replace")[-300:]}, {"case.c": x[4]})
    c.traces += len(good)
    c.extra.update({"chains": len(good), "undefined_discarded": N - len(good), "pairs": len({(cases[i]["a"], cases[i]["chain"][0]) for i in good})})
    c.samples += [{"from": NAMES[cases[i]["a"]], "value": cases[i]["v"], "chain": [NAMES[t] for t in cases[i]["chain"]], "result": res[i]} for i in good[:5]]
    c.assumptions.append("round-to-nearest mode; the sign and payload of NaNs are not compared")


if __name__ == "__main__":
    run_check("P13", main)
