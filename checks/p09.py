"""P09 switch: Switch.tla; functions compiled by slimcc and called with every value of interest."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

TYPES = [("_Bool", 1, False), ("char", 8, True), ("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False),
         ("int", 32, True), ("unsigned", 32, False), ("long", 64, True), ("unsigned long", 64, False), ("long long", 64, True), ("unsigned long long", 64, False)]


def limbs(v):
    return [(v >> 16 * i) & 0xffff for i in range(4)]


def wrap(v, w, s):
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def gen(r):
    if r.random() < .15:
        ty = "bits"
        s = r.random() < .5
        w = r.choice([1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 47, 63] if not s else [2, 3, 7, 8, 15, 16, 31, 32, 33, 63])
        base = ("unsigned " if not s else "signed ") + ("long" if w > 32 or r.random() < .3 else "int")
        if "long" in base and w <= 32:
            base = base.replace("long", "int")     # promotion of narrow long bit-fields is implementation-defined
        if w > 32:
            base = base.replace("int", "long")
            w = 64 if r.random() < 0 else w
    else:
        ty, w, s = r.choice(TYPES)
        base = ""
    pw = 32 if w < 32 or (w == 32 and s) else w
    ps = True if w < 32 else s
    if pw not in (32, 64):
        return gen(r)     # bit-fields wider than int keep their width in no portable way
    lo, hi = (-(1 << pw - 1), (1 << pw - 1) - 1) if ps else (0, (1 << pw) - 1)
    edge = sorted({lo, lo + 1, hi, hi - 1, -1, 0, 1, 127, 128, 255, 256, -128, 32767, 65535, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 31), -(1 << 31) - 1})
    edge = [e for e in edge if lo <= e <= hi]
    mode = r.random()

    def val():
        x = r.random()
        if x < .35:
            return r.choice(edge)
        if x < .75:
            return max(lo, min(hi, r.randint(-6, 12)))
        return max(lo, min(hi, r.choice(edge) + r.randint(-3, 3))) if x < .9 else r.randint(lo, hi)
    used = []
    arms = []
    n = r.choice([1, 2, 3, 4, 6, 9])
    dirty = r.random() < .12

    def free(a, b):
        return all(b < x or y < a for x, y in used)
    for _ in range(n):
        labs = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            for _ in range(8):
                if used and r.random() < .35:     # next to an existing label
                    x, y = r.choice(used)
                    a = r.choice([y + 1, x - 1])
                    b = a + (r.choice([0, 0, 1, 2]) if a > y else 0)
                    if a < x:
                        a -= r.choice([0, 0, 1, 2])
                else:
                    a = val()
                    x = r.random()
                    b = a if x < .5 else a + r.choice([1, 2, 5]) if x < .75 else max(a, val())
                if r.random() < .02:
                    a, b = lo, hi
                if lo <= a <= b <= hi and (dirty or free(a, b)):
                    used.append((a, b))
                    labs.append([a, b])
                    break
        if labs:
            arms.append({"labels": labs, "default": False, "brk": r.random() < .75})
    if not arms:
        arms = [{"labels": [[0, 0]], "default": False, "brk": True}]
    if r.random() < .55:
        if r.random() < .3:
            r.choice(arms)["default"] = True
        else:
            arms.insert(r.randint(0, len(arms)), {"labels": [], "default": True, "brk": r.random() < .75})
        if dirty and r.random() < .2:
            arms.append({"labels": [], "default": True, "brk": True})
    vals = {0, 1, -1 if s else 0}
    for a, b in used:
        vals |= {a, b, a - 1, b + 1, (a + b) // 2}
    for _ in range(3):
        vals.add(r.randint(lo, hi))
    vals |= set(r.sample(edge, min(4, len(edge))))
    vals = sorted({wrap(v, w, s) for v in vals}, key=lambda v: r.random())[:14]
    return {"ty": ty, "base": base, "w": w, "sgn": s, "pw": pw, "ps": ps, "arms": arms, "vals": vals}


def lit(r, v, pw, ps):
    """a constant expression of some integer type that converts to v in the promoted type"""
    x = r.random()
    if x < .12 and pw == 64 and not ps and v >= 1 << 63:
        return f"({v - (1 << 64)}LL)" if v != 1 << 63 else "(-9223372036854775807L - 1)"
    if x < .12 and pw == 32:
        u = v & 0xffffffff
        return r.choice([f"{u}u", f"0x{u:x}ULL", f"(long){u}L" if u < 1 << 63 else f"{u}u"])
    if v == -(1 << 63):
        return "(-9223372036854775807L - 1)"
    if v >= 1 << 63:
        return f"{v}UL"
    if 32 <= v < 127 and chr(v) not in "'\\" and x < .25:
        return f"'{chr(v)}'"
    if x > .9 and -(1 << 31) < v < 1 << 31:
        return f"({v} + 3 - 3)"
    return str(v) + r.choice(["", "", "L", "LL"])


def emit(case, r, i):
    t = case["ty"]
    pre = ""
    if t == "bits":
        pre = f"struct B{i} {{ {case['base']} pad : 3; {case['base']} f : {case['w']}; }};\n"
        arg = f"struct B{i} *b"
        ctl = "b->f"
    else:
        arg = f"{t} x"
        ctl = r.choice(["x", "x", "(x)", f"({t})x", f"*(volatile {t} *)&x", "x + 0" if t != "_Bool" or True else "x", f"*&x", "(0, x)", f"idt{i}(x)"])
        if ctl.startswith("idt"):
            pre += f"static {t} idt{i}({t} v) {{ return v; }}\n"
    if t == "bits" and r.random() < .3:
        ctl = "b->f + 0"
    body = []
    for n, a in enumerate(case["arms"], 1):
        ls = []
        for lo, hi in a["labels"]:
            if lo == hi and r.random() < .85:
                ls.append(f"case {lit(r, lo, case['pw'], case['ps'])}:")
            else:
                ls.append(f"case {lit(r, lo, case['pw'], case['ps'])} ... {lit(r, hi, case['pw'], case['ps'])}:")
        if a["default"]:
            ls.insert(r.randint(0, len(ls)), "default:")
        ev = f"E({n});"
        x = r.random()
        if x < .12:
            ev = f"switch ({n}) {{ case {n}: E({n}); break; default: E(77); }}"
        elif x < .2:
            ev = f"for (int k = 0; k < 1; k++) {{ E({n}); }}"
        s = " ".join(ls) + " " + ev
        if x > .93 and ls:
            s = f"do {{ {s} }} while (0);"
        elif x > .88 and ls:
            s = f"if (1) {{ {s} }}"
        body.append(s + (" break;" if a["brk"] else ""))
    f = f"static void f{i}({arg}) {{ switch ({ctl}) {{ {' '.join(body)} }} }}\n"
    if r.random() < .15:
        f = f"static void f{i}({arg}) {{ for (int q = 0; q < 1; q++) {{ switch ({ctl}) {{ {' '.join(body)} }} if (q) E(99); }} }}\n"
    return pre + f


def cval(v):
    return "(-9223372036854775807L - 1)" if v == -(1 << 63) else f"{v}UL" if v >= 1 << 63 else f"{v}L"


HEAD = "int printf(const char *, ...);\nstatic int tr[100], nt;\nstatic void E(int n) { if (nt < 100) tr[nt++] = n; }\nstatic void show(int i, int j) { printf(\"%d %d:\", i, j); for (int k = 0; k < nt; k++) printf(\" %d\", tr[k]); printf(\"\\n\"); nt = 0; }\n"


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 2500 if c.quick else 30000
    cases = [gen(c.rng) for _ in range(N)]
    texts = [emit(x, c.rng, i) for i, x in enumerate(cases)]
    res, bad = {}, set()
    for b in chunks(list(range(N)), 5000):
        tl = [{"w": cases[i]["w"], "sgn": cases[i]["sgn"], "vals": [limbs(v) for v in cases[i]["vals"]],
               "arms": [{"labels": [[limbs(l[0]), limbs(l[1])] for l in a["labels"]], "default": a["default"], "brk": a["brk"]} for a in cases[i]["arms"]]} for i in b]
        for x in c.tlc("Switch", tl, invariants=["AtMostOne"]):
            i = b[x["cid"] - 1]
            if x["bad"]:
                bad.add(i)
            else:
                res[i, x["vi"] - 1] = x["t"]
    good = [i for i in range(N) if i not in bad]

    def program(idx):
        s, m, exp = HEAD, [], []
        for i in idx:
            s += texts[i]
            k = cases[i]
            for j, v in enumerate(k["vals"]):
                call = f"{{ struct B{i} b; b.pad = -1; b.f = {cval(v)}; f{i}(&b); }}" if k["ty"] == "bits" else f"f{i}({cval(v)});"
                m.append(call + f" show({i}, {j});")
                exp.append(" ".join([f"{i} {j}:"] + [str(t) for t in res[i, j]]))
        return s + "int main(void) {\n" + "\n".join(m) + "\nreturn 0; }\n", exp

    def run(idx, tag, opt):
        src, exp = program(idx)
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == exp, rc, got, exp, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 60)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            d = [(g, e) for g, e in zip(x[2], x[3]) if g != e]
            c.violation("switch:" + texts[i], {"function": texts[i], "opt": opt, "values": cases[i]["vals"], "rc": x[1], "got/expected": d[:4] or [x[2][:3], x[3][:3]], "stderr": x[4].decode(errors="replace")[-300:]}, {"case.c": x[5]})

    def reject(i):
        return sh([cc, "-S", "-o", "/dev/null", "-xc", "-"], inp=(HEAD + texts[i]).encode())[0]
    bl = sorted(bad)
    for i, rc in zip(bl, c.pmap(reject, bl)):
        if rc <= 0:
            c.violation("overlap:" + texts[i], {"function": texts[i], "rc": rc, "expected": "rejected: overlapping labels"}, {"case.c": HEAD + texts[i]})
    c.traces += len(res) + len(bad)
    c.extra.update({"switches": len(good), "with_overlap": len(bad), "calls": len(res) * 2})
    c.samples += [{"function": texts[i], "value": cases[i]["vals"][0], "arms": res[i, 0]} for i in good[:5]]
    c.assumptions.append("ranges whose first value is above the last are not generated")


if __name__ == "__main__":
    run_check("P09", main)
