"""P12 integer expressions: IntExpr.tla; the same expressions evaluated by compiled code, as constants, mixed, and in #if."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

NAMES = [None, "_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
W = [0, 1, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64]
S = [0, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0]
ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def limbs(v):
    return [(v >> 16 * i) & 0xffff for i in range(4)]


def unlimb(l, t):
    v = sum(x << 16 * i for i, x in enumerate(l))
    return v - (1 << 64) if S[t] and v >> 63 else v


def wrap(v, t):
    if t == 1:
        return int(v != 0)
    v &= (1 << W[t]) - 1
    return v - (1 << W[t]) if S[t] and v >> (W[t] - 1) else v


def value(r, t):
    x = r.random()
    if t == 1:
        return r.randint(0, 1)
    if x < .3:
        v = r.randint(-5, 9)
    elif x < .5:
        v = (1 << r.randint(0, W[t])) + r.choice([-1, 0, 0, 1])
    elif x < .6:
        v = -(1 << r.randint(0, W[t])) + r.choice([-1, 0, 1])
    elif x < .8:
        v = r.choice([0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 1 << 63, (1 << 64) - 1, 0xfffffffffffffffe, 0xffffffff80000000, 0xffffffff7fffffff])
    else:
        v = r.getrandbits(r.choice([4, 8, 16, 32, 33, 64])) * r.choice([1, -1])
    return wrap(v, t)


def spell(r, v, t, pp=False):
    """a constant expression of type t and value v"""
    if pp:
        if t == 10:
            return r.choice([f"{v}u", f"0x{v:x}U", f"0{v:o}uL" if v else "0U", f"{v}ULL"])
        if v < 0:
            return f"(-{-v})" if v != -(1 << 63) else "(-9223372036854775807-1)"
        if 32 <= v < 127 and chr(v) not in "'\\" and r.random() < .5:
            return f"'{chr(v)}'"
        if v in (0, 1) and r.random() < .5:
            return r.choice([["undefd_name", "false", "defined undefd", "defined(X9)"], ["true", "defined ONE", "ONE", "defined (ONE)"]][v])
        return r.choice([f"{v}", f"0x{v:x}", f"{v}L", f"{v}LL"])
    if t < 7:
        a = f"(({NAMES[t]}){v})"
        if t in (2, 3) and r.random() < .2:
            return a
        return a
    suf = {7: "", 8: "u", 9: "l", 10: "ul", 11: "ll", 12: "ull"}[t]
    if r.random() < .5:
        suf = suf.upper()
    if t == 7 and 32 <= v < 127 and chr(v) not in "'\\" and r.random() < .3:
        return f"'{chr(v)}'"
    if S[t] and v < 0:
        if v == -(1 << W[t] - 1):
            return f"(-{-v - 1}{suf} - 1{suf})" if r.random() < .5 else f"(({NAMES[t]})(1ull << {W[t] - 1}))"
        return f"(-{-v}{suf})"
    if t == 8 and r.random() < .1:
        return f"((unsigned){v}ul)"
    return r.choice([f"{v}{suf}", f"0x{v:x}{suf}"])


class Gen:
    def __init__(self, r, pp):
        self.r, self.pp, self.code, self.leaves = r, pp, [], []

    def leaf(self, t=None, v=None):
        r = self.r
        if t is None:
            t = r.choice([9, 9, 10]) if self.pp else r.choice([1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 9, 9, 10, 10, 11, 12])
        if v is None:
            v = value(r, t)
        v = wrap(v, t)
        self.code.append({"k": "num", "t": t, "v": limbs(v)})
        self.leaves.append((t, v))
        return ("leaf", len(self.leaves) - 1)

    def expr(self, d):
        r = self.r
        x = r.random()
        if d == 0 or x < .08:
            return self.leaf()
        if x < .2:
            op = r.choice("-~!!+")
            a = self.expr(d - 1)
            self.code.append({"k": "un", "op": op})
            return ("un", op, a)
        if x < .32 and not self.pp:
            a = self.expr(d - 1)
            t = r.randint(1, 12)
            self.code.append({"k": "cast", "t": t})
            return ("cast", t, a)
        if x < .39:
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            self.code.append({"k": "cond"})
            return ("cond", c, a, b)
        y = r.random()
        if y < .5:
            op = r.choice(ARITH)
        elif y < .65:
            op = r.choice(["<<", ">>"])
        elif y < .85:
            op = r.choice(CMP)
        elif y < .97:
            op = r.choice(["&&", "||"])
        else:
            op = "," if not self.pp else "+"
        a = self.expr(d - 1)
        if op in ("<<", ">>") and r.random() < .85:
            b = self.leaf(v=r.choice([0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63]))
        elif op in "/%" and r.random() < .7:
            b = self.leaf(v=r.choice([1, 2, 3, 4, 7, 8, 16, 10, 100, 128, 255, 256, 65536, 1 << 30, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 62, 1 << 63, -1, -2, -8, -(1 << 31)]))
        else:
            b = self.expr(d - 1)
        self.code.append({"k": "bin", "op": op})
        return ("bin", op, a, b)

    def force(self, e):
        """make the operation at the root more often defined: operands cast to unsigned"""
        return e


def text(e, leaf):
    k = e[0]
    if k == "leaf":
        return leaf[e[1]]
    if k == "un":
        a = text(e[2], leaf)
        return f"{e[1]}{a}" if a[0] not in "+-" else f"{e[1]} {a}"
    if k == "cast":
        return f"(({NAMES[e[1]]}){text(e[2], leaf)})"
    if k == "cond":
        return f"({text(e[1], leaf)} ? {text(e[2], leaf)} : {text(e[3], leaf)})"
    return f"({text(e[2], leaf)} {e[1]} {text(e[3], leaf)})"


def gen(r, pp):
    for _ in range(20):
        g = Gen(r, pp)
        e = g.expr(r.choice([1, 1, 2, 2, 3, 3, 4]))
        if len(g.code) < 40:
            break
    k = {"pp": pp, "e": e, "leaves": g.leaves, "code": g.code, "assign": None}
    if not pp and r.random() < .3:     # x op= e, x++, ...
        t = r.randint(1, 12)
        v = value(r, t)
        x = r.random()
        if x < .35:
            k["assign"] = (r.choice(["++", "--"]), r.choice(["pre", "post", "void"]), t, v)
            k["code"] = [{"k": "num", "t": t, "v": limbs(v)}, {"k": "num", "t": 7, "v": limbs(1)}, {"k": "bin", "op": k["assign"][0][0]}, {"k": "cast", "t": t}]
            k["leaves"], k["e"] = [], None
        elif x < .8:
            op = r.choice(ARITH + ["<<", ">>"])
            if op in ("<<", ">>"):
                sh = r.choice([0, 1, 2, 3, 7, 8, 15, 31, 32, 63])
                k["leaves"], k["e"] = [(r.choice([7, 8, 9, 4]), sh)], ("leaf", 0)
                k["code"] = [{"k": "num", "t": k["leaves"][0][0], "v": limbs(sh)}]
            k["assign"] = (op + "=", r.choice(["val", "void"]), t, v)
            k["code"] = [{"k": "num", "t": t, "v": limbs(v)}] + k["code"] + [{"k": "bin", "op": op}, {"k": "cast", "t": t}]
        else:
            k["assign"] = ("=", r.choice(["val", "void"]), t, v)
            k["code"] = k["code"] + [{"k": "cast", "t": t}]
    return k


def big(v):
    if v >= 1 << 63:
        return f"{v}UL"
    return "(-9223372036854775807L - 1)" if v == -(1 << 63) else f"{v}L"


HEAD = """int printf(const char *, ...);
static void R(int i, int j, unsigned long v) { printf("%d %d %lu\\n", i, j, v); }
#define TY(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12)
"""


def operand(r, t, v, i, n, decl, params, args, body, lvalue=False):
    """a C expression reading a variable of type t that holds v at run time"""
    ty, nm = NAMES[t], f"v{i}_{n}"
    lit = big(v)
    k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11] + ([] if lvalue else [10]))
    if k == 0:
        decl.append(f"{ty} {nm} = {lit};")
        return nm
    if k == 1:
        decl.append(f"static volatile {ty} {nm} = {lit};")
        return nm
    if k in (2, 3):
        params.append(f"{ty} {nm}")
        args.append(lit)
        return nm
    if k == 4:
        body.append(f"{ty} {nm} = {lit};")
        return nm
    if k == 5:
        body.append(f"volatile {ty} {nm} = {lit};")
        return nm
    if k == 6:
        decl.append(f"static {ty} {nm}[3] = {{0, {lit}, 1}};")
        return f"{nm}[1]"
    if k == 7:
        params.append(f"{ty} {nm}[], int i{nm}")
        args.append(f"({ty}[]){{5, {lit}}}, 1")
        return f"{nm}[i{nm}]"
    if k == 8:
        decl.append(f"struct S{nm} {{ char c; {ty} m; }};")
        params.append(f"struct S{nm} *{nm}")
        args.append(f"&(struct S{nm}){{1, {lit}}}")
        return f"{nm}->m"
    if k == 9:
        decl.append(f"struct S{nm} {{ char c; {ty} m; }};")
        body.append(f"struct S{nm} {nm} = {{1, {lit}}};")
        return f"{nm}.m"
    if k == 10:
        decl.append(f"static {ty} {nm}f(void) {{ return {lit}; }}")
        return f"{nm}f()"
    params.append(f"{ty} *{nm}")
    args.append(f"&({ty}){{{lit}}}")
    return f"(*{nm})"


def emit(case, i, t, v, r):
    """returns (declarations, calls, expected outputs) for a case whose result has type t, value v"""
    decl, calls, exp = [], [], []
    u = v & ((1 << 64) - 1)

    def out(j, x):
        exp.append(f"{i} {j} {x & ((1 << 64) - 1)}")
    L = case["leaves"]
    for variant in ("var", "mix", "const"):
        if variant == "const" and case["assign"]:
            continue
        params, args, body = [], [], []
        leaf = []
        for n, (lt, lv) in enumerate(L):
            if variant == "const" or (variant == "mix" and r.random() < .5):
                leaf.append(spell(r, lv, lt))
            else:
                leaf.append(operand(r, lt, lv, i, f"{variant}{n}", decl, params, args, body))
        f = f"f{i}{variant}"
        if case["assign"]:
            op, how, at, av = case["assign"]
            lhs = operand(r, at, av, i, f"{variant}L", decl, params, args, body, True)
            e = text(case["e"], leaf) if case["e"] else ""
            if op in ("++", "--"):
                st = f"{op}{lhs}" if how == "pre" or (how == "void" and r.random() < .5) else f"{lhs}{op}"
            else:
                st = f"{lhs} {op} {e}"
            if how == "void":
                body.append(f"{st}; R({i}, 0, {lhs});")
                out(0, v)
            else:
                body.append(f"R({i}, 0, {st}); R({i}, 1, {lhs});")
                out(0, av if how == "post" else v)
                out(1, v)
        else:
            e = text(case["e"], leaf)
            if variant == "const":
                b = len(decl)
                decl.append(f"static long c{i} = (long)({e}); _Static_assert(({e}) == {big(v)}, \"\"); _Static_assert(TY({e}) == {t}, \"\");")
                if v < 1 << 31 and v >= -(1 << 31):
                    decl.append(f"enum {{ e{i} = {e} }};")
                    body.append(f"R({i}, 3, e{i});")
                if t != 1 and r.random() < .5:
                    decl.append(f"static {NAMES[t]} d{i} = {e};")
                    body.append(f"R({i}, 4, d{i});")
                body.append(f"R({i}, 2, c{i}); R({i}, 5, {e});")
                if "enum" in decl[b + 1 if len(decl) > b + 1 else b]:
                    out(3, v)
                if any(f"d{i} =" in d for d in decl[b:]):
                    out(4, v)
                out(2, v)
                out(5, v)
            else:
                x = r.randint(0, 9)
                j = 10
                out(j, TYV(x, t, v))
                body.append([f"R({i}, {j}, {e});", f"if ({e}) R({i}, {j}, 1); else R({i}, {j}, 0);", f"R({i}, {j}, ({e}) ? 1 : 0);", f"R({i}, {j}, !({e}));",
                             f"{{ {NAMES[t]} x = {e}; R({i}, {j}, x); }}", f"{{ int n = 0; while ({e}) {{ n++; break; }} R({i}, {j}, n); }}", f"R({i}, {j}, ({e}) == {spell(r, v, t)});",
                             f"R({i}, {j}, ({e}) && 1);", f"R({i}, {j}, (unsigned char)({e}));", f"R({i}, {j}, (int)({e}));"][x])
                body.append(f"R({i}, 11, TY({e}));")
                out(11, t)
        if r.random() < .3:
            body.insert(0, "int pad1 = 77; (void)pad1;")
        decl.append(f"static void {f}({', '.join(params) or 'void'}) {{ {' '.join(body)} }}")
        calls.append(f"{f}({', '.join(args)});")
    return decl, calls, exp


def TYV(x, t, v):
    return [v, int(v != 0), int(v != 0), int(v == 0), v, int(v != 0), 1, int(v != 0), v & 255, wrap(v, 7)][x]


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 9000 if c.quick else 60000
    NP = 2500 if c.quick else 15000
    cases = [gen(c.rng, False) for _ in range(N)] + [gen(c.rng, True) for _ in range(NP)]
    res = {}
    for b in chunks(list(range(len(cases))), 6000):
        for x in c.tlc("IntExpr", [{"pp": cases[i]["pp"], "code": cases[i]["code"]} for i in b], invariants=["Canonical"]):
            if not x["u"]:
                res[b[x["cid"] - 1]] = (x["t"], unlimb(x["v"], x["t"]))
    good = [i for i in res if not cases[i]["pp"]]
    good.sort()
    pps = sorted(i for i in res if cases[i]["pp"])
    parts = {i: emit(cases[i], i, *res[i], c.rng) for i in good}

    def program(idx):
        s, m, exp = [HEAD], [], []
        for i in idx:
            d, k, e = parts[i]
            s += d
            m += k
            exp += e
        return "\n".join(s) + "\nint main(void) {\n" + "\n".join(m) + "\nreturn 0; }\n", exp

    def run(idx, tag, opt):
        src, exp = program(idx)
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == exp, rc, got, exp, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 80)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            d = [(g, e) for g, e in zip(x[2], x[3]) if g != e]
            c.violation("expr:" + "|".join(parts[i][0]), {"program": parts[i][0], "calls": parts[i][1], "opt": opt, "rc": x[1], "got/expected": d[:4] or [x[2][:3], x[3][:3]], "stderr": x[4].decode(errors="replace")[-300:]}, {"case.c": x[5]})

    # #if
    def pptext(i):
        r = random.Random(f"{c.seed}:{i}")
        k = cases[i]
        t, v = res[i]
        e = text(k["e"], [spell(r, lv, lt, True) for lt, lv in k["leaves"]])
        eq = spell(r, v, t, True)
        neg = int(t == 9)
        return (f"#if {e}\n{i} {int(v != 0)}\n#else\n{i} {int(v == 0) + 5}\n#endif\n#if ({e}) == {eq} && (({e}) * 0 - 1 < 0) == {neg}\n{i} ok\n#else\n{i} differs\n#endif\n",
                [f"{i} {1 if v != 0 else 6}", f"{i} ok"])
    pt = {i: pptext(i) for i in pps}

    def pprun(b):
        src = "#define ONE 1\n" + "".join(pt[i][0] for i in b)
        exp = [x for i in b for x in pt[i][1]]
        rc, o, e = sh([cc, "-E", "-std=c23", "-xc", "-"], inp=src.encode(), timeout=60)
        got = [x for x in o.decode(errors="replace").split("\n") if x and not x.startswith("#")]
        return rc == 0 and got == exp, rc, got, e, src

    def ppbatch(b):
        if pprun(b)[0]:
            return []
        return [(i, x) for i in b for x in [pprun([i])] if not x[0]]
    for out in c.pmap(ppbatch, chunks(pps, 100)):
        for i, x in out:
            c.violation("if:" + pt[i][0], {"text": pt[i][0], "rc": x[1], "got": x[2], "expected": pt[i][1], "stderr": x[3].decode(errors="replace")[-300:]}, {"case.c": x[4]})
    c.traces += len(good) + len(pps)
    c.extra.update({"expressions": len(good), "if_expressions": len(pps), "undefined_discarded": len(cases) - len(res)})
    c.samples += [{"program": parts[i][0][-1], "type": res[i][0], "value": res[i][1]} for i in good[:5]]
    c.assumptions.append("gcc -fwrapv-like behaviour of undefined expressions is not judged; bit-field operands belong to P11")


if __name__ == "__main__":
    run_check("P12", main)
