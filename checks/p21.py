"""P21 floating expressions: FloatExpr.tla; operator trees over the fifteen arithmetic types, run and folded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from fl import *

ITY = [1, 2, 4, 5, 6, 7, 7, 8, 9, 10, 12]


def small(r, t):
    """values for which sums and products are often near ties"""
    p, lmin, mmax = ((24, -149, 127), (53, -1074, 1023), (64, -16445, 16383))[t - 13]
    x = r.random()
    s = r.randint(0, 1)
    if r.random() < .09:
        return (r.choice(["nan", "nan", "inf"]), s, 0, 0)
    if x < .35:
        return norm(s, r.choice([0, 1, 2, 3, 5, 7, 10, 100]), r.choice([0, 0, -1, -2]))
    if x < .6:
        return norm(s, (r.getrandbits(p) | 1 << p - 1) & ~r.choice([0, 1, 2, 3, 7, (1 << p // 2) - 1]), r.randint(-p - 3, 3) - p // 2)
    if x < .66 and t > 13:      # ties of the narrower formats, give or take a last bit
        q = r.choice([24, 53][:t - 13])
        return norm(s, ((r.getrandbits(q) | 1 << q - 1) << p - q) + (1 << p - q - 1) + r.choice([0, 1, -1]), -p + r.choice([0, 1, 2]))
    if x < .75:
        return norm(s, 1, r.choice([0, -1, 1, -p, -p - 1, -p + 1, p, p - 1, 64, -64, -53, -54, 53, lmin, mmax, lmin + p]))
    return fvalue(r, t)


class Gen:
    def __init__(self, r):
        self.r, self.code, self.leaves = r, [], []

    def leaf(self, t=None, v=None):
        r = self.r
        if t is None:
            t = r.choice([13, 14, 14, 15]) if r.random() < .75 else r.choice(ITY)
        if v is None:
            v = small(r, t) if t >= 13 else ivalue(r, t)
        self.add(t, v)
        self.leaves.append((t, v))
        return ("leaf", len(self.leaves) - 1)

    def add(self, t, v):
        if t >= 13:
            self.code.append({"k": "num", "t": t, "v": limbs(v[2]), "fk": v[0], "s": v[1], "e": v[3]})
        else:
            self.code.append({"k": "num", "t": t, "v": limbs(v), "fk": "", "s": 0, "e": 0})

    def expr(self, d, fl=False):
        """(tree, is floating)"""
        r = self.r
        x = r.random()
        if d == 0 or x < .08:
            t = r.choice([13, 14, 14, 15]) if fl or r.random() < .8 else r.choice(ITY)
            return self.leaf(t), t >= 13
        if x < .2:
            a, f = self.expr(d - 1)
            op = r.choice("--+!!") if f else r.choice("-~!!")
            self.code.append({"k": "un", "op": op})
            return ("un", op, a), f and op != "!"
        if x < .3:
            a, f = self.expr(d - 1)
            t = r.choice([13, 14, 15, 13, 14, 15, 7, 9, 1, 10])
            self.code.append({"k": "cast", "t": t})
            return ("cast", t, a), t >= 13
        if x < .37:
            c, _ = self.expr(d - 1)
            a, f = self.expr(d - 1)
            b, g = self.expr(d - 1)
            self.code.append({"k": "cond"})
            return ("cond", c, a, b), f or g
        a, f = self.expr(d - 1, True)
        b, g = (self.leaf(), None) if r.random() < .4 else self.expr(d - 1)
        if g is None:
            g = self.leaves[b[1]][0] >= 13
        y = r.random()
        op = r.choice("++--**//") if y < .62 else r.choice(["==", "!=", "<", "<=", ">", ">="]) if y < .88 else r.choice(["&&", "||", ","])
        if not f and not g and op == "/":
            op = "*"
        self.code.append({"k": "bin", "op": op})
        return ("bin", op, a, b), (f or g) if op in "+-*/" else g if op == "," else False


def text(e, leaf):
    k = e[0]
    if k == "leaf":
        return leaf[e[1]]
    if k == "un":
        a = text(e[2], leaf)
        return f"{e[1]}{a}" if a[0] not in "+-" else f"{e[1]} {a}"
    if k == "cast":
        return f"(({NAMES[e[1]]}){text(e[2], leaf)})"
    if k == "cond":
        return f"({text(e[1], leaf)} ? {text(e[2], leaf)} : {text(e[3], leaf)})"
    return f"({text(e[2], leaf)} {e[1]} {text(e[3], leaf)})"


def gen(r):
    for _ in range(20):
        g = Gen(r)
        e, f = g.expr(r.choice([1, 1, 1, 2, 2, 3]))
        if len(g.code) < 24:
            break
    k = {"e": e, "leaves": g.leaves, "assign": None}
    if r.random() < .3:
        t = r.choice([13, 14, 15, 13, 14, 15, 7, 9, 5, 10])
        v = small(r, t) if t >= 13 else ivalue(r, t)
        c0 = g.code
        g.code = []
        g.add(t, v)
        if r.random() < .3:
            op = r.choice(["++", "--"])
            k["assign"] = (op, r.choice(["pre", "post", "void"]), t, v)
            g.add(7, 1)
            g.code += [{"k": "bin", "op": op[0]}]
            k["leaves"], k["e"] = [], None
        else:
            op = r.choice("+-*/")
            if op == "/" and t < 13 and not f:
                op = "-"
            k["assign"] = (op + "=", r.choice(["val", "void"]), t, v)
            g.code += c0 + [{"k": "bin", "op": op}]
        g.code += [{"k": "cast", "t": t}]
    k["code"] = g.code
    return k


HEAD = """int printf(const char *, ...);
void *memcpy(void *, const void *, unsigned long);
static void P(int i, int j, void *p, int n) { unsigned char *c = p; printf("%d %d ", i, j); for (int k = 0; k < n; k++) printf("%02x", c[k]); printf("\\n"); }
#define TY(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, long double: 15)
"""


def const(t, v):
    if t >= 13:
        if v[0] != "num":
            h = {13: "1e30f", 14: "1e300", 15: "1e4000L"}[t]
            x = f"({h} * {h})"
            if v[0] == "nan":
                return f"({x} - {x})"
            return f"(-{x})" if v[1] else x
        return f"(-{lit(t, v)})" if v[1] else lit(t, v)
    return f"(({NAMES[t]}){ilit(v)})" if t != 7 or v < 0 else str(v)


def operand(r, t, v, n, decl, params, args, body, lvalue=False):
    ty = NAMES[t]
    if t >= 13 and v[0] != "num":
        raw = "{" + ", ".join(map(str, encode(t, v))) + (", 0, 0, 0, 0, 0, 0" if t == 15 else "") + "}"
        decl.append(f"static unsigned char {n}b[] = {raw};")
        body.append(f"{ty} {n}; memcpy(&{n}, {n}b, {SIZE[t]});")
        return n
    l = const(t, v)
    x = r.choice([0, 1, 2, 2, 3, 5, 6, 7] + ([] if lvalue else [4]))
    if x == 0:
        decl.append(f"static {ty} {n} = {l};")
        return n
    if x == 1:
        decl.append(f"static volatile {ty} {n} = {l};")
        return n
    if x == 2:
        params.append(f"{ty} {n}")
        args.append(l)
        return n
    if x == 3:
        body.append(f"{ty} {n} = {l};")
        return n
    if x == 4:
        decl.append(f"static {ty} {n}(void) {{ return {l}; }}")
        return f"{n}()"
    if x == 5:
        decl.append(f"static struct {{ char c; {ty} m; }} {n} = {{1, {l}}};")
        return f"{n}.m"
    if x == 6:
        params.append(f"{ty} *{n}")
        args.append(f"&({ty}){{{l}}}")
        return f"(*{n})"
    params.append(f"{ty} *{n}, int i{n}")
    args.append(f"({ty}[]){{0, {l}}}, 1")
    return f"{n}[i{n}]"


def truth(t, v):
    return int(v != 0) if t < 13 else int(v[0] != "num" or v[2] != 0)


def emit(k, i, t, v, r):
    decl, calls, exp = [], [], []
    for variant in ("var", "mix", "const"):
        if variant == "const" and k["assign"]:
            continue
        params, args, body, leaf = [], [], [], []
        for n, (lt, lv) in enumerate(k["leaves"]):
            if variant == "const" or (variant == "mix" and r.random() < .5):
                leaf.append(const(lt, lv))
            else:
                leaf.append(operand(r, lt, lv, f"v{i}{variant}{n}", decl, params, args, body))
        f = f"f{i}{variant}"
        T, sz = NAMES[t], SIZE[t]
        if k["assign"]:
            op, how, at, av = k["assign"]
            lhs = operand(r, at, av, f"v{i}{variant}L", decl, params, args, body, True)
            e = text(k["e"], leaf) if k["e"] else ""
            if op in ("++", "--"):
                st = f"{op}{lhs}" if how == "pre" or (how == "void" and r.random() < .5) else f"{lhs}{op}"
            else:
                st = f"{lhs} {op} {e}"
            if how == "void":
                body.append(f"{st}; {{ {T} x = {lhs}; P({i}, 0, &x, {sz}); }}")
                exp.append((0, t, v))
            else:
                body.append(f"{{ {T} x = {st}; P({i}, 0, &x, {sz}); x = {lhs}; P({i}, 1, &x, {sz}); }}")
                exp += [(0, t, av if how == "post" else v), (1, t, v)]
        else:
            e = text(k["e"], leaf)
            if variant == "const":
                decl.append(f"static {T} g{i} = {e}; _Static_assert(TY({e}) == {t}, \"\"); static int h{i} = ({e}) ? 1 : 0; static int n{i} = !({e});")
                body.append(f"{T} x = g{i}; P({i}, 2, &x, {sz}); x = {e}; P({i}, 3, &x, {sz}); P({i}, 4, &h{i}, 4); P({i}, 5, &n{i}, 4);")
                exp += [(2, t, v), (3, t, v), (4, 7, truth(t, v)), (5, 7, 1 - truth(t, v))]
            else:
                b = truth(t, v)
                x = r.randint(0, 6)
                body.append(f"{T} x = {e}; P({i}, 10, &x, {sz});")
                exp.append((10, t, v))
                body.append([f"int y = 0; if ({e}) y = 1;", f"int y = !({e});", f"int y = ({e}) ? 1 : 0;", f"int y = 0; while (!({e})) {{ y = 1; break; }} y = !y;", f"int y = ({e}) && 1;", f"int y = !!({e});", f"_Bool z = {e}; int y = z;"][x] + f" P({i}, 11, &y, 4);")
                exp.append((11, 7, 1 - b if x == 1 else b))
        decl.append(f"static void {f}({', '.join(params) or 'void'}) {{ {' '.join(body)} }}")
        calls.append(f"{f}({', '.join(args)});")
    return decl, calls, exp


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 9000 if c.quick else 90000
    cases = [gen(c.rng) for _ in range(N)]
    res = {}
    for b in chunks(list(range(N)), 9000):
        for x in c.tlc("FloatExpr", [{"pp": False, "code": cases[i]["code"]} for i in b], init="FInit", next="FNext", invariants=["FCanonical"]):
            if not x["u"]:
                t, v = x["t"], x["v"]
                res[b[x["cid"] - 1]] = (t, wrap(unlimb(v), t) if t < 13 else (v["k"], v["s"], unlimb(v["m"]), v["e"]))
    good = sorted(res)
    parts = {i: emit(cases[i], i, *res[i], c.rng) for i in good}

    def same(h, t, v):
        b = bytes.fromhex(h)
        if t < 13:
            return b == (v & (1 << 64) - 1).to_bytes(8, "little")[:SIZE[t]]
        d = decode(t, b)
        return d == v or (d[0] == "nan" and v[0] == "nan")

    def run(idx, tag, opt):
        s, m, exp = [HEAD], [], []
        for i in idx:
            d, k, o = parts[i]
            s += d
            m += k
            exp += [(i, *x) for x in o]
        src = "\n".join(s) + "\nint main(void) {\n" + "\n".join(m) + "\nreturn 0; }\n"
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        bad = [] if rc == 0 and len(got) == len(exp) else ["no output"]
        for g, (i, j, t, v) in zip(got, exp):
            if not g.startswith(f"{i} {j} ") or not same(g.split()[2], t, v):
                bad.append((g, v if t < 13 else encode(t, v).hex()))
        return not bad, rc, bad, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 80)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            c.violation("fexpr:" + "|".join(parts[i][0]), {"program": parts[i][0], "calls": parts[i][1], "opt": opt, "got/expected": x[2][:4], "rc": x[1], "stderr": x[3].decode(errors="replace")[-300:]}, {"case.c": x[4]})
    c.traces += len(good)
    c.extra.update({"expressions": len(good), "undefined_discarded": N - len(good)})
    c.samples += [{"program": parts[i][0][-1], "type": NAMES[res[i][0]], "value": res[i][1]} for i in good[:5]]
    c.assumptions.append("round-to-nearest mode; no contraction; the sign and payload of NaNs are not compared")


if __name__ == "__main__":
    run_check("P21", main)
