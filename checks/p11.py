"""P11 layout and member access: Layout.tla lays out types and runs histories of member stores on a bit image; slimcc's objects must match bit by bit."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

LEAF = {"char": (1, 1), "signed char": (1, 1), "unsigned char": (1, 0), "short": (2, 1), "unsigned short": (2, 0), "int": (4, 1), "unsigned": (4, 0), "long": (8, 1), "unsigned long": (8, 0), "long long": (8, 1), "unsigned long long": (8, 0), "_Bool": (1, 0), "enum E": (4, 1)}
FLT = {"float": 32, "double": 64, "long double": 80}
PTR = ["char *", "int *", "void (*)(void)"]


class Types:
    def __init__(self, r, cid):
        self.r, self.cid, self.nodes, self.decl, self.nm, self.tys = r, cid, [], [], 0, {}
        self.cache = {}

    def add(self, **k):
        n = {"k": "leaf", "sz": 0, "al": 0, "sgn": False, "bool": False, "flt": 0, "n": 0, "e": 0, "m": [], "pk": False}
        n.update(k)
        self.nodes.append(n)
        return len(self.nodes)

    def leaf(self, t=None):
        r = self.r
        t = t or r.choice(list(LEAF) + list(FLT) + PTR + ["char", "int", "short", "long"])
        if t in self.cache:
            return self.cache[t]
        if t in FLT:
            s = {"float": 4, "double": 8, "long double": 16}[t]
            x = self.add(sz=s, al=s, flt=FLT[t])
        elif t in PTR:
            x = self.add(sz=8, al=8)
        else:
            s, sg = LEAF[t]
            x = self.add(sz=s, al=s, sgn=bool(sg), bool=t == "_Bool")
        self.tys[x] = t
        self.cache[t] = x
        return x

    def arr(self, d, n=None):
        e = self.node(d - 1)
        return self.add(k="arr", n=n if n is not None else self.r.choice([1, 2, 2, 3, 5]), e=e)

    def agg(self, d, anon=False, root=False):
        r = self.r
        kind = r.choice(["struct", "struct", "struct", "union"])
        m, text = [], []
        pk = r.random() < .2
        bf = r.choice([.1, .4, .7, .95])
        for _ in range(r.choice([1, 2, 3, 3, 4, 5, 7])):
            x = r.random()
            if x < .06 and m:
                b = r.choice(["char", "short", "int", "long", "unsigned"])
                w = r.choice([0, 0, r.randint(1, 8 * LEAF[b][0])])
                al = r.choice([0] * 5 + [1, 2, 4, 8, 16])
                m.append({"t": self.leaf(b), "w": w, "al": al, "nm": ""})
                text.append(f"{b} : {w}" + (f" __attribute__((aligned({al})))" if al else "") + ";")
                continue
            if d > 0 and x < .14:
                al = r.choice([0] * 6 + [4, 16])
                t = self.agg(d - 1, anon=True)
                if al and al < self.align(t):
                    al = 0
                m.append({"t": t, "w": -1, "al": al, "nm": ""})
                text.append((f"_Alignas({al}) " if al else "") + self.text(t, "") + ";")
                continue
            self.nm += 1
            nm = f"m{self.nm}"
            al = r.choice([0] * 12 + [1, 2, 4, 8, 16])
            if r.random() < bf:
                b = r.choice(list(LEAF))
                W = 1 if b == "_Bool" else 8 * LEAF[b][0]
                if b == "enum E":
                    W = 31
                w = r.choice([W, W // 2 or 1, r.randint(1, W), r.randint(1, W), r.randint(1, W), min(W, r.randint(1, 9))])
                m.append({"t": self.leaf(b), "w": w, "al": al, "nm": nm})
                text.append(f"{b} {nm} : {w}" + (f" __attribute__((aligned({al})))" if al else "") + ";")
            else:
                t = self.node(d - 1)
                if al and al >= self.align(t) and r.random() < .5:
                    text.append(f"_Alignas({al}) {self.text(t, nm)};")
                else:
                    text.append(f"{self.text(t, nm)}" + (f" __attribute__((aligned({al})))" if al else "") + ";")
                m.append({"t": t, "w": -1, "al": al, "nm": nm})
        if not any(y["nm"] for y in m):
            self.nm += 1
            m.append({"t": self.leaf("char"), "w": -1, "al": 0, "nm": f"m{self.nm}"})
            text.append(f"char m{self.nm};")
        if root and kind == "struct" and r.random() < .08:
            self.nm += 1
            t = self.add(k="arr", n=0, e=self.node(0))
            m.append({"t": t, "w": -1, "al": 0, "nm": f"m{self.nm}"})
            text.append(self.text(t, f"m{self.nm}").replace("[0]", "[]") + ";")
        al = r.choice([0] * 10 + [1, 2, 4, 8, 16, 32])
        att = (["packed"] if pk else []) + ([f"aligned({al})"] if al else [])
        x = self.add(k=kind, m=m, pk=pk, al=al)
        a = f" __attribute__(({', '.join(att)}))" if att else ""
        body = f"{kind}{a} {{ {' '.join(text)} }}" if r.random() < .5 else f"{kind} {{ {' '.join(text)} }}{a}"
        if anon:
            self.tys[x] = body
        else:
            self.tys[x] = f"T{self.cid}_{x}"
            self.decl.append(f"typedef {body} T{self.cid}_{x};")
        return x

    def align(self, x):
        n = self.nodes[x - 1]
        if n["k"] == "leaf":
            return n["al"]
        if n["k"] == "arr":
            return self.align(n["e"])
        a = max(1, n["al"])
        for m in n["m"]:
            a = max(a, m["al"], 1 if n["pk"] else self.align(m["t"]))
        return a

    def node(self, d):
        x = self.r.random()
        if d <= 0 or x < .5:
            return self.leaf()
        return self.arr(d) if x < .65 else self.agg(d)

    def text(self, x, name):
        n = self.nodes[x - 1]
        if n["k"] == "arr":
            return self.text(n["e"], f"{name}[{n['n']}]")
        t = self.tys[x]
        if t == "void (*)(void)":
            return f"void (*{name})(void)"
        return f"{t} {name}".rstrip()

    def bound(self, x):
        """upper bound on the size"""
        n = self.nodes[x - 1]
        if n["k"] == "leaf":
            return n["sz"]
        if n["k"] == "arr":
            return n["n"] * self.bound(n["e"])
        return sum((m["w"] + 7) // 8 + 24 if m["w"] >= 0 else self.bound(m["t"]) + max(self.align(m["t"]), m["al"]) for m in n["m"]) + self.align(x)

    def leaves(self, x, p=()):
        """(path, leaf type node, width) of the named scalars"""
        n = self.nodes[x - 1]
        if n["k"] == "leaf":
            yield p, x, -1
        elif n["k"] == "arr":
            for i in range(n["n"]):
                yield from self.leaves(n["e"], p + (i,))
        else:
            for i, m in enumerate(n["m"]):
                if m["w"] < 0:
                    yield from self.leaves(m["t"], p + (i,))
                elif m["nm"]:
                    yield p + (i,), m["t"], m["w"]

    def aggs(self, x, p=()):
        n = self.nodes[x - 1]
        if n["k"] in ("struct", "union"):
            if self.tys[x].startswith("T"):
                yield p, x
            for i, m in enumerate(n["m"]):
                if m["w"] < 0:
                    yield from self.aggs(m["t"], p + (i,))
        elif n["k"] == "arr":
            for i in range(n["n"]):
                yield from self.aggs(n["e"], p + (i,))

    def access(self, p, fix=False):
        s, x = "", len(self.nodes)
        for i in p:
            n = self.nodes[x - 1]
            if n["k"] == "arr":
                s += f"[{i}]" if fix or self.r.random() < .5 else f"[ix[{i}]]"
                x = n["e"]
            else:
                if n["m"][i]["nm"]:
                    s += "." + n["m"][i]["nm"]
                x = n["m"][i]["t"]
        return s


def limbs(v):
    v %= 2**64
    return [(v >> (16 * i)) & 65535 for i in range(4)]


def unlimbs(l):
    return sum(x << (16 * i) for i, x in enumerate(l))


def f80(v):
    """bytes of a long double holding v exactly (v a small dyadic rational)"""
    if v == 0:
        return bytes(10)
    import math
    m, e = math.frexp(abs(v))
    return int(m * 2**64).to_bytes(8, "little") + struct.pack("<H", (e - 1 + 16383) | (0x8000 if v < 0 else 0))


def lit(v, r):
    """a C constant of value v modulo 2^64"""
    v %= 2**64
    s = v - 2**64 if v >= 2**63 else v
    o = [f"{v}ull"]
    if s > -2**63:
        o.append(f"({s}ll)")
    if -2**31 < s < 2**31:
        o += [f"({s})"] * 3
    if -2**63 < s < 2**63:
        o.append(f"(lz + {s}l)")
        if -2**31 < s < 2**31:
            o.append(f"(iz + {s})")
    return r.choice(o)


def gen(r, cid):
    while True:
        t = Types(r, cid)
        d = r.choice([1, 1, 1, 2, 2, 3])
        t.root = t.agg(d, root=True)
        if t.bound(t.root) <= 200 and len(t.nodes) <= 40 and t.tys[t.root].startswith("T"):
            lv = list(t.leaves(t.root))
            if lv:
                break
    ag = list(t.aggs(t.root))
    ints = [x for x in lv if not t.nodes[x[1] - 1]["flt"]]
    ops, text = [], []

    def val(x, w):
        W = w if w > 0 else 8 * t.nodes[x - 1]["sz"]
        y = r.random()
        if y < .3:
            return r.choice([0, 1, -1, 2**(W - 1), 2**(W - 1) - 1, 2**W - 1, 2**W, -2**(W - 1) - 1])
        return r.randint(-9, 9) if y < .5 else r.getrandbits(W) if y < .8 else r.getrandbits(64)
    for _ in range(r.choice([6, 10, 16])):
        x = r.random()
        o = {"o": "", "p": [], "q": [], "v": [0] * 4, "k": "", "b": []}
        p, lf, w = r.choice(lv)
        if x < .7 and ints:
            p, lf, w = r.choice(ints)
        n = t.nodes[lf - 1]
        ty = t.tys[lf]
        a = t.access(p)
        o["p"] = list(p)
        if x > .9 and ag:
            p, lf = r.choice(ag)
            o.update(o="copy", p=list(p), b=[r.getrandbits(8) for _ in range(t.bound(lf))])
            how = r.choice(["deref", "call"])
            text.append((how, t.access(p), t.tys[lf]))
        elif n["flt"]:
            v = r.choice([1.5, -2.25, 0.0, 1024.0, -0.5, 3.0])
            b = struct.pack("<f", v) if n["flt"] == 32 else struct.pack("<d", v) if n["flt"] == 64 else f80(v)
            o.update(o="flt", b=list(b))
            text.append(("void", f"@{a} = {v!r}"))
        elif ty in PTR:
            if r.random() < .6:
                v = r.getrandbits(64)
                o.update(o="set", v=limbs(v))
                text.append(("val", f"@{a} = ({ty}){v}ul"))
            else:
                o["o"] = "get"
                text.append(("val", f"@{a}"))
        elif x < .3:
            v = val(lf, w)
            o.update(o="set", v=limbs(v))
            text.append(("val", f"@{a} = {lit(v, r)}"))
        elif x < .5:
            k = r.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
            v = r.choice([0, 1, 1, 2, 3, 5, 7]) if k in ("<<", ">>") else r.choice([1, 2, 3, 7, 10, 100]) if k in "/%" else r.randint(-100, 100)
            o.update(o="op", k=k, v=limbs(v))
            text.append(("val", f"@{a} {k}= {v if r.random() < .6 else f'(iz + {v})'}"))
        elif x < .62:
            o.update(o=r.choice(["inc", "dec"]), k=r.choice(["pre", "post"]))
            s = "++" if o["o"] == "inc" else "--"
            text.append(("val", f"{s}@{a}" if o["k"] == "pre" else f"@{a}{s}"))
        elif x < .72 and len(ints) > 1:
            p2, l2, w2 = r.choice(ints)
            if t.tys[l2] in PTR:
                o["o"] = "get"
                text.append(("val", f"@{a}"))
            elif r.random() < .5:
                v = val(l2, w2)
                o.update(o="chain", q=list(p2), v=limbs(v))
                text.append(("val", f"@{a} = @{t.access(p2)} = {lit(v, r)}"))
            else:
                o.update(o="mov", q=list(p2))
                text.append(("val", f"@{a} = @{t.access(p2)}"))
        else:
            o["o"] = "get"
            text.append(("get", a))
        ops.append(o)
    t.ops, t.otext = ops, text
    t.fill = [r.getrandbits(8) for _ in range(t.bound(t.root))]
    t.mode = r.choice(["g", "l", "l", "p", "v", "e", "e", "b", "a"])
    t.case = {"nodes": t.nodes, "fill": t.fill, "ops": ops}
    return t


HEAD = """int printf(const char *, ...); void *memcpy(void *, const void *, unsigned long);
void *mmap(void *, unsigned long, int, int, int, long); int mprotect(void *, unsigned long, int);
enum E {EM = -1, E0, E1, E2};
static int ix[] = {0, 1, 2, 3, 4, 5, 6, 7}; static long lz; static int iz;
static char *page, *guard;
static void ck(int c, int k, const char *what, unsigned long got, unsigned long want) { if (got != want) printf("%d %d %s: %lx instead of %lx\\n", c, k, what, got, want); }
static int hex(const char *s) { int v = 0; for (int i = 0; i < 2; i++) v = v * 16 + (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10); return v; }
static void img(int c, int k, const void *o, const char *want, const char *mask) {
  const unsigned char *p = o;
  for (int i = 0; want[2 * i]; i++)
    if ((p[i] ^ hex(want + 2 * i)) & hex(mask + 2 * i)) { printf("%d %d byte %d: %02x instead of %02x (mask %02x)\\n", c, k, i, p[i], hex(want + 2 * i), hex(mask + 2 * i)); return; }
}
"""


def emit(t, lay, steps, r):
    cid = t.cid
    T = t.tys[t.root]
    decl, body = list(t.decl), []
    L = lay[t.root - 1]
    body.append(f'ck({cid}, 0, "sizeof", sizeof({T}), {L["sz"]}); ck({cid}, 0, "alignof", _Alignof({T}), {L["al"]});')
    for x, n in enumerate(t.nodes, 1):
        if n["k"] in ("struct", "union") and t.tys[x].startswith("T"):
            for i, m in enumerate(n["m"]):
                if m["nm"] and m["w"] < 0:
                    body.append(f'ck({cid}, 0, "offsetof {t.tys[x]} {m["nm"]}", __builtin_offsetof({t.tys[x]}, {m["nm"]}), {lay[x - 1]["off"][i] // 8});')
    sz = L["sz"]
    fill = "".join(f"{b:02x}" for b in t.fill[:sz])
    decl.append(f"static _Alignas(64) unsigned char fill{cid}[{max(1, sz)}] = {{{', '.join(str(b) for b in t.fill[:sz])}}};")
    decl.append(f"static {T} by{cid}({T} *p) {{ return *p; }}")
    o = {"g": f"o{cid}", "l": "o", "v": "o", "p": "(*o)", "e": "(*o)", "b": "(*o)", "a": f"oa{cid}[ix[1]]"}[t.mode]
    if t.mode == "g":
        decl.append(f"static {T} o{cid};")
    elif t.mode == "a":
        decl.append(f"{T} oa{cid}[3];")
    elif t.mode == "l":
        body.append(f"{T} o;")
    elif t.mode == "v":
        body.append(f"volatile {T} o;")
    elif t.mode == "p":
        body.append(f"static {T} o_; {T} *o = &o_;")
    elif t.mode == "e":
        body.append(f"{T} *o = ({T} *)(guard - sizeof({T}));")
    else:
        body.append(f"{T} *o = ({T} *)page;")
    body.append(f"memcpy((void *)&{o}, fill{cid}, {sz});")
    n = 0
    bits = [(t.fill[i // 8] >> (i % 8)) & 1 for i in range(8 * sz)]
    for k, (op, tx) in enumerate(zip(t.ops, t.otext), 1):
        s = steps[k]
        if not s["r"]["ok"]:
            continue
        n += 1
        v = unlimbs(s["r"]["v"]) if s["r"]["v"] else 0
        if tx[0] in ("deref", "call"):
            b = op["b"]
            decl.append(f"static _Alignas(64) unsigned char s{cid}_{k}[{len(b)}] = {{{', '.join(map(str, b))}}};")
            if tx[0] == "call":
                decl.append(f"static {tx[2]} fs{cid}_{k}(void) {{ return *({tx[2]} *)s{cid}_{k}; }}")
                body.append(f"{o}{tx[1]} = fs{cid}_{k}();")
            else:
                body.append(f"{o}{tx[1]} = *({tx[2]} *)s{cid}_{k};")
        elif tx[0] == "void":
            body.append(tx[1].replace("@", o) + ";")
        else:
            e = o + tx[1] if tx[0] == "get" else tx[1].replace("@", o)
            if tx[0] == "get" and t.mode != "v" and r.random() < .15:
                e = f"by{cid}(&{o}){tx[1]}"
            y = r.random()
            if y < .3 and tx[0] != "get":
                body.append(f"{e};")
            elif y < .4:
                body.append(f'ck({cid}, {k}, "truth", ({e}) ? 1 : 0, {int(v != 0)});')
            elif y < .5:
                body.append(f'if ({e}) ck({cid}, {k}, "taken", 1, {int(v != 0)}); else ck({cid}, {k}, "taken", 0, {int(v != 0)});')
            else:
                body.append(f'ck({cid}, {k}, "value", (unsigned long)({e}), {v}ul);')
        for g in s["ch"]:
            bits[g["o"]:g["o"] + len(g["f"])] = g["f"]
        im = "".join(f"{sum((bits[i + j] == 1) << j for j in range(8)):02x}" for i in range(0, 8 * sz, 8))
        mk = "".join(f"{sum((bits[i + j] != 2) << j for j in range(8)):02x}" for i in range(0, 8 * sz, 8))
        if op["o"] != "get" or r.random() < .2:
            body.append(f'img({cid}, {k}, (void *)&{o}, "{im}", "{mk}");')
    return decl, f"static void f{cid}(void) {{ {chr(10).join(body)} }}", n


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 2400 if c.quick else 30000
    ts = [gen(c.rng, i) for i in range(N)]
    lay, steps = {}, {}
    for b in chunks(list(range(N)), 3000):
        for x in c.tlc("Layout", [ts[i].case for i in b], invariants=["Sound"]):
            i = b[x["cid"] - 1]
            if x["k"]:
                steps.setdefault(i, {})[x["k"]] = x
            else:
                lay[i] = x["lay"]
    if len(lay) != N:
        raise ModelError(f"{N - len(lay)} behaviours did not finish")
    parts, nops = {}, 0
    for i in range(N):
        d, f, n = emit(ts[i], lay[i], steps.get(i, {}), c.rng)
        nops += n
        parts[i] = (d, f)

    def run(idx, tag, opt):
        src = HEAD + "\n".join("\n".join(parts[i][0] + [parts[i][1]]) for i in idx) + "\nint main(void) {\npage = mmap(0, 12288, 3, 34, -1, 0); mprotect(page, 4096, 0); mprotect(page + 8192, 4096, 0); page += 4096; guard = page + 4096;\n" + "\n".join(f"f{i}();" for i in idx) + "\nprintf(\"end\\n\"); return 0; }\n"
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = "compile"
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace")
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == "end\n", rc, got, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(list(range(N)), 60)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            c.violation("layout:" + "|".join(ts[i].decl)[:600], {"types": ts[i].decl, "mode": ts[i].mode, "opt": opt, "wrong": x[2].split("\n")[:5], "rc": x[1], "function": parts[i][1], "stderr": x[3].decode(errors="replace")[-400:]}, {"case.c": x[4]})
    c.traces += N
    c.extra.update({"types": N, "accesses": nops})
    c.samples = [{"types": ts[i].decl, "function": parts[i][1][:600]} for i in range(5)]


if __name__ == "__main__":
    run_check("P11", main)
