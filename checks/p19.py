"""P19 side effects and pending values: Effects.tla evaluates generated expressions; slimcc's programs log calls and memory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CT = {"char": ("int", 8, True), "unsigned char": ("int", 8, False), "short": ("int", 16, True), "int": ("int", 32, True), "long": ("int", 64, True),
      "_Bool": ("bool", 1, False), "float": ("flt", 0, False), "double": ("flt", 0, False), "long double": ("flt", 0, False), "unsigned short": ("int", 16, False), "long long": ("int", 64, True)}
INTS = ["char", "unsigned char", "short", "int", "int", "long", "_Bool", "unsigned short", "long long"]
FLTS = ["float", "double", "long double", "double"]


def ct(t, w=None):
    k, b, s = CT[t]
    return {"k": k if t == "_Bool" or w is None else "int", "w": w if w is not None and t != "_Bool" else b, "s": s}


FIELDS = {k: f.split() for k, f in {"num": "v", "rd": "a", "asg": "a b", "cas": "a b op", "inc": "a v op", "bin": "a b op", "neg": "a", "not": "a", "bnot": "a", "cast": "a t", "and": "a b", "or": "a b",
          "cond": "a b c", "elvis": "a c", "comma": "a b", "stx": "l", "void": "a v", "diff": "a b", "call": "op v l obj", "srd": "a n", "sasg": "a b n", "mem": "a i", "cell": "obj i", "idx": "obj a n i",
          "lcomma": "a b", "lcond": "a b c"}.items()}


class E:
    """a generated expression: node, C text, class (i, f, s: structure, p: pointer, v: void), and the objects it reads and writes"""
    def __init__(self, n, c, t, R=(), W=(), U=(), ty=None):
        self.n, self.c, self.t, self.R, self.W, self.U, self.ty = n, c, t, frozenset(R), frozenset(W), frozenset(U), ty


def clash(a, b):
    return bool(a.W & (b.R | b.W)) or bool(b.W & (a.R | a.W))


class Case:
    def __init__(self, r, cid):
        self.r, self.cid = r, cid
        self.nodes, self.objs, self.o = [], [], []
        self.site = 0
        self.decl, self.top, self.loc, self.params, self.argl, self.protos = [], [], [], [], [], []
        self.shape = r.choice("lrbb")
        self.pf = r.choice([.1, .3, .5, .8])          # floating operands
        self.pc = r.choice([.1, .25, .4])             # calls
        self.setup()
        self.stmts, self.text = [], []
        for k in range(r.choice([2, 3, 4, 6])):
            self.stmt(k)
        if self.rett:
            e = self.want(self.expr(r.choice([2, 3, 4])), "f" if CT[self.rett][0] == "flt" else "i")
            n = self.node(k="cast", a=e.n, t=ct(self.rett))
            self.stmts.append({"k": "ret", "a": n, "b": 0, "c": 0})
            self.text.append(f"return {e.c};")

    def node(self, **kw):
        d = {"k": "", "a": 0, "b": 0, "c": 0, "op": "", "v": 0, "obj": 0, "i": 0, "n": 0, "l": [], "t": ct("int"), "ts": []}
        d.update(kw)
        d = {f: d[f] for f in ["k"] + FIELDS[d["k"]] + (["ts"] if d["ts"] else [])}
        self.nodes.append(d)
        return len(self.nodes)

    def setup(self):
        r = self.r
        self.rett = r.choice(["int", "long", "double", "long double", "char", "_Bool", "float", ""])
        self.mem = []
        for j in range(r.choice([1, 2, 3, 4])):
            t = r.choice(INTS + FLTS)
            w = None
            if t in ("int", "char", "short", "long", "unsigned char") and r.random() < .35:
                w = r.randint(3, 8 if "char" in t else 13)
            self.mem.append((t, w, f"m{j}"))
        self.decl.append(f"struct S{self.cid} {{ " + " ".join(f"{t} {n}{f' : {w}' if w else ''};" for t, w, n in self.mem) + " };")
        self.S = f"struct S{self.cid}"
        self.sn = len(self.mem)
        self.vla = r.random() < .15

        def add(nm, cells, init, decl, kind, **kw):
            """decl(name) is the declarator"""
            self.objs.append({"t": cells, "v": init})
            self.o.append({"nm": nm, "kind": kind, **kw})
            return len(self.objs)

        def place(nm, decl, ini, scalar=False):
            st = r.choice(["l", "l", "l", "g", "s", "t", "fs"] + (["p", "p"] if scalar else []))
            vol = "volatile " if r.random() < .06 else ""
            if st == "l":
                self.loc.append(f"{vol}{decl(nm)} = {ini};")
            elif st == "g":
                nm = f"g{self.cid}_{nm}"
                self.decl.append(f"{vol}{decl(nm)} = {ini};")
            elif st == "s":
                self.loc.append(f"static {vol}{decl(nm)} = {ini};")
            elif st == "t":
                nm = f"t{self.cid}_{nm}"
                self.decl.append(f"static _Thread_local {vol}{decl(nm)} = {ini};")
            elif st == "fs":
                nm = f"f{self.cid}_{nm}"
                self.decl.append(f"static {vol}{decl(nm)} = {ini};")
            else:
                self.params.append(decl(nm))
                self.protos.append(decl(nm))
                self.argl.append(str(ini))
            return nm

        def val(t, w=None):
            if t == "_Bool":
                return r.randint(0, 1)
            if w:
                return r.randint(0, 3)
            return r.choice([0, 1, 2, 3, 5, 7, 20, 100]) if "unsigned" in t else r.choice([0, 1, 2, 3, -1, -2, 5, 9, 30, 100])
        for j in range(r.choice([2, 3, 4, 5])):
            t = r.choice(INTS) if r.random() > self.pf else r.choice(FLTS)
            v = val(t)
            nm = place(f"x{j}", lambda n, t=t: f"{t} {n}", v, True)
            add(nm, [ct(t)], [v], None, "x", ty=t)
        self.arrs = []
        for j in range(r.choice([1, 1, 2])):
            t = r.choice(INTS + FLTS)
            vs = [val(t) for _ in range(6)]
            nm = place(f"a{j}", lambda n, t=t: f"{t} {n}[6]", "{" + ", ".join(map(str, vs)) + "}")
            self.arrs.append(add(nm, [ct(t)] * 6, vs, None, "a", ty=t))
        cells = [ct(t, w) for t, w, _ in self.mem]
        for j in range(r.choice([1, 2])):
            vs = [val(t, w) for t, w, _ in self.mem]
            nm = place(f"s{j}", lambda n: f"{self.S} {n}", "{" + ", ".join(map(str, vs)) + "}")
            add(nm, cells, vs, None, "s")
        if r.random() < .6:
            vs = [val(t, w) for _ in range(4) for t, w, _ in self.mem]
            nm = place("sa", lambda n: f"{self.S} {n}[4]", "{" + ", ".join(map(str, vs)) + "}")
            self.sa = add(nm, cells * 4, vs, None, "sa")
        else:
            self.sa = 0
        pt = {"k": "ptr", "w": 64, "s": True}
        self.ptrs = []
        for j in range(r.choice([0, 1, 2])):
            a = r.choice(self.arrs)
            k = r.choice([0, 1, 2, 3])
            tg = self.o[a - 1]
            if tg["nm"].startswith("t"):
                continue
            vol = "volatile " if any(f"volatile {tg['ty']} {tg['nm']}[" in d for d in self.loc + self.decl) else ""
            self.loc.append(f"{vol}{tg['ty']} *p{j} = {tg['nm']} + {k};")
            self.ptrs.append(add(f"p{j}", [pt], [k], None, "p", tgt=a, base=tg["nm"]))
        if self.sa and r.random() < .7 and not self.o[self.sa - 1]["nm"].startswith("t"):
            k = r.choice([0, 1, 2])
            nm = self.o[self.sa - 1]["nm"]
            vol = "volatile " if any(f"volatile {self.S} {nm}[" in d for d in self.loc + self.decl) else ""
            self.loc.append(f"{vol}{self.S} *q0 = &{nm}[{k}];")
            self.ptrs.append(add("q0", [pt], [k], None, "p", tgt=self.sa, base=nm))
        vs = [0, 1, 2, 3]
        self.decl.append(f"static int G{self.cid}[4] = {{0, 1, 2, 3}};")
        self.G = add(f"G{self.cid}", [ct("int")] * 4, vs, None, "G", ty="int")
        self.add = add
        if self.vla:
            self.loc.append(r.choice([f"int vl[one + {r.randint(0, 20)}]; vl[0] = 1;", f"_Alignas({r.choice([32, 64])}) int vl[3]; vl[0] = one;"]))

    # -- structure and scalar locations: (node, C text, cell type info, E-sets)
    def small(self, d):
        """an index"""
        r = self.r
        if r.random() < .35:
            v = r.choice([0, 1, 2, 3])
            return E(self.node(k="num", v=v), str(v), "i")
        e = self.want(self.expr(d), "i")
        v = r.choice([1, 3])
        m = self.node(k="num", v=v)
        return E(self.node(k="bin", op="&", a=e.n, b=m), f"({e.c} & {v})", "i", e.R, e.W, e.U)

    def lv(self, d, want=None):
        """a modifiable scalar location: E with n = location node, ty = (C type, width), and .obj"""
        r = self.r
        for _ in range(8):
            c = r.random()
            if c < .35:
                x = r.choice([i for i, o in enumerate(self.o, 1) if o["kind"] == "x"])
                e = E(self.node(k="cell", obj=x, i=0), self.o[x - 1]["nm"], "l", ty=(self.o[x - 1]["ty"], None))
                e.obj = x
                if r.random() < .05:
                    e.c = f"(*&{e.c})"
            elif c < .55:
                a = r.choice(self.arrs + [self.G])
                ix = self.small(d - 1)
                nm = self.o[a - 1]["nm"]
                e = E(self.node(k="idx", obj=a, n=1, i=0, a=ix.n), r.choice([f"{nm}[{ix.c}]"] * 4 + [f"(*({nm} + {ix.c}))", f"({ix.c})[{nm}]"]), "l", ix.R, ix.W, ix.U, (self.o[a - 1]["ty"], None))
                e.obj = a
            elif c < .7:
                x = r.choice([i for i, o in enumerate(self.o, 1) if o["kind"] == "s"])
                j = r.randrange(self.sn)
                nm = self.o[x - 1]["nm"]
                e = E(self.node(k="cell", obj=x, i=j), r.choice([f"{nm}.m{j}", f"{nm}.m{j}", f"(&{nm})->m{j}"]), "l", ty=self.mem[j][:2])
                e.obj = x
            elif c < .8 and self.sa:
                ix = self.small(d - 1)
                j = r.randrange(self.sn)
                nm = self.o[self.sa - 1]["nm"]
                e = E(self.node(k="idx", obj=self.sa, n=self.sn, i=j, a=ix.n), f"{nm}[{ix.c}].m{j}", "l", ix.R, ix.W, ix.U, self.mem[j][:2])
                e.obj = self.sa
            elif c < .95 and self.ptrs:
                p = r.choice(self.ptrs)
                tg = self.o[p - 1]["tgt"]
                pe = self.ptr(p, d - 1)
                k = r.choice([0, 0, 0, 1, -1])
                n = pe.n
                txt = pe.c
                if k:
                    n = self.node(k="bin", op="+", a=n, b=self.node(k="num", v=k))
                    txt = f"{pe.c}[{k}]"
                if tg == self.sa:
                    j = r.randrange(self.sn)
                    e = E(self.node(k="idx", obj=tg, n=self.sn, i=j, a=n), f"{txt}.m{j}" if k else f"{txt}->m{j}", "l", pe.R, pe.W, pe.U, self.mem[j][:2])
                else:
                    e = E(self.node(k="idx", obj=tg, n=1, i=0, a=n), txt if k else f"(*{txt})", "l", pe.R, pe.W, pe.U, (self.o[tg - 1]["ty"], None))
                e.obj = tg
            else:
                continue
            if want is None or want(e.ty):
                return e
        x = 1
        e = E(self.node(k="cell", obj=x, i=0), self.o[0]["nm"], "l", ty=(self.o[0]["ty"], None))
        e.obj = x
        return e

    def cls(self, ty):
        return "f" if ty[0] in FLTS else "i"

    def ptr(self, p, d):
        r = self.r
        nm = self.o[p - 1]["nm"]
        cell = lambda: self.node(k="cell", obj=p, i=0)
        rd = lambda: E(self.node(k="rd", a=cell()), nm, "p", [p])
        c = r.random()
        if d <= 0 or c < .35:
            return rd()
        if c < .55:
            v = r.choice([1, 1, -1])
            op = r.choice(["pre", "post"])
            t = "++" if v == 1 else "--"
            return E(self.node(k="inc", a=cell(), v=v, op=op), f"({t}{nm})" if op == "pre" else f"({nm}{t})", "p", [p], [p], [p])
        if c < .65:
            e = self.small(d - 1)
            b = rd()
            if clash(b, e):
                return b
            op = r.choice("+-")
            return E(self.node(k="bin", op=op, a=b.n, b=e.n), f"({b.c} {op} {e.c})", "p", b.R | e.R, e.W, e.U)
        if c < .75:
            e = self.small(d - 1)
            b = self.o[p - 1]["base"]
            return E(e.n, f"(&{b}[{e.c}])", "p", e.R, e.W, e.U)
        if c < .85:
            e = self.ptr(p, d - 1)
            if p in e.U:
                return e
            return E(self.node(k="asg", a=cell(), b=e.n), f"({nm} = {e.c})", "p", e.R, e.W | {p}, e.U | {p})
        if c < .92:
            a = self.expr(d - 1)
            e = self.ptr(p, d - 1)
            return E(self.node(k="comma", a=a.n, b=e.n), f"({a.c}, {e.c})", "p", a.R | e.R, a.W | e.W, e.U)
        q = self.cond(d - 1)
        a, b = self.ptr(p, d - 1), self.ptr(p, d - 1)
        return E(self.node(k="cond", a=q.n, b=a.n, c=b.n), f"({q.c} ? {a.c} : {b.c})", "p", q.R | a.R | b.R, q.W | a.W | b.W, a.U | b.U)

    def want(self, e, t):
        if e.t == t:
            return e
        if t == "i":
            ty = self.r.choice(["int", "long", "short", "int"])
            if e.t == "f":
                ty = self.r.choice(["int", "long"])
            return E(self.node(k="cast", a=e.n, t=ct(ty)), f"(({ty}){e.c})", "i", e.R, e.W, e.U)
        ty = self.r.choice(FLTS)
        return E(self.node(k="cast", a=e.n, t=ct(ty)), f"(({ty}){e.c})", "f", e.R, e.W, e.U)

    def cond(self, d):
        r = self.r
        if r.random() < .6 and d > 0:
            a, b = self.pair(d - 1)
            op = r.choice(["<", "<=", ">", ">=", "==", "!="])
            return E(self.node(k="bin", op=op, a=a.n, b=b.n), f"({a.c} {op} {b.c})", "i", a.R | b.R, a.W | b.W, a.U | b.U)
        return self.expr(d)

    def pair(self, d, want=None):
        """two operands whose order does not matter"""
        r = self.r
        da, db = (d, max(0, d - r.randint(1, 2))) if self.shape == "l" else (max(0, d - r.randint(1, 2)), d) if self.shape == "r" else (d, d)
        f = (lambda e: self.want(e, want)) if want else (lambda e: e)
        a = f(self.expr(da))
        for t in range(6):
            b = f(self.expr(db if t < 3 else 0))
            if not clash(a, b):
                return a, b
        v = r.randint(0, 4)
        return a, E(self.node(k="num", v=v), str(v), "i")

    def num(self):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 7, 10, 60, 1000])
        if r.random() < self.pf * .5:
            return E(self.node(k="num", v=v), f"{v}.0{r.choice(['', 'f', 'L'])}", "f")
        return E(self.node(k="num", v=v), f"{v}{r.choice(['', '', '', 'L', 'LL'])}", "i")

    def call(self, d):
        r = self.r
        self.site += 1
        k = self.site
        c = r.random()

        def args(ts):
            out = []
            for i, t in enumerate(ts):
                e = None
                for q in range(5):
                    e = self.want(self.expr(r.randint(0, max(0, d - 1)) if q < 3 and i < 4 else 0), t)
                    if not any(clash(e, x) for x in out):
                        break
                else:
                    v = r.randint(0, 9)
                    e = E(self.node(k="num", v=v), str(v) if t == "i" else f"{v}.0", t)
                out.append(e)
            return out, frozenset().union(*[e.R for e in out]), frozenset().union(*[e.W for e in out])

        def mk(fn, ts, rt, pre="", op="l", **kw):
            a, R, W = args(ts)
            fnm = fn
            if r.random() < .1:
                fnm = f"(*(one ? {fn} : {fn}))" if r.random() < .5 else f"(&{fn})"
            return E(self.node(k="call", op=op, v=k, l=[x.n for x in a], **kw), f"{fnm}({k}{pre}{''.join(', ' + x.c for x in a)})", rt, R, W)
        if c < .25:
            return mk("c_l", "i", "i")
        if c < .32:
            a, R, W = args("i")
            t = self.node(k="cast", a=a[0].n, t=ct("short"))
            return E(self.node(k="call", op="l", v=k, l=[t]), f"c_c({k}, {a[0].c})", "i", R, W)
        if c < .42:
            return mk("c_d", "f", "f")
        if c < .48:
            return mk("c_f", "f", "f")
        if c < .55:
            return mk("c_e", "f", "f")
        if c < .65:
            return mk("c_i2", "ii", "i")
        if c < .72:
            return mk("c_d3", "fff", "f")
        if c < .8:
            return mk("c_m", "ifffiiiif", "i")
        if c < .87:
            n = r.choice([1, 2, 3, 4, 6, 12])
            a, R, W = args(["ifi"[i % 3] for i in range(n)])
            return E(self.node(k="call", op="l", v=k, l=[x.n for x in a]), f"c_va({k}, {n}" + "".join(", " + (f"(int)({x.c})", f"(double)({x.c})", f"(long)({x.c})")[i % 3] for i, x in enumerate(a)) + ")", "i", R, W)
        if c < .94:
            a, R, W = args("i")
            m = self.node(k="bin", op="&", a=a[0].n, b=self.node(k="num", v=3))
            return E(self.node(k="call", op="g", v=k, l=[m], obj=self.G), f"c_gi({k}, {a[0].c} & 3, G{self.cid})", "i", R | {self.G}, W | {self.G})
        s = self.st(d - 1)
        nm = f"csa{self.cid}_{k}"
        mem = "".join(f" ev1(s.{n});" for _, _, n in self.mem)
        self.decl.append(f"static long {nm}(int id, {self.S} s) {{ long t = 0; ev0(id);{mem} {' '.join(f't += (long)s.{n};' for _, _, n in self.mem)} return ev2(id, t); }}")
        sub = [self.node(k="mem", a=s.n, i=j) for j in range(self.sn)]
        if s.W or "c" in s.c:      # evaluated once: only plain structures as arguments
            s = self.st(0)
            sub = [self.node(k="mem", a=s.n, i=j) for j in range(self.sn)]
        return E(self.node(k="call", op="l", v=k, l=sub), f"{nm}({k}, {s.c})", "i", s.R)

    def st(self, d):
        """a structure value"""
        r = self.r
        c = r.random()
        if d > 0 and c < .25:
            self.site += 1
            k = self.site
            a = self.want(self.expr(d - 1), "i")
            nm = f"cs{self.cid}_{k}"
            self.decl.append(f"static {self.S} {nm}(int id, long a) {{ {self.S} s; ev0(id); ev1(a); long v = ev2(id, a); {' '.join(f's.{n} = v + {j + 1};' for j, (_, _, n) in enumerate(self.mem))} dirty2(); return s; }}")
            return E(self.node(k="call", op="s", v=k, l=[a.n], ts=[ct(t, w) for t, w, _ in self.mem]), f"{nm}({k}, {a.c})", "s", a.R, a.W)
        if d > 0 and c < .45:
            x = r.choice([i for i, o in enumerate(self.o, 1) if o["kind"] == "s"])
            e = self.st(d - 1)
            if x in e.U:
                return e
            return E(self.node(k="sasg", a=self.node(k="cell", obj=x, i=0), b=e.n, n=self.sn), f"({self.o[x - 1]['nm']} = {e.c})", "s", e.R, e.W | {x}, e.U | {x})
        if d > 0 and c < .6:
            q = self.cond(d - 1)
            a, b = self.st(d - 1), self.st(d - 1)
            return E(self.node(k="cond", a=q.n, b=a.n, c=b.n), f"({q.c} ? {a.c} : {b.c})", "s", q.R | a.R | b.R, q.W | a.W | b.W, a.U | b.U)
        if d > 0 and c < .7:
            q, a = self.expr(d - 1), self.st(d - 1)
            return E(self.node(k="comma", a=q.n, b=a.n), f"({q.c}, {a.c})", "s", q.R | a.R, q.W | a.W, a.U)
        if d > 0 and c < .85 and self.sa:
            ix = self.small(d - 1)
            return E(self.node(k="srd", a=self.node(k="idx", obj=self.sa, n=self.sn, i=0, a=ix.n), n=self.sn), f"{self.o[self.sa - 1]['nm']}[{ix.c}]", "s", ix.R | {self.sa}, ix.W, ix.U)
        x = r.choice([i for i, o in enumerate(self.o, 1) if o["kind"] == "s"])
        return E(self.node(k="srd", a=self.node(k="cell", obj=x, i=0), n=self.sn), self.o[x - 1]["nm"], "s", [x])

    def expr(self, d):
        r = self.r
        c = r.random()
        if d <= 0:
            if c < .3:
                return self.num()
            l = self.lv(0)
            return E(self.node(k="rd", a=l.n), l.c, self.cls(l.ty), l.R | {l.obj}, l.W, l.U)
        if c < .06:
            return self.expr(0)
        if c < .12:
            l = self.lv(d)
            return E(self.node(k="rd", a=l.n), l.c, self.cls(l.ty), l.R | {l.obj}, l.W, l.U)
        if c < .36:
            if r.random() < .75:
                op = r.choice(["+", "-", "*", "+", "-"])
                a, b = self.pair(d - 1)
            else:
                op = r.choice(["&", "|", "^"])
                a, b = self.pair(d - 1, "i")
            if r.random() < self.pf * .4 and op in "+-*":
                b = self.want(b, "f")
            t = "f" if "f" in (a.t, b.t) else "i"
            return E(self.node(k="bin", op=op, a=a.n, b=b.n), f"({a.c} {op} {b.c})", t, a.R | b.R, a.W | b.W, a.U | b.U)
        if c < .40:
            a = self.want(self.expr(d - 1), "i")
            v = r.choice([1, 2, 3])
            op = r.choice([">>", "<<", "%", "%"])
            if op == "%":
                v = r.choice([3, 7, 10])
            n = self.node(k="num", v=v)
            if op == "<<":
                a = E(self.node(k="bin", op="&", a=a.n, b=self.node(k="num", v=15)), f"({a.c} & 15)", "i", a.R, a.W, a.U)
            return E(self.node(k="bin", op=op, a=a.n, b=n), f"({a.c} {op} {v})", "i", a.R, a.W, a.U)
        if c < .45:
            op = r.choice(["neg", "not", "bnot"])
            a = self.want(self.expr(d - 1), "i") if op == "bnot" else self.expr(d - 1)
            return E(self.node(k=op, a=a.n), f"({ {'neg': '-', 'not': '!', 'bnot': '~'}[op]}{a.c})", a.t if op == "neg" else "i", a.R, a.W, a.U)
        if c < .49:
            a = self.expr(d - 1)
            t = r.choice(["int", "long", "_Bool"] + FLTS) if a.t == "f" else r.choice(INTS + FLTS)
            return E(self.node(k="cast", a=a.n, t=ct(t)), f"(({t}){a.c})", "f" if t in FLTS else "i", a.R, a.W, a.U)
        if c < .54:
            return self.cond(d)
        if c < .62:
            k = r.choice(["and", "or", "cond", "cond", "elvis"])
            a = self.cond(d - 1)
            b = self.expr(d - 1)
            if k == "cond":
                e = self.expr(d - 1)
                return E(self.node(k="cond", a=a.n, b=b.n, c=e.n), f"({a.c} ? {b.c} : {e.c})", "f" if "f" in (b.t, e.t) else "i", a.R | b.R | e.R, a.W | b.W | e.W, b.U | e.U)
            if k == "elvis":
                return E(self.node(k="elvis", a=a.n, c=b.n), f"({a.c} ?: {b.c})", "f" if "f" in (a.t, b.t) else "i", a.R | b.R, a.W | b.W, a.U | b.U)
            return E(self.node(k=k, a=a.n, b=b.n), f"({a.c} {'&&' if k == 'and' else '||'} {b.c})", "i", a.R | b.R, a.W | b.W, b.U)
        if c < .66:
            a, b = self.expr(d - 1), self.expr(d - 1)
            if r.random() < .3:
                self.site += 1
                v = self.want(a, "i")
                n = self.node(k="call", op="v", v=self.site, l=[v.n])
                a = E(n, f"c_v({self.site}, {v.c})", "v", v.R, v.W)
            return E(self.node(k="comma", a=a.n, b=b.n), f"({a.c}, {b.c})", b.t, a.R | b.R, a.W | b.W, b.U)
        if c < .70:
            l = [self.expr(d - 2) for _ in range(r.choice([1, 2]))]
            b = self.expr(d - 1)
            n = self.node(k="stx", l=[x.n for x in l] + [b.n])
            return E(n, "({ " + " ".join(x.c + ";" for x in l) + f" {b.c}; }})", b.t, frozenset().union(b.R, *[x.R for x in l]), frozenset().union(b.W, *[x.W for x in l]), b.U)
        if c < .73:
            a = self.expr(d - 1)
            k = r.choice([0, 1, 2, 3])
            if k == 0:
                return E(self.node(k="num", v=1), f"(sizeof(0 + {a.c}) != 0)", "i")
            if k == 1:
                return E(self.node(k="num", v=4), f"_Generic({a.c}, default: 4)", "i")
            if k == 2:
                return E(self.node(k="num", v=3), f"((typeof(0 + {a.c}))3)", a.t)
            a = self.want(a, "i")
            m = self.node(k="bin", op="+", a=self.node(k="bin", op="&", a=a.n, b=self.node(k="num", v=3)), b=self.node(k="num", v=1))
            return E(m, f"((int)(sizeof(char[({a.c} & 3) + 1])))", "i", a.R, a.W, a.U)
        if c < .73 + self.pc * .3:
            return self.call(d)
        if c < .86:
            # assignment
            op = r.choice(["=", "=", "+", "-", "*", "&", "|", "^", "%", ">>", "+"])
            isint = lambda ty: self.cls(ty) == "i"
            l = self.lv(d - 1, isint if op in "&|^%>>" else None)
            if op in ("&", "|", "^", "%", ">>") and self.cls(l.ty) == "f":
                op = "="
            for q in range(6):
                if op in ("%", ">>"):
                    v = r.choice([1, 2, 3])
                    e = E(self.node(k="num", v=v), str(v), "i")
                else:
                    e = self.expr(d - 1 if q < 3 else 0)
                    if op in "&|^":
                        e = self.want(e, "i")
                    if self.cls(l.ty) == "i" and (l.ty[1] or l.ty[0] not in ("int", "long", "long long", "_Bool")):
                        e = self.want(e, "i")
                if clash(l, e) or l.obj in e.U or l.obj in l.U or (op != "=" and l.obj in e.W | l.W):
                    continue
                break
            else:
                return self.num()
            R, W = l.R | e.R, l.W | e.W | {l.obj}
            if op == "=":
                return E(self.node(k="asg", a=l.n, b=e.n), f"({l.c} = {e.c})", self.cls(l.ty), R, W, l.U | e.U | {l.obj})
            return E(self.node(k="cas", a=l.n, b=e.n, op=op), f"({l.c} {op}= {e.c})", self.cls(l.ty), R | {l.obj}, W, l.U | e.U | {l.obj})
        if c < .93:
            l = self.lv(d - 1, lambda ty: ty[0] != "_Bool")
            if l.ty[0] == "_Bool" or l.obj in l.W:
                return self.expr(0)
            v = r.choice([1, -1])
            op = r.choice(["pre", "post"])
            t = "++" if v == 1 else "--"
            return E(self.node(k="inc", a=l.n, v=v, op=op), f"({t}{l.c})" if op == "pre" else f"({l.c}{t})", self.cls(l.ty), l.R | {l.obj}, l.W | {l.obj}, l.U | {l.obj})
        if c < .97:
            s = self.st(d - 1)
            j = r.randrange(self.sn)
            return E(self.node(k="mem", a=s.n, i=j), f"{s.c}.m{j}" if s.c[0] == "(" or "(" in s.c or True else "", self.cls(self.mem[j][:2]), s.R, s.W, s.U)
        if self.ptrs:
            p = r.choice(self.ptrs)
            a, b = self.ptr(p, d - 1), self.ptr(p, d - 1)
            if not clash(a, b):
                return E(self.node(k="diff", a=a.n, b=b.n), f"({a.c} - {b.c})", "i", a.R | b.R, a.W | b.W, a.U | b.U)
        return self.call(d)

    def tower(self):
        """many operands pending at once"""
        r = self.r
        e = self.call(2) if r.random() < .7 else self.expr(3)
        for _ in range(r.choice([4, 7, 9, 13, 18])):
            for q in range(5):
                l = self.expr(0 if r.random() < .8 or q > 2 else r.choice([1, 2]))
                if r.random() < .5 and l.t == "i":
                    l = self.want(l, "f") if r.random() < self.pf else l
                if not clash(l, e):
                    break
            else:
                continue
            op = r.choice("+-+-*^|")
            if r.random() < .05:
                e = self.want(e, r.choice("if"))
            if op in "^|":
                l, e = self.want(l, "i"), self.want(e, "i")
            if op == "*":
                l = self.num()
                l = l if l.c[:4] != "1000" and l.c[:2] not in ("60", "10") else self.num()
            x, y = (e, l) if r.random() < .1 else (l, e)
            e = E(self.node(k="bin", op=op, a=x.n, b=y.n), f"({x.c} {op} {y.c})", "f" if "f" in (l.t, e.t) else "i", l.R | e.R, l.W | e.W, l.U | e.U)
        return e

    def stmt(self, k):
        r = self.r
        d = r.choice([2, 3, 3, 4, 4, 5])
        c = r.random()
        if c < .2:
            e = self.tower()
            l = self.lv(2, lambda ty: not ty[1] and ty[0] in ("int", "long", "long long", "double", "long double"))
            if l.ty[1] or l.ty[0] not in ("int", "long", "long long", "double", "long double") or clash(l, e) or l.obj in e.U | l.U:
                l = E(self.node(k="cell", obj=1, i=0), self.o[0]["nm"], "l", ty=(self.o[0]["ty"], None))
                l.obj = 1
                e = self.want(e, "i")
                if 1 in e.U:
                    e = self.num()
            self.stmts.append({"k": "expr", "a": self.node(k="asg", a=l.n, b=e.n), "b": 0, "c": 0})
            self.text.append(f"{l.c} = {e.c};")
        elif c < .7:
            e = self.expr(d)
            for _ in range(6):
                if e.W or "c_" in e.c:
                    break
                e = self.expr(d)
            self.stmts.append({"k": "expr", "a": e.n, "b": 0, "c": 0})
            self.text.append(r.choice([f"{e.c};", f"{e.c};", f"(void){e.c};"]))
        elif c < .85:
            e, a, b = self.cond(d), self.expr(d - 1), self.expr(d - 1)
            self.stmts.append({"k": "if", "a": e.n, "b": a.n, "c": b.n})
            self.text.append(r.choice([f"if ({e.c}) {a.c}; else {b.c};", f"{e.c} ? (void){a.c} : (void){b.c};", f"if (!{e.c}) {{ {b.c}; }} else {{ {a.c}; }}"]))
        else:
            nm = f"n{k}"
            self.loc.append(f"int {nm} = 0;")
            o = self.add(nm, [ct("int")], [0], None, "n", ty="int")
            cell = self.node(k="cell", obj=o, i=0)
            n = self.node(k="bin", op="<", a=self.node(k="inc", a=cell, v=1, op="post"), b=self.node(k="num", v=r.choice([2, 3])))
            txt = f"({nm}++ < {self.nodes[self.nodes[n - 1]['b'] - 1]['v']})"
            if r.random() < .5:
                e = self.cond(d - 1)
                n = self.node(k="and", a=n, b=e.n)
                txt = f"{txt} && {e.c}"
            b = self.expr(d - 1)
            if r.random() < .35:
                self.stmts.append({"k": "do", "a": n, "b": b.n, "c": self.node(k="num", v=0)})
                self.text.append(f"do {{ {b.c}; }} while ({txt});")
            else:
                i = self.expr(d - 2)
                self.stmts.append({"k": "loop", "a": n, "b": b.n, "c": i.n})
                self.text.append(r.choice([f"for (; {txt}; {i.c}) {b.c};", f"while ({txt}) {{ {b.c}; {i.c}; }}"]))

    def cells(self):
        out = []
        for i, o in enumerate(self.o, 1):
            n = o["nm"]
            if o["kind"] in "xn":
                out.append(n)
            elif o["kind"] == "p":
                out.append(f"{n} - {o['base']}")
            elif o["kind"] == "s":
                out += [f"{n}.m{j}" for j in range(self.sn)]
            elif o["kind"] == "sa":
                out += [f"{n}[{e}].m{j}" for e in range(4) for j in range(self.sn)]
            else:
                out += [f"{n}[{e}]" for e in range(len(self.objs[i - 1]["v"]))]
        return out

    def source(self, upto):
        dump = " ".join(f"mv({c});" for c in self.cells())
        b = []
        for k, t in enumerate(self.text[:upto], 1):
            b.append(t)
            if not t.startswith("return"):
                b.append(f"ms({k}, 0); {dump} me();")
        rt = self.rett or "void"
        if self.rett and not (b and b[-1].startswith("return")):
            b.append("return 0;")
        fn = f"static {rt} f{self.cid}({', '.join(self.params) or 'void'}) {{\n" + "\n".join(self.loc + b) + "\n}\n"
        call = f"f{self.cid}({', '.join(self.argl)})"
        if self.rett:
            main = f"static void r{self.cid}(void) {{ {self.rett} v = {call}; ms({len(self.text)}, (long)v); me(); }}\n"
        else:
            main = f"static void r{self.cid}(void) {{ {call}; }}\n"
        return "\n".join(self.decl) + "\n" + fn + main


HEAD = """void ev0(int); void ev1(long); long ev2(int, long); long c_l(int, long); unsigned char c_c(int, short); double c_d(int, double); float c_f(int, float);
long double c_e(int, long double); int c_i2(int, int, int); double c_d3(int, double, float, double);
long c_m(int, long, double, long double, float, int, long, long, long, long double); int c_va(int, int, ...); void c_v(int, int); int c_gi(int, int, int *);
void mv(long); void ms(int, long); void me(void); int printf(const char *, ...);
static void dirty2(void) { volatile char b[300]; for (int i = 0; i < 300; i++) b[i] = 0x77; }
int one = 1;
"""


MODES = ["-O1 -fPIC", "-O0 -fPIC", "-O1 -fPIE", "-O1 -femulated-tls", "-O1 -g"]


def judge(t, steps, out):
    """first disagreement of a case's output with the model's steps, or None"""
    lines = out.strip("\n").split("\n") if out.strip() else []
    i = 0
    for st in steps:
        ev = []
        while i < len(lines) and lines[i].startswith("E"):
            ev.append(tuple(map(int, lines[i].split()[1:])))
            i += 1
        log = [tuple(e) for e in st["log"]]
        if sorted(ev) != sorted(log):
            return {"statement": t.text[st["k"] - 1], "events": ev[:20], "expected": log[:20]}
        pos, seen = {}, {}
        for p, e in enumerate(ev):
            seen.setdefault(e[0], []).append((p, e))
        for q, e in enumerate(log, 1):
            p, x = seen[e[0]].pop(0)
            if x != e:
                return {"statement": t.text[st["k"] - 1], "events": ev[:20], "expected": log[:20]}
            pos[q] = p
        for a, b, c, d in st["ed"]:
            if max(pos[q] for q in range(a, b + 1)) > min(pos[q] for q in range(c, d + 1)):
                return {"statement": t.text[st["k"] - 1], "order of events": ev[:20], "first": log[a - 1:b], "then": log[c - 1:d]}
        if i >= len(lines) or not lines[i].startswith("S "):
            return {"statement": t.text[st["k"] - 1], "output ends": lines[i:i + 1]}
        got = list(map(int, lines[i].split()[1:]))
        i += 1
        ret = t.text[st["k"] - 1].startswith("return")
        want = [st["k"], st["v"]] + ([] if ret else [v for m in st["mem"] for v in m])
        if got != want:
            c = t.cells()
            return {"statement": t.text[st["k"] - 1], "returned" if ret else "memory": got[1] if ret else {c[j]: f"{g} not {w}" for j, (g, w) in enumerate(zip(got[2:], want[2:])) if g != w}, "expected": want[1] if ret else ""}
    return None


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    H = c.path("h.o")
    rc, o, e = sh(["gcc", "-O1", "-w", "-c", os.path.join(VERIF, "lib", "eff", "h.c"), "-o", H], timeout=100)
    if rc:
        raise ModelError("harness: " + e.decode())
    tls = os.path.join(VERIF, "lib", "eff", "tls.c")
    EMU, LOADER = c.path("emu.o"), c.path("loader")
    for a in (["-DEMU", "-c", tls, "-o", EMU], [tls, H, "-no-pie", "-rdynamic", "-o", LOADER, "-ldl"]):
        rc, o, e = sh(["gcc", "-O1", "-w"] + a, timeout=100)
        if rc:
            raise ModelError("harness: " + e.decode())
    N = 2400 if c.quick else 40000
    ts = [Case(c.rng, i) for i in range(N)]
    steps = {}
    for b in chunks(list(range(N)), 2500):
        for x in c.tlc("Effects", [{"nodes": ts[i].nodes, "objs": ts[i].objs, "stmts": ts[i].stmts} for i in b], invariants=["Typed", "Forward"]):
            steps.setdefault(b[x["cid"] - 1], []).append(x)
    good, src, nst = [], {}, 0
    for i in range(N):
        s = sorted(steps.get(i, []), key=lambda x: x["k"])
        s = [x for x in s if not x["bad"]]
        if s:
            good.append(i)
            steps[i] = s
            nst += len(s)
            src[i] = ts[i].source(len(s))

    def run(idx, tag, opt):
        p = c.path(f"e{tag}")
        with open(p + ".c", "w") as f:
            f.write(HEAD + "".join(src[i] for i in idx) + ("int pmain(void) {\n" if "-fPIC" in opt else "int main(void) {\n") + "".join(f'printf("C {i}\\n"); r{i}();\n' for i in idx) + 'printf("end\\n"); }\n')
        rc, o, e = sh([cc] + opt.split() + ["-c", p + ".c", "-o", p + ".o"] + (["-w"] if cc == "gcc" else []), timeout=60)
        out, how = {}, "compile"
        if rc == 0:
            link = ["-shared"] if "-fPIC" in opt else ["-no-pie", H] + ([EMU, "-Wl,--wrap=__emutls_get_address"] if "-femulated-tls" in opt else [])
            rc, o, e = sh(["gcc", p + ".o"] + link + ["-o", p], timeout=60)
            how = "link"
        if rc == 0:
            rc, o, e = sh([LOADER, p] if "-fPIC" in opt else [p], timeout=30)
            how = o.decode(errors="replace")
            for blk in how.split("C ")[1:]:
                h, _, body = blk.partition("\n")
                if h.isdigit():
                    out[int(h)] = body[:-4] if body.endswith("end\n") else body
        text = open(p + ".c").read()
        for s in ("", ".c", ".o"):
            if os.path.exists(p + s):
                os.remove(p + s)
        bad = {}
        for i in idx:
            if i not in out:
                bad[i] = {"outcome": how[-300:], "stderr": e.decode(errors="replace")[-300:]}
            else:
                try:
                    j = judge(ts[i], steps[i], out[i])
                except ValueError:
                    j = {"outcome": out[i][-300:]}
                if j:
                    bad[i] = j
        return bad, text

    def batch(a):
        tag, idx, opt = a
        bad, _ = run(idx, tag, opt)
        res = []
        for i in bad:
            for _ in range(2):
                b, text = run([i], f"{tag}_{i}", opt)
                if not b:
                    break
            if b:
                res.append((i, opt, b[i], text))
        return res
    jobs = [(f"{n}_{k}", b, o) for n, b in enumerate(chunks(good, 60)) for k, o in enumerate(("-O0", "-O1", MODES[n % len(MODES)]))]
    for out in c.pmap(batch, jobs):
        for i, opt, b, text in out:
            c.violation("effects:" + str(b.get("statement", b.get("stderr", "")))[:500], {"opt": opt, **b}, {"case.c": text})
    c.traces += len(good)
    c.extra.update({"programs": len(good), "statements": nst, "calls_logged": sum(len(s["log"]) for i in good for s in steps[i]), "orderings": sum(len(s["ed"]) for i in good for s in steps[i])})
    c.samples = [{"program": src[i][-1500:]} for i in good[:4]]


if __name__ == "__main__":
    run_check("P19", main)
