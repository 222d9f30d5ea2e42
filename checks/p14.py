"""P14 calling convention: Layout.tla lays the types out, CallConv.tla places arguments and results and walks va_lists; asm glue
calls slimcc's functions with the prescribed register/stack images and judges the images its calls produce."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
from p11 import Types, LEAF, FLT, PTR, f80

PROMOTED = ["int", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "double", "double", "double", "long double", "enum E"] + PTR
POOLS = [["float"], ["float"], ["double"], ["double", "float"], ["int"], ["char", "short", "int"], ["long", "char *"], ["float", "int"], ["double", "long"],
         ["float", "char"], ["long double"], ["double", "long double", "int"], ["unsigned char"], ["short", "float", "double", "long"], ["_Bool", "float"]]


class Sig(Types):
    def small(self, d=1):
        r = self.r
        kind = r.choice(["struct"] * 4 + ["union"])
        pool = r.choice(POOLS)
        m, text = [], []
        pk = r.random() < .1
        for _ in range(r.choice([1, 1, 2, 2, 2, 3, 4])):
            self.nm += 1
            nm = f"m{self.nm}"
            x = r.random()
            al = r.choice([0] * 14 + [8, 16])
            if x < .1:
                b = r.choice(["int", "char", "long", "unsigned short"])
                w = r.randint(1, 8 * LEAF[b][0])
                m.append({"t": self.leaf(b), "w": w, "al": 0, "nm": nm})
                text.append(f"{b} {nm} : {w};")
                continue
            if x < .13:
                b = r.choice(["int", "char", "long"])
                w = r.choice([0, 0, 3])
                m.append({"t": self.leaf(b), "w": w, "al": 0, "nm": ""})
                text.append(f"{b} : {w};")
            if x < .25 and d:
                t = self.small(d - 1)
            elif x < .4:
                t = self.add(k="arr", n=r.choice([1, 2, 2, 3, 4] * 5 + [15, 40]), e=self.leaf(r.choice(pool)))
            else:
                t = self.leaf(r.choice(pool))
            m.append({"t": t, "w": -1, "al": al, "nm": nm})
            text.append(self.text(t, nm) + (f" __attribute__((aligned({al})))" if al else "") + ";")
        al = r.choice([0] * 14 + [1, 8, 16, 16, 32, 64])
        att = (["packed"] if pk else []) + ([f"aligned({al})"] if al else [])
        x = self.add(k=kind, m=m, pk=pk, al=al)
        self.tys[x] = f"T{self.cid}_{x}"
        self.decl.append(f"typedef {kind} {{ {' '.join(text)} }}" + (f" __attribute__(({', '.join(att)}))" if att else "") + f" T{self.cid}_{x};")
        return x

    def param(self, promoted):
        r = self.r
        x = r.random()
        if self.aggs_seen and x < .2:
            return r.choice(self.aggs_seen)
        if x < self.pagg:
            while True:
                t = self.agg(r.choice([0, 0, 1])) if r.random() < .2 else self.small()
                if 0 < self.bound(t) <= 250 and self.tys[t].startswith("T"):
                    self.aggs_seen.append(t)
                    return t
        if promoted:
            return self.leaf(r.choice(PROMOTED))
        return self.leaf(r.choice(self.pool))


def gen(r, cid):
    t = Sig(r, cid)
    t.aggs_seen = []
    t.pagg = r.choice([0.2, .4, .6, .9])
    t.pool = r.choice([list(LEAF) + list(FLT) + PTR, ["float", "double"], ["int", "long", "char"], ["double", "int", "long double"], ["float", "long", "short", "_Bool"]])
    t.kind = r.choice("pppvvvvu")
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16]) if t.kind == "p" else r.choice([2, 3, 4, 6, 8, 10, 14, 18])
    t.named = n if t.kind != "v" else min(n, r.choice([1, 1, 1, 2, 3, 7]))
    t.params = [t.param(t.kind == "u" or i >= t.named) for i in range(n)]
    if t.kind == "u":
        t.named = n
    t.ret = 0 if r.random() < .15 else t.param(False)
    ops = []
    if t.kind == "v":
        live = set()
        for _ in range(r.choice([4, 10, 20, 30])):
            x = r.random()
            o = {"o": "arg", "l": r.choice([1, 1, 2, 3]), "m": r.choice([1, 2, 3]), "n": r.choice([1, 2, 3])}
            if live:
                o["l"] = r.choice(sorted(live))
            if not live or x < .12:
                if r.random() < .5 or not live:
                    o.update(o="start", l=r.choice([1, 2, 3]))
                else:
                    o.update(o="copy", l=r.choice([1, 2, 3]), m=r.choice(sorted(live)))
                live.add(o["l"])
            elif x < .18:
                o["o"] = "end"
                live.discard(o["l"])
            elif x < .26:
                o["o"] = "sub"
                live.discard(o["l"])
            elif x < .36:
                o["o"] = "subp"
            ops.append(o)
    t.ops = ops
    t.lastleaf = t.add(sz=1, al=1)     # Layout.tla's object of interest: none
    return t


def value(t, x, sz, mask, r):
    """bytes of a value of type node x"""
    n = t.nodes[x - 1]
    b = bytearray(r.getrandbits(8) for _ in range(sz))
    if n["k"] == "leaf":
        if n["bool"]:
            b[0] &= 1
        if n["flt"]:
            v = r.choice([1.5, -2.25, 0.0, 1024.0, -0.5, 3.0, 1e6, 0.1, -7.0])
            b[:] = struct.pack("<f", v) if n["flt"] == 32 else struct.pack("<d", v) if n["flt"] == 64 else f80(v) + bytes(6)
    for o, w in mask:
        if w == 80:
            b[o // 8:o // 8 + 10] = f80(r.choice([1.5, -2.25, 0.0, 1024.0, 3.0, 1e6, 0.1]))
    return bytes(b)


def const(t, x, v, r):
    n = t.nodes[x - 1]
    T = t.tys[x]
    if n["flt"]:
        f = struct.unpack("<f" if n["flt"] == 32 else "<d", v)[0] if n["flt"] < 80 else None
        return None if f is None else f"{f!r}" + ("f" if n["flt"] == 32 else "")
    i = int.from_bytes(v, "little", signed=n["sgn"])
    if T in PTR:
        return f"({T}){i}ul"
    if i == -2**63 or i == -2**31:
        return None
    return f"({T}){i}" + ("ul" if i >= 2**63 else "l" if T in ("long", "long long", "unsigned long", "unsigned long long") else "u" if 2**31 <= i < 2**32 and T == "unsigned" else "")


HEAD = """typedef __builtin_va_list va_list;
enum E {EM = -1, E0, E1, E2};
void rec(int, int, const void *); void recret(int, const void *);
extern int cur;
static int one = 1, zero, two;
"""


def emit(t, rec, steps, lay, r):
    """(slimcc text, gcc text, asm stubs, table line)"""
    i = t.cid
    P, n = t.params, len(t.params)
    dec, body, call, gcc, asm = list(t.decl), [], [], [], []
    vals, masks = [], []

    def mk(x, mask):
        sz = lay[x - 1]["sz"]
        m = bytearray(sz)
        for o, w in mask:
            for b in range(o, o + w):
                m[b // 8] |= 1 << (b % 8)
        v = value(t, x, sz, mask, r)
        return v, bytes(m)
    for k, x in enumerate(P):
        v, m = mk(x, rec["masks"][k])
        vals.append(v)
        masks.append(m)
    line = [f"{i} {n} {int(t.kind in 'vu')} {rec['ret']['h'][0] if t.ret else 'n'} {rec['st']} {rec['nfp']} {max([16] + [lay[x - 1]['al'] for k, x in enumerate(P) if rec['locs'][k] and rec['locs'][k][0]['r'] == 'st'])}"]

    def tv(v, m, ps):
        return f"{len(v)} {v.hex()} {m.hex()} {len(ps)} " + " ".join(f"{p['r'][0]} {p['n']} {p['o']} {p['s']}" for p in ps)
    R = "void" if not t.ret else None
    rt = (lambda f: t.text(t.ret, f)) if t.ret else (lambda f: f"void {f}")
    plist = ", ".join(t.text(P[k], f"a{k}") for k in range(t.named)) + (", ..." if t.kind == "v" else "")
    plist = plist or "void"
    st = r.choice(["", "", "static "])
    # values the caller passes
    args, loc = [], []
    for k, x in enumerate(P):
        n_ = t.nodes[x - 1]
        T = t.text(x, "")
        tp = t.text(x, "*")
        dec.append(f"static _Alignas(64) unsigned char v{i}_{k}[] = {{{', '.join(map(str, vals[k]))}}};")
        m = f"*({tp})v{i}_{k}"
        f = r.random()
        c = const(t, x, vals[k], r) if n_["k"] == "leaf" else None
        if n_["flt"] == 80 and r.random() < .4:
            a = m
        elif c and f < .3:
            a = c
        elif f < .5:
            loc.append(f"{t.text(x, f'x{k}')} = {m};")
            a = f"x{k}"
        elif f < .6:
            dec.append(f"{t.text(x, f'id{i}_{k}(int unused)')} {{ return {m}; }}")
            a = f"id{i}_{k}({r.choice(['one', 'zero'])})"
        elif f < .67:
            a = f"(two++, {m})"
        elif f < .74:
            dec.append(f"static {t.text(x, f'g{i}_{k}')};")
            loc.append(f"g{i}_{k} = {m};")
            a = f"g{i}_{k}"
        elif f < .8 and n_["k"] != "leaf":
            a = f"one ? {m} : *({tp})gx"
        elif f < .86:
            loc.append(f"struct {{ int a; {t.text(x, 'y')}; }} y{k}; y{k}.y = {m};")
            a = f"y{k}.y"
        elif f < .9:
            a = f"({{ {t.text(x, 'z')} = {m}; z; }})"
        else:
            a = m
        if k >= t.named or t.kind == "u":      # operands that promote
            if n_["k"] == "leaf" and t.tys[x] == "int" and r.random() < .5:
                s = r.choice(["signed char", "short", "unsigned char", "unsigned short", "_Bool"])
                w, sg = LEAF[s]
                v = r.getrandbits(1) if s == "_Bool" else r.getrandbits(8 * w)
                v = v - (1 << 8 * w) if sg and v >> (8 * w - 1) else v
                vals[k] = (v % 2**32).to_bytes(4, "little")
                dec[-1 if dec[-1].startswith(f"static _Alignas(64) unsigned char v{i}_{k}[") else next(j for j in range(len(dec)) if dec[j].startswith(f"static _Alignas(64) unsigned char v{i}_{k}["))] = \
                    f"static {s} v{i}_{k}[1] = {{{v}}};"
                loc = [l for l in loc if f"v{i}_{k};" not in l and f" x{k} " not in l and f"y{k};" not in l]
                dec[:] = [d for d in dec if f" id{i}_{k}(" not in d]
                a = r.choice([f"v{i}_{k}[0]", f"v{i}_{k}[zero]", f"({s}){v}"])
            elif n_["flt"] == 64 and r.random() < .4:
                f_ = r.choice([1.5, -2.25, 0.0, 1024.0])
                vals[k] = struct.pack("<d", f_)
                for j, d in enumerate(dec):
                    if d.startswith(f"static _Alignas(64) unsigned char v{i}_{k}["):
                        dec[j] = f"static float v{i}_{k}[1] = {{{f_!r}f}};"
                loc = [l for l in loc if f"v{i}_{k};" not in l and f" x{k} " not in l and f"y{k};" not in l]
                dec[:] = [d for d in dec if f" id{i}_{k}(" not in d]
                a = r.choice([f"v{i}_{k}[zero]", f"{f_!r}f", f"(float)v{i}_{k}[0]"])
        elif n_["k"] == "leaf" and t.tys[x] in LEAF and t.tys[x] != "_Bool" and r.random() < .2:
            a = f"({r.choice(['long', 'int', 'unsigned long'] if LEAF[t.tys[x]][0] <= 4 else ['unsigned long', 'long'])})({a})"
        args.append(a)
    for k in range(n):
        line.append(tv(vals[k], masks[k], rec["locs"][k]))
    if t.ret:
        rv, rm = mk(t.ret, rec["rmask"])
        line.append(tv(rv, rm, rec["ret"]["p"]))
        dec.append(f"static _Alignas(64) unsigned char rv{i}[] = {{{', '.join(map(str, rv))}}};")
    # the caller
    proto = "" if t.kind == "u" else plist
    dec.append(rt(f"f{i}({proto})") + ";")
    asm.append(f".globl f{i}\nf{i}: movl ${i}, cur(%rip)\n jmp cap\n")
    fn = f"f{i}"
    y = r.random()
    if y < .1:
        loc.append(rt(f"(*fp)({proto})") + f" = f{i};")
        fn = r.choice(["fp", "(*fp)", "(**fp)"])
    elif y < .2:
        loc.append(f"struct {{ {rt(f'(*m)({proto})')}; }} fs = {{f{i}}};")
        fn = "fs.m"
    elif y < .25:
        fn = r.choice([f"(&f{i})", f"(*f{i})", f"(one ? f{i} : f{i})"])
    e = f"{fn}({', '.join(args)})"
    if not t.ret:
        call.append(e + ";")
    else:
        y = r.random()
        isagg = t.nodes[t.ret - 1]["k"] != "leaf"
        if y < .15:
            call.append(f"{e};")
        elif y < .25:
            call.append(f"(void){e};")
        elif y < .5:
            call.append(f"static {t.text(t.ret, 'sr')}; sr = {e}; recret({i}, &sr);")
        elif y < .6:
            call.append(f"static {t.text(t.ret, 'sr[2]')}; sr[one] = {e}; recret({i}, &sr[1]);")
        elif y < .7:
            call.append(f"struct {{ char c; {t.text(t.ret, 'sr')}; }} s; s.sr = {e}; recret({i}, &s.sr);")
        else:
            call.append(f"{t.text(t.ret, 'r')} = {e}; recret({i}, &r);")
    dec.append(f"void call{i}(void) {{ one = 1; {' '.join(loc)} {' '.join(call)} }}")
    # the callee
    order = list(range(t.named))
    r.shuffle(order)
    early, late = order[:len(order) // 2], order[len(order) // 2:]
    for k in early:
        body.append(f"rec({i}, {k}, &a{k});")
    if r.random() < .3:
        body.append(f"call{i}();")
    for k in late:
        if t.nodes[P[k] - 1]["k"] != "leaf" or r.random() < .6:
            body.append(f"rec({i}, {k}, &a{k});")
        else:
            body.append(f"{{ {t.text(P[k], 'y')} = a{k}; rec({i}, {k}, &y); }}")
    nh = 0
    if t.kind == "v":
        body.append("va_list l1, l2, l3;")
        for k, (o, s) in enumerate(zip(t.ops, steps), 1):
            if not s["did"]:
                continue
            l = f"l{o['l']}"
            if o["o"] == "start":
                body.append(f"__builtin_va_start({l}, a{t.named - 1});")
            elif o["o"] == "end":
                body.append(f"__builtin_va_end({l});")
            elif o["o"] == "copy":
                body.append(f"__builtin_va_copy({l}, l{o['m']});")
            else:
                def take(w, j):
                    x = P[j]
                    y = r.random()
                    if y < .6:
                        return f"{{ {t.text(x, 'y')} = __builtin_va_arg({w}, {t.text(x, '')}); rec({i}, {j}, &y); }}"
                    return f"{{ static {t.text(x, 'y[2]')}; y[one > 0] = __builtin_va_arg({w}, {t.text(x, '')}); rec({i}, {j}, &y[1]); }}"
                if o["o"] == "arg":
                    body.append(take(l, s["a"]))
                else:
                    h = f"h{i}_{nh}"
                    nh += 1
                    if o["o"] == "sub":
                        sig, w = f"void {h}(va_list ap)", "ap"
                    else:
                        sig, w = f"void {h}(va_list *ap)", "*ap"
                    f = sig + " { " + " ".join(take(w, j) for j in range(s["a"], s["b"])) + " }"
                    # gcc itself loads over-aligned types from the register save area with aligned moves
                    if r.random() < .5 or any(lay[P[j] - 1]["al"] > 8 and lay[P[j] - 1]["sz"] <= 16 for j in range(s["a"], s["b"])):
                        dec.append(f)
                    else:
                        dec.append(sig + ";")
                        gcc.append(f)
                    body.append(f"{h}({l if o['o'] == 'sub' else '&' + l});")
                    if o["o"] == "sub":
                        body.append(f"__builtin_va_end({l});")
    if t.ret:
        T = t.text(t.ret, "*")
        y = r.random()
        if y < .3:
            body.append(f"{t.text(t.ret, 'r')} = *({T})rv{i}; return r;")
        elif y < .4:
            body.append(f"return one ? *({T})rv{i} : *({T})gx;" if t.nodes[t.ret - 1]["k"] != "leaf" else f"return (two++, *({T})rv{i});")
        else:
            body.append(f"return *({T})rv{i};")
    dec.append(rt(f"g{i}({plist})") + " { " + "\n".join(body) + " }")
    return "\n".join(dec), "\n".join(t.decl + gcc), "".join(asm), "\n".join(line)


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    H = c.path("h.o")
    rc, o, e = sh(["gcc", "-O1", "-w", "-c", os.path.join(VERIF, "lib", "abi", "h.c"), "-o", H], timeout=100)
    if rc:
        raise ModelError("harness: " + e.decode())
    N = 1500 if c.quick else 20000
    ts = [gen(c.rng, i) for i in range(N)]
    lay, recs, steps = {}, {}, {}
    for b in chunks(list(range(N)), 3000):
        for x in c.tlc("Layout", [{"nodes": ts[i].nodes, "fill": [0], "ops": []} for i in b], invariants=["Sound"]):
            lay[b[x["cid"] - 1]] = x["lay"]
        for x in c.tlc("CallConv", [{"nodes": ts[i].nodes, "lay": lay[i], "params": ts[i].params, "ret": ts[i].ret, "named": ts[i].named, "ops": ts[i].ops} for i in b],
                       invariants=["WalkOK", "Apart"]):
            i = b[x["cid"] - 1]
            if x["k"]:
                steps.setdefault(i, {})[x["k"]] = x
            else:
                recs[i] = x
    parts = {}
    good = [i for i in range(N) if not recs[i]["shady"]]
    for i in good:
        s = steps.get(i, {})
        if len(s) != len(ts[i].ops):
            raise ModelError(f"case {i}: script not finished")
        parts[i] = emit(ts[i], recs[i], [s[k] for k in range(1, len(s) + 1)], lay[i], c.rng)

    def run(idx, tag, opt):
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(HEAD + "static _Alignas(64) unsigned char gx[512];\n" + "\n".join(parts[i][0] for i in idx) + "\nvoid (*calls[])(void) = {" + ", ".join(f"call{i}" for i in idx)
                    + "};\nvoid *gs[] = {" + ", ".join(f"g{i}" for i in idx) + "};\n")
        with open(p + "_g.c", "w") as f:
            f.write(HEAD + "\n".join(parts[i][1] for i in idx))
        with open(p + "_f.s", "w") as f:
            f.write(".text\n" + "".join(parts[i][2] for i in idx) + ".section .note.GNU-stack,\"\"\n")
        with open(p + ".txt", "w") as f:
            f.write(f"{len(idx)}\n" + "\n".join(parts[i][3] for i in idx) + "\n")
        rc, o, e = sh([cc, opt, "-c", p + ".c", "-o", p + ".o"] + (["-w"] if cc == "gcc" else []), timeout=60)
        got = "compile"
        if rc == 0:
            rc, o, e = sh(["gcc", "-w", "-Wno-psabi", "-no-pie", p + ".o", p + "_g.c", p + "_f.s", H, "-o", p], timeout=60)
            if rc:
                got = "link"
        if rc == 0:
            rc, o, e = sh([p, p + ".txt"], timeout=30)
            got = o.decode(errors="replace")
        src = {"case.c": open(p + ".c").read(), "helpers.c": open(p + "_g.c").read(), "stubs.s": open(p + "_f.s").read(), "table.txt": open(p + ".txt").read()}
        for s in ("", ".c", "_g.c", "_f.s", ".txt", ".o"):
            if os.path.exists(p + s):
                os.remove(p + s)
        return rc == 0 and got == "end\n", rc, got, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 50)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            t = ts[i]
            sig = f"{t.text(t.ret, '') if t.ret else 'void'}(" + ", ".join(t.text(p, "") for p in t.params[:t.named]) + ("; ..." + ", ".join(t.text(p, "") for p in t.params[t.named:]) if t.kind == "v" else "") + ")"
            c.violation("call:" + sig + "|".join(t.decl)[:600], {"signature": sig, "types": t.decl, "kind": t.kind, "opt": opt, "wrong": x[2].split("\n")[:5], "rc": x[1], "stderr": x[3].decode(errors="replace")[-400:]}, x[4])
    c.traces += len(good)
    c.extra.update({"signatures": len(good), "variadic": sum(ts[i].kind == "v" for i in good), "va_list_operations": sum(x["did"] for s in steps.values() for x in s.values())})
    c.samples = [{"types": ts[i].decl, "slimcc": parts[i][0][-900:]} for i in good[:4]]


if __name__ == "__main__":
    run_check("P14", main)
