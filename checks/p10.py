"""P10 initializers: Initializer.tla produces initializers and what each subobject must hold; slimcc compiles them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

INTS = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535),
        "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1), "_Bool": (0, 1), "enum E": (0, 5)}
FL = ["float", "double", "long double"]
STR = {"char": "c", "signed char": "c", "unsigned char": "c", "unsigned short": "u", "unsigned": "U", "int": "L"}
W = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "long long": 64, "_Bool": 1}


class Types:
    def __init__(self, r, cid):
        self.r, self.cid, self.nodes, self.decl, self.nm, self.tys = r, cid, [], [], 0, {}

    def add(self, **k):
        n = {"k": "leaf", "n": 0, "e": 0, "m": [], "str": "", "tag": False, "fam": False}
        n.update(k)
        self.nodes.append(n)
        return len(self.nodes)      # TLA sequences start at 1

    def leaf(self, t=None):
        r = self.r
        t = t or r.choice(list(INTS) + FL + ["char *", "int *", "void (*)(void)", "int", "char", "long"])
        x = self.add()
        self.tys[x] = (t, None)
        return x

    def size(self, x):
        n = self.nodes[x - 1]
        if n["k"] == "leaf":
            return 1
        if n["k"] == "arr":
            return max(n["n"], 4) * self.size(n["e"]) if n["n"] < 0 else n["n"] * self.size(n["e"])
        return sum(self.size(m["t"]) for m in n["m"])

    def arr(self, d, n=None):
        r = self.r
        if r.random() < .3:
            e = self.leaf(r.choice(list(STR) + ["char"] * 4))
        else:
            e = self.node(d - 1)
        t = self.tys.get(e, (None,))[0]
        return self.add(k="arr", n=n if n is not None else r.choice([1, 2, 2, 3, 3, 4]), e=e, str=STR.get(t, ""))

    def agg(self, d, anon=False, kind=None, fam=False):
        r = self.r
        kind = kind or r.choice(["struct", "struct", "union"])
        m, text = [], []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            if kind == "struct" and r.random() < .12:
                text.append(r.choice(["int : 5;", "unsigned : 0;", "char : 3;", "long : 17;"]))
            x = r.random()
            if d > 0 and x < .15:
                t = self.agg(d - 1, anon=True)
                m.append({"t": t, "anon": True, "nm": ""})
                text.append(f"{self.text(t, '')};")
                continue
            self.nm += 1
            nm = f"m{self.nm}"
            if x < .35:
                b = r.choice([k for k in W])
                w = r.randint(1, W[b]) if r.random() < .85 else W[b]
                t = self.add()
                self.tys[t] = (b, w)
                text.append(f"{b} {nm} : {w};")
            else:
                t = self.node(d - 1)
                text.append(f"{self.text(t, nm)};")
            m.append({"t": t, "anon": False, "nm": nm})
        if fam:
            self.nm += 1
            t = self.arr(min(d - 1, 1), -1)
            m.append({"t": t, "anon": False, "nm": f"m{self.nm}"})
            text.append(f"{self.text(t, f'm{self.nm}')};")
        x = self.add(k=kind, m=m, tag=not anon, fam=fam)
        if anon:
            self.tys[x] = f"{kind} {{ {' '.join(text)} }}"
        else:
            self.tys[x] = f"T{self.cid}_{x}"
            self.decl.append(f"typedef {kind} {{ {' '.join(text)} }} T{self.cid}_{x};")
        return x

    def node(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .45:
            return self.leaf()
        return self.arr(d) if x < .65 else self.agg(d)

    def text(self, x, name):
        n = self.nodes[x - 1]
        if n["k"] == "arr":
            return self.text(n["e"], f"{name}[{n['n'] if n['n'] >= 0 else ''}]")
        t = self.tys[x]
        t = t if isinstance(t, str) else t[0]
        if t == "void (*)(void)":
            return f"void (*{name})(void)"
        return f"{t} {name}".rstrip()

    def at(self, p, x=None):
        x = x or self.root
        for i in p:
            n = self.nodes[x - 1]
            x = n["e"] if n["k"] == "arr" else n["m"][i]["t"]
        return x

    def access(self, p, x=None):
        s, x = "", x or self.root
        for i in p:
            n = self.nodes[x - 1]
            if n["k"] == "arr":
                s += f"[{i}]"
                x = n["e"]
            else:
                if not n["m"][i]["anon"]:
                    s += "." + n["m"][i]["nm"]
                x = n["m"][i]["t"]
        return s


def gen(r, cid):
    while True:
        t = Types(r, cid)
        x = r.random()
        if x < .25:
            t.root, t.unk, t.unkp = t.arr(r.choice([1, 2, 3]), -1), None, []
            t.unk = t.root
        elif x < .32:
            t.root = t.agg(r.choice([1, 2]), kind="struct", fam=True)
            m = t.nodes[t.root - 1]["m"]
            t.unk, t.unkp = m[-1]["t"], [len(m) - 1]
            if len(m) < 2:
                continue
        elif x < .36:
            t.root, t.unkp = t.leaf(), []
            t.unk = t.root
        else:
            t.root, t.unkp = (t.arr if r.random() < .3 else t.agg)(r.choice([1, 2, 2, 3])), []
            t.unk = t.root
        if t.size(t.root) <= 40 and len(t.nodes) <= 40:
            break
    t.form = r.choice(["gs", "gl", "sl", "tl", "au", "au", "aq", "aq", "cg", "ca", "cq"])
    fam = t.nodes[t.root - 1]["fam"]
    if fam:
        t.form = r.choice(["gs", "gl", "sl"])
    t.runtime = t.form in ("aq", "cq")
    steps = []
    style = r.random()
    for _ in range(r.choice([2, 4, 6, 9, 12, 18])):
        x = r.random()
        if x < .55 if style < .5 else x < .25:
            c = ["val"]
        elif x < .72:
            c = [r.choice(["open", "open", "open", "str", "bstr", "agg", "bval"]), "val", "open"]
        elif x < .92 if style < .8 else x < .75:
            c = [r.choice(["dval", "dval", "dval", "dopen", "dopen", "dstr", "dagg", "dbstr", "dbval"]), "dval", "dopen", "val"]
        elif x < .995:
            c = ["close"]
        else:
            c = ["bad"]
        if "val" not in c and c[0] != "bad":
            c += ["val"]
        d = 1
        while r.random() < .35 and d < 4:
            d += 1
        steps.append({"c": c + ["dval", "dopen", "open", "close"], "a": [r.randint(0, 11) for _ in range(6)], "d": d, "l": r.choice([0, 1, 1, 2, 2, 3, 4]), "rg": r.choice([0, 0, 0, 0, 1, 2])})
    n = t.nodes[t.root - 1]
    first = "val" if n["k"] == "leaf" else "str" if n["str"] and r.random() < .25 else "open"
    if n["k"] == "leaf" and r.random() < .3:
        first = "bval"
    if first == "open" and n["str"] and r.random() < .2:
        first = "bstr"
    steps = [{"c": [], "a": [], "d": 0, "l": r.choice([0, 1, 2, 3]), "rg": 0}] + steps
    t.case = {"nodes": t.nodes, "root": t.root, "unk": t.unk, "unkp": t.unkp, "agg": True, "first": first, "script": steps + [{"c": [], "a": [], "d": 0, "l": 0, "rg": 0}]}
    return t


ENC = {"c": "", "u": "u", "U": "U", "L": "L"}
CHARS = "abcdefgh"


def value(r, t, runtime):
    """(initializer text, text of the value it must read back as)"""
    ty, w = t
    if ty in FL:
        v = r.choice([1.5, -2.25, 3.0, 1024.0, 0.0, -0.5])
        s = f"{v!r}" + {"float": r.choice(["f", ""]), "double": "", "long double": r.choice(["L", ""])}[ty]
        if v == int(v) and r.random() < .4:
            s = str(int(v))
        return s, f"{v!r}"
    if ty == "char *":
        i = r.randint(0, 9)
        return r.choice([(f"&GA[{i}]", f"(GA + {i})"), (f"GA + {i}", f"(GA + {i})"), ("0", "(char *)0"), (f"(char *)GI + {i}", f"((char *)GI + {i})")])
    if ty == "int *":
        i = r.randint(0, 9)
        return r.choice([(f"&GI[{i}]", f"(GI + {i})"), (f"GI + {i}", f"(GI + {i})"), ("0", "(int *)0")])
    if ty == "void (*)(void)":
        return r.choice([("fa", "fa"), ("&fb", "fb"), ("fb", "fb")])
    if ty == "_Bool":
        return r.choice([("1", "1"), ("0", "0"), ("2", "1"), ("0.25", "1"), ("256", "1"), ("GA" if not w and runtime else "8", "1"), ("-1", "1")])
    if ty == "enum E":
        v = r.randint(0, 5)
        return r.choice([str(v), f"E{v}"]), str(v)
    lo, hi = INTS[ty]
    if w:
        lo, hi = (0, 2**w - 1) if lo == 0 else (-2**(w - 1), 2**(w - 1) - 1)
    x = r.random()
    v = r.choice([lo, hi]) if x < .35 else r.randint(max(lo, -99), min(hi, 99)) if x < .7 else r.randint(lo, hi)
    s = f"{v}" if -2**31 < v < 2**31 else f"{v}u" if 0 <= v < 2**32 else f"({v + 1}l - 1)" if v < 0 else f"{v}ul"
    e = s
    if r.random() < .15 and abs(v) < 2**20:
        s = f"{v}.{r.choice(['0', '5', '75'])}" if v != 0 else "0.5"
    elif lo == 0 and r.random() < .2 and hi < 2**31 and not w:
        s = f"{v + hi + 1}"
    elif lo == 0 and w and r.random() < .3 and w < 32:
        s = f"{v - (hi + 1)}"
    elif 97 <= v <= 100 and r.random() < .5:
        s = f"'{chr(v)}'"
    return s, f"({e})"


def whole(r, t, x, runtime):
    """full positional braces for a value of a struct type, and what its leaves hold: path -> expectation"""
    n = t.nodes[x - 1]
    if n["k"] == "leaf":
        s, e = value(r, t.tys[x], runtime)
        return s, {(): e}
    if n["k"] == "arr":
        parts = [whole(r, t, n["e"], runtime) for _ in range(n["n"])]
    elif n["k"] == "union":
        parts = [whole(r, t, n["m"][0]["t"], runtime)]
    else:
        parts = [whole(r, t, m["t"], runtime) for m in n["m"]]
    return "{" + ", ".join(s for s, _ in parts) + "}", {(i, *p): e for i, (_, d) in enumerate(parts) for p, e in d.items()}


def render(t, rec, r):
    """C text of the initializer, declarations it needs, expectation per leaf, run-time counters"""
    out, s, need, holds, cnt = rec["out"], "", [], {}, []
    fresh = True
    ranged = []        # braces opened below a range designator
    for v, k in enumerate(out, 1):
        kind = k["k"]
        once = k["rg"]["b"] < 0 and not any(ranged)
        if kind == "open":
            ranged.append(not once)
        if kind == "close":
            ranged.pop()
            s += ("," if not fresh and r.random() < .2 else "") + "}"
            fresh = False
            continue
        if s and not fresh:
            s += ", "
        if kind.startswith("bad"):
            s += f"[{r.choice(['9999', '-1', '0x100000000', '0 ... 9999', '-1 ... 0'])}] = 0" if kind == "badidx" else ".nosuch = 0"
            return s, need, holds, cnt
        if k["d"]:
            x = t.at(k["rp"])
            p = list(k["rp"])
            for i in k["d"]:
                n = t.nodes[x - 1]
                if n["k"] == "arr":
                    if k["rg"]["b"] >= 0 and k["rg"]["p"] == p:
                        s += f"[{k['rg']['a']} ... {k['rg']['b']}]"
                    else:
                        s += f"[{i}]"
                elif not n["m"][i]["anon"]:
                    s += "." + n["m"][i]["nm"]
                x = n["e"] if n["k"] == "arr" else n["m"][i]["t"]
                p.append(i)
            s += " = "
        fresh = False
        x = t.at(k["p"])
        if kind == "open":
            s += "{"
            fresh = True
        elif kind in ("str", "bstr"):
            e = t.nodes[x - 1]["e"]
            txt = CHARS[:k["l"]]
            a = ENC[STR[t.tys[e][0]]] + '"' + txt + '"'
            if r.random() < .2 and k["l"] > 1:
                a = ENC[STR[t.tys[e][0]]] + f'"{txt[:1]}" "{txt[1:]}"'
            if kind == "bstr":
                a = "{" + a + r.choice(["", ","]) + "}"
            elif r.random() < .1:
                a = f"({a})"
            s += a
            holds[v] = [str(ord(c)) for c in txt] + ["0"]
        elif kind == "agg":
            a, holds[v] = whole(r, t, x, t.runtime)
            ty = t.tys[x]
            nm = f"V{t.cid}_{v}"
            if t.runtime or t.form in ("au", "ca"):
                y = r.randint(0, 3)
                if y == 0:
                    s += f"({ty}){a}"
                else:
                    need.append(f"static {ty} {nm} = {a};")
                    if y == 1:
                        s += nm
                    elif y == 2:
                        need.append(f"static {ty} f{nm}(void) {{ return {nm}; }}")
                        s += f"f{nm}()"
                    else:
                        need.append(f"static {ty} *p{nm} = &{nm};")
                        s += f"*p{nm}"
            else:
                s += f"({ty}){a}"
        else:
            a, e = value(r, t.tys[x], t.runtime)
            if t.runtime and r.random() < .6:
                y = r.randint(0, 2) if once else r.randint(1, 2)
                if y == 0:
                    cnt.append(v)
                    a = f"(cnt[{v}]++, {a})"
                elif y == 1 and t.tys[x][0] in INTS and t.tys[x][0] != "_Bool" and t.tys[x][0] != "enum E":
                    need.append(f"static long long V{t.cid}_{v} = {e};")
                    a = f"V{t.cid}_{v}"
                else:
                    a = f"(one ? {a} : 0)"
            elif r.random() < .1 and a.isdigit():
                a = f"(int){a}"
            holds[v] = e
            s += "{" + a + "}" if kind == "bval" else a
    return s, need, holds, cnt


HEAD = """int printf(const char *, ...);
enum E {E0, E1, E2, E3, E4, E5};
static char GA[64]; static int GI[64]; static void fa(void) {} static void fb(void) {}
static int one = 1; static int cnt[64];
static int di; static void dirty(void) { volatile unsigned char b[3072]; for (di = 0; di < 3072; di++) b[di] = 0xA5; }
#define CK(i, k, e) do { if (!(e)) printf("%d %d\\n", i, k); } while (0)
"""


def emit(t, rec, r):
    """(declarations, function, number of checks) or None"""
    s, need, holds, cnt = render(t, rec, r)
    cid = t.cid
    decl = t.decl + need
    x = f"x{cid}"
    d = t.text(t.root, x)
    n = t.nodes[t.root - 1]
    cks = []
    if rec["bad"]:
        s += "}" * 20
        return decl + [f"static {d} = {s};"], None, []
    sizes = []
    if n["k"] == "arr" and n["n"] < 0:
        sizes.append((f"sizeof({{x}}) / sizeof({{x}}[0])", rec["ext"]))
    over = set()
    for lf in rec["leaves"]:
        h = lf["h"]
        rest = tuple(lf["p"][len(h["p"]):])
        if h["v"] == 0:
            # given a value, then its aggregate initialized again without it: compilers differ (DR 413), not judged
            if lf["old"]:
                continue
            e = "0"
        elif h["c"] == -1:
            e = holds[h["v"]].get(rest, None)
            if e is None:
                continue
            # the rest of a structure given whole and then in part: compilers differ and slimcc's own tests ask for zero; not judged
            if any(len(o["h"]["p"]) > len(h["p"]) and o["h"]["p"][:len(h["p"])] == h["p"] for o in rec["leaves"]):
                continue
        elif isinstance(holds[h["v"]], list):
            e = holds[h["v"]][h["c"]]
        else:
            e = holds[h["v"]]
        over.add(h["v"])
        cks.append((t.access(lf["p"]), e))
    form = t.form
    body = []
    obj = x
    pre = []
    if form == "gs":
        decl.append(f"static {r.choice(['', 'const '])}{d} = {s};")
    elif form == "gl":
        decl.append(f"{d} = {s};")
    elif form == "sl":
        body.append(f"static {d} = {s};")
    elif form == "tl":
        decl.append(f"static _Thread_local {d} = {s};")
    elif form in ("au", "aq"):
        body.append(f"{d} = {s};")
    else:
        lit = f"({t.text(t.root, '')}){s}"
        el = t.text(t.root, "(*@)")
        if not s.startswith("{"):
            lit = f"({t.text(t.root, '')}){{{s}}}"
        if n["k"] == "arr" and n["n"] < 0:
            el = t.text(n["e"], "(*@)")
            obj, src = f"p{cid}", lit
            sizes = [(f"sizeof({lit if not t.runtime and 'cnt[' not in lit else lit}) / sizeof({obj}[0])", rec["ext"])] if not cnt else []
        else:
            obj, src = f"(*p{cid})", "&" + lit
        dd = el.replace("@", f"p{cid}") + f" = {src};"
        if form == "cg":
            decl.append("static " + dd)
        else:
            body.append(dd)
    k = 0
    exp = []
    for e, v in sizes:
        body.append(f"CK({cid}, {k}, {e.format(x=obj) if '{x}' in e else e} == {v});")
        exp.append(e)
        k += 1
    for a, e in cks:
        body.append(f"CK({cid}, {k}, {obj}{a} == {e});")
        exp.append(f"{a} == {e}")
        k += 1
    for v in cnt:
        if v in over:
            body.append(f"CK({cid}, {k}, cnt[{v}] == 1); cnt[{v}] = 0;")
            exp.append(f"evaluations of item {v} == 1")
        else:
            body.append(f"CK({cid}, {k}, cnt[{v}] <= 1); cnt[{v}] = 0;")
            exp.append(f"evaluations of item {v} <= 1")
        k += 1
    return decl, f"static void f{cid}(void) {{ {' '.join(body)} }}", exp


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 4000 if c.quick else 40000
    ts = [gen(c.rng, i) for i in range(N)]
    recs = {}
    for b in chunks(list(range(N)), 4000):
        for x in c.tlc("Initializer", [ts[i].case for i in b], invariants=["Unique"]):
            recs[b[x["cid"] - 1]] = x
    if len(recs) != N:
        raise ModelError(f"{N - len(recs)} behaviours did not finish")
    c.samples = []
    parts = {}
    bad = []
    murky = 0
    for i in range(N):
        if recs[i]["murky"]:
            murky += 1
            continue
        d, f, e = emit(ts[i], recs[i], c.rng)
        if recs[i]["bad"]:
            bad.append((i, d))
        elif len(recs[i]["out"]) < 60:
            parts[i] = (d, f, e)
    good = sorted(parts)

    def run(idx, tag, opt):
        src = HEAD + "\n".join("\n".join(parts[i][0] + [parts[i][1]]) for i in idx) + "\nint main(void) {\n" + "\n".join(f"dirty(); f{i}();" for i in idx) + "\nprintf(\"end\\n\"); return 0; }\n"
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, opt, p + ".c", "-o", p], timeout=60)
        got = "compile"
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace")
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == "end\n", rc, got, e, src

    def batch(a):
        tag, idx, opt = a
        if run(idx, tag, opt)[0]:
            return []
        out = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                out.append((i, opt, x))
        return out
    jobs = [(f"{n}{o}", b, o) for n, b in enumerate(chunks(good, 60)) for o in ("-O0", "-O1")]
    for out in c.pmap(batch, jobs):
        for i, opt, x in out:
            wrong = [parts[i][2][int(l.split()[1])] for l in x[2].split("\n") if len(l.split()) == 2] if x[1] == 0 else []
            c.violation("init:" + "|".join(parts[i][0]) + "|" + parts[i][1][:300], {"declarations": parts[i][0], "function": parts[i][1], "opt": opt, "wrong": wrong[:6], "rc": x[1], "stderr": x[3].decode(errors="replace")[-400:]}, {"case.c": x[4]})

    def rej(a):
        i, d = a
        p = c.path(f"b{i}.c")
        with open(p, "w") as f:
            f.write(HEAD + "\n".join(d) + "\n")
        rc, o, e = sh([cc, "-c", "-o", p + ".o", p], timeout=30)
        if rc != 1:
            return i, d, rc, e
    for x in c.pmap(rej, bad):
        if x:
            c.violation("init-accepted:" + "|".join(x[1]), {"declarations": x[1], "rc": x[2]}, {})
    # one value for a whole range: its side effects happen once
    p = c.path("range")
    with open(p + ".c", "w") as f:
        f.write("static int n; static int f(void) { return ++n; }\nint main(void) { int a[3] = {[0 ... 2] = f()}; return !(n == 1 && a[0] == 1 && a[1] == 1 && a[2] == 1); }\n")
    rc, o, e = sh([cc, p + ".c", "-o", p], timeout=30)
    if rc or sh([p], timeout=10)[0]:
        c.violation("init:range-effects", {"what": "{[0 ... 2] = f()} does not call f exactly once"}, {})
    c.traces += len(good) + len(bad)
    c.extra.update({"initializers": len(good), "rejected": len(bad), "unjudged": murky})
    c.samples += [{"declarations": parts[i][0], "function": parts[i][1][:500]} for i in good[:6]]


if __name__ == "__main__":
    run_check("P10", main)
