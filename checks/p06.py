"""P06 literals: Literals.tla; compiled and run through slimcc."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CPS = [0x41, 0x30, 0x37, 0x66, 0x75, 0x24, 0x7e, 0x7f, 0xa0, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffee, 0x10000, 0x1f600, 0x3ffff, 0x10ffff]
SPELL = {"": "char", "u8": "unsigned char", "u": "unsigned short", "U": "unsigned int", "L": "int"}
SIZE = {"": 1, "u8": 1, "u": 2, "U": 4, "L": 4}


def piece(r, w, q):
    """a stretch of literal text (code points)"""
    x = r.random()
    s = ""
    if x < .3:
        s = r.choice("abcfxuU0189 '?\"n/#")
        if s == q:
            s = "\\" + s
    elif x < .45:
        s = "\\" + r.choice("ntabfrve\\'\"?")
    elif x < .6:
        v = r.choice([0, 1, 7, 8, 0o12, 0o77, 0o100, 0o177, 0o200, 0o377])
        s = "\\" + r.choice(["%o", "%02o", "%03o"]) % v
    elif x < .75:
        v = r.choice([0, 1, 0xa, 0x7f, 0x80, 0xff] + ([0x100, 0xd800, 0xffff] if w > 1 else []) + ([0x10000, 0x7fffffff, 0x80000000, 0xffffffff] if w > 2 else []))
        s = "\\x" + r.choice(["%x", "%X", "0%x", "000%x"]) % v
    elif x < .85:
        c = r.choice([c for c in CPS if c >= 0xa0])
        s = "\\u%04x" % c if c < 0x10000 and r.random() < .7 else "\\U%08X" % c
    elif x < .88:
        s = "\\\\" + r.choice(["u00e9", "U0001f600", "x41", "n", "0", "\\u00e9"])
    else:
        s = chr(r.choice(CPS))
    return s


def gen(r):
    x = r.random()
    if x < .45:
        pf = r.choice(["", "", "u8", "u", "U", "L"])
        segs = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            p = pf if r.random() < .6 else ""
            segs.append((p, "".join(piece(r, SIZE[pf], '"') for _ in range(r.choice([0, 1, 2, 3, 6])))))
        p = next((s[0] for s in segs if s[0]), "")
        if p == "" and pf:
            segs[r.randrange(len(segs))] = (pf, segs[0][1])
        n = r.choice([0, 0, r.randint(1, 24)])
        return {"k": "str", "n": n, "segs": [{"p": a, "raw": [ord(c) for c in b]} for a, b in segs], "text": " ".join(f'{a}"{b}"' for a, b in segs)}
    if x < .65:
        p = r.choice(["", "", "u", "U", "L"])       # u8'x' is not implemented by slimcc
        t = piece(r, SIZE[p], "'")
        return {"k": "chr", "p": p, "raw": [ord(c) for c in t], "text": f"{p}'{t}'"}
    if x < .83:
        base = r.choice([10, 16, 8, 2])
        e = r.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63, 64])
        v = max(0, (1 << e) + r.choice([-2, -1, 0, 1, r.getrandbits(max(1, e - 1)) if e else 0]))
        ds = {10: "%d", 16: "%x", 8: "%o"}.get(base, "")
        ds = (ds % v) if ds else bin(v)[2:]
        if base != 10 and r.random() < .2:
            ds = "00" + ds
        if base == 16 and r.random() < .5:
            ds = ds.upper()
        sp = ds
        if base == 8 or (base == 10 and v == 0):
            base = 8
            sp = "0" + ds if ds != "0" else "0"
            ds = ds
        else:
            sp = {10: "", 16: r.choice(["0x", "0X"]), 2: r.choice(["0b", "0B"])}[base] + ds
        if r.random() < .25 and len(ds) > 2:
            i = len(sp) - r.randrange(1, len(ds))
            sp = sp[:i] + "'" + sp[i:]
        u, l = r.random() < .4, r.choice([0, 0, 1, 2])
        ls = {0: "", 1: r.choice("lL"), 2: r.choice(["ll", "LL"])}[l]
        us = r.choice("uU") if u else ""
        return {"k": "int", "ds": [int(d, 16) for d in ds], "base": base, "u": u, "l": l, "text": sp + (us + ls if r.random() < .5 else ls + us)}
    t = r.choice(["float", "double", "ldouble"])
    suf = {"float": r.choice("fF"), "double": "", "ldouble": r.choice("lL")}[t]
    p = {"float": 24, "double": 53, "ldouble": 64}[t]
    if r.random() < .7:
        # around rounding boundaries: p bits, then a tail
        bits = [1] + [r.choice([0, 0, 1]) if r.random() < .3 else r.choice([0, 1]) for _ in range(r.choice([0, 3, p - 2, p - 1, p - 1]))]
        if r.random() < .2:
            bits = [1] * len(bits)
        if len(bits) == p:
            bits += r.choice([[0], [1], [1] + [0] * r.choice([3, 11, 40]) + [1], [0] + [1] * r.choice([10, 39]), [1] + [0] * 10, [1, 1, 1, 1]])
        while len(bits) % 4:
            bits.append(0) if r.random() < .5 else bits.insert(0, 0)
        ds = ["%x" % int("".join(map(str, bits[i:i + 4])), 2) for i in range(0, len(bits), 4)]
        pt = r.randint(0, len(ds))
        lim = {"float": 100, "double": 900, "ldouble": 15000}[t]
        ex = r.choice([0, 1, -1, 5, -20, lim, -lim, r.randint(-lim, lim)])
        if r.random() < .12 and t != "ldouble":
            ex = {"float": -126, "double": -1022}[t] - r.randint(0, 12) - 4 * pt + 4
        e = ex - 4 * (len(ds) - pt)
        txt = "0x" + "".join(ds[:pt]) + ("." if pt < len(ds) or r.random() < .5 else "") + "".join(ds[pt:]) + r.choice("pP") + (("+" if ex >= 0 and r.random() < .5 else "") + str(ex)) + suf
        if r.random() < .1 and "." not in ds:
            txt = txt.replace("0x", "0X").replace("a", "A")
            ds = [d for d in ds]
        return {"k": "flt", "hex": True, "ds": [int(d, 16) for d in ds], "e": e, "t": t, "text": txt}
    f = r.choice([0, 1, 2, 4, 7])
    if r.random() < .6:
        m = r.choice([0, 1, 3, 17, 255, 16777217, 2 ** 31 // 5 ** f - 1]) * 5 ** f
        if m >= 2 ** 31:
            m = 5 ** f
        s = str(m).rjust(f + 1, "0")
        txt = (s[:-f] + "." + s[-f:]) if f else s + "."
        if r.random() < .3:      # the same value with an exponent part
            txt = s + r.choice("eE") + f"-{f}" if f else s + "e" + r.choice(["0", "+0", "-0"])
        e = -f
    else:
        e = r.choice([1, 3, 6, 9])
        m = r.choice([1, 2, 7, 1000])
        txt = f"{m}{r.choice('eE')}{r.choice(['', '+'])}{e}"
        if r.random() < .3:
            txt = f"{m}.{r.choice(['', '0', '00'])}e{e}"
    return {"k": "flt", "hex": False, "m": m, "e": e, "t": t, "text": txt + suf}


HEAD = """int printf(const char *, ...);
static void dump(int k, const void *p, unsigned long n) { printf("%d ", k); for (unsigned long i = 0; i < n; i++) printf("%02x", ((unsigned char *)p)[i]); printf("\\n"); }
#define TY(x) _Generic(x, int: "int", unsigned: "uint", long: "long", unsigned long: "ulong", long long: "llong", unsigned long long: "ullong", float: "float", double: "double", long double: "ldouble", default: "other")
"""


def unit_bytes(u, w):
    return (u[0] + (u[1] << 16)).to_bytes(4, "little")[:w]


def libc_excluded(case):
    """The C library slimcc is built with rounds some inexact subnormal hexadecimal spellings wrongly
    (glibc 2.39 strtod("0x8dce0d7.d38450400P-1055")); that is not slimcc's."""
    if case["k"] != "flt" or not case["hex"]:
        return False
    m = int("".join("%x" % d for d in case["ds"]), 16)
    p, emin = {"float": (24, -126), "double": (53, -1022), "ldouble": (64, -16382)}[case["t"]]
    return m.bit_length() > p and case["e"] + m.bit_length() - 1 < emin


PPNUM = re.compile(r"\.?[0-9](?:[eEpP][+-]|'[0-9A-Za-z_]|[0-9A-Za-z_.])*")


def numbers(c, cc):
    """spellings at and around the grammar of numbers: accepted exactly if they are constants, as integers or floating"""
    r = c.rng
    out = set()
    N = 3000 if c.quick else 40000
    while len(out) < N:
        x = r.random()
        if x < .3:
            k = r.choice([1, 2, 3, 5])
            s = r.choice(["0", "1", "7", "08", "0x", "0X", "0b", "0B", ".", "0x.", "12", "0'", "1'"]) + "".join(r.choice("0017892abfe'.") for _ in range(k))
        else:
            g = gen(r)
            if g["k"] not in ("int", "flt") or len(g["text"]) > 16:
                continue
            s = g["text"]
        if r.random() < .3:
            s += r.choice(["", "u", "l", "L", "ul", "uL", "lu", "LU"]) + r.choice(["l", "L", "u", "f", "F", "U", "lL", ""])
        for _ in range(r.choice([0, 1, 1, 2])):
            i = r.randrange(len(s) + 1)
            y = r.random()
            a = r.choice("00189aAfFlLuUeEpPxXb''..+-")
            s = s[:i] + a + s[i:] if y < .6 else s[:i] + s[i + 1:] if y < .8 else s[:i] + a + s[i + 1:]
        # one preprocessing number, small enough to be in range
        if PPNUM.fullmatch(s) and len(re.findall(r"[0-9a-fA-F]", s)) <= 15:
            out.add(s)
    texts = out = sorted(out)
    v = {}
    for x in c.tlc("NumSyntax", [list(s) for s in out], invariants=["SepInside"]):
        v[texts[x["cid"] - 1]] = x["v"] if x["v"] in ("int", "flt", "ext") else "bad"
    out = [s for s in out if v[s] != "ext"]

    def ask(ss):
        t = "".join(f"int a{i}[_Generic({s}, float: 2, double: 2, long double: 2, default: 1) == {'2' if v[s] == 'flt' else '1'} ? 1 : -1];\n" for i, s in enumerate(ss))
        return sh([cc, "-std=c23" if not os.environ.get("VF_CC") else "-std=gnu2x", "-S", "-o", "/dev/null", "-xc", "-"], inp=t.encode(), timeout=20)

    def good(ss):
        if ask(ss)[0] == 0:
            return []
        return [(s, "accepted as " + v[s], *ask([s])) for s in ss if ask([s])[0]]

    def bad(s):
        rc, o, e = ask([s])
        return [(s, "rejected", rc, o, e)] if rc <= 0 else []
    res = [x for xs in c.pmap(good, chunks([s for s in out if v[s] != "bad"], 50)) for x in xs] + [x for xs in c.pmap(bad, [s for s in out if v[s] == "bad"]) for x in xs]
    for s, want, rc, o, e in res:
        c.violation("number:" + s, {"number": s, "expected": want, "rc": rc, "stderr": e.decode(errors="replace")[-300:]})
    c.traces += len(out)
    c.extra["number_spellings"] = {k: sum(1 for s in out if v[s] == k) for k in ("int", "flt", "bad")}


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 6000 if c.quick else 60000
    cases = [gen(c.rng) for _ in range(N)]
    items = []
    for b in chunks(list(range(N)), 10000):
        for x in c.tlc("Literals", [{k: v for k, v in cases[i].items() if k != "text"} for i in b], invariants=["UnitsOk"]):
            if x["ok"] == 1 and not libc_excluded(cases[b[x["cid"] - 1]]):
                items.append((cases[b[x["cid"] - 1]], x["ty"], x["units"]))
    c.extra["excluded_as_invalid"] = N - len(items)

    def emit(k, it):
        case, ty, us = it
        t = case["text"]
        g, f, exp = [], [], []
        if case["k"] == "str":
            w = SIZE[ty]
            b = b"".join(unit_bytes(u, w) for u in us).hex()
            n = str(case["n"]) if case["n"] else ""
            ct = SPELL[ty] if w > 1 else ["char", "unsigned char", "signed char"][k % 3]
            br = t if k % 4 else "{" + t + "}"
            g.append(f"static {ct} s{k}[{n}] = {br};")
            f.append(f"dump({k}, s{k}, sizeof s{k});")
            f.append(f"{{ {ct} a[{n}] = {br}; dump({k}, a, sizeof a); }}")
            exp += [f"{k} {b}"] * 2
            if not n:
                f.append(f"dump({k}, {t}, sizeof({t}));")
                f.append(f'printf("%d %d\\n", {k}, (int)sizeof(({t})[0]));')
                g.append(f"static const {ct} *p{k} = (const {ct} *)({t});")
                f.append(f"dump({k}, p{k}, sizeof({t}));")
                exp += [f"{k} {b}", f"{k} {w}", f"{k} {b}"]
        elif case["k"] == "chr":
            v = us[0][0] + (us[0][1] << 16)
            sv = v - (1 << 32) if ty in ("", "L") and v >> 31 else v
            g.append(f"static long long c{k} = {t};")
            f.append(f'printf("%d %lld %lld %d\\n", {k}, c{k}, (long long)({t}), (int)sizeof({t}));')
            exp.append(f"{k} {sv} {sv} {4 if ty == '' else SIZE[ty]}")
            if sv >= 0:
                g.append(f"#if {t} == {v}\nenum {{ P{k} = 1 }};\n#else\nenum {{ P{k} = 0 }};\n#endif")
                f.append(f'printf("%d %d\\n", {k}, P{k});')
                exp.append(f"{k} 1")
        elif case["k"] == "int":
            v = sum(l << 16 * i for i, l in enumerate(us[0]))
            g.append(f"static unsigned long long i{k} = {t};")
            f.append(f'printf("%d %llx %llx %s\\n", {k}, i{k}, (unsigned long long)({t}), TY({t}));')
            exp.append(f"{k} {v:x} {v:x} {ty}")
        else:
            ct = {"float": "float", "double": "double", "ldouble": "long double"}[ty]
            b = bytes(us[0]).hex()
            sz = len(us[0])
            g.append(f"static {ct} f{k} = {t};")
            f.append(f"dump({k}, &f{k}, {sz});")
            f.append(f"{{ {ct} a = {t}; dump({k}, &a, {sz}); }}")
            f.append(f'printf("%d %s\\n", {k}, TY({t}));')
            exp += [f"{k} {b}"] * 2 + [f"{k} {ty}"]
        return g, f, exp

    def program(idx):
        G, F, E = [], [], []
        for n, i in enumerate(idx):
            g, f, e = emit(i, items[i])
            G += g
            F.append(f"static void t{i}(void) {{ {' '.join(f)} }}")
            E += e
        return HEAD + "\n".join(G) + "\n" + "\n".join(F) + "\nint main(void) { " + " ".join(f"t{i}();" for i in idx) + " return 0; }\n", E

    def run(idx, tag, opt):
        src, exp = program(idx)
        p = c.path(f"l{tag}")
        with open(p + ".c", "w", encoding="utf-8") as f:
            f.write(src)
        rc, o, e = sh([cc, "-std=c23", "-fenable-universal-char", opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == exp, rc, got, exp, e, src

    def batch(a):
        tag, idx = a
        opt = "-O0" if tag % 2 else "-O1"
        ok = run(idx, tag, opt)[0]
        res = []
        if not ok:
            for i in idx:
                r = run([i], f"{tag}_{i}", opt)
                if not r[0]:
                    r = run([i], f"{tag}_{i}", opt)
                if not r[0]:
                    res.append((i, opt, r))
            if not res:
                r = run(idx, tag, opt)
                if not r[0]:
                    d = next((x for x in zip(r[2], r[3]) if x[0] != x[1]), None)
                    res.append((idx[0], opt, (0, r[1], d, "batch of literals", r[4], r[5])))
        return res
    for res in c.pmap(batch, list(enumerate(chunks(list(range(len(items))), 120)))):
        for i, opt, r in res:
            c.violation("literal:" + items[i][0]["text"], {"literal": items[i][0]["text"], "declared": items[i][0].get("n"), "opt": opt, "rc": r[1], "got": r[2],
                                                           "expected": r[3], "stderr": r[4].decode(errors="replace")[-300:]}, {"case.c": r[5]})
    c.traces += len(items)
    for s in ["''", 'u8"a" u"b"', 'L"a" u"b"', 'U"a" "x" u"b"', '"abc', "'a", "1''0"]:
        rc, o, e = sh([cc, "-S", "-o", "/dev/null", "-xc", "-"], inp=f"int x(void) {{ return sizeof({s}); }}\n".encode())
        c.traces += 1
        if rc <= 0:
            c.violation("badliteral:" + s, {"literal": s, "rc": rc, "expected": "a diagnostic"})
    numbers(c, cc)
    for k in ("str", "chr", "int", "flt"):
        c.extra[k] = sum(1 for i in items if i[0]["k"] == k)
    c.samples += [{"literal": i[0]["text"], "type": i[1], "units": i[2]} for i in items[:6]]
    c.assumptions.append("universal character names need -fenable-universal-char; decimal floating literals are limited to exactly representable values")


if __name__ == "__main__":
    run_check("P06", main)
