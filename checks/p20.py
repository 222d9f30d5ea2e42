"""P20 types of declarations and expressions: Types.tla; static assertions compiled by slimcc check every type."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

SPELL = {"void": ["void"], "bool": ["_Bool"], "char": ["char"], "schar": ["signed char", "char signed"], "uchar": ["unsigned char", "char unsigned"],
         "short": ["short", "short int", "signed short", "int short", "short signed int"], "ushort": ["unsigned short", "short unsigned", "unsigned short int"],
         "int": ["int", "signed", "signed int", "int signed"], "uint": ["unsigned", "unsigned int", "enum E", "int unsigned"],
         "long": ["long", "long int", "int long", "signed long int"], "ulong": ["unsigned long", "long unsigned int", "unsigned long int"],
         "llong": ["long long", "long long int", "long int long", "signed long long"], "ullong": ["unsigned long long", "long unsigned long", "long long unsigned int"],
         "float": ["float"], "double": ["double"], "ldouble": ["long double", "double long"], "S": ["struct S"], "T": ["struct T"]}
KINDS = list(SPELL)
if "gcc" in os.environ.get("VF_CC", ""):
    SPELL["uint"].remove("enum E")   # gcc loses the qualifiers of enumerations when it compares types
SIZE = {"bool": 1, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "llong": 8, "ullong": 8, "float": 4, "double": 8, "ldouble": 16, "ptr": 8}
OPS = (["addr"] * 4 + ["deref"] * 5 + ["idx"] * 3 + ["padd", "psub"] + ["dot"] * 2 + ["arrow"] * 3 + ["call"] * 3 + ["pos", "neg", "not", "lnot", "land", "cond0"]
       + ["mul"] * 2 + ["add"] * 2 + ["and", "shl", "mod", "less", "pdiff", "peq"] + ["cond"] * 4 + ["comma", "assign", "asgop", "inc", "stmt", "gen", "par", "typeof", "sizeof", "cast", "cast"])
LITS = [("char", "(char)1"), ("int", "1"), ("uint", "1u"), ("long", "1l"), ("ulong", "1ul"), ("llong", "1ll"), ("ullong", "1ull"), ("float", "1.f"), ("double", "1."), ("ldouble", "1.l"),
        ("short", "(short)1"), ("bool", "(_Bool)1"), ("int", "'a'"), ("int", "E1"), ("uchar", "(unsigned char)1"), ("ulong", "sizeof(int)"), ("long", "0x80000000l"), ("uint", "0xffffffff"), ("long", "2147483648")]


def quals(r, ptr, p):
    return [q for q in (["const", "volatile"] + (["restrict"] if ptr else [])) if r.random() < p]


def spec(r, n, p=.2):
    """n: declarations before this one"""
    if n and r.random() < .3:
        return {"td": r.randrange(n) + 1, "k": "", "q": quals(r, r.random() < .3, p)}
    k = r.choice(KINDS) if r.random() < .6 else r.choice(["int", "char", "void", "S", "T"])
    return {"td": 0, "k": k, "q": quals(r, False, p)}


def declarator(r, n, depth=0, name=True):
    ms, last = [], ""
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5]) if depth == 0 else r.choice([0, 0, 1, 1, 2, 3])):
        x = r.random()
        if last == "f":
            x = .1
        if last == "[" and x > .7:
            x = .5
        if x < .45:
            ms.append({"t": "*", "q": quals(r, True, .15)})
            last = "*"
        elif x < .75:
            q = quals(r, True, .3) if depth and not ms else []
            ms.append({"t": "[", "n": r.choice([-1, 3] if last != "[" else [1]) if r.random() < .35 else r.choice([1, 2, 3, 3, 5]), "q": q})
            last = "["
        else:
            if depth > 2:
                break
            ps = [{"spec": spec(r, n), "toks": declarator(r, n, depth + 1, False)} for _ in range(r.choice([0, 1, 1, 2, 3]))]
            old = not ps and r.random() < .6
            ms.append({"t": "f", "ps": ps, "va": bool(ps) and r.random() < .25, "old": old})
            last = "f"
    t = [{"t": "id"}]
    named = name or r.random() < .5
    t[0]["show"] = named

    def par(t):
        return [{"t": "("}] + t + [{"t": ")"}]
    if named and r.random() < .1:
        t = par(t)
    prev = ""
    for m in ms:
        if m["t"] == "*":
            t = [m] + t
        else:
            if prev == "*":
                t = par(t)
            t = t + [m]
        prev = m["t"]
        if r.random() < .08 and (named or prev):
            t = par(t)
    return t


def mutate(r, d):
    d = json.loads(json.dumps(d))
    toks, s = d["toks"], d["spec"]
    x = r.random()
    i = r.randrange(len(toks))
    t = toks[i]
    if t["t"] == "[":
        t["n"] = r.choice([-1, 2, 3, 4])
    elif t["t"] == "*":
        t["q"] = quals(r, True, .4)
    elif t["t"] == "f" and t["ps"]:
        p = r.choice(t["ps"])
        y = r.random()
        if y < .4:
            q = mutate(r, p)
            p["spec"], p["toks"] = q["spec"], q["toks"]
        elif y < .55:
            t["va"] = not t["va"]
        elif y < .7:
            t["ps"].pop()
            t["va"] = t["va"] and bool(t["ps"])
        elif y < .85:
            t["ps"], t["va"], t["old"] = [], False, True
        else:
            p["spec"]["q"] = quals(r, False, .5)
    elif t["t"] == "f":
        t["old"] = not t["old"]
    elif x < .5 or s["td"]:
        s["q"] = quals(r, False, .4)
    else:
        s["k"] = r.choice(KINDS)
    return d


class Case:
    def __init__(self, r, std):
        self.r, self.std = r, std
        self.decls = []
        uses = ["S"] * r.choice([1, 2, 3, 4]) + ["T"] * r.choice([1, 2, 3])
        uses = [None] * r.choice([1, 2, 3]) + uses + [None] * r.choice([4, 6, 8])
        for u in uses:
            n = len(self.decls)
            # members come one after another; declarations before them are those made before the structure
            use = u or r.choice(["td", "obj", "obj"])
            d = {"use": use, "bf": 0, "toks": declarator(r, 0), "spec": spec(r, 0)}
            ok = [i + 1 for i, e in enumerate(self.decls) if e["use"] in ("td", "obj") and not (u and False)]
            if ok:
                d = {"use": use, "bf": 0, "toks": self.remap(declarator(r, len(ok)), ok), "spec": self.remap(spec(r, len(ok)), ok)}
            if u and r.random() < .15:
                d = {"use": use, "bf": r.choice([1, 5, 31, 32]), "toks": [{"t": "id", "show": True}], "spec": {"td": 0, "k": r.choice(["int", "uint"]), "q": []}}
            self.decls.append(d)
            if not u and r.random() < .6:
                m = mutate(r, d)
                m["use"] = r.choice(["td", "obj"])
                self.decls.append(m)
        for d in self.decls:
            d["toks"][next(i for i, t in enumerate(d["toks"]) if t["t"] == "id")]["show"] = True
        # members of anonymous structures and unions, whose qualifiers they get
        g, self.groups = 0, {}
        for j, d in enumerate(self.decls):
            d["aq"], d["g"] = [], 0
            if d["use"] not in ("S", "T"):
                g = 0
                continue
            if r.random() < .5:
                g = r.choice([0, j + 1])
                self.groups[g] = (d["use"], quals(r, False, .15))
            if g and self.groups[g][0] == d["use"]:
                d["g"], d["aq"] = g, self.groups[g][1]
        for j, d in enumerate(self.decls):
            d["pre"] = d["use"] in ("td", "obj") and all(e["use"] in ("td", "obj") for e in self.decls[:j])
        n = len(self.decls)
        self.lits = [{"k": k, "n": 0, "x": x} for k, x in r.sample(LITS, 5)] + [{"k": "str", "n": m + 1, "x": '"' + "a" * m + '"'} for m in [r.choice([0, 1, 3])]]
        self.ops = [{"op": r.choice(OPS), "a": r.randrange(1 << 20), "b": r.randrange(1 << 20), "n": r.randrange(1 << 10)} for _ in range(r.choice([20, 40, 60]))]
        self.pairs = [[r.randrange(n) + 1, r.randrange(n) + 1] for _ in range(10)] + [[i, i + 1] for i in range(1, n)]

    def remap(self, x, ok):
        if isinstance(x, list):
            for y in x:
                self.remap(y, ok)
        elif isinstance(x, dict):
            if x.get("td"):
                x["td"] = ok[x["td"] - 1]
            for y in list(x.values()):
                self.remap(y, ok)
        return x

    def json(self):
        return {"decls": self.decls, "lits": [{"k": x["k"], "n": x["n"]} for x in self.lits], "ops": self.ops, "pairs": self.pairs}

    # -- text
    def ref(self, j):
        return f"t{j}" if self.decls[j - 1]["use"] == "td" else f"__typeof__(x{j})"

    def spec_text(self, s, store=""):
        r = self.r
        ws = [self.ref(s["td"])] if s["td"] else r.choice(SPELL[s["k"]]).split(" ")
        if ws[0] in ("struct", "enum"):
            ws = [" ".join(ws)]
        for q in s["q"]:
            ws.insert(r.randrange(len(ws) + 1), r.choice([q, q, f"__{q}__"]) if q != "const" else q)
        if store:
            ws.insert(r.randrange(len(ws) + 1) if r.random() < .15 else 0, store)
        return " ".join(ws)

    def toks_text(self, toks, name):
        r, o = self.r, ""
        for t in toks:
            if t["t"] in "()":
                o += t["t"]
            elif t["t"] == "id":
                o += name if t["show"] else ""
            elif t["t"] == "*":
                o += "*" + " ".join(t["q"]) + " " * bool(t["q"])
            elif t["t"] == "[":
                n = "" if t["n"] < 0 else r.choice([str(t["n"]), str(t["n"]), f"{t['n'] + 1} - 1", f"sizeof(char[{t['n']}])"])
                st = "static " if t["q"] and n and r.random() < .5 else ""
                o += "[" + (st + " ".join(t["q"]) + " " if r.random() < .5 else " ".join(t["q"]) + " " + st) + n + "]"
            else:
                ps = [self.spec_text(p["spec"]) + " " + self.toks_text(p["toks"], f"p{self.r.randrange(10**6)}") for p in t["ps"]]
                if t["va"]:
                    ps.append("...")
                o += "(" + (", ".join(ps) or ("" if t["old"] else "void")) + ")"
        return o

    def name(self, t, inner=""):
        """type name of a type TLC gave"""
        if t["k"] == "ptr":
            b = t["b"][0]
            s = "*" + " ".join(t["q"]) + (" " if t["q"] and inner else "") + inner
            return self.name(b, f"({s})" if b["k"] in ("arr", "fn") else s)
        if t["k"] == "arr":
            return self.name(t["b"][0], f"{inner}[{t['n'] if t['n'] >= 0 else ''}]")
        if t["k"] == "fn":
            ps = [self.name(p) for p in t["ps"]] + ["..."] * t["va"]
            return self.name(t["b"][0], f"{inner}({', '.join(ps) or ('' if t['old'] else 'void')})")
        return " ".join(t["q"] + [SPELL[t["k"]][0]]) + (" " + inner if inner else "")

    def alias(self, t):
        """the same, one constructor per typedef"""
        key = json.dumps(t)
        if key in self.al:
            return self.al[key]
        n = f"k{len(self.al)}"
        self.al[key] = n
        if t["k"] == "ptr":
            b = self.alias(t["b"][0])
            d = f"typedef {b} *{' '.join(t['q'])} {n};"
        elif t["k"] == "arr":
            d = f"typedef {self.alias(t['b'][0])} {n}[{t['n'] if t['n'] >= 0 else ''}];"
        elif t["k"] == "fn":
            ps = [self.alias(p) for p in t["ps"]] + ["..."] * t["va"]
            d = f"typedef {self.alias(t['b'][0])} {n}({', '.join(ps) or ('' if t['old'] else 'void')});"
        else:
            d = f"typedef {' '.join(t['q'])} {SPELL[t['k']][0]} {n};"
        self.aliases.append(d)
        return n

    def type(self, t):
        return self.name(t) if self.r.random() < .5 else self.alias(t)

    def incomplete(self, t):
        return t["k"] in ("void", "fn") or t["k"] == "arr" and t["n"] < 0

    def size(self, t):
        if t["k"] == "arr":
            s = self.size(t["b"][0])
            return s and s * t["n"]
        return SIZE.get(t["k"])

    def arg(self, t):
        return f"*({self.name({**t, 'q': []})} *)0" if t["k"] in "ST" else "0"

    def expr(self, o, i):
        if i in self.ex:
            return self.ex[i]
        p = o["pool"][i - 1]
        op, a, b, n = p["op"], p["a"], p["b"], p["n"]
        if op == "var":
            s = f"x{a}"
        elif op == "lit":
            s = self.lits[a - 1]["x"]
        else:
            e = self.expr(o, a)
            f = self.expr(o, b) if b else ""
            et = o["pool"][a - 1]["e"]["t"]
            if op == "call":
                ft = et["b"][0] if et["k"] == "ptr" else et
                s = f"{e}({', '.join([self.arg(q) for q in ft['ps']] + ['1.0'] * (ft['va'] and n % 2))})"
            elif op in ("dot", "arrow"):
                s = f"{e}{'.' if op == 'dot' else '->'}m{n}"
            else:
                s = {"addr": "&E", "deref": "*E", "idx": ["E[1]", "1[E]"][n % 2], "padd": ["E + 1", "1 + E", "E + 1u", "'a' + E"][n % 4], "psub": "E - 1", "pos": "+E", "neg": "-E", "not": "~E", "lnot": "!E",
                     "land": ["E && F", "E || F"][n % 2], "cond0": ["1 ? E : 0", "zero ? 0 : E", "zero ? E : 0"][n % 3] if et["k"] not in ("ptr", "arr", "fn") or n % 2 else ["zero ? E : (void *)0", "zero ? 0 : E"][n // 2 % 2],
                     "mul": "E * F" if n % 2 else "E / F", "add": ["E + F", "E - F"][n % 2], "and": ["E & F", "E | F", "E ^ F"][n % 3], "shl": ["E << F", "E >> F"][n % 2], "mod": "E % F",
                     "less": ["E < F", "E == F", "E >= F", "E != F"][n % 4], "pdiff": "E - F", "peq": ["E == F", "E != F", "F == E"][n % 3], "cond": ["zero ? E : F", "1 ? E : F", "0 ? E : F", "zero ? F : E"][n % 4],
                     "comma": "E, F", "assign": "E = E", "asgop": ["E += 1", "E -= 1", "E *= 2"][n % 3], "inc": ["E++", "++E", "E--", "--E"][n % 4], "stmt": "({ E; })", "gen": ["_Generic(0, int: E)", "_Generic(1.f, default: E, int: 0)", "_Generic(zero, char: 0, default: E)", "__builtin_choose_expr(1, E, 0)"][n % 3],
                     "par": "(E)", "typeof": ["*(__typeof__(E) *)0", "*(__typeof(E) *)0" if self.std == "c17" else "*(typeof(E) *)0", "*(__typeof__(__typeof__(E)) *)0"][n % 3], "sizeof": "sizeof E"}.get(op)
                if op == "cast":
                    s = f"({self.type(p['e']['t'])})E"
                s = s.replace("E", "\0").replace("F", f).replace("\0", e) if op != "cast" else s[:-1] + e
        s = f"({s})"
        self.ex[i] = s
        return s

    def source(self, o):
        r = self.r
        self.ex, self.al, self.aliases = {}, {}, []
        out, ks = [], {}
        env = o["env"]
        body = []
        out.append("enum E { E0, E1, E2 }; extern int zero; struct S; struct T;")
        done = {"S": False, "T": False}
        mem = {"S": "", "T": ""}
        last = 0
        for j, d in enumerate(self.decls + [{"use": "", "g": 0}], 1):
            if last and d["g"] != last:
                k, q = self.groups[last]
                mem[k] += "}; "
                last = 0
            if d["use"] in mem and env[j - 1]["k"] != "bad":
                if d["g"] != last:
                    k, q = self.groups[d["g"]]
                    last = d["g"]
                    mem[k] += " ".join(q + [r.choice(["struct", "union"])]) + " { "
                mem[d["use"]] += self.spec_text(d["spec"]) + " " + self.toks_text(d["toks"], f"m{j}") + (f" : {d['bf']}" if d["bf"] else "") + "; "
        for j, d in enumerate(self.decls, 1):
            if d["use"] in mem or all(x["use"] not in mem for x in self.decls[:j]):
                pass
            if d["use"] not in mem and not done["S"] and any(x["use"] in mem for x in self.decls[:j - 1]):
                for k in "ST":
                    out.append(f"struct {k} {{ {mem[k]}char last; }};")
                    done[k] = True
            if d["use"] in mem or env[j - 1]["k"] == "bad":
                continue
            store = "typedef" if d["use"] == "td" else "extern"
            if d["use"] == "obj" and r.random() < .2 and env[j - 1]["k"] == "fn":
                store = ""
            out.append(self.spec_text(d["spec"], store) + " " + self.toks_text(d["toks"], ("t" if d["use"] == "td" else "x") + str(j)) + ";")
        k = 0

        def ck(c, what):
            nonlocal k
            k += 1
            ks[k] = what
            body.append(f"_Static_assert({c}, \"#{k}#\");")
        for j, t in enumerate(env, 1):
            if t["k"] == "bad" or self.decls[j - 1]["use"] in mem:
                continue
            n = self.ref(j)
            ck(f"_Generic(({n} *)0, {self.alias(t)} *: 1, default: 0)", [j, "alias"])
            x = self.name(t, "*" if t["k"] not in ("arr", "fn") else "(*)")
            ck(f"_Generic(({n} *)0, {x}: 1, default: 0)", [j, "name"])
            if not self.incomplete(t):
                if self.size(t):
                    ck(f"sizeof({n}) == {self.size(t)}", [j, "size"])
                else:
                    ck(f"sizeof({n}) == sizeof({self.alias(t)})", [j, "size"])
        for (i, j), p in zip(self.pairs, o["pairs"]):
            if not p or self.decls[i - 1]["use"] in mem or self.decls[j - 1]["use"] in mem:
                continue
            if p[2]:
                ck(f"__builtin_types_compatible_p({self.ref(i)}, {self.ref(j)}) == {int(p[0])}", [i, j, "compatible"])
            ck(f"_Generic(({self.ref(i)} *)0, {self.ref(j)} *: 1, default: 0) == {int(p[1])}", [i, j, "generic"])
        for i, p in enumerate(o["pool"], 1):
            e, t = p["e"], p["e"]["t"]
            if e["bf"] or p["op"] == "var":
                continue
            x = self.expr(o, i)
            if len(x) > 1500:
                continue
            what = [i, p["op"], x, t]
            js = [j for j in range(1, len(env) + 1) if env[j - 1]["k"] != "bad" and self.decls[j - 1]["use"] not in mem]
            js = r.sample(js, min(2, len(js)))
            if t["k"] == "void":
                ck(f"__builtin_types_compatible_p(__typeof__{x}, void)", what)
            elif e["lv"] or t["k"] == "fn":
                ck(f"_Generic(&{x}, {self.name(t, '*' if t['k'] not in ('arr', 'fn') else '(*)') if r.random() < .5 else self.alias(t) + ' *'}: 1, default: 0)", what)
                for j in js:
                    ck(f"_Generic(&{x}, {self.ref(j)} *: 1, default: 0) == {int(j in o['like'][i - 1])}", what + [env[j - 1]])
            else:
                u = {"k": "ptr", "q": [], "b": t["b"], "n": 0, "ps": [], "va": False, "old": False} if t["k"] == "arr" else t
                ck(f"_Generic({x}, {self.type(u)}: 1, default: 0)", what)
                if t["k"] != "arr":
                    for j in js:
                        if not self.incomplete(env[j - 1]) and not env[j - 1]["q"]:
                            ck(f"_Generic({x}, {self.ref(j)}: 1, default: 0) == {int(j in o['like'][i - 1])}", what + [env[j - 1]])
            if not self.incomplete(t):
                ck(f"sizeof {x} == {self.size(t) or 'sizeof(' + self.alias(t) + ')'}", what + ["size"])
        # parameters of function definitions
        funcs = []
        for j, t in enumerate(env, 1):
            toks = self.decls[j - 1]["toks"]
            if t["k"] != "fn" or not t["ps"] or len(toks) < 2 or toks[0]["t"] != "id" or toks[1]["t"] != "f" or self.decls[j - 1]["use"] in mem:
                continue
            ps = toks[1]["ps"]
            for p in ps:
                for q in p["toks"]:
                    if q["t"] == "id":
                        q["show"] = True
            ret = self.alias(t["b"][0])
            funcs.append(f"{ret} g{j}(" + ", ".join([self.spec_text(p["spec"]) + " " + self.toks_text(p["toks"], f"a{i}") for i, p in enumerate(ps)] + ["..."] * t["va"]) + ") {")
            at = len(body)
            for i, u in enumerate(t["ps"]):
                ck(f"_Generic(&a{i}, {self.alias(u)} *: 1, default: 0)", [j, "parameter", u])
                ck(f"sizeof a{i} == {self.size(u) or 'sizeof(' + self.alias(u) + ')'}", [j, "parameter", u])
            funcs += body[at:] + ["for (;;); }"]
            del body[at:]
        body = funcs + ["void f(void) {"] + body
        return "\n".join(out + self.aliases + body + ["}"]) + "\n", ks


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    gcc = "gcc" in cc
    N = 1500 if c.quick else 25000
    r = c.rng
    cs = [Case(r, r.choice(["c17", "c23"])) for _ in range(N)]
    for x in cs:
        if x.std == "c23":
            # () is (void)
            def old(y):
                if isinstance(y, dict):
                    if y.get("t") == "f":
                        y["old"] = False
                    for z in y.values():
                        old(z)
                elif isinstance(y, list):
                    for z in y:
                        old(z)
            old(x.decls)
    res = [None] * N
    for b in chunks(list(range(N)), 5000):
        for x in c.tlc("Types", [cs[i].json() for i in b], deadlock=True, invariants=["Matched", "WellFormed", "Unqualified", "Reflexive"]):
            res[b[x["cid"] - 1]] = x
    src = [cs[i].source(res[i]) for i in range(N)]
    std = lambda s: "-std=" + (s.replace("c", "gnu").replace("gnu23", "gnu2x") if gcc else s)

    def one(i):
        s, ks = src[i]
        for _ in range(2):
            rc, o, e = sh([cc, std(cs[i].std)] + ["-w"] * gcc + ["-c", "-xc", "-", "-o", c.path(f"o{i}")], inp=s.encode(), timeout=60)
            if os.path.exists(c.path(f"o{i}")):
                os.remove(c.path(f"o{i}"))
            if rc == 0:
                return None
        return rc, e.decode(errors="replace")
    n = 0
    for i, bad in enumerate(c.pmap(one, list(range(N)))):
        n += len(src[i][1])
        if bad:
            s, ks = src[i]
            m = re.search(r"#(\d+)#", bad[1])
            line = [l for l in s.split("\n") if m and f'"{m.group(0)}"' in l]
            c.violation("type:" + s, {"std": cs[i].std, "rc": bad[0], "failed": line, "what": str(ks.get(int(m.group(1))) if m else "")[:1500], "stderr": bad[1][:600], "unit": s}, {"case.c": s})
    c.traces += N
    c.extra.update({"units": N, "assertions": n, "declarations": sum(1 for x in res for t in x["env"] if t["k"] != "bad"), "expressions": sum(len(x["pool"]) for x in res)})
    c.samples += [{"unit": src[i][0][:1500]} for i in range(2)]


if __name__ == "__main__":
    run_check("P20", main)
