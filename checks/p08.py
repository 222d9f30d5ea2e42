"""P08 control flow and deferred actions: ControlFlow.tla; programs compiled by slimcc and their traces compared."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

RT = {"void": "", "int": "int", "long": "long", "uchar": "unsigned char", "float": "float", "double": "double", "ld": "long double", "s8": "S8", "s16": "S16", "s24": "S24", "sf": "SF"}


class Prog:
    def __init__(self, r, size, hot=False):
        self.r = r
        self.hot = hot
        self.n = []
        self.ev = 0
        self.size = size
        self.gotos = []
        self.cgos = []
        self.labs = []
        self.node("blk", 0)
        if hot and r.random() < .6:
            self.exits(1)
        self.fill(1, [], None, 0, None)
        self.resolve()

    def exits(self, b):
        """a deferred statement run on several ways out of its block"""
        r, ev = self.r, lambda p: self.node("ev", p, n=self.num())
        loop = None
        if r.random() < .7:
            loop = self.node(r.choice(["for", "while", "do"]), b, cond=self.num())
            b = self.node("blk", loop)
        outer = b
        b = self.node("blk", b)
        self.inner(self.node("def", b), 0)
        for _ in range(r.choice([1, 2, 3])):
            i = self.node("blk", self.node("if", b, cond=self.num()))
            if r.random() < .3:
                self.inner(self.node("def", i), 1)
            x = r.random()
            if loop and x < .6:
                self.node(r.choice(["brk", "cont"]), i, to=loop)
            elif x < .8:
                self.node("ret", i, n=self.num())
            else:
                self.gotos.append(self.node("goto", i))
        ev(b)
        if r.random() < .5:
            self.labs.append(self.node("lab", outer))
        ev(outer)

    def inner(self, d, depth):
        r, ev = self.r, lambda p: self.node("ev", p, n=self.num())
        b = self.node("blk", d)
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < .35:
                s = self.node("sw", b, cond=self.num())
                w = self.node("blk", s)
                vals = list(range(-1, 6))
                for j in range(r.choice([1, 2, 3])):
                    v = vals.pop(0)
                    l = self.node("lab", w, sw=s, cases=[[v, v]])
                    if vals and r.random() < .5:
                        self.n[l - 1]["cases"] = [[v, vals.pop(0)]]
                    elif not self.n[s - 1].get("hasdef") and r.random() < .6:
                        self.n[s - 1]["hasdef"] = self.n[l - 1]["default"] = True
                        self.n[l - 1]["cases"] = []
                    ev(w)
                    if r.random() < .6:
                        self.node("brk", w, to=s)
                if self.n[self.n[w - 1]["kids"][-1] - 1]["k"] == "lab":
                    ev(w)
            elif x < .6:
                l = self.node(r.choice(["for", "while", "do"]), b, cond=self.num())
                w = self.node("blk", l)
                if depth < 3 and r.random() < .7:
                    self.inner(self.node("def", w), depth + 1)
                ev(w)
                i = self.node("blk", self.node("if", w, cond=self.num()))
                self.node(r.choice(["brk", "cont"]), i, to=l)
                ev(w)
            elif x < .8 and depth < 3:
                w = self.node("blk", b)
                self.inner(self.node("def", w), depth + 1)
                ev(w)
                i = self.node("blk", self.node("if", w, cond=self.num()))
                g = self.node("goto", i)
                ev(w)
                l = self.node("lab", b)
                self.n[g - 1]["to"] = l
                self.labs.append(l)
                ev(b)
            else:
                self.cgos.append(self.node("cgo", b, cond=self.num()))
                for _ in range(r.choice([1, 2])):
                    self.labs.append(self.node("lab", b))
                    ev(b)

    def num(self):
        self.ev += 1
        return self.ev

    def node(self, k, p, **kw):
        self.n.append(dict({"k": k, "p": p, "kids": [], "n": 0, "cd": 0, "ini": 0, "cond": 0, "inc": 0, "to": 0, "sw": 0, "cases": [], "default": False, "tos": [], "val": False}, **kw))
        i = len(self.n)
        if p:
            self.n[p - 1]["kids"].append(i)
        return i

    def fill(self, b, loops, sw, depth, indef):
        """statements of block b; loops: enclosing loops/switches within the current body, innermost last"""
        r = self.r
        for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5] if depth < 4 else [1, 1, 2])):
            if len(self.n) > self.size:
                break
            self.stmt(b, loops, sw, depth, indef)
        if self.n[b - 1]["kids"] and self.n[self.n[b - 1]["kids"][-1] - 1]["k"] == "lab":
            self.node("ev", b, n=self.num())

    def body(self, p, loops, sw, depth, indef):
        b = self.node("blk", p)
        self.fill(b, loops, sw, depth + 1, indef)
        return b

    def cd(self):
        return self.num() if self.r.random() < .15 else 0

    def stmt(self, b, loops, sw, depth, indef):
        r = self.r
        x = r.random()
        deep = depth > (9 if self.hot else 5) or len(self.n) > self.size
        if self.hot and not deep:
            # nested deferred statements with loops and switches inside, left in several ways
            if indef and r.random() < .6:
                x = r.choice([.2, .2, .1, .5, .58, .63, .68, .72, .78, .78, .95])
            elif not indef and r.random() < .5:
                x = r.choice([.2, .2, .58, .63, .78, .95, .92, .98])
        if x < .14 or (deep and x < .6):
            self.node("ev", b, n=self.num())
        elif x < .27:
            if deep:
                return self.node("def", b) and self.body(len(self.n), [], None, depth, True)
            d = self.node("def", b)
            self.body(d, [] if r.random() < .96 else loops, None if r.random() < .96 else sw, depth + 2, True)
        elif x < .36:
            self.node("cln", b, n=self.num())
        elif x < .39:
            self.node("vla", b)
        elif x < .45:
            l = self.node("lab", b)
            self.labs.append(l)
        elif x < .53 and sw:
            l = self.node("lab", b, sw=sw)
            s = self.n[sw - 1]
            free = s.setdefault("free", list(range(-1, 7)))
            if r.random() < (.6 if self.hot else .25) and not s.get("hasdef"):
                s["hasdef"] = True
                self.n[l - 1]["default"] = True
            elif free:
                v = free.pop(r.randrange(len(free)))
                self.n[l - 1]["cases"].append([v, v])
                if v + 1 in free and r.random() < .3:
                    free.remove(v + 1)
                    self.n[l - 1]["cases"] = [[v, v + 1]]
            else:
                self.n[l - 1]["sw"] = 0
            self.labs.append(l)
        elif x < .6:
            i = self.node("if", b, cond=self.num(), cd=self.cd())
            self.body(i, loops, sw, depth, indef)
            if r.random() < .4:
                self.body(i, loops, sw, depth, indef)
        elif x < .66:
            c = r.random()
            ini = 0 if c < .3 else -self.num() if c < .6 else self.num()
            cond = self.num() if r.random() < .85 else 0
            i = self.node("for", b, ini=ini, cond=cond, cd=self.cd() if cond else 0, inc=self.num() if r.random() < .7 or not cond else 0)
            self.body(i, loops + [i], sw, depth, indef)
        elif x < .7:
            i = self.node("while", b, cond=self.num(), cd=self.cd())
            self.body(i, loops + [i], sw, depth, indef)
        elif x < .74:
            i = self.node("do", b, cond=self.num())
            self.body(i, loops + [i], sw, depth, indef)
        elif x < .81:
            i = self.node("sw", b, cond=self.num(), cd=self.cd())
            self.body(i, loops + [i], i, depth, indef)
        elif x < .85:
            i = self.node("sx", b)
            self.fill(i, loops, sw, depth + 1, indef)
            if r.random() < .5:
                self.node("ev", i, n=self.num(), isval=True)
                self.n[i - 1]["val"] = True
        elif x < .89:
            i = self.node("blk", b)
            self.fill(i, loops, sw, depth + 1, indef)
        elif x < .93:
            self.node("ev", b, n=self.num())
            if r.random() < .2:
                self.cgos.append(self.node("cgo", b, cond=self.num()))
            else:
                self.gotos.append(self.node("goto", b))
        elif x < .975:
            if not loops:
                return self.node("ev", b, n=self.num())
            i = r.choice(loops) if r.random() < .4 else loops[-1]
            if (self.n[i - 1]["k"] != "sw" or r.random() < .01) and r.random() < .5:
                self.node("cont", b, to=i)
            else:
                self.node("brk", b, to=i)
        else:
            if indef and r.random() < .9:
                return self.node("ev", b, n=self.num())
            self.node("ret", b, n=self.num())

    def scope(self, i):
        s, c = [], i
        while c and self.n[c - 1]["p"]:
            p = self.n[c - 1]["p"]
            kids = self.n[p - 1]["kids"]
            if self.n[p - 1]["k"] == "def":
                s.append(("root", p))
            for k in kids[:kids.index(c)]:
                if self.n[k - 1]["k"] in ("def", "cln", "vla"):
                    s.append(k)
            if self.n[p - 1]["cd"] or self.n[p - 1]["ini"] > 0:
                s.append(p)
            if self.n[p - 1]["k"] == "sx":
                s.append(p)
            c = p
        return set(s)

    def resolve(self):
        if self.gotos and not self.labs:
            self.labs.append(self.node("lab", 1))
            self.node("ev", 1, n=self.num())
        for g in self.gotos:
            good = [l for l in self.labs if self.scope(l) <= self.scope(g) and {x for x in self.scope(g) if isinstance(x, tuple)} == {x for x in self.scope(l) if isinstance(x, tuple)}]
            l = self.r.choice(good) if good and self.r.random() < .97 else self.r.choice(self.labs)
            self.n[g - 1]["to"] = l
        for g in self.cgos:
            good = [l for l in self.labs if self.scope(l) == self.scope(g)]
            if not good:
                self.n[g - 1].update(k="ev", n=self.n[g - 1]["cond"])
                continue
            self.n[g - 1]["tos"] = [self.r.choice(good) for _ in range(self.r.choice([1, 2, 2, 4]))]
            if len(self.n[g - 1]["tos"]) == 4 and self.r.random() < .5:
                del self.n[g - 1]["tos"][3]


def emit(p, r, fid, rt, form):
    """C text of one function"""
    N = p.n
    out = []
    named = set()
    for i, x in enumerate(N):
        if x["k"] in ("brk", "cont"):
            # the unnamed form reaches the innermost loop (or switch) in the same body
            c = x["p"]
            inner = None
            while c:
                if N[c - 1]["k"] in ("for", "while", "do") or (N[c - 1]["k"] == "sw" and x["k"] == "brk"):
                    inner = c
                    break
                if N[c - 1]["k"] == "def":
                    break
                c = N[c - 1]["p"]
            x["named"] = inner != x["to"] or r.random() < .3
            if x["named"]:
                named.add(x["to"])
    T = lambda n: r.choice(["T(%d)", "T(%d)", "T(%d) != 0", "!!T(%d)", "!F(%d)", "(T(%d) ? 1 : 0)", "(1 && T(%d))", "(T(%d) || 0)"]) % n
    decl = lambda i, cid, init: f"int c{i}_{cid} __attribute__((cleanup(cl{cid}))) = {init}"

    def cond(i, x):
        return decl(i, x["cd"], "%s(%d)" % ("V" if x["k"] == "sw" else "T", x["cond"])) if x["cd"] else ("V(%d)" % x["cond"] if x["k"] == "sw" else T(x["cond"]))

    def anc(i):
        while i:
            yield i
            i = N[i - 1]["p"]

    def body(i, simple_only=False):
        """a secondary block: with or without braces"""
        x = N[i - 1]
        ks = x["kids"]
        bare = ks and not (rt == "void" and N[ks[-1] - 1]["k"] == "ret") and all(N[k - 1]["k"] == "lab" for k in ks[:-1]) and N[ks[-1] - 1]["k"] not in ("cln", "vla", "lab") and r.random() < .5
        if bare and simple_only and (len(ks) > 1 or N[ks[-1] - 1]["k"] not in ("ev", "brk", "cont", "goto", "ret")):
            bare = False
        if not ks:
            return r.choice(["{ }", ";"])
        t = " ".join(st(k) for k in ks)
        return t if bare else "{ " + t + " }"

    def st(i):
        x = N[i - 1]
        k = x["k"]
        nm = f"N{i}: " if i in named else ""
        if k == "ev" and x.get("isval"):
            return r.choice(["@@R_@val@(%d);", "@@({ R_@val@(%d); });", "@@0, R_@val@(%d);"]) % x["n"]
        if k == "ev":
            return r.choice(["E(%d);", "E(%d);", "g += E(%d);", "if (1) E(%d); else ;", "do { E(%d); } while (0);"] if not r.random() < .5 else ["E(%d);"]) % x["n"]
        if k == "blk":
            return "{ " + " ".join(st(c) for c in x["kids"]) + " }"
        if k == "sx":
            t = " ".join(st(c) for c in x["kids"])
            if x["val"]:
                t = t[:t.rindex("@@")] + t[t.rindex("@@") + 2:]
                v = r.choice(list(RT)[1:])
                return r.choice(["log_(2000 + v_%s(({ %s })));", "log_(use(1000, v_%s(({ %s })), 1000));", "log_((g_double = 2000.0 + v_%s(({ %s })), g_double));", "log_(2000 + v_%s((0, g_ld = 2, ({ %s }))));"]) % (v, t.replace("@val@", v))
            return r.choice(["({ %s });", "g += ({ %s 1; });", "use(1, ({ %s 2; }), 3);", "g = 1 + use(g, 2, ({ %s g; }));", "(void)({ %s 0; });"]) % t
        if k == "def":
            return r.choice(["_Defer ", "defer "]) + body(x["kids"][0])
        if k == "cln":
            return decl(i, x["n"], f"E({x['n']})") + ";"
        if k == "vla":
            return f"char v{i}[vn]; v{i}[0] = v{i}[vn - 1] = 1;"
        if k == "lab":
            t = ""
            if x["sw"]:
                cs = []
                for lo, hi in x["cases"]:
                    cs += [f"case {lo}:"] if lo == hi else r.choice([[f"case {lo} ... {hi}:"], [f"case {hi}:", f"case {lo}:"]])
                if x["default"]:
                    cs.append("default:")
                t = " ".join(cs) + " "
            if any(y["k"] == "goto" and y["to"] == i or i in y["tos"] for y in N):
                t = r.choice([f"L{i}: " + t, t + f"L{i}: "])
            return t or f"L{i}: "
        if k == "if":
            t = f"if ({cond(i, x)}) {body(x['kids'][0], len(x['kids']) == 2)}"
            if len(x["kids"]) == 2:
                t += " else " + body(x["kids"][1])
            else:
                t += r.choice(["", "", " else ;"]) if t.endswith("}") else ""
            return t
        if k == "for":
            ini = "" if not x["ini"] else decl(i, x["ini"], f"E({x['ini']})") if x["ini"] > 0 else f"E({-x['ini']})"
            return nm + f"for ({ini}; {cond(i, x) if x['cond'] else ''}; {'E(%d)' % x['inc'] if x['inc'] else ''}) " + body(x["kids"][0])
        if k == "while":
            return nm + f"while ({cond(i, x)}) " + body(x["kids"][0])
        if k == "do":
            return nm + f"do {body(x['kids'][0])} while ({cond(i, x)});"
        if k == "sw":
            return nm + f"switch ({cond(i, x)}) " + body(x["kids"][0])
        if k == "cgo":
            tos = x["tos"]
            e, lab = f"[(V({x['cond']}) % {len(tos)} + {len(tos)}) % {len(tos)}]", "{" + ", ".join("&&L%d" % l for l in tos) + "}"
            if r.random() < .7 or "def" in [N[a - 1]["k"] for a in anc(i)]:
                return f"goto *(void *[]){lab}{e};"
            return f"{{ static void *const tab[] = {lab}; goto *tab{e}; }}"
        if k == "goto":
            return f"goto L{x['to']};"
        if k in ("brk", "cont"):
            return {"brk": "break", "cont": "continue"}[k] + (f" N{x['to']}" if x["named"] else "") + ";"
        if k == "ret":
            if rt == "void":
                return f"E({x['n']}); return;"
            return {"r": f"return R_{rt}({x['n']});", "g": f"return E({x['n']}), g_{rt};", "l": f"return E({x['n']}), loc;"}[form]
        raise AssertionError(k)

    cls = sorted({x["n"] for x in N if x["k"] == "cln"} | {x["cd"] for x in N if x["cd"]} | {x["ini"] for x in N if x["ini"] > 0})
    t = " ".join(st(c) for c in N[0]["kids"])
    pre = "".join(f"static void cl{fid}_{c}(int *p) {{ log_({1000 + c}); }}\n" for c in cls)
    for c in cls:
        t = t.replace(f"cleanup(cl{c})", f"cleanup(cl{fid}_{c})")
    loc = f"{RT[rt]} loc; lp_{rt} = &loc; " if rt != "void" and form == "l" else ""
    return pre + f"static {RT[rt] or 'void'} f{fid}(void) {{ {loc}{t} }}\n"


HEAD = r"""
int printf(const char *, ...);
typedef long jb[32];
int _setjmp(jb); void longjmp(jb, int) __attribute__((noreturn));
typedef struct { int a; } S8; typedef struct { int a; double b; } S16; typedef struct { long a, b, c; } S24; typedef struct { float a, b; float c; } SF;
static jb env; static int tr[200], nt, dp, nd, dec[64], g; static volatile int vn = 37;
#define TYPES X(int, int) X(long, long) X(uchar, unsigned char) X(float, float) X(double, double) X(ld, long double)
#define X(n, t) static t g_##n, *lp_##n;
TYPES
#undef X
static S8 g_s8, *lp_s8; static S16 g_s16, *lp_s16; static S24 g_s24, *lp_s24; static SF g_sf, *lp_sf;
static S8 m_s8(void) { S8 s = {nt}; return s; } static S16 m_s16(void) { S16 s = {nt, nt}; return s; } static S24 m_s24(void) { S24 s = {nt, nt, nt}; return s; }
static SF m_sf(void) { SF s = {nt, nt, nt}; return s; }
static void log_(int n) {
  tr[nt++] = n;
#define X(n, t) g_##n = nt; if (lp_##n) *lp_##n = nt;
TYPES
#undef X
  g_s8 = m_s8(); if (lp_s8) *lp_s8 = g_s8; g_s16 = m_s16(); if (lp_s16) *lp_s16 = g_s16; g_s24 = m_s24(); if (lp_s24) *lp_s24 = g_s24; g_sf = m_sf(); if (lp_sf) *lp_sf = g_sf;
  if (nt >= 120) longjmp(env, 1);
}
static int E(int n) { log_(n); return n; }
static int V(int n) { log_(n); if (dp >= nd) longjmp(env, 1); return dec[dp++]; }
static int T(int n) { return V(n) & 1; }
static int F(int n) { return !T(n); }
static int use(int a, int b, int c) { return a + b + c; }
#define X(n, t) static t R_##n(int k) { log_(k); return nt; }
TYPES
#undef X
static S8 R_s8(int k) { log_(k); return m_s8(); } static S16 R_s16(int k) { log_(k); return m_s16(); } static S24 R_s24(int k) { log_(k); return m_s24(); }
static SF R_sf(int k) { log_(k); return m_sf(); }
static int v_s8(S8 s) { return s.a; } static int v_s16(S16 s) { return s.a == s.b ? s.a : -5; } static int v_s24(S24 s) { return s.a == s.b && s.b == s.c ? s.a : -5; }
static int v_sf(SF s) { return s.a == s.b && s.b == s.c ? s.a : -5; }
#define X(n, t) static int v_##n(t x) { return x; }
TYPES
#undef X
static void rst(void) {
  nt = dp = 0;
#define X(n, t) lp_##n = 0;
TYPES
#undef X
  lp_s8 = 0; lp_s16 = 0; lp_s24 = 0; lp_sf = 0;
}
static void show(int k, int r) { printf("%d %d", k, r); for (int i = 0; i < nt; i++) printf(" %d", tr[i]); printf("\n"); }
"""


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 3500 if c.quick else 40000
    cases, texts = [], []
    r = c.rng
    for i in range(N):
        p = Prog(r, r.choice([12, 20, 30, 45]), r.random() < .3)
        rt = r.choice(list(RT))
        form = r.choice("rgl")
        x = emit(p, r, i, rt, form)
        for n in p.n:
            for k in ("free", "hasdef", "named", "isval"):
                n.pop(k, None)
        cases.append({"nodes": p.n, "d": [r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, -1]) for _ in range(r.choice([6, 14, 30, 50]))]})
        texts.append((x, rt))
    ok, bad = [], []
    for b in chunks(list(range(N)), 10000):
        for x in c.tlc("ControlFlow", [cases[i] for i in b], invariants=["PendingInScope", "PendingDistinct"]):
            i = b[x["cid"] - 1]
            if x["v"] == "ok":
                ok.append((i, x["trace"], x["ret"]))
            elif x["v"] == "bad":
                bad.append(i)

    def program(idx):
        s, exp = HEAD, []
        m = []
        for i, tr, ret in idx:
            s += texts[i][0]
            rt = texts[i][1]
            call = f"v_{rt}(f{i}())" if ret and rt != "void" else f"(f{i}(), 0)"
            m.append(f"static void t{i}(void) {{ static const int d[] = {{{', '.join(map(str, cases[i]['d']))}}}; rst(); nd = sizeof d / 4; for (int i = 0; i < nd; i++) dec[i] = d[i]; "
                     f"int r = -1; if (!_setjmp(env)) {{ r = {call}; {'' if ret and rt != 'void' else 'r = 0;'} }} else r = 0; show({i}, r); }}\n")
            exp.append(" ".join(map(str, [i, ret if rt != "void" else 0] + tr)))
        return s + "".join(m) + "int main(void) { " + " ".join(f"t{i}();" for i, _, _ in idx) + " return 0; }\n", exp

    def run(idx, tag, opt):
        src, exp = program(idx)
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, "-fdefer-ts", "-std=c23", opt, p + ".c", "-o", p], timeout=60)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and got == exp, rc, got, exp, e, src

    def batch(a):
        tag, idx = a
        opt = "-O0" if tag % 2 else "-O1"
        if run(idx, tag, opt)[0]:
            return []
        res = []
        for it in idx:
            x = run([it], f"{tag}_{it[0]}", opt)
            if not x[0]:
                x = run([it], f"{tag}_{it[0]}", opt)
            if not x[0]:
                res.append((it, opt, x))
        return res
    for res in c.pmap(batch, list(enumerate(chunks(ok, 60)))):
        for it, opt, x in res:
            c.violation("flow:" + texts[it[0]][0], {"function": texts[it[0]][0], "decisions": cases[it[0]]["d"], "opt": opt, "rc": x[1], "got": x[2], "expected": x[3], "stderr": x[4].decode(errors="replace")[-300:]}, {"case.c": x[5]})

    def reject(i):
        src = HEAD + texts[i][0]
        rc, o, e = sh([cc, "-fdefer-ts", "-std=c23", "-S", "-o", "/dev/null", "-xc", "-"], inp=src.encode())
        return rc
    for i, rc in zip(bad, c.pmap(reject, bad)):
        if rc <= 0:
            c.violation("illegal:" + texts[i][0], {"function": texts[i][0], "rc": rc, "expected": "rejected: a jump into the scope of a defer statement or VLA, or out of a deferred statement"}, {"case.c": HEAD + texts[i][0]})
    c.traces += len(ok) + len(bad)
    c.extra.update({"executed": len(ok), "illegal_programs": len(bad), "not_judged": N - len(ok) - len(bad), "longest_trace": max(len(x[1]) for x in ok)})
    c.samples += [{"function": texts[i][0], "trace": tr, "ret": ret} for i, tr, ret in ok[:4]]
    c.assumptions.append("jumps into the scope of a cleanup variable and into statement expressions are not judged")


if __name__ == "__main__":
    run_check("P08", main)
