"""P16 object lifetimes and the stack: StackLife.tla; programs compiled by slimcc run against a checking runtime."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

DYN = ("vla", "cln")
# base type, size, alignment
TY = {"char": (1, 1), "short": (2, 2), "int": (4, 4), "long": (8, 8), "double": (8, 8), "long double": (16, 16), "S24": (24, 8), "S3": (3, 1), "A64": (64, 64), "P40": (40, 8)}


class Prog:
    def __init__(self, r, size, alloca, flags):
        self.r, self.size, self.alloca = r, size, alloca
        self.n, self.gotos, self.labs = [], [], []
        self.flags = flags
        self.node("blk", 0)
        for k in range(r.choice([0, 0, 1, 2, 4])):
            self.node("fix", 1, prm=True)
        self.fill(1, [], 0, False)
        self.resolve()
        for x in self.n:
            for i, k in enumerate(x["kids"]):
                self.n[k - 1]["ix"] = i + 1

    def node(self, k, p, **kw):
        self.n.append(dict({"k": k, "p": p, "ix": 0, "kids": [], "o": "", "cond": False, "to": 0}, **kw))
        i = len(self.n)
        if p:
            self.n[p - 1]["kids"].append(i)
        return i

    def fill(self, b, loops, depth, bare):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6] if depth < 4 else [1, 1, 2])):
            if len(self.n) > self.size:
                break
            self.stmt(b, loops, depth)
        ks = self.n[b - 1]["kids"]
        if not ks or self.n[ks[-1] - 1]["k"] == "lab":
            self.node("ev", b)

    def body(self, p, loops, depth):
        self.fill(self.node("blk", p), loops, depth + 1, True)

    def objs_visible(self, b):
        """named objects declared before the end of block b, in it or around it"""
        out, c = [], b
        while c:
            x = self.n[c - 1]
            if x["k"] in ("blk", "sx"):
                out += [k for k in x["kids"] if self.n[k - 1]["k"] in ("fix", "vla", "cln")]
            if x["k"] == "for" and x["o"]:
                out.append(c)
            c = x["p"]
        return out

    def stmt(self, b, loops, depth):
        r = self.r
        x = r.random()
        deep = depth > 5 or len(self.n) > self.size
        if x < .08 or deep and x > .5:
            self.node("ev", b)
        elif x < .13:
            v = self.objs_visible(b)
            if v:
                # the nearest path only: nodes already complete
                self.node("use", b, to=r.choice(v))
            else:
                self.node("ev", b)
        elif x < .23:
            self.node("fix", b)
        elif x < .35:
            self.node("vla", b)
        elif x < .38:
            self.node("cln", b)
        elif x < .42:
            self.node("lit", b)
        elif x < .46:
            self.node("alc" if self.alloca else "vla", b)
        elif x < .53:
            i = self.node("cx", b)
            self.cx(i, loops, depth)
        elif x < .59:
            i = self.node("sx", b)
            self.fill(i, loops, depth + 1, False)
        elif x < .64:
            i = self.node("blk", b)
            self.fill(i, loops, depth + 1, False)
        elif x < .69:
            i = self.node("if", b, o="lit" if r.random() < .25 else "")
            self.body(i, loops, depth)
            if r.random() < .4:
                self.body(i, loops, depth)
        elif x < .77:
            i = self.node("for", b, o=r.choice(["", "", "fix", "fix", "vla", "lit"]), cond=r.random() < .9)
            self.body(i, loops + [i], depth)
        elif x < .8:
            i = self.node("while", b)
            self.body(i, loops + [i], depth)
        elif x < .83:
            i = self.node("do", b)
            self.body(i, loops + [i], depth)
        elif x < .88:
            self.labs.append(self.node("lab", b))
        elif x < .93:
            self.node("ev", b)
            self.gotos.append(self.node("goto", b))
        elif x < .97:
            if not loops:
                return self.node("ev", b)
            i = r.choice(loops) if r.random() < .3 else loops[-1]
            self.node("cont" if r.random() < .5 else "brk", b, to=i)
        elif x < .985:
            self.node("rec", b)
        else:
            self.node("ret", b)

    def cx(self, i, loops, depth):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 4])):
            y = r.random()
            if y < .5:
                self.node("tmp", i)
            elif y < .6:
                self.node("ev", i)
            elif y < .7:
                self.node("lit", i)
            elif y < .75 and self.alloca:
                self.node("alc", i)
            elif y < .8 and depth < 5:
                self.cx(self.node("cx", i), loops, depth + 1)
            elif depth < 5 and len(self.n) < self.size:
                s = self.node("sx", i)
                self.fill(s, loops, depth + 1, False)
            else:
                self.node("tmp", i)

    def scope(self, i):
        s, c = set(), i
        while c:
            p = self.n[c - 1]["p"]
            if p:
                x = self.n[p - 1]
                if x["k"] in ("blk", "sx"):
                    for k in x["kids"][:x["kids"].index(c)]:
                        if self.n[k - 1]["k"] in DYN:
                            s.add(k)
                if x["k"] == "for" and x["o"] == "vla":
                    s.add(p)
                if x["k"] in ("sx", "cx"):
                    s.add(-p)
            c = p
        return s

    def resolve(self):
        if self.gotos and not self.labs:
            self.labs.append(self.node("lab", 1))
            self.node("ev", 1)
        for g in self.gotos:
            good = [l for l in self.labs if self.scope(l) <= self.scope(g)]
            if good:
                self.n[g - 1]["to"] = self.r.choice(good)
            else:
                self.n[g - 1]["k"] = "ev"


def emit(p, r, fid):
    N = p.n
    named = {}
    tix = {"n": 0}
    used = {x["to"] for x in N if x["k"] in ("goto",)}

    def sized(dyn):
        """declarator pieces: (type, declarator format, alignment, unit size of a VLA or total size)"""
        t = r.choice(["char"] * 5 + list(TY))
        s, a = TY[t]
        al = r.choice([0] * 8 + [16, 32, 64, 128])
        pre = f"_Alignas({max(al, a)}) " if al else ""
        a = max(a, al) if al else a
        if dyn:
            f = r.choice(["[%s]", "[%s]", "[%s][3]", "[2][%s]"])
            return pre + t, "%s" + f.replace("%s", "Z"), a, s * (3 if f == "[%s][3]" else 2 if f == "[2][%s]" else 1)
        k = r.choice([0, 0, 1, 3, 5, 15, 16, 17, 33, 64, 200, 0 if r.random() < .9 else 5000])
        return pre + t, "%s" + (f"[{k}]" if k else ""), max(a, 16 if k * s >= 16 else 1), s * (k or 1)

    def reg(i, d, size, a):
        return f"B({i}, {'' if '[' in d else '&'}o{i}, {size}, {a})"

    def obj(i, kind):
        if kind == "vla":
            t, d, a, u = sized(True)
            dd = d.replace("Z", f"Z({i})")
            if r.random() < .25 and "_Alignas" not in t:
                return f"typedef {t} {dd % f'T{i}'}; T{i} o{i}; (void)V({i}, o{i}, sizeof o{i}, {u}, {a});"
            return f"{t} {dd % f'o{i}'}; V({i}, o{i}, sizeof o{i}, {u}, {a});"
        t, d, a, size = sized(False)
        ini = ""
        if r.random() < .3:
            ini = r.choice([" = {0}", " = {0}", " = {1}"] if t.split(") ")[-1] not in ("S24", "S3", "A64", "P40") or "[" in d else [" = {0}", f" = mk_{t.split(') ')[-1]}(1)"])
        attr = " __attribute__((cleanup(cl%d_%d)))" % (fid, i) if kind == "cln" else ""
        named[i] = (t, d)
        return f"{t} {d % f'o{i}'}{attr}{ini}; {reg(i, d, size, a)};"

    def through(e):
        """the pointer e handed through other expressions"""
        while r.random() < .3:
            e = r.choice(["idp(%s)", "idp(%s)", "(void *)0 ?: %s", "(g1 = 1, %s)", "(pi[1] ? %s : 0)", "pass(1, %s)"]) % e
        return e

    def lit(i):
        t = r.choice(["char", "int", "long double", "S24", "P40", "double"])
        k = r.choice([0, 2, 7, 40])
        s, a = TY[t]
        e = f"{'' if k else '&'}({t}{f'[{k}]' if k else ''}){{{r.choice(['0', '1', '{0}' if k and t[1:].isdigit() else '0'])}}}"
        return f"B({i}, {through(e)}, {s * (k or 1)}, {a})"

    def tmp(i):
        t = r.choice(["P40", "W3", "W16", "P40"])
        e = r.choice([f"mk_{t}({i})", f"mk_{t}({i})", f"({{ mk_{t}({i}); }})", f"(pi[1] ? mk_{t}({i}) : mk_{t}(0))", f"({{ {t} z = mk_{t}({i}); z; }})", f"(g1 = 0, mk_{t}({i}))"])
        return f"K({i}, {through(e + '.a')}, {dict(P40=40, W3=3, W16=16)[t]}, {dict(P40=8, W3=1, W16=4)[t]})"

    def alc(i):
        n = r.choice(["1", "17", "40", "300", f"Z({i})"])
        return f"A({i}, {r.choice(['%s', '%s', 'idp(%s)', 'pass(1, %s)']) % (r.choice(['alloca', '__builtin_alloca'] if p.flags == 2 else ['alloca'] if p.flags else ['__builtin_alloca']) + f'({n})')}, {n if n[0] != 'Z' else 1}, 16)"

    def pend(t, i):
        """an expression whose value needs t (a statement expression of value 5) and other pending values"""
        k = r.randrange(9)
        t = "({ %s %%s; })" % t
        q = [r.randrange(16) for _ in range(12)]
        v = lambda j: f"pi[{j}]"
        val = lambda j: j * 7 + 3
        if k == 0:
            e, x = f"{v(q[0])} + {t % 5}", val(q[0]) + 5
        elif k == 1:
            e, x = f"pl[{q[0]}] * (pl[{q[1]}] - (pl[{q[2]}] + {t % '5.0L'}))", val(q[0]) * (val(q[1]) - val(q[2]) - 5)
        elif k == 2:
            a = [v(j) for j in q[:11]]
            w = r.randrange(12)
            a.insert(w, t % 5)
            vs = [val(j) for j in q[:11]]
            vs.insert(w, 5)
            e, x = f"sum12({', '.join(a)})", sum((j + 1) * z for j, z in enumerate(vs))
        elif k == 3:
            a = ["mk_S24(%d)" % q[0], f"pl[{q[1]}]", f"pd[{q[2]}]", "mk_P40(%d)" % q[3], f"pl[{q[4]}]", "mk_A64(%d)" % q[6]]
            vs = [q[0], val(q[1]), val(q[2]), q[3], val(q[4]), q[6]]
            w = r.randrange(3)
            a[[1, 2, 4][w]] = t % "5.0"
            vs[[1, 2, 4][w]] = 5
            e, x = f"mix({', '.join(a)})", sum((j + 1) * z for j, z in enumerate(vs))
        elif k == 4:
            d = r.randrange(3, 9)
            e, x = "pd[%d]" % q[0], val(q[0])
            e, x = t % "5.0", 5
            for j in range(d):
                e, x = f"(pd[{q[j]}] + {e})" if r.random() < .7 else f"({v(q[j])} + {e})", val(q[j]) + x
        elif k == 5:
            e, x = f"mk3(pi[{q[0]}], {t % 5}, pi[{q[1]}]).a[1]", 5
        elif k == 6:
            e, x = f"(ar[pi[{q[0]}] & 7] = {t % 5}) + ar[pi[{q[0]}] & 7] * 0", 5
        elif k == 7:
            e, x = f"pi[{q[0]}] ? pi[{q[1]}] + {t % 5} : 0", val(q[1]) + 5
        else:
            e, x = f"pi[{q[1]}] - (pi[{q[2]}] & 15) * {t % 5} / (pi[{q[3]}] | 1)", None
            x = val(q[1]) - (val(q[2]) & 15) * 5 // (val(q[3]) | 1)
        return f"CK({i}, {e}, {x})"

    def expr(i):
        x = N[i - 1]
        k = x["k"]
        if k == "ev":
            return f"E({i})"
        if k == "lit":
            return lit(i)
        if k == "tmp":
            return tmp(i)
        if k == "alc":
            return alc(i)
        if k == "sx":
            return pend(" ".join(st(c) for c in x["kids"]), i)
        if k == "cx":
            return "(" + ", ".join(expr(c) for c in x["kids"]) + ")"
        raise AssertionError(k)

    loopnames = set()

    def body(i):
        return "{ " + " ".join(st(c) for c in N[i - 1]["kids"]) + " }"

    def inner(i, k):
        c = N[i - 1]["p"]
        while c:
            if N[c - 1]["k"] in ("for", "while", "do"):
                return c
            c = N[c - 1]["p"]

    def st(i):
        x = N[i - 1]
        k = x["k"]
        nm = f"N{i}: " if any(y["k"] in ("brk", "cont") and y["to"] == i for y in N) else ""
        if k == "fix" and x.get("prm"):
            return f"B({i}, &p{i}, sizeof p{i}, _Alignof(p{i}));"
        if k in ("fix", "vla", "cln"):
            return obj(i, k)
        if k == "use":
            return f"U({i}, {x['to']}, &{'p' if N[x['to'] - 1].get('prm') else 'o'}{x['to']});" if N[x["to"] - 1]["k"] != "for" or N[x["to"] - 1]["o"] != "lit" else f"U({i}, {x['to']}, q{x['to']});"
        if k in ("ev", "lit", "alc", "sx", "cx"):
            return expr(i) + ";"
        if k == "blk":
            return body(i)
        if k == "lab":
            return f"L{i}: "
        if k == "if":
            t = f"if ({lit(i).replace(f'B({i},', f'B({2000 + i},') + ' && ' if x['o'] else ''}{r.choice(['T(%d)', 'T(%d) == 1', '!!T(%d)']) % i}) {body(x['kids'][0])}"
            return t + (" else " + body(x["kids"][1]) if len(x["kids"]) == 2 else "")
        if k == "for":
            h = ""
            if x["o"] == "lit":
                h = f"char *q{i} = " + lit(i).replace(f"B({i},", f"B({2000 + i},")
            elif x["o"]:
                t, d, a, u = sized(x["o"] == "vla")
                if t.startswith("_Alignas"):
                    t = t.split(") ", 1)[1]
                    a = max(TY[t][1], 16 if "[" in d and x["o"] != "vla" and u >= 16 else 1)
                dd = d.replace("Z", f"Z({i})") % f"o{i}"
                s = "" if "[" in d else "&"
                h = f"{t} {dd}, *q{i} = " + (f"V({2000 + i}, o{i}, sizeof o{i}, {u}, {a})" if x["o"] == "vla" else f"B({2000 + i}, {s}o{i}, {u}, {a})")
            return nm + f"for ({h}; {'T(%d)' % i if x['cond'] else ''};) " + body(x["kids"][0])
        if k == "while":
            return nm + f"while (T({i})) " + body(x["kids"][0])
        if k == "do":
            return nm + f"do {body(x['kids'][0])} while (T({i}));"
        if k == "goto":
            return f"goto L{x['to']};"
        if k in ("brk", "cont"):
            return {"brk": "break", "cont": "continue"}[k] + (f" N{x['to']}" if inner(i, k) != x["to"] else "") + ";"
        if k == "rec":
            t = f"f{fid}({args})"
            return r.choice([f"if (*dep < 3) {{ {t}; --*dep; }} R({i});", f"if (*dep < 3) {{ g1 = pi[3] + {t}; --*dep; }} R({i});", f"if (*dep < 3) {{ g1 = sum12(1, 2, 3, 4, 5, 6, 7, 8, 9, {t}, 11, 12); --*dep; }} R({i});"])
        if k == "ret":
            return f"E({i}); return {i};"
        raise AssertionError(k)

    prm = [i + 1 for i, x in enumerate(N) if x.get("prm")]
    pt = [r.choice(["char", "int", "long", "double", "S24", "P40", "long double", "S3"]) for _ in prm]
    args = ", ".join(("mk_%s(1)" % t) if t in ("S24", "P40", "S3") else "1" for t in pt)
    params = ", ".join(f"{t} p{i}" for t, i in zip(pt, prm)) or "void"
    cls = [i + 1 for i, x in enumerate(N) if x["k"] == "cln"]
    t = " ".join(st(c) for c in N[0]["kids"])
    pre = "".join(f"static void cl{fid}_{c}(void *p) {{ U({1000 + c}, {c}, p); }}\n" for c in cls)
    # loop names are used only where needed
    import re
    for i in set(re.findall(r"\bN(\d+): ", t)):
        if not re.search(r"(break|continue) N%s;" % i, t):
            t = t.replace(f"N{i}: ", "")
    return pre + f"static int f{fid}({params}) {{ F(); {t} return 0; }}\nstatic int c{fid}(void) {{ return f{fid}({args}); }}\n"


HEAD = r"""
typedef struct { long a, b, c; } S24; typedef struct { char a[3]; } S3, W3; typedef struct { _Alignas(64) char a[64]; } A64; typedef struct { long a[5]; } P40; typedef struct { int a[4]; } W16;
"""
API = HEAD + r"""
void *alloca(unsigned long);
void F(void); void E(int); int T(int); int Z(int); void *B(int, void *, long, int); void *V(int, void *, long, long, int); void *A(int, void *, long, int); void *K(int, void *, long, int); void U(int, int, void *); void R(int); void CK(int, long double, long);
extern int *dep; extern volatile int pi[16]; extern volatile double pd[16]; extern volatile long double pl[16]; extern int ar[8], g1;
void *idp(void *); void *pass(int, ...); int sum12(int, int, int, int, int, int, int, int, int, int, int, int); int mix(S24, long double, double, P40, long double, A64); P40 mk3(long, long, long);
S24 mk_S24(int); S3 mk_S3(int); A64 mk_A64(int); P40 mk_P40(int); W3 mk_W3(int); W16 mk_W16(int);
typedef struct { int n, full, alloca; const int *d, *e; int nd, (*f)(void); } Case; void run(const Case *, int);
"""
RUNTIME = HEAD + r"""
#include <stdio.h>
#include <string.h>
#include <setjmp.h>
#include <stdint.h>
static int depth; int *dep = &depth; volatile int pi[16]; volatile double pd[16]; volatile long double pl[16]; int ar[8], g1;
int sum12(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l) { return a + 2*b + 3*c + 4*d + 5*e + 6*f + 7*g + 8*h + 9*i + 10*j + 11*k + 12*l; }
int mix(S24 a, long double b, double c, P40 d, long double e, A64 f) { return a.c + 2*b + 3*c + 4*d.a[4] + 5*e + 6*f.a[63]; }
void *idp(void *p) { return p; }
void *pass(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); void *p = __builtin_va_arg(ap, void *); __builtin_va_end(ap); return p; }
P40 mk3(long a, long b, long c) { P40 p = {{a, b, c, 0, 0}}; return p; }
S24 mk_S24(int n) { S24 s = {n, n, n}; return s; } S3 mk_S3(int n) { S3 s = {{n, n, n}}; return s; } A64 mk_A64(int n) { A64 s; memset(&s, n, 64); return s; }
P40 mk_P40(int n) { P40 s = {{n, n, n, n, n}}; return s; } W3 mk_W3(int n) { return mk_S3(n); } W16 mk_W16(int n) { W16 s = {{n, n, n, n}}; return s; }
typedef struct { int n, full, alloca; const int *d, *e; int nd, (*f)(void); } Case;
typedef struct { int key, kept; char *p, copy[40]; long size; unsigned seed; } O;
static O ob[400]; static int no; static const Case *C; static const int *ev; static int dp, nev, inst; static jmp_buf env; static unsigned seed, rnd; static int zc[400], lz[8][400];
static char *base[8]; static unsigned long act[8], serial;
typedef struct { unsigned long act; int tag, nv; int v[40]; long off; } P; static P ps[400]; static int np;
static void fail(const char *what, int a, int b, long c) { printf("%d BAD event %d: %s %d %d %ld\n", C->n, nev, what, a, b, c); longjmp(env, 2); }
static void put(O *o) { if (o->kept) return; o->seed = ++seed; unsigned x = o->seed * 2654435761u; for (long i = 0; i < o->size; i++) { x = x * 1664525 + 1013904223; o->p[i] = x >> 24; } }
static long bad(O *o) { if (o->kept) { for (int i = 0; i < o->size; i++) if (o->p[i] != o->copy[i]) return i + 1; return 0; } unsigned x = o->seed * 2654435761u; for (long i = 0; i < o->size; i++) { x = x * 1664525 + 1013904223; if (o->p[i] != (char)(x >> 24)) return i + 1; } return 0; }
static O *find(int key) { for (int i = 0; i < no; i++) if (ob[i].key == key) return &ob[i]; return 0; }
static __attribute__((noinline)) void trash(void) { volatile char b[3000]; for (int i = 0; i < 3000; i++) b[i] = 0x5a + i; }
static void event(int tag, char *fa, int fresh) {
  trash();
  if (*ev < 0) longjmp(env, 1);
  if (ev[0] != tag) fail("got/expected", tag, ev[0], 0);
  int na = ev[1], nv = ev[2]; const int *a = ev + 3, *v = a + na; ev = v + nv; nev++;
  O *l[100];
  for (int i = 0; i < na; i++) {
    l[i] = find(a[i]);
    if (!l[i]) fail("object unknown", a[i], 0, 0);
    if (a[i] != fresh) { long b = bad(l[i]); if (b) fail("contents changed of", a[i], 0, b - 1); }
    if (l[i]->p < fa && l[i]->size > 0) fail("below the stack pointer", a[i], 0, 0);
    for (int j = 0; j < i; j++) if (l[i]->p < l[j]->p + l[j]->size && l[j]->p < l[i]->p + l[i]->size) fail("overlap", a[i], a[j], l[i]->p - l[j]->p);
  }
  for (int i = 0; i < na; i++) put(l[i]);
  trash();
  /* whether an array declared later goes before or after a clean-up is open */
  if (!C->alloca && nv < 20 && (tag < 1000 || tag >= 2000)) {
    P q = {act[depth], tag, 2 * nv, {0}, base[depth] - fa};
    for (int i = 0; i < nv; i++) { q.v[2 * i] = v[i]; q.v[2 * i + 1] = lz[depth][v[i]]; }
    int i;
    for (i = 0; i < np; i++) if (ps[i].act == q.act && ps[i].tag == tag && ps[i].nv == q.nv && !memcmp(ps[i].v, q.v, sizeof q.v)) { if (ps[i].off != q.off) fail("stack pointer differs", tag, 0, q.off - ps[i].off); break; }
    if (i == np && np < 400) ps[np++] = q;
  }
}
#define FA ((char *)__builtin_frame_address(0))
void F(void) { depth++; base[depth] = FA; act[depth] = ++serial; event(1, FA, 0); }
void E(int n) { event(n, FA, 0); }
void R(int n) { event(n, FA, 0); }
static int T_(int n, char *fa) { event(n, fa, 0); if (dp >= C->nd) longjmp(env, 1); return C->d[dp++]; }
int T(int n) { return T_(n, FA); }
int Z(int n) { static const int s[] = {1, 2, 3, 7, 16, 33, 100, 5, 200, 64, 9, 31}; int k = zc[n]++; lz[depth][n] = s[(n * 5 + (n % 3 ? 0 : k % 3)) % 12]; return lz[depth][n]; }
static void *begin(int key, int tag, void *p, long size, int align, char *fa) {
  if (C == 0) return p;
  trash();
  if (*ev < 0) longjmp(env, 1);
  if ((uintptr_t)p % align) fail("misaligned", key, align, (uintptr_t)p % align);
  O *o = find(key);
  if (!o) { if (no >= 400) fail("table full", 0, 0, 0); o = &ob[no++]; }
  o->kept = tag < 0; if (tag < 0) { tag = -tag; memcpy(o->copy, p, size); if (*(char *)p != (char)tag) fail("value returned", tag, *(char *)p, 0); }
  o->key = key; o->p = p; o->size = size; event(tag, fa, key);
  return p;
}
void *B(int n, void *p, long size, int align) { return begin(depth * 1000000 + n % 2000, n, p, size, align, FA); }
void *V(int n, void *p, long size, long unit, int align) { if (size != lz[depth][n % 2000] * unit) fail("size of", n, (int)size, lz[depth][n % 2000] * unit); return begin(depth * 1000000 + n % 2000, n, p, size, align, FA); }
void *A(int n, void *p, long size, int align) { return begin(depth * 1000000 + n + 1000 * ++inst, n, p, size, align, FA); }
/* an object that may only be read */
void *K(int n, void *p, long size, int align) { return begin(depth * 1000000 + n, -n, p, size, align, FA); }
void U(int n, int k, void *p) {
  if (*ev >= 0) for (int i = 0; i < ev[1]; i++) if (ev[3 + i] == depth * 1000000 + k) { O *o = find(ev[3 + i]); if (!o || o->p != p) fail("address differs of", k, 0, o ? (char *)p - o->p : 0); }
  event(n, FA, 0);
}
void CK(int n, long double v, long x) { if (v != x) fail("value", n, (int)x, (long)v); event(n, FA, 0); }
void run(const Case *cs, int n) {
  for (int i = 0; i < 16; i++) pi[i] = pd[i] = pl[i] = i * 7 + 3;
  for (int i = 0; i < n; i++) {
    C = &cs[i]; ev = C->e; no = dp = nev = inst = depth = np = 0; memset(zc, 0, sizeof zc); memset(lz, 0, sizeof lz);
    volatile int how = setjmp(env);
    if (!how) { C->f(); if (*ev >= 0 || !C->full) { printf("%d BAD returned early after %d\n", C->n, nev); continue; } }
    if (how == 2) continue;
    if (how == 1 && C->full && 0) { }
    printf("%d ok %d\n", C->n, how && C->full ? -1 : nev);
  }
}
"""


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    N = 3000 if c.quick else 40000
    r = c.rng
    cases, texts, alc = [], [], []
    for i in range(N):
        # alloca: 0 none, else which spelling
        al = r.random() < .3
        p = Prog(r, r.choice([8, 14, 20, 30, 45]), al, r.choice([0, 1, 2]))
        texts.append(emit(p, r, i))
        alc.append(any(x["k"] == "alc" for x in p.n))
        for x in p.n:
            x.pop("prm", None)
        cases.append({"nodes": p.n, "d": [r.choice([0, 1, 1]) for _ in range(r.choice([4, 10, 25]))]})
    exp = [None] * N
    for b in chunks(list(range(N)), 8000):
        for x in c.tlc("StackLife", [cases[i] for i in b], constants={"MaxTrace": 60}, deadlock=True, invariants=["DynInScope", "Once", "HomeActive", "DynAlive"]):
            exp[b[x["cid"] - 1]] = x["trace"]
    # a loop without events never ends
    ids = [i for i in range(N) if exp[i]]
    c.extra["silent_loops"] = N - len(ids)
    rt = c.path("rt.o")
    with open(c.path("rt.c"), "w") as f:
        f.write(RUNTIME)
    rc, o, e = sh(["gcc", "-O1", "-c", c.path("rt.c"), "-o", rt])
    if rc:
        raise RuntimeError(e.decode())

    def program(idx):
        s, t = API, []
        for i in idx:
            s += texts[i]
            d = cases[i]["d"]
            ev = [z for x in exp[i] for z in [x["t"], len(x["a"]), len(x["v"])] + x["a"] + x["v"]] + [-1]
            s += f"static const int d{i}[] = {{{', '.join(map(str, d))}}}, e{i}[] = {{{', '.join(map(str, ev))}}};\n"
            t.append(f"{{{i}, 1, {int(alc[i])}, d{i}, e{i}, {len(d)}, c{i}}}")
        return s + "static const Case cs[] = {\n" + ",\n".join(t) + "};\nint main(void) { run(cs, sizeof cs / sizeof *cs); return 0; }\n"

    def run(idx, tag, opt):
        src = program(idx)
        p = c.path(f"s{tag}")
        with open(p + ".c", "w") as f:
            f.write(src)
        rc, o, e = sh([cc, "-fdefer-ts" if "gcc" not in cc else "-w", "-std=" + ("c23" if "gcc" not in cc else "gnu2x"), opt, p + ".c", rt, "-o", p], timeout=100)
        got = []
        if rc == 0:
            rc, o, e = sh([p], timeout=30)
            got = o.decode(errors="replace").split("\n")[:-1]
        for s in (p, p + ".c"):
            if os.path.exists(s):
                os.remove(s)
        return rc == 0 and len(got) == len(idx) and all(" ok " in g for g in got), rc, got, e, src

    def batch(a):
        tag, idx = a
        opt = "-O0" if tag % 2 else "-O1"
        if run(idx, tag, opt)[0]:
            return []
        res = []
        for i in idx:
            x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                x = run([i], f"{tag}_{i}", opt)
            if not x[0]:
                res.append((i, opt, x))
        return res
    for res in c.pmap(batch, list(enumerate(chunks(ids, 60)))):
        for i, opt, x in res:
            with open(c.path("case.c"), "w") as f:
                f.write(x[4])
            c.violation("stack:" + texts[i], {"function": texts[i], "decisions": cases[i]["d"], "opt": opt, "rc": x[1], "got": x[2], "stderr": x[3].decode(errors="replace")[:600]}, {"case.c": x[4], "rt.c": RUNTIME})
    c.traces += len(ids)
    c.extra.update({"functions": N, "with_alloca": sum(alc), "events": sum(len(exp[i]) for i in ids), "most_live": max(len(x["a"]) for i in ids for x in exp[i])})
    c.samples += [{"function": texts[i], "trace": exp[i]} for i in ids[:3]]
    c.assumptions.append("functions that call alloca are not required to give VLA storage back before they return")


if __name__ == "__main__":
    run_check("P16", main)
