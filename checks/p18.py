#!/usr/bin/env python3
"""P18: atomic operations are indivisible (AtomicOps.tla, AtomicLoop.tla); compiled operations single-stepped with others' writes injected between any two instructions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from fl import *

PTR = 16
NOV = {"t": 7, "v": limbs(0), "fk": "num", "s": 0, "e": 0}


def tok(t, v):
    if t == PTR:
        t = 10
    if t >= 13:
        return {"t": t, "v": limbs(v[2]), "fk": v[0], "s": v[1], "e": v[3]}
    return {"t": t, "v": limbs(v), "fk": "", "s": 0, "e": 0}


def val(r, t):
    if t == PTR:
        return r.choice([0, 4, 1 << 20, (1 << 47) - 4, r.getrandbits(46) * 4]) & (1 << 64) - 1
    if t < 13:
        return ivalue(r, t) if r.random() < .6 else wrap(r.randint(-3, 6), t)
    while True:
        v = fvalue(r, t) if r.random() < .3 else norm(r.randint(0, 1), r.choice([0, 1, 2, 3, 5, 7, 10, 100]), r.choice([0, 0, -1, -2]))
        if v[0] == "num":
            return v


def raw(t, v):
    if t >= 13 and t < 16:
        return encode(t, v)
    n = 8 if t == PTR else SIZE[t]
    return (v & (1 << 8 * n) - 1).to_bytes(n, "little")


def const(t, v):
    if t == PTR:
        return f"((int *){v}UL)"
    if t >= 13:
        return f"(-{lit(t, v)})" if v[1] else lit(t, v)
    return f"(({NAMES[t]}){ilit(v)})" if t != 7 or v < 0 else str(v)


def name(t):
    return "int *" if t == PTR else NAMES[t]


STD = {1: "atomic_bool", 2: "atomic_char", 3: "atomic_schar", 4: "atomic_uchar", 5: "atomic_short", 6: "atomic_ushort", 7: "atomic_int", 8: "atomic_uint", 9: "atomic_long",
       10: "atomic_ulong", 11: "atomic_llong", 12: "atomic_ullong"}


def gen(r):
    t = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 9, 10, 11, 12, 13, 13, 14, 14, PTR, PTR])
    fl = t in (13, 14)
    ops = ["load", "use", "store", "store", "asg", "asg", "asg", "pre", "post", "xchg", "cas", "cas", "wcas"]
    if t not in (1, 13, 14, PTR):
        ops += ["fetch"] * 4
    if t == PTR:
        ops = [o for o in ops if o != "use"]
    k = {"t": t, "op": r.choice(ops), "bop": "", "left": r.random() < .6}
    at = t if t == PTR else r.choice([t, t, 7, 7, 9, 8, 2, 13, 14])
    if k["op"] == "fetch" and at >= 13:
        at = 7
    if k["op"] in ("asg", "use"):
        k["bop"] = r.choice("+-") if t == PTR else r.choice("+-*/" if fl or at >= 13 else ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        if k["op"] == "use" and r.random() < .3:
            k["bop"] = r.choice(["==", "<", ">="])
        if t == PTR:
            at = r.choice([7, 9, 2])
    if k["op"] in ("pre", "post"):
        k["bop"], at = r.choice("+-"), 7
    if k["op"] == "fetch":
        k["bop"] = r.choice(["add", "sub", "and", "or", "xor"])
    v = val(r, at)
    if k["op"] in ("pre", "post"):
        v = 1
    elif k["bop"] in ("<<", ">>"):
        at = at if at < 13 else 7
        v = r.randrange(0, 40 if t in (9, 10, 11, 12) else 20)
        v = wrap(v, at)
    elif t == PTR and at != PTR:
        v = wrap(r.randint(-9, 9), at)
    k["at"], k["arg"] = at, v
    a = val(r, t)
    k["init"] = a
    k["exp"] = a if r.random() < .6 else val(r, t)
    env = []
    for _ in range(2):
        x = r.random()
        env.append(k["exp"] if x < .2 else a if x < .3 else val(r, t))
    k["env"] = env
    # spelling
    k["plain"] = k["op"] in ("fetch", "xchg", "cas", "wcas") and r.random() < .2
    k["place"] = r.choice(["glob", "ptr", "local", "elem", "arrow", "stat"])
    k["void"] = k["op"] in ("store", "asg", "pre", "post") and r.random() < .3
    k["rhs"] = r.choice(["const", "const", "var", "param", "call", "local"])
    k["decl"] = r.randrange(4)
    k["macro"] = r.random() < .5
    return k


def cases_of(k):
    t = k["t"]
    b = {"pp": False, "ty": 10 if t == PTR else t, "ptr": t == PTR and k["op"] in ("asg", "pre", "post"), "op": k["op"], "bop": k["bop"], "left": k["left"], "arg": tok(k["at"], k["arg"]),
         "init": tok(t, k["init"]), "exp": tok(t, k["exp"])}
    return {**b, "env": [tok(t, e) for e in k["env"]]}


# ------------------------------------------------------------ rendering
def render(i, k, r):
    t = k["t"]
    ty = name(t)
    if k["plain"]:
        d = f"{ty} x"
    elif t == PTR:
        d = "int *_Atomic x" if k["decl"] else "_Atomic(int *) x"
    else:
        d = [f"_Atomic {ty} x", f"_Atomic({ty}) x", f"volatile {ty} _Atomic x", (STD.get(t) or f"_Atomic {ty}") + " x"][k["decl"]]
    dx = d[:-2]
    S = f"struct S{i}"
    out = f"{S} {{ char a[16]; {d}; char b[16]; }};\n"
    pre = ""
    p = k["place"]
    par = []
    arg = []
    if p == "glob":
        out += f"{S} g{i};\n"
        x = f"g{i}.x"
    elif p == "stat":
        pre += f"static {S} s[2]; "
        x = "s[1].x"
    elif p == "local":
        pre += f"{S} s; "
        x = "s.x"
    else:
        out += f"{S} g{i}[3];\n"
        par.append(f"{S} *s" if p != "ptr" else f"{d[:-1]} *p")
        arg.append(f"g{i}" if p != "ptr" else f"&g{i}[1].x")
        if p == "elem":
            par.append("long n")
            arg.append("2")
            x = "s[n].x"
        else:
            x = "(*p)" if p == "ptr" else "s->x"
    at = name(k["at"])
    c = const(k["at"], k["arg"])
    if k["rhs"] == "const" or k["op"] in ("pre", "post", "load"):
        v = c
    elif k["rhs"] == "var":
        out += f"{at} v{i} = {c};\n"
        v = f"v{i}"
    elif k["rhs"] == "param":
        par.append(f"{at} v")
        arg.append(c)
        v = "v"
    elif k["rhs"] == "local":
        pre += f"{at} v = {c}; "
        v = "v"
    else:
        out += f"static {at} v{i}(void) {{ return {c}; }}\n"
        v = f"v{i}()"
    op, m = k["op"], k["macro"]
    sfx, o1, o2 = r.choice([("", "", ""), ("_explicit", ", memory_order_seq_cst", ", memory_order_seq_cst"), ("_explicit", ", memory_order_relaxed", ", memory_order_relaxed")])
    if op == "load":
        e = f"atomic_load{sfx}(&{x}{o1})" if m else x
    elif op == "use":
        e = f"({x} {k['bop']} {v})" if k["left"] else f"({v} {k['bop']} {x})"
    elif op == "store":
        e = f"({x} = {v})"
        if m:
            e = f"(atomic_store{sfx}(&{x}, {v}{o1}))"
            k["void"] = True
            k["relaxed"] = "relaxed" in o1
    elif op == "asg":
        e = f"({x} {k['bop']}= {v})"
    elif op == "pre":
        e = f"({k['bop'] * 2}{x})"
    elif op == "post":
        e = f"({x}{k['bop'] * 2})"
    elif op == "fetch":
        e = f"atomic_fetch_{k['bop']}{sfx}(&{x}, {v}{o1})"
    elif op == "xchg":
        e = f"atomic_exchange{sfx}(&{x}, {v}{o1})"
    else:
        e = f"atomic_compare_exchange_{'weak' if op == 'wcas' else 'strong'}{sfx}(&{x}, ({ty} *)EXP, {v}{o1 + o2 if o1 else ''})"
    ret = ("void" if k["void"] else None)
    if ret:
        st = f"{e};"
    else:
        st = f"RTY = TY({e}); "
        st = ""
        rt = t
        st += "RES = (unsigned long long)%s;" % e if True else ""
    k["e"] = e
    out += "void t%d(%s) { %sobj_at(&%s); @%d@ obj_end(); }\n" % (i, ", ".join(par) or "void", pre, x, i)
    out += f"void r{i}(void) {{ t{i}({', '.join(arg)}); }}\n"
    return out


HEAD = """#include <stdatomic.h>
extern unsigned char EXP[16];
extern unsigned long long RES;
extern long double RESF;
extern int RTY;
void obj_at(volatile void *); void obj_end(void);
#define TY(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, int *: 16, default: 0)
"""

HARNESS = r'''
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
struct kase { void (*f)(void); int size; unsigned char init[8], exp[8], env[2][8]; };
extern struct kase K[]; extern int NK;
unsigned char EXP[16] __attribute__((aligned(16)));
unsigned long long RES; long double RESF; int RTY;
static struct kase *k;
static volatile unsigned char *obj;
static volatile int step, ended, nw, w[2], done, zero, late;
static unsigned char last[8], seen[64][8]; static int nseen;
static int changed, fenced, first; static unsigned char code[16]; static unsigned long prevrip;
static int bad_near;
void obj_end(void);
static int lockish(unsigned char *c, unsigned char *why) {
  int lk = 0;
  for (;; c++) {
    if (*c == 0xf0) { lk = 1; continue; }
    if (*c == 0x66 || *c == 0xf2 || *c == 0xf3 || *c == 0x2e || *c == 0x64 || *c == 0x65 || (*c & 0xf0) == 0x40) continue;
    break;
  }
  if (lk) return 1;
  if ((*c == 0x86 || *c == 0x87) && c[1] < 0xc0) return 1;
  if (c[0] == 0x0f && c[1] == 0xae && c[2] == 0xf0) return 2;
  return 0;
}
static void inject(int n) {
  memcpy((void *)obj, k->env[n], k->size);
  for (int i = 1; i <= 8; i++) obj[-i] = 0x50 + n, obj[k->size + i - 1] = 0x60 + n;
  memcpy(last, k->env[n], k->size);
}
static void look(void) {
  if (memcmp((void *)obj, last, k->size)) {
    memcpy(last, (void *)obj, k->size);
    int i = 0;
    while (i < nseen && memcmp(seen[i], last, k->size)) i++;
    if (i == nseen && nseen < 60) memcpy(seen[nseen++], last, k->size);
    if (!changed) { changed = 1; memcpy(code, (void *)prevrip, 16); first = step; }
  }
}
static void trap(int s, siginfo_t *si, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  if (ended) { g[REG_EFL] &= ~0x100l; return; }
  if (prevrip && changed && lockish((unsigned char *)prevrip, 0)) fenced = 1;
  look();
  if (prevrip && changed && lockish((unsigned char *)prevrip, 0)) fenced = 1;
  if ((unsigned long)g[REG_RIP] == (unsigned long)obj_end) { ended = 1; g[REG_EFL] &= ~0x100l; return; }
  while (done < nw && step == w[done]) { if (step == 0) zero++; inject(done); done++; }
  prevrip = g[REG_RIP];
  if (++step > 20000) { printf("stuck\n"); fflush(stdout); _exit(3); }
}
void obj_at(volatile void *p) {
  obj = p;
  for (int i = 1; i <= 8; i++) obj[-i] = 0x30, obj[k->size + i - 1] = 0x40;
  memcpy((void *)obj, k->init, k->size);
  memset(EXP, 0x77, 16); memcpy(EXP, k->exp, k->size);
  memcpy(last, k->init, k->size);
  RES = 0x1122334455667788; RESF = 12345; 
  step = ended = done = zero = late = nseen = changed = fenced = 0; prevrip = 0;
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
}
__attribute__((noinline)) static void report(void);
void obj_end(void) {
  while (done < nw) { late++; inject(done); done++; }
  bad_near = 0;
  for (int i = 1; i <= 8; i++)
    if (obj[-i] != (nw ? 0x50 + nw - 1 : 0x30) || obj[k->size + i - 1] != (nw ? 0x60 + nw - 1 : 0x40)) bad_near = 1;
  for (int i = k->size; i < 16; i++) if (EXP[i] != 0x77) bad_near = 2;
  report();
}
static char lines[400][200]; static int nl;
static void hex(char **p, unsigned char *b, int n) { for (int i = 0; i < n; i++) *p += sprintf(*p, "%02x", b[i]); *(*p)++ = ' '; *(*p) = 0; }
static void report(void) {
  char b[8192], *p = b;
  unsigned char m[8]; memcpy(m, (void *)obj, k->size);
  p += sprintf(p, "%d %d %d %d ", nw, zero, late, bad_near);
  hex(&p, m, k->size); hex(&p, (unsigned char *)&RES, 8); hex(&p, (unsigned char *)&RESF, 10); hex(&p, EXP, k->size);
  int torn = 0;
  for (int i = 0; i < nseen; i++) if (!torn && p - b < 7000) hex(&p, seen[i], k->size);
  for (int i = 0; i < nl; i++) if (!strcmp(lines[i], b)) return;
  if (nl < 400) { b[199] = 0; strcpy(lines[nl++], b); }
}
static int runs;
static int go(int n, int a, int b) { nw = n; w[0] = a; w[1] = b; k->f(); runs++; return step; }
int main(int argc, char **argv) {
  struct sigaction sa = {.sa_sigaction = trap, .sa_flags = SA_SIGINFO | SA_NODEFER};
  sigaction(SIGTRAP, &sa, 0);
  unsigned long rnd = atoi(argv[1]);
  int pairs = atoi(argv[2]);
  for (int i = 0; i < NK; i++) {
    k = K + i; nl = 0; runs = 0;
    alarm(20);
    int n = go(0, 0, 0);
    printf("%d steps %d %d %d %d ", i, n, changed, changed ? lockish(code, 0) : 0, fenced);
    for (int j = 0; j < 12; j++) printf("%02x", changed ? code[j] : 0);
    printf(" %d\n", RTY);
    for (int a = 0; a <= n; a++) go(1, a, 0);
    for (int q = 0; q < pairs; q++) {
      rnd = rnd * 6364136223846793005ul + 1442695040888963407ul;
      int a = (rnd >> 33) % (n + 1), b = a + (rnd >> 13 & 0xffff) % (n + 1);
      if (q == 0) a = 0, b = n + 1;
      go(2, a, b);
    }
    for (int j = 0; j < nl; j++) printf("%d : %s\n", i, lines[j]);
    printf("%d runs %d\n", i, runs);
    fflush(stdout);
  }
  printf("end\n");
  return 0;
}
'''
RMW = ("asg", "pre", "post", "fetch", "xchg", "cas", "wcas")


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    W = ["-w"] if "VF_CC" in os.environ else []
    for n, m in ((2, 8), (3, 5)) if c.quick else ((2, 16), (3, 9), (4, 4)):
        c.tlc("AtomicLoop", constants={"Threads": "{" + ", ".join(f"t{i}" for i in range(n)) + "}" if False else "{" + ", ".join(str(i) for i in range(n)) + "}", "M": m, "Locked": "TRUE"},
              invariants=["Agree", "Returned", "Progress"])
    ks = [gen(c.rng) for _ in range(1500 if c.quick else 20000)]
    want = {}
    step = 2500
    for b in chunks(list(range(len(ks))), step):
        cs = [cases_of(ks[q]) for q in b]
        for r in c.tlc("AtomicOps", cs, init="AInit", next="ANext", invariants=["InType"], properties=["Instant"]):
            want.setdefault(b[r["cid"] - 1], {}).setdefault(r["n"], []).append(r)
    good = [q for q in range(len(ks)) if not any(r["u"] for rs in want[q].values() for r in rs)]

    def mbytes(t, v):
        return raw(t, (v["k"], v["s"], unlimb(v["m"]), v["e"])) if t in (13, 14) else raw(t, unlimb(v))

    def source(idx, rng_key):
        r = random.Random(rng_key)
        h = HARNESS
        s = HEAD
        tab = ""
        for i, q in enumerate(idx):
            k = ks[q]
            x = render(i, k, r)
            rt = want[q][0][0]["ret"]["t"]
            if k["t"] == PTR and rt == 10:
                rt = PTR
            if k["void"]:
                st = k["e"] + ";"
            elif rt in (13, 14, 15):
                st = f"RESF = {k['e']};"
            else:
                st = f"RES = (unsigned long long){k['e']};"
            ty = "" if k["void"] else f"RTY = TY({k['e']});"
            x = x.replace(f"obj_at(&", f"{ty} obj_at(&", 1).replace(f"@{i}@", st)
            s += x
            h += f"void r{i}(void);\n"
            b = lambda v: "{" + ",".join(map(str, raw(k["t"], v))) + "}"
            tab += "{r%d, %d, %s, %s, {%s, %s}},\n" % (i, len(raw(k["t"], k["init"])), b(k["init"]), b(k["exp"]), b(k["env"][0]), b(k["env"][1]))
        h += "struct kase K[] = {" + tab + "}; int NK = %d;\n" % len(idx)
        return s, h

    def judge(q, info, outs):
        k = ks[q]
        t = k["t"]
        w = want[q]
        ok = {}
        hist = set()
        for n, rs in w.items():
            for r in rs:
                rt, rv = r["ret"]["t"], r["ret"]["v"]
                if k["void"]:
                    ret = None
                elif rt >= 13:
                    ret = (encode(15, (rv["k"], rv["s"], unlimb(rv["m"]), rv["e"]))).hex()
                else:
                    ret = unlimb(rv).to_bytes(8, "little").hex()
                m = mbytes(t, r["mem"]).hex()
                hist.add(m)
                ok.setdefault((n, m, ret, mbytes(t, r["exp"]).hex()), []).append(r["at"])
                if n == 0:
                    rt0 = rt
                if n and r["at"] < n:
                    # what the operation wrote before others' writes covered it
                    for r2 in w[r["at"]]:
                        if r2["at"] == r["at"]:
                            hist.add(mbytes(t, r2["mem"]).hex())
        steps, changed, lk, fenced, code, rty = info
        if not k["void"] and rty != (PTR if t == PTR and rt0 == 10 else rt0) and rty != 0:
            return {"type of the operation": rty, "expected": rt0}
        if not k["void"] and rty == 0:
            return {"type of the operation": "none of the known ones"}
        if changed and k["op"] in RMW and lk != 1:
            return {"read-modify-write by an instruction that is not locked": code}
        if changed and k["op"] == "store" and not k.get("relaxed") and lk != 1 and not fenced:
            return {"store without ordering": code}
        for o in outs:
            nw, zero, late, near = map(int, o[:4])
            mem, res, resf, exp = o[4:8]
            if near:
                return {"writes": nw, "neighbouring bytes": "disturbed" if near == 1 else "of the expected value disturbed"}
            wrt = w[0][0]["ret"]["t"]
            key = (nw, mem, None if k["void"] else resf if wrt >= 13 else res, exp)
            ats = ok.get(key, [])
            if not any(zero <= a <= nw - late for a in ats):
                return {"others' writes": nw, "before it began": zero, "after it ended": late, "object": mem, "value": key[2], "expected value left": exp,
                        "explained by": sorted(set((x[1], x[2], x[3], a) for x, y in ok.items() if x[0] == nw for a in y))}
            for x in o[8:]:
                if x not in hist:
                    return {"torn value seen": x}
        return None

    def batch(a):
        tag, idx, opt = a
        p = c.path(f"b{tag}")
        key = f"{c.seed}:{tag}"
        s, h = source(idx, key)
        open(p + ".c", "w").write(s)
        open(p + "h.c", "w").write(h)
        bad = {}
        rc, o, e = sh([cc, opt, "-c", p + ".c", "-o", p + ".o"] + W, timeout=120)
        if rc:
            bad = {q: {"outcome": "compile", "stderr": e.decode(errors="replace")[-300:]} for q in idx}
            return tag, idx, opt, bad, s, 0
        rc, o, e = sh(["gcc", "-O1", "-w", "-no-pie", p + "h.c", p + ".o", "-o", p] + (["-latomic"] if W else []), timeout=120)
        if rc:
            raise ModelError("harness: " + e.decode(errors="replace")[-500:])
        rc, o, e = sh([p, str(c.seed), "60" if c.quick else "400"], timeout=300)
        info, outs, runs = {}, {}, 0
        for l in o.decode(errors="replace").split("\n"):
            f = l.split()
            try:
                if len(f) > 2 and f[1] == "steps":
                    info[int(f[0])] = (int(f[2]), int(f[3]), int(f[4]), int(f[5]), f[6], int(f[7]))
                elif len(f) > 6 and f[1] == ":":
                    outs.setdefault(int(f[0]), []).append(f[2:])
                elif len(f) == 3 and f[1] == "runs":
                    runs += int(f[2])
            except ValueError:
                pass
        for i, q in enumerate(idx):
            try:
                j = judge(q, info[i], outs[i]) if i in info and i in outs else {"outcome": f"run ended with {rc}"}
            except (ValueError, IndexError) as x:
                j = {"outcome": f"garbage: {x}"}
            if j:
                bad[q] = j
        for x in (".c", ".o", "h.c", ""):
            if os.path.exists(p + x):
                os.remove(p + x)
        return tag, idx, opt, bad, s, runs

    jobs = []
    for n, b in enumerate(chunks(good, 50)):
        for o in ("-O0", "-O1"):
            jobs.append((f"{n}{o}", b, o))
    runs = 0
    for tag, idx, opt, bad, s, n in c.pmap(batch, jobs):
        runs += n
        for q in list(bad)[:12]:
            # alone, and twice
            r1 = batch((f"{tag}_{q}", [q], opt))
            if r1[3]:
                c.violation("atomic:" + " ".join(r1[4][len(HEAD):].split())[:300], {"opt": opt, **r1[3][q]}, {"case.c": r1[4]})
    c.traces = runs
    c.samples = [ks[q]["e"] for q in good[:6]]
    c.extra = {"operations": len(good), "runs_with_injected_writes": runs}


run_check("P18", main)
