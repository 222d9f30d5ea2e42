#!/usr/bin/env python3
"""P17: declaration histories and the symbols they give; linkage between units, liveness and constructors (Linkage.tla)."""
import os
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

HEAD = "int ptr(void *); int lg(int);\n"


def it(id, **kw):
    d = {"id": id, "fn": False, "st": False, "ex": False, "inl": False, "gnu": False, "def": False, "wk": False, "vis": "", "sec": "", "al": 0, "ct": -1, "dt": -1,
         "tls": False, "con": False, "len": -1, "n": 3, "val": 1, "refs": [], "lbl": False, "blk": False, "ptr": False}
    d.update(kw)
    return d


def ref(to, how, blk=None):
    return {"to": to, "how": how, "blk": [blk] if blk else [], "hide": False}


# ------------------------------------------------------------ rendering
def spec(d):
    return "".join(w + " " for w, k in (("static", "st"), ("extern", "ex"), ("inline", "inl"), ("__thread", "tls"), ("const", "con")) if d[k])


def attrs(d, nm):
    a = []
    if d["gnu"]:
        a.append("gnu_inline")
    if d["wk"]:
        a.append("weak")
    if d["vis"]:
        a.append(f'visibility("{d["vis"]}")')
    if d["sec"]:
        a.append(f'section("{d["sec"]}")')
    if d["al"]:
        a.append(f'alias("{nm(d["al"])}")')
    for k, w in (("ct", "constructor"), ("dt", "destructor")):
        if d[k] >= 0:
            a.append(w + (f"({d[k]})" if d[k] else ""))
    return a


def declr(d, nm):
    return f"int {nm(d['id'])}(void)" if d["fn"] else ("void *const " if d["ptr"] and d["con"] else "void *" if d["ptr"] else "int ") + nm(d["id"]) + ("" if d["len"] < 0 else f"[{d['len'] or ''}]")


def use(r, nm, kinds):
    fn, arr = kinds[r["to"]]
    n = nm(r["to"])
    if r["how"] in ("call", "dead"):
        e = f"{n}()" if fn else f"{n}[0]" if arr else n
        return f"if (0) r += {e};" if r["how"] == "dead" else f"r += {e};"
    if r["how"] == "size":
        return f"r += (int)sizeof({n});"
    a = n if fn or arr else "&" + n
    if r["how"] == "stat":
        return f"{{ static void *p = (void *){a}; r += ptr(p); }}"
    return f"r += ptr((void *){a});"


def render(d, nm, kinds, late, log=""):
    a = attrs(d, nm)
    pre = post = ""
    if a:
        x = "__attribute__((" + ", ".join(a) + ")) "
        if late and not d["def"]:
            post = " " + x
        else:
            pre = x
    if d["lbl"]:
        post = f' __asm__("L_{nm(d["id"])}")' + post
    s = pre + spec({**d, "con": d["con"] and not d["ptr"]}) + declr(d, nm) + post
    if not d["def"]:
        return s + ";\n"
    if d["fn"]:
        b = f"int r = {d['val']};"
        if log:
            b += f" {log}"
        for r in d["refs"]:
            if r["blk"]:
                e = r["blk"][0]
                hide = f"int {nm(r['to'])} = 77; " if r.get("hide") else ""
                b += f" {{ {hide}{{ {render(e, nm, kinds, late).strip()} {use(r, nm, kinds)} }} }}"
            else:
                b += " " + use(r, nm, kinds)
        return s + " { " + b + " return r; }\n"
    if d["ptr"]:
        r = d["refs"][0]
        fn, arr = kinds[r["to"]]
        return s + " = " + ("" if fn or arr else "&") + nm(r["to"]) + ";\n"
    return s + (" = {%d%s};\n" % (d["val"], ", 8" * (d["n"] - 1)) if d["len"] >= 0 else f" = {d['val']};\n")


# ------------------------------------------------------------ object files
def symbols(path):
    b = open(path, "rb").read()
    shoff, = struct.unpack_from("<Q", b, 40)
    shnum, shstr = struct.unpack_from("<HH", b, 60)
    sh_ = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i) for i in range(shnum)]
    def s(tab, o):
        q = sh_[tab][4] + o
        return b[q:b.index(b"\0", q)].decode()
    names = [s(shstr, x[0]) for x in sh_]
    out = {}
    for i, x in enumerate(sh_):
        if x[1] == 2:
            for o in range(x[4], x[4] + x[5], 24):
                n, info, oth, ndx, val, sz = struct.unpack_from("<IBBHQQ", b, o)
                nm = s(x[6], n)
                if nm:
                    sec = {0: "UND", 0xfff2: "COMMON"}.get(ndx) or (names[ndx] if ndx < shnum else "?")
                    out.setdefault(nm, []).append({"bind": info >> 4, "vis": oth & 3, "ndx": ndx, "sec": sec, "flags": sh_[ndx][2] if 0 < ndx < shnum else 0, "val": val, "size": sz})
    return out


VIS = {"": 0, "default": 0, "internal": 1, "hidden": 2, "protected": 3}


def judge(rs, nm, sy, opt):
    """first disagreement between a unit's table and its symbols"""
    for r in rs:
        n = ("L_" if r["lbl"] else "") + nm(r["id"])
        es = sy.get(n, [])
        if len(es) > 1:
            return {"symbol": n, "twice": es}
        e = es[0] if es else None
        st = "n" if not e else "u" if e["sec"] == "UND" else "l" if e["bind"] == 0 else "d"
        if st not in r["st"]:
            return {"symbol": n, "is": st, "expected": r["st"]}
        if st == "n":
            continue
        if st in "du" and (e["bind"] == 2) != r["wk"]:
            return {"symbol": n, "weak": e["bind"] == 2, "expected": r["wk"]}
        if st == "u":
            continue
        v = VIS[r["vis"]] if r["vis"] or st == "l" else 2 if "-fvisibility=hidden" in opt else 0
        if st == "d" and e["vis"] != v:
            return {"symbol": n, "visibility": e["vis"], "expected": v}
        if r["sec"] and e["sec"] != r["sec"]:
            return {"symbol": n, "section": e["sec"], "expected": r["sec"]}
        if r["al"]:
            t = [q for x in rs if x["id"] == r["al"] for q in sy.get(("L_" if x["lbl"] else "") + nm(r["al"]), [])]
            if not t or (t[0]["ndx"], t[0]["val"]) != (e["ndx"], e["val"]):
                return {"symbol": n, "alias of": t}
            continue
        if r["fn"]:
            if not e["flags"] & 4:
                return {"symbol": n, "section": e["sec"], "expected": "code"}
            if "-ffunction-sections" in opt and not r["sec"] and e["sec"] != ".text." + n:
                return {"symbol": n, "section": e["sec"], "expected": ".text." + n}
            continue
        if e["size"] != r["size"]:
            return {"symbol": n, "size": e["size"], "expected": r["size"]}
        if st == "d" and (e["sec"] == "COMMON") != r["com"]:
            return {"symbol": n, "section": e["sec"], "common": r["com"]}
        if e["sec"] == "COMMON":
            continue
        if bool(e["flags"] & 0x400) != r["tls"]:
            return {"symbol": n, "section": e["sec"], "thread-local": r["tls"]}
        if not r["sec"]:
            if r["rel"] and ("PI" in opt) and not e["flags"] & 1:
                return {"symbol": n, "section": e["sec"], "relocations": "in what is not writable while they are applied"}
            if r["con"] and not r["rel"] and not r["com"] and e["flags"] & 1 or not r["con"] and not e["flags"] & 1:
                return {"symbol": n, "section": e["sec"], "constant": r["con"]}
            if "-fdata-sections" in opt and not r["com"] and not e["sec"].endswith("." + n):
                return {"symbol": n, "section": e["sec"], "expected": "of its own"}
    return None


# ------------------------------------------------------------ enumerated histories
def classes():
    F = lambda **k: it(1, fn=True, **k)
    U = lambda *r, **k: it(0, fn=True, **{"def": True, "refs": list(r), **k})
    D = {"def": True}
    fn = [F(), F(ex=True), F(st=True), F(inl=True), F(st=True, inl=True), F(ex=True, inl=True), F(**D), F(ex=True, **D), F(st=True, **D), F(inl=True, **D), F(st=True, inl=True, **D),
          F(ex=True, inl=True, **D), F(wk=True), F(wk=True, **D), F(vis="hidden"), F(ex=True, inl=True, gnu=True, **D), F(lbl=True), F(ct=0), F(sec=".mytext", **D),
          U(ref(1, "call")), U(ref(1, "dead")), U(ref(1, "addr"), st=True, inl=True), U(ref(1, "stat")), {**U({**ref(1, "call", it(1, fn=True, ex=True, blk=True)), "hide": True})},
          U(ref(1, "call", it(1, fn=True, blk=True))), it(0, fn=True, al=1), it(0, fn=True, al=1, wk=True, vis="protected"),
          U(ref(1, "addr", it(1, fn=True, blk=True, wk=True))), it(0, fn=True, st=True, al=1)]
    V = lambda **k: it(1, **k)
    var = [V(), V(ex=True), V(st=True), V(**D), V(st=True, **D), V(ex=True, **D), V(wk=True, ex=True), V(wk=True), V(vis="protected", ex=True), V(sec=".mydata"), V(sec=".mydata", **D),
           U(ref(1, "call")), U(ref(1, "addr"), st=True, inl=True), U({**ref(1, "call", it(1, ex=True, blk=True)), "hide": True}), U(ref(1, "stat")), it(0, ex=True, al=1), it(0, ptr=True, refs=[ref(1, "addr")], **D),
           U(ref(1, "dead"))]
    A = lambda n, **k: it(1, len=n, **k)
    arr = [A(0), A(3), A(0, ex=True), A(3, ex=True), A(3, st=True), A(0, **D), A(3, **D), A(0, st=True, **D), A(3, wk=True, **D), A(0, ex=True, vis="hidden"), U(ref(1, "call")), U(ref(1, "size")),
           U(ref(1, "size", it(1, ex=True, len=3, blk=True))), U(ref(1, "call", it(1, ex=True, len=0, blk=True)))]
    T = lambda **k: it(1, tls=True, **k)
    tls = [T(), T(ex=True), T(st=True), T(**D), T(st=True, **D), T(wk=True), U(ref(1, "call")), U(ref(1, "addr")), U({**ref(1, "call", it(1, ex=True, tls=True, blk=True)), "hide": True}), T(vis="hidden", ex=True)]
    K = lambda **k: it(1, con=True, **k)
    con = [K(), K(ex=True), K(st=True), K(**D), K(st=True, **D), K(ex=True, **D), K(wk=True, ex=True), U(ref(1, "addr")), U(ref(1, "call")), it(0, con=True, ex=True, al=1)]
    return [fn, var, arr, tls, con]


# ------------------------------------------------------------ generated units
PRI = [101, 102, 199, 200, 1000, 1001, 9999, 10000, 20000, 65533, 65534, 65535, 0]


def gen(r):
    n = r.randint(4, 8)
    kind = {}
    for i in range(1, n + 1):
        kind[i] = {"fn": r.random() < .6, "len": -1, "tls": False, "con": False}
        if not kind[i]["fn"]:
            k = r.randrange(10)
            if k < 2:
                kind[i]["len"] = 3
            elif k < 4:
                kind[i]["tls"] = True
            elif k == 4:
                kind[i]["con"] = True
    inl = {i for i in kind if kind[i]["fn"] and r.random() < .12}
    inlu = {i: r.randrange(2) for i in inl}
    ext = {i: r.choice((0, 0, 1, 1, 2, 3)) for i in kind}   # unit with the external definition: 0, 1, none, static in each
    pris = r.sample(PRI, len(PRI))
    units = []
    late = []
    nu = 2
    for u in range(nu):
        plans = []
        for i in sorted(kind):
            k = kind[i]
            base = dict(fn=k["fn"], len=k["len"], tls=k["tls"], con=k["con"])
            val = 10 * i + u if i not in inl else 10 * i
            ds = []
            mine = ext[i] == u
            if i in inl:
                if inlu[i] == u:
                    ds = [dict(inl=True, **{"def": True})]
                    if r.random() < .3:
                        ds.insert(0, dict(inl=True))
                else:
                    ds = [dict(**{"def": True})]
                    if r.random() < .6:
                        ds.insert(r.randrange(2), dict(inl=True))
                        if r.random() < .5:
                            ds[-1]["inl"] = ds[0]["inl"] = True
                            ds.append(dict(ex=r.random() < .5))
                refs_ok = False
            elif ext[i] == 3 or (not mine and r.random() < .12):
                ds = [dict(st=True, **{"def": True})]
                if k["fn"]:
                    if r.random() < .6:
                        ds[0]["inl"] = True
                    if r.random() < .4:
                        ds.insert(0, dict(st=True))
                        ds[1]["st"] = r.random() < .5
                elif r.random() < .4:
                    ds.insert(r.randrange(2), dict(st=True))
                if r.random() < .4:
                    ds.append(dict(ex=True))
                refs_ok = True
            elif mine:
                ds = [dict(**{"def": True})]
                if k["fn"]:
                    if r.random() < .15:
                        ds[0].update(ex=True, inl=True)
                    if r.random() < .15:
                        ds.insert(0, dict(ex=True, inl=True, gnu=True, **{"def": True}))
                elif r.random() < .3:
                    ds[0] = {}
                for _ in range(r.randrange(3)):
                    ds.insert(r.randint(0, len(ds)), dict(ex=r.random() < .7 or not k["fn"] and r.random() < .5))
                refs_ok = True
            else:
                if r.random() < .75:
                    ds = [dict(ex=True)]
                    if r.random() < .2:
                        ds.append(dict(ex=True))
                    if r.random() < .15:
                        ds[0]["wk"] = True
                    if k["fn"] and r.random() < .2:
                        ds.append(dict(ex=True, inl=True, gnu=True, **{"def": True}))
                    elif r.random() < .2:
                        ds.append(dict(wk=True, **{"def": True}))
                refs_ok = True
            if not ds:
                continue
            a = {}
            q = r.random()
            has = any(d.get("def") and not d.get("gnu") for d in ds)
            if ext[i] != 3 and i not in inl:
                if q < .08:
                    a["vis"] = r.choice(("hidden", "protected", "default", "internal") if has else ("default", "protected"))
                elif q < .14 and has:
                    a["wk"] = True
            if q > .9 and not k["con"] and has:
                ds[0]["sec"] = ".m" + ("t" if k["fn"] else "l" if k["tls"] else "d")
            if a:
                r.choice(ds).update(a)
            if k["fn"] and has and i not in inl and pris and r.random() < .25:
                x = r.choice(ds)
                if r.random() < .6:
                    x["ct"] = pris.pop()
                if pris and r.random() < .5:
                    x["dt"] = pris.pop()
                if x.get("gnu"):
                    x.pop("ct", 0), x.pop("dt", 0)
            rows = []
            for d in ds:
                e = it(i, **base)
                e.update(d)
                if e["def"]:
                    e["val"] = val
                    if k["len"] > 0 and r.random() < .3:
                        e["len"] = 0
                elif k["len"] > 0 and e["ex"] and r.random() < .5:
                    e["len"] = 0
                rows.append((e, refs_ok))
            plans.append(rows)
        seq = []
        while any(plans):
            p = r.choice([p for p in plans if p])
            seq.append(p.pop(0))
        seen = set()
        lens = {}
        out = []
        decl = {i: [e for e, _ in seq if e["id"] == i] for i in kind}
        for e, ok in seq:
            i = e["id"]
            if e["def"] and e["fn"] and ok:
                for j in r.sample(sorted(kind), r.randint(0, min(3, n))):
                    if j == i or not decl[j]:
                        continue
                    k = kind[j]
                    hows = ["addr", "addr", "stat"] if not k["tls"] else ["addr"]
                    if j < i or not k["fn"]:
                        hows += ["call"] * 6
                    hows += ["dead"] * 2
                    if not k["fn"] and lens.get(j):
                        hows += ["size"]
                    how = r.choice(hows)
                    if how == "stat" and k["tls"]:
                        continue
                    static = any(d["st"] for d in decl[j])
                    if j in seen and (static or r.random() < .8):
                        e["refs"].append(ref(j, how))
                    elif not static and (j not in inl):
                        b = it(j, ex=True, blk=True, fn=k["fn"], tls=k["tls"], con=k["con"], len=k["len"])
                        if j in seen and r.random() < .3:
                            b.update({"wk": True} if r.random() < .5 else {"vis": r.choice(("default", "protected"))})
                        e["refs"].append({**ref(j, how, b), "hide": r.random() < .6})
            seen.add(i)
            if e["len"]:
                lens[i] = True
            out.append(e)
        for x in range(2):
            # objects with addresses, and aliases
            if r.random() < .3 and seen:
                j = r.choice([q for q in sorted(seen) if not kind[q]["tls"]] or [0])
                if j:
                    n2 = n + 1 + 4 * u + 2 * x
                    if r.random() < .6:
                        out.append(it(n2, ptr=True, con=r.random() < .3, st=r.random() < .3, refs=[ref(j, "addr")], **{"def": True}))
                    else:
                        out.append(it(n2, al=j, fn=kind[j]["fn"], ex=not kind[j]["fn"], len=kind[j]["len"], con=kind[j]["con"], wk=r.random() < .2))
                        if kind[j]["fn"] and r.random() < .5:
                            out[-1].update(wk=False, st=True)
                        if r.random() < .6:
                            out.append(it(n2 + 1, fn=True, refs=[ref(n2, r.choice(("call", "addr", "stat")))], **{"def": True}))
        units.append(out)
    ids = n + 8
    return {"ids": ids, "forms": [], "common": r.random() < .3, "units": units}, kind


OPTS = ["-O0", "-O1", "-O1 -fPIC", "-O1 -fvisibility=hidden", "-O1 -fPIE", "-O0 -ffunction-sections -fdata-sections", "-O1 -g"]
MAIN = r'''
#include <stdio.h>
int ptr(void *p) { return p != 0; }
int lg(int k) { printf("L %d\n", k); fflush(stdout); return 0; }
'''


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    W = ["-w", "-fno-inline", "-O0"] if cc == "gcc" else []

    # -- every history up to a length
    cl = classes()
    L = 3 if c.quick else 4
    cases = [{"ids": L + 1, "forms": f, "common": k, "units": []} for f in cl for k in (False, True) if not (k and f is cl[0])]
    info = [(f, k) for f in cl for k in (False, True) if not (k and f is cl[0])]
    recs = []
    for q, case in enumerate(cases):
        for x in c.tlc("Linkage", [case], constants={"Enum": "TRUE", "MaxLen": L}, invariants=["LinkOK", "Nested"], properties=["LinkStable"], quiet=q > 0):
            recs.append((q, x))
    good = [(q, x) for q, x in recs if not x["err"]]
    refused = [(q, x) for q, x in recs if x["err"]]

    def unit(q, x, k):
        fs, com = info[q]
        nm = lambda i: f"h{k}_{i}"
        kinds = {}
        text = ""
        for pos, f in enumerate(x["h"]):
            d = dict(fs[f - 1])
            if d["id"] == 0:
                d["id"] = pos + 2
                if d["al"]:
                    d.update(fn=fs[0]["fn"], len=-1)
            kinds.setdefault(d["id"], (d["fn"], d["len"] >= 0))
            for r in d["refs"]:
                for e in r["blk"]:
                    kinds.setdefault(e["id"], (e["fn"], e["len"] >= 0))
            text += render(d, nm, kinds, (pos + k) % 2)
        return text

    def hist(idx, opt, tag):
        p = c.path(f"h{tag}")
        com = info[good[idx[0]][0]][1]
        with open(p + ".c", "w") as f:
            f.write(HEAD + "".join(unit(*good[k], k) for k in idx))
        rc, o, e = sh([cc] + opt.split() + ["-fcommon" if com else "-fno-common", "-c", p + ".c", "-o", p + ".o"] + W, timeout=60)
        text = open(p + ".c").read()
        bad = {}
        if rc:
            bad = {k: {"outcome": "compile", "stderr": e.decode(errors="replace")[-300:]} for k in idx}
        else:
            sy = symbols(p + ".o")
            for k in idx:
                j = judge(good[k][1]["t"], lambda i: f"h{k}_{i}", sy, opt)
                if j:
                    bad[k] = j
        for s in (".c", ".o"):
            if os.path.exists(p + s):
                os.remove(p + s)
        return bad, text

    def hbatch(a):
        tag, idx, opt = a
        bad, _ = hist(idx, opt, tag)
        res = []
        for k in bad:
            b, text = hist([k], opt, f"{tag}_{k}")
            if b:
                res.append((text, opt, b[k]))
        return res
    rng = c.rng
    order = list(range(len(good)))
    order.sort(key=lambda k: good[k][0])
    jobs = []
    for q in range(len(cases)):
        ks = [k for k in order if good[k][0] == q]
        rng.shuffle(ks)
        for n, b in enumerate(chunks(ks, 100)):
            jobs.append((f"{q}_{n}", b, OPTS[(n + q) % len(OPTS)]))
            if not c.quick:
                for m in (2, 5):
                    jobs.append((f"{q}_{n}_{m}", b, OPTS[(n + q + m) % len(OPTS)]))
    for out in c.pmap(hbatch, jobs):
        for text, opt, b in out:
            c.violation("history:" + text[len(HEAD):][:400], {"opt": opt, **b}, {"case.c": text})

    # -- what must be refused
    rng.shuffle(refused)
    some = refused[:300 if c.quick else 3000]

    def refuse(a):
        n, (q, x) = a
        p = c.path(f"r{n}")
        with open(p + ".c", "w") as f:
            f.write(HEAD + unit(q, x, 0))
        rc, o, e = sh([cc, "-c", p + ".c", "-o", p + ".o"] + W, timeout=30)
        text = open(p + ".c").read()
        os.remove(p + ".c")
        return None if rc > 0 else (text, rc)
    for x in c.pmap(refuse, list(enumerate(some))):
        if x:
            c.violation("accepted:" + x[0][len(HEAD):][:400], {"outcome": f"exit status {x[1]}, expected an error"}, {"case.c": x[0]})

    # -- several units
    N = 2800 if c.quick else 40000
    gs = [gen(rng) for _ in range(N)]
    recg = {}
    for b in chunks(list(range(N)), 2500):
        for x in c.tlc("Linkage", [gs[i][0] for i in b], constants={"Enum": "FALSE", "MaxLen": 0}, invariants=["LinkOK", "Nested"], properties=["LinkStable"]):
            recg[b[x["cid"] - 1]] = x
    ks = sorted(recg)

    def files(idx):
        us = ["", ""]
        rest, main_ = MAIN, "int main(void) {\n"
        for k in idx:
            case, kind = gs[k]
            x = recg[k]
            nm = lambda i: f"g{k}_{i}"
            kinds = {i: (v["fn"], v["len"] >= 0) for i, v in kind.items()}
            for u, items in enumerate(case["units"]):
                for d in items:
                    kinds.setdefault(d["id"], (d["fn"], d["len"] >= 0))
                cd = {d["id"] for d in items if d["ct"] >= 0 or d["dt"] >= 0}
                for pos, d in enumerate(items):
                    log = f"lg({k * 100 + d['id'] * 2 + u});" if d["id"] in cd and d["def"] and not d["gnu"] else ""
                    us[u] += render(d, nm, kinds, (pos + k) % 2, log)
            for i in x["rest"]:
                v = kind[i]
                rest += f"int {nm(i)}(void) {{ return {1000 + i}; }}\n" if v["fn"] else ("__thread " if v["tls"] else "") + ("const " if v["con"] else "") + f"int {nm(i)}{'[3]' if v['len'] >= 0 else ''} = {{{1000 + i}}};\n"
            main_ += f'printf("C {k}\\n");\n'
            for i, v in x["vals"]:
                rest += f"int {nm(i)}(void);\n"
                main_ += f'printf("V {i} %d\\n", {nm(i)}());\n'
        return us, rest + main_ + 'printf("end\\n"); return 0; }\n'

    def run(idx, opt, tag):
        p = c.path(f"g{tag}")
        us, rest = files(idx)
        com = gs[idx[0]][0]["common"]
        objs, err, bad = [], "", {}
        for u in (0, 1):
            open(f"{p}_{u}.c", "w").write(HEAD + us[u])
            rc, o, e = sh([cc] + opt.split() + ["-fcommon" if com else "-fno-common", "-c", f"{p}_{u}.c", "-o", f"{p}_{u}.o"] + W, timeout=60)
            if rc:
                err = "compile: " + e.decode(errors="replace")[-300:]
            objs.append(f"{p}_{u}.o")
        open(f"{p}_r.c", "w").write(rest)
        if not err:
            for u in (0, 1):
                sy = symbols(objs[u])
                for k in idx:
                    j = judge(recg[k]["units"][u], lambda i: f"g{k}_{i}", sy, opt)
                    if j:
                        bad.setdefault(k, {"unit": u, **j})
            rc, o, e = sh(["gcc", "-w", "-O0", "-fno-builtin", "-fPIE" if "PI" in opt else "-fno-pie", "-pie" if "PI" in opt else "-no-pie", f"{p}_r.c"] + objs + ["-o", p], timeout=60)
            if rc:
                err = "link: " + e.decode(errors="replace")[-400:]
        if not err:
            rc, o, e = sh([p], timeout=20)
            lines = o.decode(errors="replace").split("\n")
            logs = {k: [[], []] for k in idx}
            got, cur, over = {k: [] for k in idx}, None, False
            started = False
            for ln in lines:
                w = ln.split()
                if not w:
                    continue
                if w[0] == "L":
                    k, q = divmod(int(w[1]), 100)
                    if not started:
                        logs[k][0].append(q)
                    elif over:
                        logs[k][1].append(q)
                elif w[0] == "C":
                    started, cur = True, int(w[1])
                elif w[0] == "V":
                    got[cur].append([int(w[1]), int(w[2])])
                elif w[0] == "end":
                    over = True
            for k in idx:
                x = recg[k]
                want = ([q[1] * 2 + q[0] - 1 for q in x["ct"]], [q[1] * 2 + q[0] - 1 for q in x["dt"]])
                # a constructor may call others that log: only the order of the listed ones matters
                lg = [[q for n, q in enumerate(l) if q in w and q not in l[:n]] for l, w in zip(logs[k], want)]
                if not over:
                    bad.setdefault(k, {"outcome": f"status {rc}, output {lines[-3:]}"})
                elif got[k] != x["vals"]:
                    bad.setdefault(k, {"values": got[k], "expected": x["vals"]})
                elif sorted(lg[0]) != sorted(want[0]) or sorted(lg[1]) != sorted(want[1]):
                    bad.setdefault(k, {"constructors, destructors": lg, "expected": want})
                elif pure(gs[k][0]) and (lg[0] != want[0] or lg[1] != want[1]):
                    bad.setdefault(k, {"constructors, destructors": lg, "expected": want})
        if err:
            bad = {k: {"outcome": err} for k in idx}
        for s in ("_0.c", "_1.c", "_r.c", "_0.o", "_1.o", ""):
            if os.path.exists(p + s):
                os.remove(p + s)
        return bad, us, rest

    def gbatch(a):
        tag, idx, opt = a
        bad, _, _ = run(idx, opt, tag)
        res = []
        for k in bad:
            b, us, rest = run([k], opt, f"{tag}_{k}")
            if b:
                res.append((us, rest, opt, b[k]))
        return res
    jobs = []
    for com in (False, True):
        for n, b in enumerate(chunks([k for k in ks if gs[k][0]["common"] == com], 40)):
            jobs.append((f"{int(com)}{n}", b, OPTS[(n + com) % len(OPTS)]))
    for out in c.pmap(gbatch, jobs):
        for us, rest, opt, b in out:
            c.violation("units:" + (us[0] + "----\n" + us[1])[:900], {"opt": opt, **b}, {"a.c": HEAD + us[0], "b.c": HEAD + us[1], "rest.c": rest})
    c.traces += len(good) + len(some) + len(ks)
    c.extra.update({"histories": len(good), "refused_histories": len(some), "programs": len(ks), "symbols_judged": sum(len(x["t"]) for _, x in good) + sum(len(u) for k in ks for u in recg[k]["units"]),
                    "functions_called": sum(len(recg[k]["vals"]) for k in ks), "constructors_destructors": sum(len(recg[k]["ct"]) + len(recg[k]["dt"]) for k in ks)})
    c.samples = [{"history": unit(*good[k], k)} for k in order[::max(1, len(order) // 4)][:4]]


def pure(case):
    """no function calls a constructor or destructor"""
    for u in case["units"]:
        cd = {d["id"] for d in u if d["ct"] >= 0 or d["dt"] >= 0}
        for v in case["units"]:
            for d in v:
                if any(r["to"] in cd and r["how"] == "call" for r in d["refs"]):
                    return False
    return True


if __name__ == "__main__":
    run_check("P17", main)
