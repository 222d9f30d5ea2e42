"""P07 driver: Driver.tla; every behaviour replayed with stand-ins for the assembler and the linker."""
import glob, itertools, os, re, shutil, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

TEXT = {
    "c": "int {m}(void) {{ return 0; }}\n", "asm": ".globl {m}\n{m}:\n ret\n",
    "cppasm": "#define NAME {m}\n#ifndef __ASSEMBLER__\n.error \"not cpp asm\"\n#endif\n.globl NAME\nNAME:\n ret\n",
}
BAD = {"none": "", "lex": "char *s = \"open;\n", "pp": "#error stop\n", "parse": "int x = ;\n", "gen": "void g(int a) { &(a + 1) = 3; }\n",
       "big": "", "missing": ""}
HOWS = [1, 3, 255, -9, -11]


def inp(name, bad="none", d=""):
    b, e = (name, "-") if name == "-" else re.match(r"(.*?)(\.so(?:\.\d+)+|\.[^.]*)?$", name).groups()
    e = e or ""
    if e.startswith(".so."):
        e = ".so.1.2"
    n = re.sub(r"\W", "", d + b) if name != "-" else "stdin"
    return {"t": "in", "path": (d + "/" if d else "") + name, "base": b, "ext": e, "m": "mk_" + n, "bad": bad}


ALPHA = [inp("a.c"), inp("b.c", "parse"), inp("c.s"), inp("e.S"), inp("f.o"), inp("g.c", "missing"), inp("h.c", "gen")]
MORE = [inp("a.c", d="d"), inp("i.c"), inp("j.c", "lex"), inp("k.c", "pp"), inp("l.s", "missing"), inp("m.S", "missing"), inp("n.S", "pp"), inp("p.o"), inp("q.a"),
        inp("r.so"), inp("s.so.1.2"), inp("t.lo"), inp("u.xyz"), inp("v.h"), inp("w"), inp("-"), inp("y.z.c"), inp("z.c", "big"), inp("zz.S"),
        inp("foo"), inp("x.so.1.txt"), inp("x2.lo2"), inp("na"), inp("x3.so.10"), inp("x4.so"), inp("x5.so.2.txt.c"), inp("is"), inp("c")]


def cases_for(c):
    r = c.rng
    seqs = [[x] for x in ALPHA + MORE] + [list(p) for p in itertools.product(ALPHA, repeat=2)]
    if not c.quick:
        seqs += [list(p) for p in itertools.product(ALPHA, repeat=3)]
    for _ in range(1200 if c.quick else 3000):
        s = []
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            if r.random() < .25:
                s.append({"t": "x", "lang": r.choice(["c", "assembler", "assembler-with-cpp", "none", "none"])})
            s.append(r.choice(ALPHA + MORE + MORE))
        seqs.append(s)
    out = []
    for s in seqs:
        for mode in ("link", "c", "S", "E", "M") if len(s) < 3 or not c.quick else [r.choice(("link", "link", "c", "c", "S", "E", "M"))]:
            for o in ([False, True] if len(s) < 2 or r.random() < .3 else [r.random() < .3]):
                nin = sum(x["t"] == "in" for x in s)
                if o and mode == "M" and nin > 1:
                    continue
                out.append({"items": s, "mode": mode, "o": ("out.bin" if mode == "link" else "out" + {"c": ".o", "S": ".s", "E": ".i", "M": ".d"}[mode]) if o else "",
                            "dry": r.random() < .06, "nospace": any(x.get("bad") == "big" for x in s) and r.random() < .8,
                            "ldx": [r.choice(["-lxa", "--xob", "--xoc"]) for _ in range(r.choice([0, 0, 1, 2, 3]))],
                            "asx": "".join(" --xo" + r.choice("de") for _ in range(r.choice([0, 0, 0, 1, 2, 3])))})
    # an input name may occur once only, so that a file has one meaning
    ok = []
    for x in out:
        ns = [i["path"] for i in x["items"] if i["t"] == "in"]
        clash = x["mode"] in "cS" and any(i["t"] == "in" and i["base"] + {"c": ".o", "S": ".s"}[x["mode"]] in ns for i in x["items"])
        if len(ns) == len(set(ns)) and lang_ok(x) and not clash:
            ok.append(x)
    return ok


def lang_ok(x):
    """the text written into a file must fit the language it is read as"""
    lang = "none"
    for i in x["items"]:
        if i["t"] == "x":
            lang = i["lang"]
        elif lang == "assembler" and i["path"] == "-":
            return False
        elif lang != "none" and (i["ext"] in (".o", ".a", ".so", ".lo", ".so.1.2") or i["bad"] in ("parse", "gen", "lex", "pp", "big") and lang != "c"):
            return False
    return True


def read_lang(x):
    lang = "none"
    res = {}
    for i in x["items"]:
        if i["t"] == "x":
            lang = i["lang"]
        else:
            res[i["path"]] = {"c": "c", "assembler": "asm", "assembler-with-cpp": "cppasm"}.get(lang) or {".c": "c", ".h": "c", "-": "c", ".s": "asm", ".S": "cppasm"}.get(i["ext"], "obj")
    return res


def norm(line):
    """tool, inputs, extra options; order inside each kept"""
    w = line.split()
    return w[0] if w else "", [x for x in w[1:] if not x.startswith("-")], [x for x in w[1:] if x.startswith(("-lx", "--xo"))]


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    fd = c.path("fake")
    os.makedirs(fd)
    rc, o, e = sh(["gcc", "-O1", "-w", os.path.join(VERIF, "harness", "faketool.c"), "-o", fd + "/as"], timeout=60)
    if rc:
        raise ModelError(e.decode())
    shutil.copy(fd + "/as", fd + "/ld")
    cases = cases_for(c)
    recs = []
    for b in chunks(list(range(len(cases))), 3000):
        for x in c.tlc("Driver", [cases[i] for i in b], invariants=["NoDebris", "StatusRight", "OneLink", "NoOutputWithoutRequest", "LinkOnlyWhenAllDone"]):
            if x["fault"] == 0 or x["fault"] == len(x["calls"]) and x["rc"] == 1:
                x["case"] = cases[b[x["cid"] - 1]]
                recs.append(x)
    bigtext = "".join(f"int big{i}(int a) {{ return a * {i} + a / 3; }}\n" for i in range(1500))

    def run(n, x, keep=False):
        case = x["case"]
        r = random.Random(f"{c.seed}:{n}")
        d = c.path(f"w{n}")
        w = os.path.join(d, "w")
        os.makedirs(w + "/d")
        os.makedirs(d + "/tmp")
        lang = read_lang(case)
        stdin = b""
        made = set()
        for i in case["items"]:
            if i["t"] != "in" or i["bad"] == "missing":
                continue
            L = lang[i["path"]]
            t = f"OBJ {i['m']}\n" if L == "obj" else TEXT[L].format(m=i["m"])
            if i["bad"] == "big":
                t += bigtext
            t += BAD[i["bad"]]
            if i["path"] == "-":
                stdin = t.encode()
                continue
            with open(os.path.join(w, i["path"]), "w") as f:
                f.write(t)
            made.add(i["path"])
        how = HOWS[n % len(HOWS)] if x["fault"] else 0
        useas, useld = fd + "/as", fd + "/ld"
        if x["fault"]:
            if n % 7 == 0:     # the tool does not exist at all: only usable if no earlier call of it
                tool = x["calls"][-1].split()[0]
                if all(k.split()[0] != tool for k in x["calls"][:-1]):
                    if tool == "as":
                        useas = fd + "/nonexistent"
                    else:
                        useld = fd + "/nonexistent"
            with open(d + "/fault", "w") as f:
                f.write(f"{x['fault']} {how}\n")
        args = []
        for i in case["items"]:
            args += ["-x", i["lang"]] if i["t"] == "x" and r.random() < .5 else ["-x" + i["lang"]] if i["t"] == "x" else [i["path"]]
        opts = [{"link": [], "M": ["-M"]}.get(case["mode"], ["-" + case["mode"]])]
        if case["o"]:
            opts.append(["-o", case["o"]] if r.random() < .5 else ["-o" + case["o"]])
        if case["dry"]:
            opts.append(["-###"])
        opts += [["-fuse-as=" + useas], ["-fuse-ld=" + useld]]
        def group(xs, p):
            # options for the tools, one by one or joined with commas
            res = []
            for a in xs:
                if res and not a.startswith("-l") and res[-1][0].startswith(p) and r.random() < .6:
                    res[-1][0] += "," + a
                else:
                    res.append([a] if a.startswith("-l") else ["-Xlinker", a] if p == "-Wl," and r.random() < .4 else [p + a])
            return res
        ordered = group(case["ldx"], "-Wl,") + group(case["asx"].split(), "-Wa,")
        # options may stand anywhere around the inputs; relative order of linker options is kept
        r.shuffle(opts)
        cmd = [cc]
        front = r.randint(0, len(opts))
        cmd += sum(opts[:front], [])
        cut = r.randint(0, len(ordered))
        cmd += sum(ordered[:cut], []) + args + sum(ordered[cut:] + opts[front:], [])
        env = dict(os.environ, FAKE_DIR=d, TMPDIR=d + "/tmp")
        of = d + "/stdout"
        sc = "trap '' XFSZ; ulimit -f 24; exec \"$@\"" if case["nospace"] else "exec \"$@\""
        with open(of, "wb") as so:
            try:
                p = subprocess.run(["sh", "-c", sc, "sh"] + cmd, cwd=w, env=env, stdout=so, stderr=subprocess.PIPE, input=stdin, timeout=60)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -999, b"timeout"
        outp = open(of, errors="replace").read()
        log = open(d + "/log").read().split("\n")[:-1] if os.path.exists(d + "/log") else []
        files = {}
        for dp, dn, fn in os.walk(w):
            for f in fn:
                q = os.path.relpath(os.path.join(dp, f), w)
                if q not in made:
                    files[q] = open(os.path.join(dp, f), errors="replace").read()
        left = os.listdir(d + "/tmp")
        shutil.rmtree(d, ignore_errors=True)

        def kind(t):
            ms = list(dict.fromkeys(re.findall(r"mk_\w+", t)))
            if t.startswith(("OBJ", "EXE")):
                a = norm(t)
                return [a[0], a[1]]
            return ["text"] + ms + (["asm"] if re.search(r"^\s*\.(globl|text|section|size)\b", t, re.M) else [])

        def want(t):
            if t.startswith(("OBJ", "EXE")):
                a = norm(t)
                return [a[0], a[1]]
            k, m = t.split(":", 1)
            return None if k == "dep" else ["text", m] + (["asm"] if k == "asm" or src_asm(m) else [])
        src = {i["m"]: lang[i["path"]] for i in case["items"] if i["t"] == "in"}

        def src_asm(m):
            return src.get(m) == "cppasm"
        bad = []
        ok = x["rc"] == 0
        if (rc == 0) != ok or rc < 0:
            bad.append(f"exit status {rc}, expected {'0' if ok else 'failure'}")
        exp = {k: t for k, t in x["files"]}
        if ok:
            if set(files) != set(exp):
                bad.append(f"files {sorted(files)}, expected {sorted(exp)}")
        for k in files:
            if k in exp:
                wv = want(exp[k])
                if wv is None:
                    m = exp[k].split(":")[1]
                    pth = next(i["path"] for i in case["items"] if i["t"] == "in" and i["m"] == m)
                    if pth not in files[k].replace("\\\n", " ").split():
                        bad.append(f"{k} does not name {pth}: {files[k][:200]}")
                elif kind(files[k]) != wv:
                    bad.append(f"{k} holds {kind(files[k])}, expected {wv}")
            elif not ok:
                # inputs other than the failing one may have been dealt with
                base = k.rsplit(".", 1)[0]
                own = [i for n2, i in enumerate(case["items"]) if i["t"] == "in" and n2 + 1 != x["at"] and i["base"] == base]
                if case["o"] or case["mode"] not in ("c", "S") or not own:
                    bad.append(f"unexpected output {k} of a failed run")
        calls, ecalls = [norm(l) for l in log], [norm(l) for l in x["calls"]]
        if useas.endswith("nonexistent") or useld.endswith("nonexistent"):
            ecalls = ecalls[:-1]
        if ok and calls != ecalls:
            bad.append(f"ran {calls}, expected {ecalls}")
        if not ok:
            eld = [k for k in ecalls if k[0] == "ld"]
            ld = [k for k in calls if k[0] == "ld"]
            if ld != eld:
                bad.append(f"linker ran {ld}, expected {eld}")
            if [k for k in calls if k in ecalls] != ecalls:
                bad.append(f"ran {calls}, expected {ecalls}")
        if ok and case["mode"] in ("E", "S"):
            ms = list(dict.fromkeys(re.findall(r"mk_\w+", outp)))
            ems = list(dict.fromkeys(t.split(":")[1] for t in x["out"]))
            if ms != ems:
                bad.append(f"standard output has {ms}, expected {ems}")
        elif ok and case["mode"] == "M":
            names = {i["m"]: i["path"] for i in case["items"] if i["t"] == "in"}
            ws = [y for y in outp.replace("\\\n", " ").split() if y in names.values()]
            ems = [names[t.split(":")[1]] for t in x["out"]]
            if ws != ems:
                bad.append(f"dependencies name {ws}, expected {ems}")
        elif ok and outp.strip():
            bad.append("unexpected text on standard output: " + outp[:100])
        if left:
            bad.append(f"temporary files left in TMPDIR: {left}")
        return bad, cmd, how, err.decode(errors="replace")[-300:]

    before = set(glob.glob("/tmp/slimcc-*"))

    def one(a):
        n, x = a
        r = run(n, x)
        if r[0]:
            r = run(n, x)
        return r
    for (n, x), r in zip(enumerate(recs), c.pmap(one, list(enumerate(recs)))):
        if r[0]:
            k = " ".join([a for a in r[1][1:] if not a.startswith("-fuse")]) + f" fault={x['fault']}"
            c.violation("driver:" + k, {"command": r[1][1:], "what": r[0], "failing call": x["fault"], "how": r[2], "inputs": x["case"]["items"], "nospace": x["case"]["nospace"], "stderr": r[3]})
    c.traces += len(recs)
    # temporary files: anything new under the fixed name in /tmp; find the run that leaves it
    time.sleep(.2)
    left = set(glob.glob("/tmp/slimcc-*")) - before
    for _ in range(10):     # files of a compiler someone else is running go away again
        if left:
            time.sleep(.5)
            left = {p for p in left if os.path.exists(p)}
    if left:
        for n, x in list(enumerate(recs)):
            b0 = set(glob.glob("/tmp/slimcc-*"))
            r = run(n, x)
            new = set(glob.glob("/tmp/slimcc-*")) - b0
            if new:
                time.sleep(.3)
                new = {p for p in new if os.path.exists(p)}
            if new:
                c.violation("debris:" + " ".join(a for a in r[1][1:] if not a.startswith("-fuse")) + f" fault={x['fault']}",
                            {"command": r[1][1:], "left behind": sorted(new), "failing call": x["fault"], "how": r[2]})
                for p in new:
                    os.unlink(p)
                if len(c.violations) >= 5:
                    break
        for p in left:
            if os.path.exists(p) and os.path.isfile(p):
                os.unlink(p)
    c.extra["runs_with_fault"] = sum(1 for x in recs if x["fault"])
    c.extra["runs_expected_to_fail"] = sum(1 for x in recs if x["rc"])
    c.samples += [{"items": [i.get("path", i.get("lang")) for i in x["case"]["items"]], "mode": x["case"]["mode"], "fault": x["fault"], "rc": x["rc"], "calls": x["calls"], "files": x["files"]} for x in recs[:6]]
    c.assumptions.append("the assembler and linker are stand-ins that write their output only when they succeed; the compiler itself is not killed by signals")


if __name__ == "__main__":
    run_check("P07", main)
