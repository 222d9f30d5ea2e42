"""Shared machinery: build slimcc from /repo's working tree, run TLC on a spec, run cases in
parallel, report violations and write evidence.  Exit codes: 0 held, 1 + VIOLATION line, 2 error."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class ModelError(Exception):
    pass


def sh(cmd, timeout=30, cwd=None, env=None, inp=None):
    """Run; returns (rc, stdout, stderr) as bytes; rc 'timeout' -> -999."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout,
                           stdin=None if inp is not None else subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, e.stdout or b"", e.stderr or b""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}:{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(self._cleanup)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (key, dict)
        self.known_hit = {}
        self.known = load_known(pid)
        self.notes = []

    def _cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    # ---- building the implementation -------------------------------------------------
    def build(self, name="impl", cflags=None):
        """Copy /repo's sources to scratch and make slimcc there. Returns the binary's path."""
        d = self.path(name)
        os.makedirs(d)
        for f in os.listdir(REPO):
            if f in (".git", "_build", "test", "slimcc") or f.startswith("slimcc-") or f.endswith(".o"):
                continue
            s = os.path.join(REPO, f)
            t = os.path.join(d, f)
            if os.path.isdir(s) and not os.path.islink(s):
                shutil.copytree(s, t, symlinks=True)
            else:
                shutil.copy2(s, t, follow_symlinks=False)
        if not os.path.exists(os.path.join(d, "platform.c")):
            os.symlink("platform/linux-glibc-generic.c", os.path.join(d, "platform.c"))
        env = dict(os.environ)
        for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS"):
            env.pop(k, None)
        cmd = ["make", "-j8", "CC=gcc"]
        if cflags:
            cmd.append("CFLAGS=" + cflags)
        rc, out, err = sh(cmd + ["slimcc"], timeout=300, cwd=d, env=env)
        if rc != 0:
            print(err.decode(errors="replace")[-3000:])
            raise ModelError("slimcc does not build")
        self.cc = os.path.join(d, "slimcc")
        return self.cc

    # ---- TLC --------------------------------------------------------------------------
    def tlc(self, module, cases=None, constants=None, init="Init", next="Next", spec=None, invariants=(),
            constraint=None, properties=(), workers=None, simulate=None, depth=None, timeout=600, env=None,
            deadlock=False, heap="6g", postcondition=None, view=None, count=True, action_constraint=None,
            symmetry=None, quiet=False):
        """Run TLC; returns the records printed with PrintT(ToJson(..)) / Emit, in print order."""
        d = tempfile.mkdtemp(dir=self.scratch, prefix="tlc-")
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        e = dict(os.environ)
        if env:
            e.update(env)
        if cases is not None:
            cp = os.path.join(d, "cases.json")
            with open(cp, "w") as f:
                json.dump(cases, f)
            e["CASES"] = cp
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next}"]
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                cfg.append(f"  {k} = {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if view:
            cfg.append(f"VIEW {view}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, f"-Xmx{heap}", "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        t = time.time()
        rc, out, err = sh(cmd, timeout=timeout, cwd=d, env=e)
        txt = out.decode(errors="replace")
        recs = []
        for line in txt.split("\n"):
            if line.startswith('"{') or line.startswith('"['):
                try:
                    recs.append(json.loads(json.loads(line)))
                except ValueError:
                    raise ModelError("unparsable TLC record: " + line[:300])
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", txt)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        elif simulate:
            m = re.findall(r"(\d[\d,]*) states checked", txt) or re.findall(r"number of states generated: (\d+)", txt)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        if rc != 0:
            tail = "\n".join(l for l in txt.split("\n") if not l.startswith('"{'))
            k = tail.find("Error:")
            tail = tail[k:k + 3000] if k >= 0 else tail[-3000:]
            raise ModelError(f"TLC failed on {module} rc={rc}\n{tail}\n{err.decode(errors='replace')[-500:]}")
        if count:
            self.states += dist
            self.transitions += gen
        if not quiet:
            self.log(f"TLC {module}: {gen} generated, {dist} distinct, {len(recs)} records, {time.time()-t:.1f}s")
        shutil.rmtree(d, ignore_errors=True)
        return recs

    # ---- parallel ----------------------------------------------------------------------
    def pmap(self, fn, items, workers=None):
        with cf.ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(fn, items))

    # ---- verdict -----------------------------------------------------------------------
    def violation(self, key, info, files=None):
        """key identifies the failing input; info is a dict that lets a reader replay it."""
        for k, desc in self.known.items():
            if key == k or (k.endswith("*") and key.startswith(k[:-1])):
                self.known_hit.setdefault(k, desc)
                return
        if len(self.violations) < 50:
            self.violations.append((key, info, files or {}))

    def finish(self):
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.pid + "-"):
                shutil.rmtree(os.path.join(rd, f), ignore_errors=True)
        cov = {}
        if self.level == "model_checking":
            cov = {"states": self.states, "transitions": self.transitions,
                   "traces_validated_against_impl": self.traces, "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, desc in self.known.items():
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {desc}")
        if self.violations:
            for n, (key, info, files) in enumerate(self.violations[:10]):
                p = os.path.join(rd, f"{self.pid}-{n}")
                os.makedirs(p)
                with open(os.path.join(p, "info.json"), "w") as f:
                    json.dump({"property": self.pid, "key": key, **info}, f, indent=1, default=str)
                for fn, data in files.items():
                    with open(os.path.join(p, fn), "wb" if isinstance(data, bytes) else "w") as f:
                        f.write(data)
                print(f"VIOLATION property={self.pid} replay={p}")
                print("  " + key[:200])
                print("  " + json.dumps(info, default=str)[:600])
            sys.exit(1)
        self.log(f"held: {self.traces} traces, {self.states} states")
        sys.exit(0)


def load_known(pid):
    """known_findings.txt lines: 'known: property=<id> key=<key> :: <description>'."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def run_check(pid, main, level="model_checking"):
    c = Check(pid, level)
    try:
        main(c)
        c.finish()
    except SystemExit:
        raise
    except ModelError as e:
        print(f"ERROR {pid}: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]
