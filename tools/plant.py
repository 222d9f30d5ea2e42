"""Development aid (no check uses it).
plant.py mut PID FILE OLD NEW   : apply a textual change to a scratch copy of /repo, run PID's quick check on it
plant.py seed ID [--tests] [--check PID...] : apply seeded/ID/patch.diff to a scratch copy; demo before/after, test suite, check
plant.py new ID PID FILE OLD NEW : write seeded/ID/patch.diff from a textual change"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", R + "/.", d], check=True)
    return d


def build(d):
    p = subprocess.run("rm -f slimcc *.o; unset CFLAGS LDFLAGS MAKEFLAGS; make -j8 CC=gcc slimcc", shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(p.stdout.decode()[-2000:])
    return p.returncode == 0


def tests(d):
    s = open("/opt/vp/test.sh").read().replace("/repo", d)
    b = open("/opt/vp/build.sh").read().replace("/repo", d)
    open(d + "/_b.sh", "w").write(b)
    s = s.replace("/opt/vp/build.sh", d + "/_b.sh")
    open(d + "/_t.sh", "w").write(s)
    p = subprocess.run(["bash", d + "/_t.sh", d + "/_o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = json.load(open(d + "/_o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    if isinstance(stable, dict):
        stable = stable.get("passed", list(stable))
    passed = set(o["passed"])
    return [t for t in stable if t not in passed]


def check(d, pid, tier="quick"):
    env = dict(os.environ, VERIF_REPO=d)
    p = subprocess.run([sys.executable, f"{V}/checks/{pid.lower()}.py", tier], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = p.stdout.decode()
    print(f"  check {pid}: rc={p.returncode}", "CAUGHT" if p.returncode == 1 and "VIOLATION" in t else "", t[-700:] if p.returncode else "")
    return p.returncode


def main():
    a = sys.argv[1:]
    if a[0] in ("mut", "new"):
        if a[0] == "new":
            sid = a.pop(1)
        pid, f, old, new = a[1:5]
        d = copy()
        try:
            s = open(f"{d}/{f}").read()
            n = s.count(old)
            if n != 1:
                print("matches:", n)
                return
            open(f"{d}/{f}", "w").write(s.replace(old, new))
            if a[0] == "new":
                p = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE)
                os.makedirs(f"{V}/seeded/{sid}", exist_ok=True)
                open(f"{V}/seeded/{sid}/patch.diff", "wb").write(p.stdout)
                return
            if build(d):
                if "--tests" in a:
                    print("  failing stable tests:", tests(d)[:10])
                for x in pid.split(","):
                    check(d, x)
        finally:
            shutil.rmtree(d)
    elif a[0] == "seed":
        ids = [x for x in a[1:] if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            sd = f"{V}/seeded/{i}"
            meta = json.load(open(sd + "/meta.json"))
            d = copy()
            lay = tempfile.mkdtemp(prefix="lay-", dir="/tmp")
            try:
                for f in os.listdir(sd):
                    if not f.endswith((".diff", ".patch")) and f != "meta.json":
                        shutil.copy(f"{sd}/{f}", lay)
                build(d)
                r0 = subprocess.run(["bash", lay + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                ap = subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d, stderr=subprocess.PIPE)
                if ap.returncode:
                    print(i, "DOES NOT APPLY", ap.stderr.decode()); continue
                ok = build(d)
                r1 = subprocess.run(["bash", lay + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(f"{i} [{meta['property']}] built={ok} demo base={r0.returncode} patched={r1.returncode}", "" if r0.returncode == 0 and r1.returncode else "BAD DEMO " + r0.stdout.decode()[-300:], flush=True)
                if "--notests" not in a:
                    print("  failing stable tests:", tests(d)[:10], flush=True)
                if "--nocheck" not in a:
                    check(d, meta["property"])
            finally:
                shutil.rmtree(d); shutil.rmtree(lay)


main()
