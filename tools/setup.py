"""setup_cmd: parse every specification once, so that a broken toolchain or module shows up early."""
import os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = os.path.join(V, "spec")
import tempfile, atexit, shutil
T = tempfile.mkdtemp(prefix="vf-setup-", dir="/tmp")
atexit.register(shutil.rmtree, T, True)
bad = 0
for f in sorted(os.listdir(d)):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + T, "-cp", JAR, "tla2sany.SANY", f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            bad = 1
            print(f, p.stdout.decode()[-2000:])
sys.exit(bad)
