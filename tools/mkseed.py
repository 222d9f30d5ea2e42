"""Development aid: mkseed.py ID PID FILE OLD NEW NEEDS BREAKS  < program   writes seeded/ID with a demo that
compiles and runs the program (t.c: exit status 0 = right) with ./slimcc at -O0 and -O1."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, pid, f, old, new, needs, breaks = sys.argv[1:8]
subprocess.run([sys.executable, V + "/tools/plant.py", "new", sid, pid, f, old, new], check=True)
d = f"{V}/seeded/{sid}"
open(d + "/t.c", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles t.c with the compiler under test and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for o in -O0 -O1; do
  ./slimcc $o -o "$t/a" "$d/t.c" || exit 1
  timeout 20 "$t/a" || exit 1
done
''')
json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
