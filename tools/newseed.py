"""newseed.py SPEC: SPEC is a python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go test source)."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
shutil.rmtree("/tmp/seed", ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", "/tmp/seed"])
for f, a, b in ns["EDITS"]:
    p = "/tmp/seed/" + f
    s = open(p).read()
    n = s.count(a)
    if n != 1:
        sys.exit("%s: %d occurrences of %r" % (f, n, a[:80]))
    open(p, "w").write(s.replace(a, b))
open(d + "/demo_test.go", "w").write(ns["DEMO"])
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
r = subprocess.run(["bash", "/verif/tools/mkseed.sh", ns["ID"]]).returncode
if r not in (0, 1):
    print("rc", r)
    shutil.rmtree(d)
