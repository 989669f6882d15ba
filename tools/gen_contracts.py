"""Expands contracts_tmpl/*.go into contracts/openapi3 and contracts/openapi31 (same contract for both versions)."""
import glob, os
from expand import expand
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(V + "/contracts_tmpl/*.go")):
    for v, t in expand(open(f).read()).items():
        d = "openapi3" if v == "30" else "openapi31"
        t = t.replace("package openapi3\n", "package %s\n" % d, 1)
        open("%s/contracts/%s/%s" % (V, d, os.path.basename(f)), "w").write("// Generated by tools/gen_contracts.py from contracts_tmpl. DO NOT EDIT.\n\n" + t)
