"""check.py PROPERTY: proves the property's contracts on /repo's current source with govc and replays the bounded
harness of the property on the real code. Exit 0: held; exit 1: VIOLATION line; exit 2: the check could not be made."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import harness
from claims import CLAIMS

REPO = os.environ.get("VERIF_REPO", "/repo")


def build():
    bin_ = os.path.join(VERIF, "bin", "govc")
    srcs = glob.glob(os.path.join(VERIF, "govc", "*.go"))
    if os.path.exists(bin_) and all(os.path.getmtime(s) <= os.path.getmtime(bin_) for s in srcs):
        return bin_
    p = subprocess.run(["bash", os.path.join(VERIF, "tools", "setup.sh")], capture_output=True, text=True)
    if p.returncode != 0:
        print("cannot build govc:", p.stdout, p.stderr)
        sys.exit(2)
    return bin_


def prove(bin_, prop, work):
    out = os.path.join(work, "govc.json")
    cmd = [bin_, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", out]
    p = subprocess.run(cmd, capture_output=True, text=True, env=harness.ENV, cwd=VERIF)
    rep = json.load(open(out)) if os.path.exists(out) else None
    return {"rc": p.returncode, "log": p.stdout + p.stderr, "rep": rep, "cmd": "bin/govc -repo %s -contracts contracts -prop %s" % (REPO, prop)}


def known(prop):
    r = []
    for l in open(os.path.join(VERIF, "known_findings")):
        m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", l.strip())
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3)))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    claim = CLAIMS[prop]
    t0 = time.time()
    bin_ = build()
    work = tempfile.mkdtemp(prefix="verif.%s." % prop)
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            fp = ex.submit(prove, bin_, prop, work) if claim.get("proof", True) else None
            fh = ex.submit(harness.run, prop, REPO, os.path.join(work, "h"), tier, seed, 250 if tier == "quick" else 600) if claim.get("harness", True) else None
            pr, hr = fp and fp.result(), fh and fh.result()
        sys.exit(report(prop, tier, seed, claim, pr, hr, outdir, t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, tier, seed, claim, pr, hr, outdir, t0):
    kf = known(prop)
    hits = {}
    fails = []   # failing inputs
    if hr:
        for res in hr["results"]:
            for f in res["failures"] or []:
                key = res["test"].replace("TestVerif", "") + ": " + f["key"]
                k = [x for x in kf if x[0] == key or x[0] == key + " | " + f["input"]]
                if k:
                    hits[k[0][0]] = k[0][1]
                    continue
                fails.append(dict(f, test=res["test"], key=key))
    undone = []
    obls = good = 0
    if pr:
        if pr["rep"] is None:
            print(pr["log"])
            if hr and fails:
                pr["rep"] = {"results": [], "problems": [], "wall_s": 0}
            else:
                print("check error: govc gave no report")
                return 2
        for p in pr["rep"]["problems"] or []:
            undone.append({"func": "", "name": "contract does not fit", "status": "error", "msg": p["msg"]})
        for r in pr["rep"]["results"]:
            for o in r["obligations"] or []:
                obls += 1
                if o["status"] in ("proved", "covered"):
                    good += 1
                else:
                    undone.append(dict(o, func=r["func"]))
        if obls == 0 and not undone:
            print("check error: no obligations for", prop)
            return 2
    if hr and not hr["results"] and not fails:
        print(hr["log"][-3000:])
        print("check error: the bounded harness did not run")
        if not undone:
            return 2
    if hr and hr["rc"] != 0 and not fails and not hits:
        print(hr["log"][-3000:])
        print("check error: the bounded harness failed without an input")
        if not undone:
            return 2
    n = 0
    for key, text in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, text))
    if fails:
        n = len(fails)
        path = os.path.join("out", prop, "replay.json")
        json.dump({"property": prop, "kind": "failing input on the real code", "failures": fails, "failed_obligations": undone,
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 tools/harness.py %s" % (seed, tier, prop)}, open(os.path.join(VERIF, path), "w"), indent=1, ensure_ascii=False)
        for f in fails[:5]:
            print("failing input [%s]: %s\n  %s" % (f["key"], f["input"][-1500:], f["msg"][:1500]))
        for u in undone[:10]:
            print("failed obligation: %s: %s (%s)" % (u["func"], u["name"], u["status"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif undone:
        n = len(undone)
        path = os.path.join("out", prop, "replay.json")
        json.dump({"property": prop, "kind": "failed proof obligations, no failing input found", "failed_obligations": undone, "verifier_output": pr["log"][-20000:],
                   "rerun": pr["cmd"]}, open(os.path.join(VERIF, path), "w"), indent=1, ensure_ascii=False)
        for u in undone[:20]:
            print("failed obligation: %s: %s (%s) %s" % (u["func"], u["name"], u["status"], (u.get("msg") or "")[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    evidence(prop, tier, seed, claim, pr, hr, obls, good, n, t0)
    if n:
        return 1
    print("%s held: %d/%d obligations discharged%s, %.1f s" % (prop, good, obls, ", %d bounded evaluations" % sum(r["evaluations"] for r in hr["results"]) if hr else "", time.time() - t0))
    return 0


def evidence(prop, tier, seed, claim, pr, hr, obls, good, n, t0):
    cov = {}
    assume = list(claim.get("assume", []))
    if pr and pr["rep"]:
        rs = pr["rep"]["results"]
        by = {}
        st = 0.0
        covers = 0
        inl, used, ass = set(), set(), set()
        for r in rs:
            for o in r["obligations"] or []:
                by[o.get("solver") or "none"] = by.get(o.get("solver") or "none", 0) + 1
                st += o["time_s"]
                covers += 1 if o.get("cover") else 0
            inl |= set(r.get("inlined") or [])
            used |= set(r.get("uses") or [])
            ass |= set(r.get("assumptions") or [])
        assume += sorted(ass)
        cov.update({
            "obligations": obls, "discharged": good,
            "vacuity_covers": covers,
            "functions_under_contract": [r["func"] for r in rs],
            "functions_executed_inline": sorted(inl),
            "contracts_and_models_used": sorted(used),
            "trusted_contracts": pr["rep"].get("trusted") or [],
            "by_backend": by, "solver_time_s": round(st, 3), "verifier_wall_s": round(pr["rep"]["wall_s"], 2),
            "checker_cmd": pr["cmd"],
            "trusted_base": ["govc (/verif/govc): the SSA execution and obligation generator", "golang.org/x/tools/go/ssa", "z3 / z3-new / cvc5",
                             "contract texts in /verif/contracts and the models of external functions used"] + sorted(u for u in used if "model" in u),
        })
    if hr:
        rs = hr["results"]
        cov.update({
            "bounded": True if not pr else "the harness part only",
            "evaluations": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial": sum(r["distinct"] for r in rs),
            "rule": "; ".join(sorted({r["rule"] for r in rs})),
            "samples": [s for r in rs for s in (r["samples"] or [])[-2:]][:6],
        })
    cov["explanation"] = claim["explanation"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": claim["level"], "coverage": cov, "assumptions": assume,
               "wall_s": round(time.time() - t0, 2), "violations": n}, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)


main()
