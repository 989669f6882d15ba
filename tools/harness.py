"""Runs the bounded harnesses on the real code through go test -overlay."""
import json, os, subprocess, sys, glob, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from expand import expand

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
           GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=mod", GOPROXY="off")


def prepare(work, repo, prop):
    """Writes the overlay; returns its path. Only files that hold tests of prop (and shared files) go in."""
    os.makedirs(work, exist_ok=True)
    rep = {}
    root = os.path.join(VERIF, "harness")
    for f in sorted(glob.glob(root + "/internal/zzh/*.go")):
        rep[os.path.join(repo, "internal/zzh", os.path.basename(f))] = f
    for f in sorted(glob.glob(root + "/root/*.go")):
        b = os.path.basename(f)
        text = open(f).read()
        if b.endswith("_tmpl.go"):
            for v, t in expand(text).items():
                n = b.replace("_tmpl.go", "_v%s_test.go" % v)
                p = os.path.join(work, n)
                open(p, "w").write(t)
                rep[os.path.join(repo, "zz_verif_" + n)] = p
        else:
            rep[os.path.join(repo, "zz_verif_" + b)] = f
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    return ov


def run(prop, repo, work, tier, seed, timeout):
    ov = prepare(work, repo, prop)
    out = os.path.join(work, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(ENV, ZZH_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier)
    cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "%ds" % timeout, "-run", "^TestVerif%s([A-Z].*)?$" % prop, "."]
    try:
        p = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True, timeout=timeout + 120)
        rc, txt = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        rc, txt = 124, "timeout: %s" % e
    res = [json.load(open(f)) for f in sorted(glob.glob(out + "/*.json"))]
    return {"rc": rc, "log": txt, "results": res, "cmd": " ".join(cmd)}


if __name__ == "__main__":
    import tempfile
    prop = sys.argv[1]
    repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    w = tempfile.mkdtemp(prefix="zzh.")
    r = run(prop, repo, w, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), 600)
    print(r["log"][:3000], "\n...\n", r["log"][-3000:])
    for x in r["results"]:
        print(x["test"], x["evaluations"], x["distinct"], x["n_failures"])
        for f in (x["failures"] or [])[:int(os.environ.get("NF", "4"))]:
            print("  ", f["key"], "|", f["input"][-700:], "|", f["msg"][:700])
    shutil.rmtree(w)
    sys.exit(r["rc"])
