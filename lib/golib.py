"""Builds and runs goan (the SSA interpreter over the Go command line tool) and turns its obligations into a Check."""
import json, os, shutil, subprocess, tempfile
import vf

REPO = os.environ.get("VERIF_REPO", "/repo")


def run(prop, rule, explanation, floors, trusted=None):
    ck = vf.Check(prop, rule, explanation, trusted or [
        "go/ssa's translation of the source", "library calls have the effects named in goan's tables and no others",
        "the paths of a loop are followed until their states repeat; states are merged where the rule's notes agree"])
    d = tempfile.mkdtemp(prefix="goan")
    try:
        shutil.copytree(os.path.join(vf.ROOT, "goan"), d + "/src")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")
        b = subprocess.run(["go", "build", "-o", d + "/goan", "."], cwd=d + "/src", env=env, capture_output=True, text=True)
        if b.returncode:
            raise RuntimeError("goan does not build: " + b.stderr[-1500:])
        r = subprocess.run([d + "/goan", REPO, prop], capture_output=True, text=True, timeout=840, cwd=d,
                           env=dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off"))
        if r.returncode:
            raise RuntimeError("goan did not complete: " + r.stderr[-1500:])
        out = json.loads(r.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    kinds = {}
    for o in out["obligations"] or []:
        k = o["key"]
        if o["ok"]:
            ck.ok(k, o["sample"] or None)
        else:
            ck.fail(k, o["where"], o["msg"])
        w = k.replace("windows: ", "").split()[0]
        kinds[w] = kinds.get(w, 0) + 1
    for k, n in out["counts"].items():
        ck.count(k, n)
    for k, n in kinds.items():
        ck.count("obligation kind: " + k, n)
    for k, n in floors.items():
        ck.floor(k, n)
    return ck
