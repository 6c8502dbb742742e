"""tools/tryref.py GROUP [CHECK...]: apply a behaviour-preserving group of edits
to a scratch copy of /repo, build, run the tests and the checks (all by default)."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
import refactors
PY = "/opt/venv/bin/python"
name, checks = sys.argv[1], sys.argv[2:]
t = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
try:
    r, v = t + "/r", t + "/v"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    os.mkdir(v)
    for x in ("vf", "props", "check", "known_findings.jsonl", "properties.jsonl", "MANIFEST.json"):
        subprocess.run(["cp", "-a", "/verif/" + x, v], check=True)
    pyx = False
    for path, old, new in refactors.GROUPS[name]:
        p = os.path.join(r, path)
        s = open(p).read()
        s = refactors.apply(s, old, new)
        if s is None:
            print("EDIT", path, repr(old[:70])); sys.exit(1)
        open(p, "w").write(s)
        pyx |= path.endswith("pyx")
    env["PYTHONPATH"] = r
    if pyx:
        subprocess.run("rm -rf build pvtrace/engine/_kernel.c pvtrace/engine/*.so", shell=True, cwd=r)
        b = subprocess.run([PY, "-m", "pvtrace.engine.build"], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: print("BUILD FAILS", b.stdout[-1500:], b.stderr[-1500:]); sys.exit(1)
    b = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=r, env=env, capture_output=True, text=True)
    print(name, "tests:", b.stdout.strip().splitlines()[-1], flush=True)
    if not checks:
        checks = [c["property"] if "property" in c else c["id"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    env.update(VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
    for c in checks:
        s = time.time()
        b = subprocess.run(["./check", c], cwd=v, env=env, capture_output=True, text=True)
        d = "/tmp/refout/%s-%s" % (name, c); shutil.rmtree(d, ignore_errors=True)
        if b.returncode or " 0 fallbacks" not in b.stdout: os.path.isdir(v + "/out") and shutil.copytree(v + "/out", d)
        out = [l for l in b.stdout.splitlines() if "FAIL" in l or "INCONC" in l or "VIOLATION" in l or "fallback" in l.lower()]
        last = b.stdout.strip().splitlines()[-1:] or [b.stderr[-300:]]
        print(name, c, "rc=%d" % b.returncode, "(%ds)" % (time.time() - s), last[0][:160], flush=True)
        for l in out[:6]: print("     ", l[:260], flush=True)
finally:
    shutil.rmtree(t)
