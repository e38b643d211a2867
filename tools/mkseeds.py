#!/opt/venv/bin/python
"""mkseeds.py [ID...]: writes seeded/<id>/ from seeds.py and confirms each in a scratch copy of /repo.

Every change has to replace lines of the original commit, build, pass the stable tests and be shown by its demo."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
BASE = "f7d6fa9"
D = "/tmp/seedrepo"
sh = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
shutil.rmtree(D, ignore_errors=True); sh("cp", "-a", "/repo", D)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
only = sys.argv[1:]
bad = []
for s in SEEDS:
    if only and not any(re.fullmatch(o, s["id"]) for o in only):
        continue
    sh("git", "-C", D, "checkout", "-q", "--", ".")
    out = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    edits = s["edits"]
    for f, old, new in edits:
        p = os.path.join(D, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        t = t.replace(old, new)
        open(p, "w").write(t)
    patch = sh("git", "-C", D, "diff").stdout
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    # at least one removed or neighbouring line is original
    base_lines = set()
    for f, _, _ in edits:
        base_lines |= {l.strip() for l in sh("git", "-C", D, "show", f"{BASE}:{f}").stdout.splitlines()}
    removed = [l[1:].strip() for l in patch.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    ours = [l for l in removed if l not in base_lines]
    demo = s["demo"]
    open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
    files = [f for f in ("shell.py", "lstmop.py") if "from " + f[:-3] in demo]
    for f in files:
        shutil.copy(os.path.join(HERE, f), out)
    open(os.path.join(out, "demo.sh"), "w").write(
        "#!/bin/bash\n# exit 0: the property holds on the demonstrated input\n"
        "here=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD/core:$PWD/inference_engine:$here\"\n"
        "tmp=$(mktemp -d)\ntrap 'rm -rf \"$tmp\"' EXIT\nexport DEMO_TMP=\"$tmp\"\n"
        "exec /opt/venv/bin/python \"$here/demo.py\"\n".replace("exec ", ""))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    r1 = sh("bash", os.path.join(out, "demo.sh"), cwd=D)
    sh("git", "-C", D, "checkout", "-q", "--", ".")
    r0 = sh("bash", os.path.join(out, "demo.sh"), cwd=D)
    sh("git", "-C", D, "apply", os.path.join(out, "patch.diff"))
    # stable tests against the scratch copy
    passed = set()
    env = dict(os.environ, PYTHONPATH=f"{D}/core:{D}/inference_engine", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
    for proj, args in (("core", ["tests"]), ("inference_engine", ["test", "--ignore=test/layers_/test_tflite/test_Logistic.py", "--ignore=test/model"])):
        r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-rA", *args, cwd=os.path.join(D, proj), env=env)
        passed |= {re.split(r"\s", l.split(" ", 1)[1])[0] for l in r.stdout.splitlines() if l.startswith("PASSED ")}
    n = len(passed)
    ok = r0.returncode == 0 and r1.returncode != 0 and n >= len(stable) and len(ours) < max(1, len(removed))
    print(("ok  " if ok else "BAD ") + s["id"], "demo", r0.returncode, r1.returncode, "tests", n, "removed", len(removed), "ours", ours[:3])
    if not ok:
        bad.append(s["id"]); print(r0.stderr[-600:], r1.stdout[-300:], r1.stderr[-600:])
shutil.rmtree(D)
sys.exit(bool(bad))
