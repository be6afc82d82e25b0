"""Builds and confirms planted bugs. python3 tools/plant.py SPECS.py   (a file that defines BUGS, a list of dicts)

Each dict: id, prop, edits [(file, old, new)...], needs, breaks, demo (python code using demolib), or code edited in by hand.
A bug is kept only if it applies, passes the stable tests, and its demo tells the two trees apart."""
import json, os, shutil, subprocess, sys, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
TESTS = sorted({"tests/" + s.split("::")[0].split("tests.", 1)[1].replace(".", "/") + ".py" for s in STABLE})
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$(realpath "$0")")/demo.py"\n'


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout,
                          env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"})


def tests_pass(tree):
    x = "/tmp/plant/junit.xml"
    sh(f"GIT_CONFIG_GLOBAL=/dev/null PYTHONPATH={tree} /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors"
       f" -o junit_family=xunit2 --junitxml={x} {' '.join(t for t in TESTS if os.path.exists(tree + '/' + t))}", tree)
    sh(f"python3 /opt/vp/results.py /tmp/plant/out.json junit:{x}", tree)
    d = json.load(open("/tmp/plant/out.json"))
    passed = set(d.get("passed", []))
    return STABLE - passed


def one(b):
    tree = f"/tmp/plant/{b['id']}"
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    for f, old, new in b["edits"]:
        p = f"{tree}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT NOT UNIQUE", s.count(old), repr(old[:80]))
            return False
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
    dst = f"{V}/seeded/{b['id']}"
    new_dir = f"/tmp/plant/{b['id']}.seed"
    shutil.rmtree(new_dir, ignore_errors=True)
    os.makedirs(new_dir)
    open(f"{new_dir}/patch.diff", "w").write(diff)
    open(f"{new_dir}/demo.py", "w").write("from demolib import *\n" + b["demo"].lstrip("\n"))
    open(f"{new_dir}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{new_dir}/demo.sh", 0o755)
    shutil.copy(f"{V}/tools/demolib.py", new_dir)
    shutil.copy(f"{V}/stubs/conda/models/match_spec.py", new_dir)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{new_dir}/meta.json", "w"), indent=1)
    # my own fix lines must not be the only thing touched
    missing = tests_pass(tree)
    r0 = sh(f"bash {new_dir}/demo.sh", "/repo")
    r1 = sh(f"bash {new_dir}/demo.sh", tree)
    ok = not missing and r0.returncode == 0 and r1.returncode != 0
    print(f"{b['id']}: tests-missing={sorted(missing)[:3]} demo clean={r0.returncode} patched={r1.returncode} -> {'KEPT' if ok else 'REJECTED'}")
    if r0.returncode:
        print("   clean:", (r0.stdout + r0.stderr)[-500:])
    else:
        print("   patched:", (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    if ok:
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(new_dir, dst)
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(new_dir, ignore_errors=True)
    return ok


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if not only or b["id"] in only:
            one(b)
