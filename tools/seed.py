"""seed.py SPEC.py... : makes seeded/<id>/ from a spec and confirms it (tests pass, demo discriminates), then runs checks.

A spec file holds one or more blocks `seed(id, property, edits=[(file, old, new)], demo=..., needs=..., breaks=...)`.
seed.py --run [ID...]: run the checks against existing planted changes.
"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "965d368"
PY = "/opt/venv/bin/python"
SPECS = []


def seed(id, property, edits, demo, needs, breaks):
    SPECS.append((id, property, edits, demo, needs, breaks))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def clean():
    sh(f"git -C {REPO} checkout -- .")
    if os.path.exists(REPO + "/result.xml"):
        os.remove(REPO + "/result.xml")


def tests_ok():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    a = json.load(open("/tmp/seed_t.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    missing = set(b["stable"]) - set(a["passed"])
    return missing


def check(pid):
    env = dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1")
    try:
        r = sh([PY, "mc/run.py", pid], cwd=ROOT, env=env, timeout=900)
    except subprocess.TimeoutExpired:
        return "timeout"
    line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    return f"rc={r.returncode} " + (line[0] if line else "") + " | " + (r.stdout.strip().splitlines() or [""])[-1][:150] + r.stderr[-200:]


def demo(d):
    return sh(["bash", d + "/demo.sh"], cwd=REPO, timeout=300)


def confirm(d, pid, others=()):
    out = []
    r0 = demo(d)
    if r0.returncode:
        print("   DEMO FAILS ON CLEAN TREE", r0.stdout[-500:], r0.stderr[-800:])
        return False
    r = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
    if r.returncode:
        print("   PATCH DOES NOT APPLY", r.stderr)
        return False
    try:
        missing = tests_ok()
        r1 = demo(d)
        ok = not missing and r1.returncode != 0
        print("   tests", "ok" if not missing else f"BROKEN {sorted(missing)[:5]}", "| demo", "ok" if r1.returncode else "PASSES WITH PATCH", (r1.stdout + r1.stderr).strip()[-60:].replace("\n", " / "))
        for p in (pid, *others):
            print("   check", p, check(p))
    finally:
        clean()
    return ok


def main():
    args = sys.argv[1:]
    assert not sh(f"git -C {REPO} status --short").stdout.strip()
    if args and args[0] == "--run":
        for i in args[1:] or sorted(os.listdir(ROOT + "/seeded")):
            d = f"{ROOT}/seeded/{i}"
            pid = json.load(open(d + "/meta.json"))["property"]
            print(i)
            confirm(d, pid)
        return
    for a in args:
        exec(open(a).read(), {"seed": seed})
    for id, pid, edits, text, needs, breaks in SPECS:
        print(id, pid)
        d = f"{ROOT}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        try:
            bad = False
            for f, old, new in edits:
                p = f"{REPO}/{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    print("   EDIT does not match once:", f, s.count(old), old[:80])
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                shutil.rmtree(d)
                continue
            diff = sh(f"git -C {REPO} diff").stdout
            added = [l for l in own_lines(diff)]
            if added:
                print("   NOTE: touches only lines of own commits?", added[:4])
            open(d + "/patch.diff", "w").write(diff)
        finally:
            clean()
        open(d + "/demo.py", "w").write(text.lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if not confirm(d, pid):
            shutil.rmtree(d)
            print("   REMOVED")


def own_lines(diff):
    """Removed/context-changed lines which do not exist in the original repository."""
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            orig = sh(f"git -C {REPO} show {BASE}:{f}").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in orig:
                yield l


main()
