"""
tools/mkseed.py [ID...]: builds /verif/seeded/<ID>/ from tools/seeds.py, and confirms each:
the change applies, the tests pass with it, the demo fails with it and passes without it;
then tells whether the property's check catches it. Works in a scratch copy of /repo.
"""
import json, os, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

DEMO = """#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd /repo
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/python" exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def pytest(repo, venv):
    env = dict(os.environ, PYTHONPATH=f"{repo}/python", PYTHONDONTWRITEBYTECODE="1")
    r = sh([f"/opt/{venv}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
           cwd=f"{repo}/python", env=env)
    return r.returncode == 0, r.stdout[-300:]


def main():
    want = sys.argv[1:]
    base = os.environ.get("VERIF_REPO", "/repo")
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = f"{tmp}/repo"
    rows = []
    try:
        sh(["git", "clone", "-q", base, repo])
        for s in seeds.SEEDS:
            if want and s["id"] not in want and s["property"] not in want:
                continue
            sh(["git", "-C", repo, "checkout", "-q", "--", "."])
            for file, old, new in s["edits"]:
                p = f"{repo}{file}" if file.startswith("/") else f"{repo}/python/moz/l10n/{file}"
                t = open(p, newline="").read()
                assert t.count(old) == 1, (s["id"], file, t.count(old), old)
                open(p, "w", newline="").write(t.replace(old, new))
            diff = sh(["git", "-C", repo, "diff"]).stdout
            assert diff, s["id"]
            out = f"{here}/seeded/{s['id']}"
            os.makedirs(out, exist_ok=True)
            open(f"{out}/patch.diff", "w").write(diff)
            open(f"{out}/demo.sh", "w").write(DEMO)
            os.chmod(f"{out}/demo.sh", 0o755)
            open(f"{out}/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(f"{out}/meta.json", "w"), indent=1)
            clean = sh([f"{out}/demo.sh"], cwd=base)
            dirty = sh([f"{out}/demo.sh"], cwd=repo)
            tests = [pytest(repo, v) for v in ("venv", "venv-noxml")]
            ok = clean.returncode == 0 and dirty.returncode != 0 and all(t[0] for t in tests)
            caught = "-"
            if os.path.exists(f"{here}/mc/checks/{s['property'].lower()}.py") and ok:
                r = sh([f"{here}/run.sh", s["property"]], env=dict(os.environ, VERIF_REPO=repo))
                caught = {0: "MISSED", 1: "caught"}.get(r.returncode, f"error {r.returncode}")
                if r.returncode not in (0, 1):
                    caught += r.stderr[-500:]
                if r.returncode == 1:
                    v = [x for x in r.stdout.splitlines() if x.startswith("  space")]
                    caught += " " + (v[0].strip()[:150] if v else "")
            print(s["id"], s["property"], "valid" if ok else "INVALID", caught, flush=True)
            if not ok:
                print("  clean", clean.returncode, clean.stderr[-600:], "dirty", dirty.returncode)
                for t in tests:
                    if not t[0]:
                        print(t[1])
    finally:
        shutil.rmtree(tmp)


main()
