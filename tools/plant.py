"""Make /verif/seeded/<id>/ from a description: python tools/plant.py FILE.py [id ...]

FILE.py defines BUGS: a list of dicts with id, property, edits [(path, old, new)], demo (Python text),
needs, breaks. Every bug is tried in a scratch copy: the patch must apply, the stable tests pass, and
the demonstration exit 0 without and nonzero with it."""
import json, os, runpy, shutil, subprocess, sys, tempfile

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
wt = tempfile.mkdtemp(prefix="plant-")
subprocess.run(["cp", "-a", "/repo", wt + "/repo"], check=True)
repo = wt + "/repo"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
env["PYTHONPATH"] = repo


def sh(*a, **k):
    return subprocess.run(a, cwd=repo, env=env, capture_output=True, text=True, **k)


try:
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh("git", "checkout", "-q", "--", ".")
        d = f"{root}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n# cwd: the repository under test\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
            'export PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        ok = sh("bash", d + "/demo.sh")
        why = []
        if ok.returncode:
            why.append("demo fails unpatched: " + ok.stdout[-300:] + ok.stderr[-500:])
        for path, old, new in b["edits"]:
            s = open(f"{repo}/{path}").read()
            if s.count(old) != 1:
                why.append(f"{path}: {s.count(old)} matches of {old[:60]!r}")
                continue
            open(f"{repo}/{path}", "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "diff").stdout)
        base = sh("git", "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
        for path in {e[0] for e in b["edits"]}:
            own = {int(w.split(") ")[0].rsplit(None, 1)[-1]) for w in sh("git", "blame", "-s", "HEAD", "--", path).stdout.splitlines()
                   if not w.startswith("^") and not base.startswith(w.split()[0])}
            line = None
            for w in sh("git", "diff", "-U0", path).stdout.splitlines():
                if w.startswith("@@"):
                    line = int(w.split()[1][1:].split(",")[0])
                elif w.startswith("-") and not w.startswith("---"):
                    if line in own:
                        why.append(f"{path}:{line} is a line of ours")
                    line += 1
        bad = sh("bash", d + "/demo.sh")
        if bad.returncode == 0:
            why.append("demo passes patched")
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", ".")
        if t.returncode:
            why.append("tests: " + t.stdout[-400:])
        if subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode:
            why.append("patch does not apply")
        print(b["id"], b["property"], "OK" if not why else "BAD " + " | ".join(why), "--", (bad.stdout + bad.stderr).strip().splitlines()[-1:], flush=True)
        if why:
            shutil.rmtree(d)
finally:
    shutil.rmtree(wt, ignore_errors=True)
