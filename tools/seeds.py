"""Runs the property's check against every planted bug in a scratch copy; writes design/caught.json."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")


def one(n):
    m = json.load(open(f"{SEED}/{n}/meta.json"))
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.run(f"git -C /repo archive HEAD pyoptmat doc $(git -C /repo ls-files 'examples/*.py') | tar x -C {d}; cd {d}; git init -q .; git apply {SEED}/{n}/patch.diff", shell=True, check=True)
    r = subprocess.run(["python3", "check.py", m["property"]], cwd=VERIF, env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
    shutil.rmtree(d)
    o = r.stdout + r.stderr
    L = [l for l in o.splitlines() if "VIOLATED" in l]
    return n, m["property"], r.returncode, (L or o.splitlines()[:1] or [""])[0].strip()


names = sys.argv[1:] or sorted(os.listdir(SEED))
res = {}
cp = f"{VERIF}/design/caught.json"
if os.path.exists(cp):
    res = json.load(open(cp))
with ThreadPoolExecutor(6) as ex:
    for n, p, rc, l in ex.map(one, names):
        print(n, p, rc, l[:200])
        res[n] = "yes: rule " + l.split()[1] if rc == 1 else "no" if rc == 0 else f"no answer ({rc})"
res = {k: v for k, v in sorted(res.items()) if os.path.exists(f"{SEED}/{k}")}
json.dump(res, open(cp, "w"), indent=1)
