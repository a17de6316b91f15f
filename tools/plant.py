"""plant.py SPEC...: makes /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy.

A spec is a python file defining ID, PROP, FILE, EDITS (list of (old, new)), NEEDS, BREAKS, DEMO (python source)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")


def main(spec, runtests=True):
    g = {}
    exec(open(spec).read(), g)
    edits = g["EDITS"]
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    w = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "pyoptmat"], check=True)
    for e in edits:
        f, o, n = e if len(e) == 3 and e[0].endswith(".py") else (g["FILE"], *e[-2:])
        p = os.path.join(w, "pyoptmat", f)
        s = open(p).read()
        if len(e) == 3 and not e[0].endswith(".py"):  # (after, old, new): the first occurrence after a marker
            k = s.index(o, s.index(e[0]))
            open(p, "w").write(s[:k] + n + s[k + len(o):])
            continue
        if s.count(o) != 1:
            print(g["ID"], "edit matches", s.count(o), "times:", o[:60])
            shutil.rmtree(d)
            return False
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    out = os.path.join(SEED, g["ID"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(g["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    a = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=w, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(g["ID"], "demo:", a.returncode, b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:][0:1], "" if ok else "BAD " + a.stderr[-600:])
    if ok and runtests:
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--disable-warnings", "test"],
                           cwd=w, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=w))
        last = t.stdout.strip().splitlines()[-1]
        print("   tests:", last)
        ok = "355 passed" in last and "failed" not in last
    r = subprocess.run(["python3", "check.py", g["PROP"]], cwd=VERIF, env=dict(os.environ, SA_REPO=w), capture_output=True, text=True) if os.path.exists(f"{VERIF}/checks/{g['PROP'].lower()}.py") else None
    if r:
        L = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATED" in l] or (r.stdout + r.stderr).splitlines()[-3:]
        print("   check", g["PROP"], "rc", r.returncode, L[0][:230])
    shutil.rmtree(d)
    if not ok:
        print("   REJECTED", g["ID"])
        shutil.rmtree(out)
    return ok


if __name__ == "__main__":
    for s in sys.argv[1:]:
        main(s)
