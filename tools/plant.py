"""Development aid for /verif/seeded: tools/plant.py SPEC.py...   (no check uses it)

SPEC.py defines ID, PROP, EDITS [(file, old, new), ...], NEEDS, BREAKS and DEMO (a Python program).  The edit is made in a scratch copy
of /repo; patch, demo and meta are written to seeded/<ID>, the demo is run on both trees and the property's check on the changed one."""
import json, os, runpy, shutil, subprocess, sys, tempfile, time

BASE = os.environ.get("PLANT_BASE", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(spec, checks=None):
    s = runpy.run_path(spec)
    d = os.path.join(ROOT, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    w = os.path.join(wt, "repo")
    shutil.copytree(BASE, w, symlinks=True)
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(w, f)
            t = open(p, "rb").read()
            if b"\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = t.count(old.encode())
            assert n == 1, (s["ID"], f, n)
            open(p, "wb").write(t.replace(old.encode(), new.encode()))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        for name in s.get("FILES", []):
            shutil.copy(name, os.path.join(d, os.path.basename(name)))
        open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0 when the behaviour is right\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg REPO="$PWD"\n'
            'work="$(mktemp -d)"; trap \'rm -rf "$work"\' EXIT\nexport PYSCF_TMPDIR="$work"\ncd "$work" || exit 2\n'
            '/opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=BASE)
        r0 = sh(["bash", os.path.join(d, "demo.sh")], env=env, cwd=BASE)
        env["PYTHONPATH"] = w
        r1 = sh(["bash", os.path.join(d, "demo.sh")], env=env, cwd=w)
        t = time.time()
        out = {}
        for pid in (checks or s.get("CHECKS") or [s["PROP"]]):
            r = sh(["bash", os.path.join(ROOT, "run.sh"), pid, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_NOEVIDENCE="1"))
            vio = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            out[pid] = (r.returncode, len(vio))
        ok = r0.returncode == 0 and r1.returncode != 0
        print(f"{s['ID']:28s} demo clean={r0.returncode} patched={r1.returncode} {'ok' if ok else 'BAD DEMO'}  checks {out} {time.time()-t:.0f}s", flush=True)
        if not ok:
            print("  clean:", (r0.stdout + r0.stderr)[-600:], "\n  patched:", (r1.stdout + r1.stderr)[-600:])
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        one(a)
