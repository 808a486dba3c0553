"""Development aid: runs the check of each planted bug's property (and the listed related ones) on a scratch copy with the bug, writes
tools/caught.json.  No check uses it."""
import json, os, glob, shutil, subprocess, sys, tempfile
BASE = os.environ.get("PLANT_BASE", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(ROOT, "tools", "caught.json")
res = json.load(open(out)) if os.path.exists(out) else {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    i = os.path.basename(d)
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    if not sys.argv[1:] and i in res:
        continue
    wt = tempfile.mkdtemp(prefix="catch.", dir="/tmp")
    w = os.path.join(wt, "repo")
    try:
        shutil.copytree(BASE, w, symlinks=True)
        subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
        got = []
        for pid in [json.load(open(os.path.join(d, "meta.json")))["property"]]:
            r = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), pid, "--tier", "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_NOEVIDENCE="1"))
            fam = sorted({x.split("family=")[1].split()[0] for x in r.stdout.splitlines() if "family=" in x and "monitor=" in x})
            if r.returncode == 1:
                got.append(pid + " (" + ", ".join(fam) + ")")
        res[i] = got or ["missed"]
        print(i, res[i], flush=True)
        json.dump(res, open(out, "w"), indent=1)
    finally:
        shutil.rmtree(wt)
