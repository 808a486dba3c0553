"""Build and run the FDTD C library under sanitizers, from /repo's current tree.

The library is compiled (outside /repo) together with driver.c and the GSL
stand-in; each case is one process with its own scratch directory, because the
library keeps all its state in globals and writes files into the current
directory."""
import hashlib
import os
import shutil
import subprocess
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "openms", "lib", "fdtd")
DRV = os.path.join(HERE, "fdtd")
FLAGS = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all"],
}


class BuildError(RuntimeError):
    pass


def sources():
    out = []
    for n in sorted(os.listdir(SRC)):
        if n.endswith(".c") and "wrap" not in n:
            out.append(os.path.join(SRC, n))
    return out


def _key(kind):
    h = hashlib.sha256(kind.encode())
    files = [os.path.join(SRC, n) for n in sorted(os.listdir(SRC)) if n.endswith((".c", ".h"))]
    files += [os.path.join(d, n) for d, _, ns in sorted(os.walk(DRV)) for n in sorted(ns)]
    for p in files:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(" ".join(FLAGS[kind]).encode())
    return h.hexdigest()[:20]


def build(kind="asan"):
    """Compile; the result is cached under the temporary directory by content."""
    root = os.path.join(tempfile.gettempdir(), f"vp-fdtd-{os.getuid()}")
    os.makedirs(root, exist_ok=True)
    exe = os.path.join(root, f"{kind}-{_key(kind)}")
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="b", dir=root)
    base = ["clang", "-w", "-g", "-O1", "-fno-omit-frame-pointer", "-I" + DRV, "-I" + SRC]
    if kind == "asan":
        base += ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2"]
    base += FLAGS[kind]
    jobs = []
    objs = []
    for s in sources() + [os.path.join(DRV, "driver.c"), os.path.join(DRV, "gslstub.c")]:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append((s, subprocess.Popen(base + ["-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    bad = []
    for s, p in jobs:
        _, err = p.communicate()
        if p.returncode:
            bad.append(s + ": " + err[-600:])
    if not bad:
        r = subprocess.run(base + objs + ["-lm", "-o", os.path.join(tmp, "drv")], capture_output=True, text=True)
        if r.returncode:
            bad.append(r.stderr[-1000:])
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("\n".join(bad))
    os.replace(os.path.join(tmp, "drv"), exe)
    shutil.rmtree(tmp, ignore_errors=True)
    return exe


class Run:
    """Result of one script."""

    def __init__(self, rc, err, d):
        self.rc, self.err, self.dir = rc, err, d
        self.val = {}
        p = os.path.join(d, "out.txt")
        if os.path.exists(p):
            with open(p) as f:
                for ln in f:
                    w = ln.split()
                    if len(w) == 2:
                        self.val[w[0]] = float(w[1])

    @property
    def sane(self):
        return self.rc == 0 and "END" in self.val

    def report(self):
        keep = [ln for ln in self.err.splitlines() if ln.strip()]
        return f"exit status {self.rc}: " + " | ".join(keep[:14])[:1500]

    def arrays(self, name):
        out = {}
        with open(os.path.join(self.dir, name), "rb") as f:
            while True:
                h = f.readline()
                if not h:
                    break
                nm, *sh = h.decode().split()
                sh = tuple(int(x) for x in sh)
                out[nm] = np.frombuffer(f.read(4 * int(np.prod(sh))), np.float32).reshape(sh).astype(float)
        return out

    def table(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return [[float(x) for x in ln.split()] for ln in f if ln.split()]

    def text(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))


class session:
    """with session() as s: r = s.run(lines)  -> scratch directories are removed."""

    def __enter__(self):
        self.dirs = []
        return self

    def __exit__(self, *a):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, lines, kind="asan", files=None, timeout=240):
        exe = build(kind)
        d = tempfile.mkdtemp(prefix="vp-fdtd-run-")
        self.dirs.append(d)
        with open(os.path.join(d, "script"), "w") as f:
            f.write("\n".join(lines) + "\n")
        for n, txt in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(txt)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", MSAN_OPTIONS="exitcode=97")
        p = subprocess.run([exe, "script"], cwd=d, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout)
        return Run(p.returncode, p.stderr.decode(errors="replace"), d)
