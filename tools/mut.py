#!/usr/bin/env python3
"""mut.py FILE...: quick mutants and refactorings against the checks.
Each FILE defines M: list of (name, prop or None for a behaviour-preserving edit, [(file, old, new)...])."""
import sys, os, subprocess, shutil, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off")
def sh(cmd, cwd, env=ENV):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def run(m):
    name, prop, edits = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); ev = tempfile.mkdtemp(prefix="ev.", dir="/tmp")
    try:
        sh(f"cp -a /repo/. {d}/", "/")
        for f, old, new in edits:
            p = os.path.join(d, f); t = open(p).read()
            n = t.count(old)
            if n < 1: return f"{name}: NOMATCH {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new, 1))
        if os.environ.get("NOTEST"):
            rc, out, tout = 0, "", ""
        else:
          rc, out = sh("go build ./... && go vet . ./trcweb ./eztrc ./cmd/... ./internal/... ", d)
        if rc and "vet:" not in out and "go build" : 
            rc2, out2 = sh("go build ./...", d)
            if rc2: return f"{name}: BUILD {out2[:600]}"
        if not os.environ.get("NOTEST"):
          rc, tout = sh("go test ./... 2>&1 | grep -v 'no test files' | grep -E '^(FAIL|---)' | head -3", d)
        what = "all" if os.environ.get("ALL") or prop is None else prop
        rc, out = sh(f"{os.environ.get('CHK', ROOT + '/checker/bin/chk')} check {what}", d, dict(ENV, VERIF_REPO=d, VERIF_DIR=ev))
        viol = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
        und = [l for l in out.splitlines() if l.startswith("UNDECIDED")]
        if prop is None:
            s = "QUIET" if not viol else "FALSE-ALARM " + ",".join(viol)
        else:
            s = "CAUGHT" if prop in viol else "MISSED"
        s = f"{name}: {s} undecided={len(und)} {'tests-fail' if tout.strip() else ''}"
        if os.environ.get("V") or (prop is None and viol) or (prop is not None and prop not in viol):
            s += "\n" + "\n".join("   " + l[:400] for l in out.splitlines() if " rule " in l or l.startswith(("UNDEC","DBG")))
        return s
    finally:
        shutil.rmtree(d); shutil.rmtree(ev)
ms = []
for f in sys.argv[1:]:
    s = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); ms += m.M
pat = os.environ.get("ONLY")
ms = [m for m in ms if not pat or pat in m[0]]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(run, ms): print(r, flush=True)
