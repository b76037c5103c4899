#!/usr/bin/env python3
"""Create and validate planted bugs.

seedtool.py make SPEC.py...   each SPEC defines SEEDS: list of dicts(id, prop, pkg, edits, test, needs, breaks, [race])
seedtool.py check [ID...]     validate (applies, builds, tests pass, demo) and run every check against each
"""
import json, os, subprocess, sys, shutil, tempfile, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off")

def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

def copyrepo():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(f"cp -a /repo/. {d}/", "/")
    return d

def make(spec):
    s = importlib.util.spec_from_file_location("spec", spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for x in m.SEEDS:
        d = copyrepo()
        try:
            for f, old, new in x["edits"]:
                p = os.path.join(d, f); t = open(p).read()
                n = t.count(old)
                if n != 1: raise SystemExit(f"{x['id']}: {f}: {n} matches of {old!r}")
                open(p, "w").write(t.replace(old, new))
            sh("gofmt -l . ", d)
            rc, out = sh("git diff", d)
            o = os.path.join(SEED, x["id"]); os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(out)
            open(os.path.join(o, "demo_test.go"), "w").write(x["test"].lstrip("\n"))
            pkg = x.get("pkg", "."); flags = "-race " if x.get("race") else ""
            open(os.path.join(o, "demo.sh"), "w").write(f"""#!/bin/sh
# Runs with cwd = the repository; exits nonzero if the behaviour is broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$(pwd)" "$here" > "$tmp/overlay.json"
timeout 240 go test {flags}-vet=off -overlay "$tmp/overlay.json" -run TestDemo -count=1 ./{pkg}
""")
            json.dump({"property": x["prop"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(d)

def check(ids, allchecks=True):
    for i in ids or sorted(os.listdir(SEED)):
        o = os.path.join(SEED, i); meta = json.load(open(os.path.join(o, "meta.json")))
        d = copyrepo(); msg = []
        try:
            rc, out = sh(f"sh {o}/demo.sh", d)
            if rc: msg.append("DEMO FAILS ON BASE\n" + out[-1500:])
            rc, out = sh(f"git apply {o}/patch.diff", d)
            if rc: msg.append("DOES NOT APPLY " + out)
            rc, out = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1", d)
            if rc: msg.append("BUILD/TESTS " + out[-1500:])
            rc, out = sh(f"sh {o}/demo.sh", d)
            if not rc: msg.append("DEMO PASSES WITH PATCH")
            elif "--- FAIL" not in out and "panic" not in out and "DATA RACE" not in out: msg.append("DEMO ODD " + out[-1500:])
            ev = tempfile.mkdtemp(prefix="ev.", dir="/tmp")
            shutil.copy(os.path.join(ROOT, "known-findings.txt"), ev) if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else None
            env = dict(ENV, VERIF_REPO=d, VERIF_DIR=ev)
            rc, out = sh(f"{ROOT}/checker/bin/chk check " + ("all" if allchecks else meta["property"]), d, env=env)
            shutil.rmtree(ev)
            viol = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
            ok = meta["property"] in viol
            print(f"{i}: {'CAUGHT' if ok else 'MISSED'} ({meta['property']}) violations: {viol} {'; '.join(msg)}", flush=True)
            if os.environ.get("V"):
                print("\n".join(l[:300] for l in out.splitlines() if "rule" in l or "UNDEC" in l))
        finally:
            shutil.rmtree(d)

if sys.argv[1] == "make":
    for s in sys.argv[2:]: make(s)
else:
    check(sys.argv[2:])
