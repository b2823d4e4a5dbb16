#!/usr/bin/env python3
"""Plants bugs: edits a scratch copy of /repo, confirms build, tests and demo there, and writes /verif/seeded/<id>/.
usage: seedlab.py FILE.py [id...]   (FILE.py defines SEEDS: id -> dict(prop, edits, demo, needs, breaks))"""
import json, os, subprocess, sys, shutil
W = "/tmp/seedlab_w"
PRE = '''#!/bin/bash
# exit 0: behaves as it should; the current directory is the built repository
set -u
BIN=$PWD/target/debug/reqtrace
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 99
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
S = ns["SEEDS"]
want = sys.argv[2:] or list(S)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
if not os.path.exists(W):
    sh(f"cp -a /repo {W}")
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="")
def build():
    return sh("rm -rf target/debug/.fingerprint/reqtrace-*; cargo test --workspace --no-run --offline", cwd=W, env=env)
def reset():
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
reset()
os.makedirs("/tmp/seedlab_d", exist_ok=True)
demos = {}
for i in want:
    d = f"/tmp/seedlab_d/{i}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(PRE + S[i]["demo"].lstrip("\n"))
    for n, c in S[i].get("files", {}).items(): open(f"{d}/{n}", "w").write(c)
assert build().returncode == 0
for i in want:
    r = sh(f"bash /tmp/seedlab_d/{i}/demo.sh", cwd=W)
    demos[i] = r.returncode
    if r.returncode: print(i, "demo fails on the unchanged tree", r.returncode, r.stdout[-500:], r.stderr[-500:])
for i in want:
    if demos[i]: continue
    reset()
    s = S[i]
    ok = True
    for f, old, new in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(old) != 1: print(i, "edit matches", t.count(old), repr(old)); ok = False; break
        open(f"{W}/{f}", "w").write(t.replace(old, new))
    if not ok: continue
    b = build()
    if b.returncode: print(i, "does not build", b.stderr[-1500:]); continue
    sh("rm -rf tests/*/out tests/data/*/out", cwd=W)
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=W, env=env)
    failed = [l for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    if failed: print(i, "tests fail:", failed); continue
    r = sh(f"timeout 100 bash /tmp/seedlab_d/{i}/demo.sh", cwd=W)
    if r.returncode == 0: print(i, "demo does not notice"); continue
    out = f"{os.environ.get('VERIF', '/verif')}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    for n in os.listdir(f"/tmp/seedlab_d/{i}"): shutil.copy(f"/tmp/seedlab_d/{i}/{n}", f"{out}/{n}")
    open(out + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print(i, "ok", (r.stdout + r.stderr).strip()[-150:].replace("\n", " | "))
reset()
