#!/usr/bin/env python3
"""Planting bugs.  plant.py new FILE...   makes seeded/<id>/ from definitions and verifies each
                  plant.py verify [ID...]  verifies planted bugs in a scratch copy
                  plant.py check [ID...]   runs the property's quick check against each
A definition file is Python calling bug(id, property, [(file, old, new)...], needs, breaks, demo)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
W = "/tmp/plant"
DEMO = """#!/bin/bash
# cwd: the source tree, built in _build
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -g -w -fpermissive -DSTREAMS_EXPORT= -Iinclude -I_build/include -Ilib -I_build/lib "$here/demo.cpp" _build/lib/libstreamsstatic.a -lz -lbz2 -llzma -lpthread -o "$tmp/demo"
cd "$tmp"
timeout 100 ./demo
"""
PRE = '#include "demo.h"\n'


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tree(name, patch=None):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True)
    if patch:
        r = run(["git", "apply", patch], cwd=d)
        if r.returncode:
            return None, "patch does not apply: " + r.stdout.decode()
    env = dict(os.environ, CC="gcc", CXX="g++")
    r = run(["bash", "-c", "cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error && ninja -C _build"], cwd=d, env=env)
    if r.returncode:
        return None, "build failed: " + r.stdout.decode()[-2000:]
    return d, ""


def demo(d, sid):
    t = os.path.join(W, "demo-" + sid)
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(S, sid), t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = run(["bash", os.path.join(t, "demo.sh")], cwd=d, timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout.decode(errors="replace")[-400:]


def verify(sid):
    base = os.path.join(W, "base")
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.decode()
    if not os.path.exists(base + ".head") or open(base + ".head").read() != head:
        d, e = tree("base")
        assert d, e
        open(base + ".head", "w").write(head)
    rc, out = demo(base, sid)
    if rc:
        return f"demo fails on the unchanged tree ({rc}): {out}"
    d, e = tree("bug-" + sid, os.path.join(S, sid, "patch.diff"))
    try:
        if not d:
            return e
        r = run(["ctest", "--test-dir", "_build", "-j8", "--timeout", "120"], cwd=d)
        if r.returncode:
            return "tests fail: " + r.stdout.decode()[-900:]
        rc, out = demo(d, sid)
        if rc == 0:
            return "demo passes with the bug"
        return f"OK (demo {rc}: {out.strip()[-160:]})"
    finally:
        shutil.rmtree(os.path.join(W, "bug-" + sid), ignore_errors=True)


def bug(sid, prop, edits, needs, breaks, code, keep=False):
    d = os.path.join(W, "edit")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    run(f"git -C /repo archive HEAD | tar x -C {d} && git init -q {d} && git -C {d} add -A && git -C {d} -c user.name=a -c user.email=a@b commit -qm x", shell=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p, encoding="latin-1").read()
        if s.count(old) != 1:
            print(sid, f, "old text found", s.count(old), "times")
            return
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    o = os.path.join(S, sid)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "wb").write(run(["git", "-C", d, "diff"]).stdout)
    shutil.rmtree(d)
    open(os.path.join(o, "demo.sh"), "w").write(DEMO)
    open(os.path.join(o, "demo.cpp"), "w").write(PRE + code.lstrip("\n"))
    shutil.copy(os.path.join(V, "tools", "demo.h"), os.path.join(o, "demo.h"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    print(sid, verify(sid), flush=True)


def check(sid, tier="quick"):
    prop = json.load(open(os.path.join(S, sid, "meta.json")))["property"]
    if prop not in json.load(open(os.path.join(V, "checks.json"))):
        return "no check of " + prop
    d = os.path.join(W, "chk")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True)
    r = run(["git", "apply", os.path.join(S, sid, "patch.diff")], cwd=d)
    if r.returncode:
        return "patch does not apply"
    r = run([sys.executable, os.path.join(V, "run.py"), prop, "--repo", d, "--tier", tier], cwd=V)
    shutil.rmtree(d)
    out = r.stdout.decode(errors="replace")
    hit = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return f"{prop} exit {r.returncode} {'CAUGHT ' + hit[0] if r.returncode == 1 and hit else 'MISSED ' + out[-300:]}"


os.makedirs(W, exist_ok=True)
a = sys.argv[1:]
if a[0] == "new":
    for f in a[1:]:
        exec(compile(open(f).read(), f, "exec"))
else:
    for sid in a[1:] or sorted(os.listdir(S)):
        print(sid, verify(sid) if a[0] == "verify" else check(sid, "thorough" if a[0] == "thorough" else "quick"), flush=True)
