#!/usr/bin/env python3
"""Makes one seeded bug: seed.py FILE.py, where FILE.py sets id, prop, edits=[(file, old, new[, nth])], demo (rust source), needs, breaks.
Works in a scratch copy of /repo; keeps the bug under /verif/seeded/<id> only if everything is confirmed."""
import os, sys, subprocess, json, shutil
SCR = "/tmp/seedwt"
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# exit 0: the library behaves; 1: it does not
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
ext=""
for c in protobuf bzip2; do ext="$ext --extern $c=$(ls -t target/debug/deps/lib$c-*.rlib | head -1)"; done
rustc --edition 2024 -A warnings "$here/demo.rs" -o "$out/demo" -L dependency=target/debug/deps --extern osmio=target/debug/libosmio.rlib $ext || exit 1
cd "$out" && timeout 60 ./demo
'''
def tests(cwd, name):
    rc, o = sh("bash /opt/vp/build.sh > /dev/null 2>&1; echo $?", cwd)
    rc, o2 = sh("cargo build --offline 2>&1 | tail -3; cargo test --offline 2>&1 | grep -E 'test result|FAILED|failed|error' | head", cwd)
    return o2
def main():
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for s in (g["seeds"] if "seeds" in g else [g]):
            one(s)
def one(s):
    if not os.path.isdir(SCR):
        sh("cp -a /repo %s" % SCR)
    sh("git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", SCR)
    if sh("git rev-parse HEAD", SCR)[1] != sh("git rev-parse HEAD", "/repo")[1]:
        sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD", SCR)
    d = "/tmp/seeding/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.rs", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(s.get("sh", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("cargo build --offline 2>&1 | tail -3", SCR)
    rc, o = sh("bash %s/demo.sh" % d, SCR)
    if rc != 0:
        print("%s: demo fails on the unchanged tree: %s" % (s["id"], o[-800:])); return
    for e in s["edits"]:
        p = os.path.join(SCR, e[0])
        t = open(p).read()
        n = e[3] if len(e) > 3 else None
        if n is None:
            if t.count(e[1]) != 1:
                print("%s: %d matches in %s of %r" % (s["id"], t.count(e[1]), e[0], e[1][:60])); return
            t = t.replace(e[1], e[2])
        else:
            parts = t.split(e[1])
            if len(parts) <= n + 1:
                print("%s: only %d matches" % (s["id"], len(parts) - 1)); return
            t = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
        open(p, "w").write(t)
    rc, diff = sh("git diff", SCR)
    open(d + "/patch.diff", "w").write(diff)
    rc, o = sh("cargo build --offline 2>&1 | grep -E '^error' -A6 | head -20", SCR)
    if o.strip():
        print("%s: does not build: %s" % (s["id"], o)); return
    rc, o = sh("cargo test --offline 2>&1 | grep -E 'FAILED|^error' | head", SCR)
    if o.strip():
        print("%s: tests notice: %s" % (s["id"], o[:500])); return
    rc, o = sh("bash %s/demo.sh" % d, SCR)
    sh("git checkout -q -- .", SCR)
    if rc == 0:
        print("%s: the demo does not notice: %s" % (s["id"], o[-300:])); return
    dst = "/verif/seeded/" + s["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print("%s: kept (demo: %s)" % (s["id"], o.strip().splitlines()[-1][:120] if o.strip() else rc))
main()
