"""refac.py FILE.py [-j N] [-n names]: FILE defines R = [(name, props, [(file, old, new), ...]), ...]: edits of /repo that
keep its behaviour. Each is applied in a scratch copy (/tmp/refwt), built and tested there, kept as a patch under
/tmp/refac, and the checks of its properties have to stay quiet on it (tools/psweep.py)."""
import sys, os, subprocess, runpy
f = sys.argv[1]
J = sys.argv[sys.argv.index("-j") + 1] if "-j" in sys.argv else "4"
names = sys.argv[sys.argv.index("-n") + 1].split(",") if "-n" in sys.argv else None
R = runpy.run_path(f)["R"]
W = "/tmp/refwt"
if not os.path.isdir(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"], check=True)
subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
os.makedirs("/tmp/refac", exist_ok=True)
groups = {}
for name, props, edits in R:
    if names and name not in names:
        continue
    ok = True
    for fn, old, new, *nth in edits:
        p = "%s/src/%s" % (W, fn)
        t = open(p).read()
        if nth and nth[0] == "all":
            assert old in t, (name, old[:60])
            open(p, "w").write(t.replace(old, new))
            continue
        if nth:
            parts = t.split(old)
            assert len(parts) > nth[0] + 1, (name, old[:60])
            open(p, "w").write(old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:]))
            continue
        if t.count(old) != 1:
            print(name, "anchor", fn, "found", t.count(old), "times:", old[:60])
            ok = False
            break
        open(p, "w").write(t.replace(old, new))
    if ok:
        r = subprocess.run("cargo test --offline --all-features 2>&1 | grep -E '^error|test result|FAILED|panicked' -A6 | head -30", shell=True, cwd=W, capture_output=True, text=True)
        if "error" in r.stdout or "FAILED" in r.stdout or "panicked" in r.stdout:
            b = subprocess.run("cargo test --offline 2>&1 | tail -30", shell=True, cwd=W, capture_output=True, text=True)
            print(name, "DOES NOT PASS", b.stdout[-1500:])
            ok = False
    if ok:
        d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
        open("/tmp/refac/%s.diff" % name, "w").write(d)
        groups.setdefault(props, []).append("/tmp/refac/%s.diff" % name)
        print(name, "ok", flush=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
for props, fs in groups.items():
    if props:
        r = subprocess.run(["python3", "/verif/tools/psweep.py", "-j", J, "-p", props] + fs, capture_output=True, text=True)
        for l in r.stdout.splitlines():
            if " rc=0 " in l and " 0 undecided, 0 violated" in l:
                good = globals().get("good", 0) + 1
            else:
                print(l[:190], flush=True)
print(globals().get("good", 0), "checks hold on every statement")
