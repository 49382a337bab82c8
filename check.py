#!/usr/bin/env python3
"""check.py <property> : decides one property from the source in /repo. See DESIGN.md."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, subprocess, time, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NIGHTLY = "nightly"


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("MIRDUMP") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    return env


class Env:
    """what rules which compile crates need"""
    @staticmethod
    def compile_crate(name, toolchain=NIGHTLY):
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, name)
        d = os.path.join(HERE, name)
        os.utime(os.path.join(d, "src", "lib.rs"))
        return sh(["cargo", "+" + toolchain, "check", "--offline", "--message-format", "human", "--color", "never"], env, d)


sys.modules["check_env"] = Env


def build_driver():
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = sh(["cargo", "+" + NIGHTLY, "build", "--offline"], env, os.path.join(HERE, "driver"))
    if rc != 0:
        print(out[-3000:])
        raise SystemExit("the analysis driver does not build")
    return os.path.join(BUILD, "driver", "debug", "mirdump")


def dump(what="probe"):
    """the facts (types and MIR) of the probe crate and everything it reaches in /repo's current source"""
    drv = build_driver()
    rc, root = sh(["rustc", "+" + NIGHTLY, "--print", "sysroot"])
    out = os.path.join(BUILD, "facts-%s-%d.json" % (what, os.getpid()))
    env = cargo_env()
    env.update({
        "CARGO_TARGET_DIR": os.path.join(BUILD, what),
        "LD_LIBRARY_PATH": root.strip() + "/lib",
        "RUSTC_WORKSPACE_WRAPPER": drv,
        "MIRDUMP_CRATE": what,
        "MIRDUMP_OUT": out,
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings",
    })
    src = os.path.join(HERE, what)
    if os.path.exists(os.path.join(src, "src", "lib.rs")):
        os.utime(os.path.join(src, "src", "lib.rs"))
    else:
        # the crate's source is a program of /repo: compile it again without touching it
        sh(["cargo", "+" + NIGHTLY, "clean", "--offline", "-p", what], env, src)
    rc, log = sh(["cargo", "+" + NIGHTLY, "check", "--offline"], env, src)
    if rc != 0:
        return None, log
    try:
        F = json.load(open(out))
    except OSError:
        return None, log + "\nno facts written"
    os.unlink(out)
    return F, log


def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def expect():
    """writes engine/expected.json: the statements every law gets to on the unchanged tree"""
    import props, laws
    F, log = dump("probe")
    out = {}
    for key in props.LAWS:
        d = {}
        for r in props.run_laws(F, key, "quick"):
            d[props.short(r["law"])] = sorted(set(l for l, _, _ in r["obligations"]))
        out[key] = d
    with open(os.path.join(HERE, "engine", "expected.json"), "w") as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write("\n")
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "--setup":
        F, log = dump("probe")
        print("facts: %s" % (len(F["instances"]) if F else log[-500:]))
        return 0
    if sys.argv[1] == "--expect":
        return expect()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import props
    rep = props.decide(prop, tier, dump, REPO, HERE)
    kn = known(prop)
    new = []
    seen = set()
    for f in rep["findings"]:
        f["key"] = next((a for a in sorted(f.pop("alts", ())) if a in kn), f["key"])
        if f["key"] in kn:
            if f["key"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[f["key"]]))
        elif f["key"] not in seen:
            new.append(f)
        seen.add(f["key"])
    cov = rep["coverage"]
    cov["known_findings_seen"] = sorted(k for k in seen if k in kn)
    cov["known_findings_not_seen"] = sorted(k for k in kn if k not in seen)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": rep["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev["violations"] = len(new)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    rd = os.path.join(HERE, "evidence", "replay")
    for i, f in enumerate(new):
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (prop, i))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1, sort_keys=True)
            fh.write("\n")
        if i < 12:
            print("  %s" % f["key"])
            print("    %s" % str(f.get("why"))[:600])
            for w in (f.get("where") or [])[:4]:
                print("    in %s" % w)
            print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s: %s" % (prop, rep["summary"]))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
