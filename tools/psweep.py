"""psweep.py [-j N] [seed names or patch files ...] : applies each seeded bug in scratch copies of /repo and /verif (under
/tmp/psweep.PID, removed afterwards), runs the check of its property there (or with -p all the checks of the given
properties) and prints what it said. Never touches /repo."""
import sys, os, json, subprocess, shutil, threading, queue, time
args = sys.argv[1:]
J = 4
props = None
while args and args[0].startswith("-"):
    if args[0] == "-j":
        J = int(args[1])
    if args[0] == "-p":
        props = args[1].split(",")
    args = args[2:]
V = "/verif"
seeds = args or sorted(os.listdir(V + "/seeded"))
q = queue.Queue()
for s in seeds:
    q.put(s)
lock = threading.Lock()


def worker(k):
    base = "/tmp/psweep.%d/%d" % (os.getpid(), k)
    subprocess.run(["rm", "-rf", base])
    os.makedirs(base)
    subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"], check=True)
    shutil.copytree(V, base + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "facts*.json"))
    for c in ("probe", "witness", "export"):
        p = "%s/verif/%s/Cargo.toml" % (base, c)
        t = open(p).read().replace('"/repo', '"%s/repo' % base).replace("../../repo", base + "/repo")
        open(p, "w").write(t)
    while True:
        try:
            s = q.get_nowait()
        except queue.Empty:
            break
        patch = os.path.abspath(s) if s.endswith((".diff", ".patch")) else "%s/seeded/%s/patch.diff" % (V, s)
        ps = props or [json.load(open("%s/seeded/%s/meta.json" % (V, s)))["property"]]
        r = subprocess.run(["git", "-C", base + "/repo", "apply", patch], capture_output=True, text=True)
        if r.returncode:
            with lock:
                print(s, "does not apply", flush=True)
            continue
        for p in ps:
            t0 = time.time()
            env = dict(os.environ, VERIF_REPO=base + "/repo")
            r = subprocess.run(["python3", "check.py", p], cwd=base + "/verif", env=env, capture_output=True, text=True)
            out = r.stdout.replace(base, "")
            name = os.path.basename(s)
            open("/tmp/psweep.%s.%s.log" % (name, p), "w").write(out + r.stderr)
            with lock:
                print("%s %s rc=%d %d viol %ds %s" % (name, p, r.returncode, out.count("\nVIOLATION"), time.time() - t0, out.strip().splitlines()[-1][:110] if out.strip() else r.stderr[-200:]), flush=True)
        subprocess.run(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
    subprocess.run(["rm", "-rf", base])


ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(J, len(seeds)))]
for t in ts:
    t.start()
for t in ts:
    t.join()
