"""Which laws and rules decide which property."""
import os, multiprocessing, json, time
import laws, hooks, xmlout, docs, pbf, messages, sql

LAWS = {
    "C01": {"pat": "law_c01_"},
    "C02": {"pat": "law_c02_", "hooks": hooks.fresh_keys},
    "C03": {"pat": "law_c03_"},
    "C04": {"pat": "law_c04_", "by": {"_json_": {"rounds": 40}}},
    "C05": {"pat": "law_c05_", "hooks": xmlout.Out(), "start": xmlout.start(), "events": ("raw",), "panics": False},
    "C06": {"pat": "law_c06_", "hooks": xmlout.Out(), "start": xmlout.start("start", ()), "events": ("markup", "dup", "whole", "raw"), "panics": False},
    "C07": {"pat": "law_c07_", "hooks": xmlout.Out(track=False), "start": xmlout.start(), "panics": False},
    "C08": {"pat": "law_c08_", "hooks": xmlout.Out(), "start": xmlout.start(), "events": ("dup", "whole"), "panics": False},
    "C09": {"pat": "law_c09_", "hooks": xmlout.Out(track=False, fail=True), "start": xmlout.start(), "events": ("afterfail", "short"), "panics": False},
    "C13": {"pat": "law_c13_", "rounds": 64, "panics": False},
    "C14": {"pat": "law_c14_", "rounds": 64, "panics": False},
    "C15": {"pat": "law_c15_", "rounds": 64, "panics": False},
    "C16": {"pat": "law_c16_", "rounds": 64, "panics": False},
    "C17": {"pat": "law_c17_", "rounds": 64, "panics": "_parts"},
    "C19": {"pat": "law_c19_", "rounds": 64, "panics": False},
    "C27": {"pat": "law_c27_", "rounds": 64, "panics": False},
    "C20": {"pat": "law_c20_"},
    "C21": {"pat": "law_c21_", "panics": False},
    "C10": {"pat": "law_c10_", "rounds": 400},
    "C11": {"pat": "law_c11_", "rounds": 400},
    "C12": {"pat": "law_c12_", "hooks": xmlout.Out(), "start": xmlout.start(), "rounds": 64, "events": ("vocab",), "panics": False},
    "C22": {"pat": "law_c22_", "rounds": 16},
    "C23": {"pat": "law_c23_", "rounds": 16},
    "C28": {"pat": "law_c28_"},
}

# C26: the same laws, asked for panics only
PANICS = {"C26/C26": {"pat": "law_c26_", "hooks": xmlout.Out(track=False), "start": xmlout.start(), "bounds": True}}
for _k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C20", "C21", "C22", "C23", "C28"):
    PANICS["C26/" + _k] = dict(LAWS[_k], panics=True, bounds=True)

_F = None
_end = 0
_opts = None


def _one(a):
    name, iid, key = a
    left = _end - time.time()
    return laws.run(_F, name, iid, opts_of(key), int(max(3, min(150, left))))


def opts_of(key):
    return LAWS[key] if key in LAWS else PANICS[key]


def run_laws(F, key, tier):
    global _F, _end
    _F = F
    _end = time.time() + 420
    todo = [(n, i, k) for k in ([key] if key in LAWS else sorted(PANICS)) for n, i in F["roots"] if opts_of(k)["pat"] in n]
    with multiprocessing.get_context("fork").Pool(min(8, len(todo) or 1)) as pool:
        return pool.map(_one, todo, chunksize=1)


def decide(prop, tier, dump, repo, here):
    if prop in RULES:
        return RULES[prop](prop, tier, dump, repo, here)
    return decide_laws(prop, tier, dump, repo, here)


def witness(prop, tier, dump, repo, here):
    """C24: a crate which compiles only if the types can cross threads"""
    import subprocess, re, check_env
    rc, out = check_env.compile_crate("witness")
    lines = [l.strip() for l in open(os.path.join(here, "witness", "src", "lib.rs"))]
    obl = [l for l in lines if l.startswith(("shared::<", "carried::<", "t.spawn", "std::thread::spawn"))]
    findings = []
    if rc != 0:
        blocks = re.split(r"\n(?=error)", out)
        for b in blocks:
            if not b.startswith("error"):
                continue
            m = re.search(r"src/lib\.rs:(\d+)", b)
            head = b.splitlines()[0]
            if "could not compile" in head or "aborting" in head:
                continue
            at = lines[int(m.group(1)) - 1] if m and "--> src/lib.rs" in b else "the crates do not compile"
            notes = [l.strip() for l in b.splitlines() if "required because" in l or "within" in l or "note:" in l][:8]
            findings.append({"key": at, "why": head + " | " + " | ".join(notes), "where": re.findall(r"--> (\S+)", b)[:6]})
        if not findings:
            findings.append({"key": "the crates do not compile", "why": out[-1500:], "where": []})
    cov = {"explanation": "Type-level witness: the crate /verif/witness demands Send + Sync (auto traits, decided by the compiler from the field types in /repo's current source) of every listed type and moves or borrows them across thread boundaries; it compiles only if all obligations hold.",
           "rule": "every obligation line of witness/src/lib.rs type-checks", "obligations": len(obl), "discharged": len(obl) - min(len(obl), len(findings)), "samples": obl}
    return {"level": "other", "findings": findings, "coverage": cov, "summary": "%d obligations, %d violated" % (len(obl), len(findings))}


def panics(prop, tier, dump, repo, here):
    """C26: no explicit panic is reached in any of the laws about functions which report problems through their value"""
    F, log = dump("probe")
    if F is None:
        return fail(prop, "the laws do not compile against the library", log[-1500:])
    rs = run_laws(F, "C26", tier)
    findings, und, funs, errs, n, ok, samples = {}, [], set(), [], 0, 0, []
    for r in rs:
        funs.update(r["functions"])
        name = short(r["law"])
        if r["error"]:
            errs.append("%s: %s" % (name, r["error"]))
        mine = [o for o in r["obligations"] if o[0].startswith("no panic")]
        n += 1
        ok += not mine and not r["error"]
        if not mine and n % 40 == 1:
            samples.append("%s: no panic is reached" % name)
        for u in r["undecided"]:
            if u["label"].startswith("no panic"):
                und.append("%s: %s (%s)" % (name, u["label"], str(u["why"])[:160]))
        for f in r["findings"]:
            if not f["label"].startswith("no panic"):
                continue
            x = findings.setdefault(f["label"], {"key": f["label"], "why": "%s: %s" % (name, f["why"]), "where": f["where"], "span": f.get("span"), "laws": []})
            x["laws"].append(name)
            x["alts"] = x.get("alts", set(f.get("alts") or ())) & set(f.get("alts") or ())
    cov = {"explanation": "Every law about the writers, the changeset readers, the timestamp, coordinate and type conversions and the object accessors and setters is interpreted abstractly (all arguments arbitrary, all branches joined); a call of a panicking function of core (panic, unwrap, expect, todo, unreachable) in a state whose facts are satisfiable is a violation.",
           "rule": "no panic entry point is reachable from the listed functions under the facts of the path's joined state",
           "laws": len(rs), "obligations": n, "discharged": ok, "undecided": und, "errors": errs, "functions_analysed": len(funs),
           "functions": sorted(x.replace("|", " ") for x in funs), "samples": samples}
    fs = list(findings.values())
    return {"level": "other", "findings": fs, "coverage": cov,
            "summary": "%d laws, %d without a panic, %d undecided, %d panics, %d functions analysed" % (n, ok, len(und) + len(errs), len(fs), len(funs))}


def export(prop, tier, dump, repo, here):
    """C25: the export program, from main, as a typestate over its database and reader calls"""
    F, log = dump("export")
    if F is None:
        errs = [l for l in log.splitlines() if l.startswith("error")]
        return fail(prop, "the export program does not compile", " / ".join(errs[:5]) + "\n" + log[-1500:])
    roots = [(n, i) for n, i in F["roots"] if n == "main"]
    if not roots:
        return fail(prop, "the export program has no main", "no main function among %s" % [n for n, _ in F["roots"]])
    rs = [r for n, i in roots for r in sql.both(F, n, i, 200)]
    return report(prop, rs, here, {
        "explanation": "The MIR of the export program's main and of everything it calls in /repo is interpreted over abstract values, with a typestate of the database connection, its transaction and the reader: each call may succeed or fail, the reader may give any number of changesets, an error or the end at any point. Every open, begin, execute, commit and return is an obligation in every state it is reached in.",
        "rule": "no existing file is opened; one transaction; one row with id and tags of the changeset read last, inside it; commit once, after the end and without an error before it; Ok only after that"})


RULES = {"C25": export, "C26": panics, "C24": witness, "C18": messages.decide}


def short(n):
    return n.replace("laws::", "")


def fail(prop, key, why, level="other"):
    return {"level": level, "findings": [{"key": key, "why": why, "where": []}], "summary": key,
            "coverage": {"explanation": key}}


def decide_laws(prop, tier, dump, repo, here):
    F, log = dump("probe")
    if F is None:
        errs = [l for l in log.splitlines() if l.startswith("error")]
        return fail(prop, "the laws do not compile against the library", " / ".join(errs[:5]) + "\n" + log[-1500:])
    rs = run_laws(F, prop, tier)
    return report(prop, rs, here)


def expected(here, prop):
    p = os.path.join(here, "engine", "expected.json")
    try:
        return json.load(open(p)).get(prop, {})
    except OSError:
        return {}


def report(prop, rs, here, extra=None):
    findings, obs, und, funs, err = [], 0, [], set(), []
    ok = 0
    samples = []
    exp = expected(here, prop)
    seen = {}
    for r in rs:
        funs.update(r["functions"])
        seen[short(r["law"])] = sorted(set(l for l, _, _ in r["obligations"]))
        if r["error"]:
            err.append("%s: %s" % (short(r["law"]), r["error"]))
        for l, v, w in r["obligations"]:
            obs += 1
            ok += v is True
            if len(samples) < 12 and v is True and (obs % 37 == 1):
                samples.append("%s: %s" % (short(r["law"]), l))
        for u in r["undecided"]:
            und.append("%s: %s (%s)" % (short(r["law"]), u["label"], str(u["why"])[:160]))
        for f in r["findings"]:
            findings.append({"key": "%s: %s" % (short(r["law"]), f["label"]), "why": f["why"],
                             "where": f["where"] or [x.replace("|", " (") + ")" for x in r["functions"]][:40], "span": f.get("span")})
    for law, labels in exp.items():
        if law not in seen:
            findings.append({"key": "%s: law not analysed" % law, "why": "the law has disappeared from the analysis", "where": []})
            continue
        r = [x for x in rs if short(x["law"]) == law][0]
        if r["error"]:
            continue
        for l in labels:
            if l not in seen[law] and not r["undecided"]:
                findings.append({"key": "%s: %s" % (law, l), "why": "the law no longer gets to this statement on any path: the call before it never returns", "where": [x.replace("|", " (") + ")" for x in r["functions"]][:40]})
    cov = {
        "explanation": "Each law is a function of the probe crate stating the property for arbitrary arguments; its monomorphised MIR, with everything it calls in /repo's current source, is interpreted over abstract values (forward dataflow to a fixpoint, all branches joined) and the two sides of every statement are compared as values of the arguments. True: equal in every case; an unknown is reported as undecided, not as held.",
        "rule": "laws of %s (%d), statements decided by equality of abstract values" % (prop, len(rs)),
        "laws": len(rs), "obligations": obs, "discharged": ok, "undecided": und, "errors": err,
        "functions_analysed": len(funs), "functions": sorted(x.replace("|", " ") for x in funs),
        "blocks_interpreted": sum(r["steps"] for r in rs),
        "library_functions_taken_as_unknown": sorted(set(k for r in rs for k in r["unmodelled"])),
        "samples": samples or ["%s: %s" % (short(r["law"]), r["obligations"][:1]) for r in rs[:2]],
    }
    if extra:
        cov.update(extra)
    return {"level": "other", "findings": findings, "coverage": cov,
            "summary": "%d laws, %d statements, %d hold, %d undecided, %d violated, %d functions analysed" % (len(rs), obs, ok, len(und) + len(err), len(findings), len(funs))}
