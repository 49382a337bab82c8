#!/usr/bin/env python3
"""Writes MANIFEST.json: which property is claimed, by what."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAW = ("abstract interpretation of MIR (forward value-flow to a fixpoint) deciding algebraic laws",
       "Every statement of every law is decided for all arguments at once, with all branches joined and loops taken to a fixpoint; nothing is run and no paths are enumerated. Trusted: the summaries of std/library functions in engine/prims.py and probe/src/models.rs, rustc's MIR, and the canonical loop forms (engine/ai.py). What the analysis cannot decide is reported in the evidence as undecided and does not raise an alarm.")
DOC = ("abstract interpretation of MIR (value-flow with loops peeled on document shapes) deciding reader laws",
       "Each law fixes the shape of a document (which elements, attributes and children follow each other) and leaves every value in it arbitrary; the whole reader is interpreted abstractly over it, all branches joined, so the verdict holds for all values at once but only for the listed shapes. Nothing is run and no paths are handed to a solver. Trusted: rustc's MIR, the models of the XML parser, Vec, String and Option methods (engine/prims.py, engine/docs.py), and the laws as written.")
PBF = ("abstract interpretation of MIR (value-flow with loops peeled on message shapes) deciding reader laws",
       "Each law fixes the shape of a file (blobs, groups, how many elements and which optional parts are there) and leaves every number and string in it arbitrary; the whole reader, from its next() down to the message fields, is interpreted abstractly over it, so the verdict holds for all values at once but only for the listed shapes. Nothing is run and no paths are handed to a solver. Trusted: rustc's MIR, the models of byteorder, flate2, protobuf's parse_from_bytes (which field is which is C18's business) and of Vec, VecDeque, Option (engine/prims.py, engine/pbf.py), and the laws as written.")
CLAIMED = {
    "C13": PBF, "C14": PBF, "C15": PBF, "C16": PBF, "C17": PBF, "C19": PBF, "C27": PBF,
    "C10": DOC, "C11": DOC, "C12": DOC, "C22": DOC, "C23": DOC,
    "C01": LAW, "C02": LAW, "C03": LAW, "C04": LAW, "C20": LAW, "C21": LAW, "C28": LAW,
    "C05": LAW, "C06": LAW, "C07": LAW, "C08": LAW, "C09": LAW,
    "C25": ("abstract interpretation of MIR with a typestate of database, transaction and reader",
            "The export program's main is interpreted from the compiler's MIR for every outcome of every database, JSON and reader call (any number of changesets, errors at any point); every open, begin, insert, commit and return is an obligation. Nothing is run. Trusted: rustc's MIR, the meaning of rusqlite's functions written down in engine/sql.py (a transaction dropped without a commit is rolled back), SQLite itself; C23 covers the reader."),
    "C26": ("abstract interpretation of MIR: reachability of panics",
            "Every path of the writers, the changeset readers, the conversions and the accessors is interpreted for arbitrary arguments; a panic, an index outside its list or a division by zero on a path whose facts are satisfiable is reported, confirmed by a random interpretation of the path's facts. Nothing is run. Trusted: rustc's MIR, the library summaries; panics inside the standard library and third-party crates are seen only where a summary names them (unwrap, expect, indexing, RefCell is not)."),
    "C18": ("abstract interpretation of MIR of the generated message code against the published schema",
            "Every merge_from, is_initialized, accessor and empty instance of every message type is interpreted abstractly for streams which hold each known field (plain, packed, alone, twice, over older values, unreadable, all fields in both orders) and every unknown tag the code or the first 40 field numbers name; the values are arbitrary. Nothing is run. Trusted: rustc's MIR, the summaries of CodedInputStream's read functions in engine/messages.py, the schema written down there.",),
    "C24": ("type-level witness crate (auto traits decided by the compiler)",
            "Complete for the listed types: the compiler derives Send/Sync from the field types in the current source. Trusted: rustc; unsafe impls would be accepted as they are."),
}
EXTRA = os.path.join(HERE, "tools", "claims.json")
if os.path.exists(EXTRA):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {
    "C40": "Needs bounds on the rounding error of decimal text and floating point for every coordinate: a numeric property of run-time values which no dataflow rule in reach decides.",
    "C41": "Bounds on memory, integer overflow and indices depend on untrusted run-time values of the file (varints, delta sums, declared sizes), which no sound static argument in reach bounds for this code without rejecting the unchanged tree.",
    "C42": "Time and memory as functions of the input size are quantitative run-time properties; there is no static cost analysis for Rust here.",
    "C43": "The behaviour of the third-party XML parsers (quick-xml, xml-rs) on every document; their source is outside the repository and the XML standard is no property of this code's structure.",
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        t, n = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "Not claimed yet: the check for it is being built.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the analysis reads the unmodified source through the compiler's intermediate representation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
