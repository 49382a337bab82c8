B="src/bin/osmio-changeset-tags-to-sqlite.rs"
SH='''#!/bin/bash
# exit 0: the program behaves; 1: it does not
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
CARGO_TARGET_DIR="$out/target" cargo build --offline --features with-changeset-sqlite --bin osmio-changeset-tags-to-sqlite > "$out/log" 2>&1 || { tail -5 "$out/log"; exit 1; }
cd "$out" && python3 "$here/demo.py" "$out/target/debug/osmio-changeset-tags-to-sqlite"
'''
PY='''import sys, os, bz2, sqlite3, subprocess, json
exe = sys.argv[1]
def cs(i, **t):
    return '<changeset id="%d" open="false">%s</changeset>' % (i, "".join('<tag k="%s" v="%s"/>' % kv for kv in t.items()))
def run(items, end="</osm>", db="out.db"):
    open("in.osm.bz2", "wb").write(bz2.compress(("<osm>" + "".join(items) + end).encode()))
    return subprocess.run([exe, "in.osm.bz2", db], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
def rows(db="out.db"):
    c = sqlite3.connect(db)
    try:
        return sorted((i, json.loads(t)) for i, t in c.execute("select id, other_tags from changeset_tags"))
    except sqlite3.OperationalError:
        return []
def fresh():
    if os.path.exists("out.db"): os.unlink("out.db")
assert run([cs(1, a="b", c="d"), cs(7, e="f")]) == 0
assert rows() == [(1, [["a", "b"], ["c", "d"]]), (7, [["e", "f"]])]
before = open("out.db", "rb").read()
assert run([cs(1, a="b")]) != 0 and open("out.db", "rb").read() == before
fresh()
'''
def s(id, edits, needs, breaks, py):
    return dict(id=id, prop="C25", edits=edits, needs=needs, breaks=breaks, demo="", sh=SH, files={"demo.py": PY + py})
seeds=[
 s("c25-batches", [(B, "        stmt.execute(params![cid as i64, tags_json])?;", "        stmt.execute(params![cid as i64, tags_json])?;\n        if num_changesets_with_tags % 1000 == 0 {\n            // keep the journal small\n            txn.execute_batch(\"COMMIT; BEGIN\")?;\n        }")],
  "an input which breaks off after more than 1000 changesets", "the first changesets are committed although the export fails",
  "assert run([cs(i, a='b') for i in range(1, 1500)], end='<changeset id=') != 0\nassert rows() == []\n"),
 s("c25-stop-at-error", [(B, "        changeset = changeset_res?;", "        changeset = match changeset_res {\n            Ok(changeset) => changeset,\n            Err(err) => {\n                eprintln!(\"{}\", err);\n                break;\n            }\n        };")],
  "an input which breaks off", "what was read is committed and success is reported",
  "assert run([cs(1, a='b')], end='<changeset id=') != 0\nassert rows() == []\n"),
 s("c25-empty-file", [(B, "        !sqlite_filename.exists(),", "        !std::fs::metadata(&sqlite_filename).is_ok_and(|m| m.len() > 0),")],
  "an existing empty file", "the existing file is opened and written to",
  "open('out.db', 'w')\nassert run([cs(1, a='b')]) != 0\nassert os.path.getsize('out.db') == 0\n"),
 s("c25-or-ignore", [(B, "\"INSERT INTO changeset_tags (id, other_tags) VALUES (?1, ?2)\")?;", "\"INSERT OR IGNORE INTO changeset_tags (id, other_tags) VALUES (?1, ?2)\")?;")],
  "an input with the same id twice", "one of the two is dropped and success is reported",
  "assert run([cs(1, a='b'), cs(1, c='d')]) != 0\nassert rows() == []\n"),
 s("c25-drop-commits", [(B, "    let txn = conn.transaction()?;", "    let mut txn = conn.transaction()?;\n    txn.set_drop_behavior(rusqlite::DropBehavior::Commit);")],
  "an input which breaks off", "what was read is committed when the export fails",
  "assert run([cs(1, a='b')], end='<changeset id=') != 0\nassert rows() == []\n"),
 s("c25-narrow-id", [(B, "        cid = changeset.0;", "        cid = changeset.0 as u32;")],
  "an id over 2^32", "the changeset is stored under another id",
  "assert run([cs(5000000000, a='b')]) == 0\nassert rows() == [(5000000000, [['a', 'b']])]\n"),
 s("c25-row-ignored", [(B, "        stmt.execute(params![cid as i64, tags_json])?;", "        if let Err(err) = stmt.execute(params![cid as i64, tags_json]) {\n            eprintln!(\"changeset {}: {}\", cid, err);\n        }")],
  "an input with the same id twice", "a changeset is missing and success is reported",
  "assert run([cs(1, a='b'), cs(1, c='d')]) != 0\nassert rows() == []\n"),
 s("c25-json-reuse", [(B, "        tags_json.truncate(0);\n        serde_json::to_writer(&mut tags_json, &tags)?;", "        if last_tags.as_ref().is_none_or(|last| last.len() != tags.len() || last[0] != tags[0]) {\n            tags_json.truncate(0);\n            serde_json::to_writer(&mut tags_json, &tags)?;\n        }\n        last_tags = Some(tags.clone());"),
   (B, "    let mut tag_popularity: HashMap<String, usize> = HashMap::new();", "    let mut tag_popularity: HashMap<String, usize> = HashMap::new();\n    let mut last_tags: Option<Vec<(String, String)>> = None;")],
  "two changesets in a row with the same first tag and as many tags", "the second gets the first one's tags",
  "assert run([cs(1, a='b', c='d'), cs(2, a='b', c='e')]) == 0\nassert rows() == [(1, [['a', 'b'], ['c', 'd']]), (2, [['a', 'b'], ['c', 'e']])]\n"),
]
