#!/bin/bash
# why.sh PATCH|SEED PROP [SUFFIX]: dumps the facts of a scratch copy of /repo with the patch (/tmp/why) and prints the laws
# with what is left undecided or violated there, and the reasons. Never touches /repo.
p=$1; [ -f "$p" ] || p=/verif/seeded/$1/patch.diff
mkdir -p /tmp/why
rm -rf /tmp/why/repo /tmp/why/probe
git clone -q /repo /tmp/why/repo
git -C /tmp/why/repo apply $p || exit 1
cp -a /verif/probe /tmp/why/probe
sed -i 's#"/repo"#"/tmp/why/repo"#' /tmp/why/probe/Cargo.toml
( export CARGO_TARGET_DIR=/tmp/why/target LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER=/verif/build/driver/debug/mirdump MIRDUMP_CRATE=probe MIRDUMP_OUT=/tmp/why/facts.json RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings"
  cd /tmp/why/probe && touch src/lib.rs && cargo +nightly check --offline >/tmp/why/log 2>&1 ) || { tail -20 /tmp/why/log; exit 1; }
cd /verif/engine; FACTS=/tmp/why/facts.json timeout ${T:-600} python3 one.py $2 "$3" > /tmp/why/out 2>&1
grep -E "NO|\?|err=[^N]|^      " /tmp/why/out | cut -c1-${W:-330} | head -${N:-12}
