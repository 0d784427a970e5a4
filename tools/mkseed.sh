#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS  -- scratch copy /tmp/sw holds the edited tree, /tmp/demo.rs the demonstration
set -u
ID=$1; D=/verif/seeded/$ID
. /opt/vp/env.sh 2>/dev/null
cd /tmp/sw || exit 1
export CARGO_TARGET_DIR=/tmp/sw/target
mkdir -p $D
git diff -- src > $D/patch.diff
[ -s $D/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cp /tmp/demo.rs $D/demo.rs
cp /verif/tools/demo_template.sh $D/demo.sh; chmod +x $D/demo.sh
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/target/t.log 2>&1
P=$(grep -hE '^test .* \.\.\. ok$|^test .*\.\.\. ok' /tmp/sw/target/t.log | wc -l); F=$(grep -c '\.\.\. FAILED' /tmp/sw/target/t.log)
grep -E '^error' /tmp/sw/target/t.log | head -3
echo "$ID tests: passed $P failed $F"; grep '\.\.\. FAILED' /tmp/sw/target/t.log | head
export DEMO_TARGET=/tmp/demotarget
bash $D/demo.sh > /tmp/demo_bad.log 2>&1; B=$?
git checkout -q -- src
bash $D/demo.sh > /tmp/demo_good.log 2>&1; G=$?
echo "$ID demo: patched rc=$B ($(tail -1 /tmp/demo_bad.log | cut -c1-160)), clean rc=$G"
[ $G -ne 0 ] && tail -5 /tmp/demo_good.log
exit 0
