#!/bin/bash
# tools/plant.sh <seeded id> [more check ids]: confirms a planted bug in a scratch copy (tests pass, demo passes without
# and fails with it) and runs the check of its property against the changed copy.
set -u
id="$1"; shift
S=/tmp/s
mkdir -p $S/verif
sync() { rsync -rlpgoD --checksum --delete --exclude target --exclude .git /repo/ $S/repo/; sed -i '/^\[patch.crates-io\]/,$d' $S/repo/Cargo.toml; (cd $S/repo && rm -rf .git && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm b) >/dev/null 2>&1; }
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
sync
rsync -rlpgoD --checksum --delete /verif/harness /verif/stubs /verif/run.sh /verif/known_findings.json $S/verif/
rm -rf $S/demo; mkdir -p $S/demo; cp $d/* $S/demo/
export PATH=/root/.cargo/bin:$PATH
if [ "${NODEMO:-}" = "" ]; then
(cd $S/repo && bash $S/demo/demo.sh >/tmp/s/demo0.log 2>&1); echo "$id demo unchanged rc=$?"
fi
(cd $S/repo && git apply $d/patch.diff) || { echo "patch does not apply"; exit 1; }
if [ "${NOTEST:-}" = "" ]; then
(cd $S/repo && RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$S/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$S/test.log 2>&1)
python3 /opt/vp/results.py $S/res.json cargo:$S/test.log >/dev/null
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$S/res.json'))
base=set(b['stable'])
print("$id", "tests: missing from passed:", sorted(base-set(r['passed']))[:5], "failed", r['failed'][:5])
P
fi
if [ "${NODEMO:-}" = "" ]; then
(cd $S/repo && bash $S/demo/demo.sh >/tmp/s/demo1.log 2>&1); echo "$id demo patched rc=$? $(tail -1 /tmp/s/demo1.log)"
fi
for p in $prop "$@"; do
(cd $S/verif && bash run.sh $p >$S/check.$id.$p.log 2>&1); echo "$id check $p rc=$? $(grep -a counterexample $S/check.$id.$p.log | cut -c1-200)"
done
python3 - <<P
import json,os,glob,re
f='/verif/tools/seed_results.json'; r=json.load(open(f)) if os.path.exists(f) else {}
old=set(x for x in r.get("$id","").split(", ") if x.startswith("C"))
for l in glob.glob('$S/check.$id.*.log'):
    p=l.split('.')[-2]
    if 'VIOLATION' in open(l,errors='replace').read(): old.add(p)
    else: old.discard(p)
r["$id"]=", ".join(sorted(old)) or "missed"
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
