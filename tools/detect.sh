#!/bin/bash
# Development aid: detect.sh SEED [CHECK...]: runs checks against a scratch copy of /repo with a planted bug.
# Uses a copy of the harness that points at the scratch copy; /repo is not touched.
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
W=/tmp/wt2 H=/tmp/hw
[ -d $W ] || { mkdir $W; cp -a /repo/. $W/; /bin/rm -rf /tmp/wt2/target; }
mkdir -p $H; rsync -a --delete --exclude target /verif/harness/ $H/
sed -i 's#"/repo/#"/tmp/wt2/#' $H/Cargo.toml
[ -d $H/target ] || cp -a /verif/harness/target $H/target
cp /verif/known_findings.jsonl /tmp/
s=$1; shift
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
git apply /verif/seeded/$s/patch.diff || exit 2
mkdir -p /tmp/hwv; cp /verif/known_findings.jsonl /tmp/hwv/
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
for c in "$@"; do
  bin=$(awk -v id="$c" '{for (i = 2; i <= NF; i++) if ($i == id) print $1}' $H/bins.txt)
  (cd $H && cargo build --offline --bin $bin >/tmp/hw.log 2>&1) || { tail -30 /tmp/hw.log; exit 2; }
  r=$(VERIF_DIR=/tmp/hwv VERIF_SEED=${SEED:-1} timeout 900 $H/target/debug/$bin run $c 2>&1); rc=$?
  echo "$s $c rc=$rc $(echo "$r" | grep -E "VIOL|OK|failure" | cut -c1-250 | tr '\n' ' ')"
done
cd $W && git checkout -q -- .
