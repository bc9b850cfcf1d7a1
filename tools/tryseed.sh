#!/bin/bash
# tryseed.sh <id>: confirm a planted bug in a scratch copy: applies, builds, passes the tests, demo discriminates.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seedtry.XXXX); cp -a /repo/. $w/
. /opt/vp/env.sh
( cd $w && bash $d/demo.sh >/tmp/seed_clean.log 2>&1 ) && a=0 || a=1
( cd $w && git apply $d/patch.diff ) || { echo "$id: patch does not apply"; exit 1; }
( cd $w && go build ./... && go test ./... >/tmp/seed_test.log 2>&1 ) && t=pass || t=FAIL
( cd $w && bash $d/demo.sh >/tmp/seed_bug.log 2>&1 ) && b=0 || b=1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
out=""
for q in $p ${@:2}; do
  REPO=$w EVIDENCE_DIR=$w/.ev /tmp/ck $q > /tmp/seed_chk.log 2>&1; out="$out $q=$?"
done
echo "$id: clean-demo=$a tests=$t bug-demo=$b checks:$out"
rm -rf "$w"
