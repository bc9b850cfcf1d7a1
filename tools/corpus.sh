#!/bin/bash
# corpus.sh refactors|seeds [names...]: development regression, not a check.
#   refactors: every behaviour-preserving edit in /verif/refactors must leave all checks quiet
#   seeds:     every planted bug in /verif/seeded must be caught by its property's check
. /opt/vp/env.sh
kind=$1; shift
bin=$(mktemp /tmp/corpusck.XXXX); (cd /verif/checker && go build -o "$bin" .) || exit 2
one() { # dir-name kind
  local n=$1 w; w=$(mktemp -d /tmp/corpus.XXXX); cp -a /repo/. "$w"/
  if [ $kind = refactors ]; then
    (cd "$w" && git apply /verif/refactors/$n.diff) || { echo "$n: patch does not apply"; rm -rf "$w"; return; }
    local bad=""
    for p in $(cat /verif/tools/built.txt); do
      REPO=$w EVIDENCE_DIR=$w/.ev GOMAXPROCS=2 timeout 800 "$bin" $p >"$w/.out" 2>&1 || bad="$bad $p"
    done
    echo "$n: ${bad:-quiet}"
  else
    (cd "$w" && git apply /verif/seeded/$n/patch.diff) || { echo "$n: patch does not apply"; rm -rf "$w"; return; }
    local p; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
    REPO=$w EVIDENCE_DIR=$w/.ev GOMAXPROCS=2 timeout 800 "$bin" $p >"$w/.out" 2>&1; local rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$w/.out"; then echo "$n: caught by $p"; else echo "$n: MISSED by $p (rc=$rc)"; fi
  fi
  rm -rf "$w"
}
export -f one; export kind bin
if [ $kind = refactors ]; then all=$(cd /verif/refactors && ls *.diff | sed 's/.diff$//'); else all=$(ls /verif/seeded); fi
for n in ${*:-$all}; do echo $n; done | xargs -P 6 -I{} bash -c 'one {}'
rm -f "$bin"
