#!/bin/bash
# mkseed.sh <id> <property> <pkgdir: . | runewidth | runewidth/uniseg> <needs> <what_it_breaks>
# reads the current diff of /tmp/seedwt (a worktree copy) and the demo test from /tmp/demo_test.go
set -e
id=$1; prop=$2; pkg=$3; needs=$4; what=$5
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# Runs the demonstration test inside the package through an overlay; nothing is written to the repository.
here="\$(cd "\$(dirname "\$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="\$(mktemp -d)"; trap 'rm -rf "\$tmp"' EXIT
root="\$PWD"
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$root" "\$here" > "\$tmp/overlay.json"
timeout 250 go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -run '^TestSeededDemo\$' ./$pkg
X
python3 - "$id" "$prop" "$needs" "$what" > $d/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
X
