#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -print -quit)" ]; then
  bash tools/setup.sh >&2 || { echo "cannot build the analyser" >&2; exit 2; }
fi
EVIDENCE_DIR="$PWD/evidence" exec bin/checker "$1" "${2:-quick}"
