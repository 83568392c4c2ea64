#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
work=$(mktemp -d /tmp/fvh.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/engine" && go build -o "$work/eng" .) || exit 2
budget=400s; [ "$tier" = thorough ] && budget=720s
mkdir -p "$here/evidence/replays"
cd "$here/harness" && "$work/eng" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -budget ${BUDGET:-$budget} \
  -repo "${VERIF_REPO:-/repo}" -harness "$here/harness" -work "$work" -known "$here/KNOWN_FINDINGS.txt" \
  -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replays" ${VERIF_ARGS}
