#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness and the server from the
# current trees into a scratch directory and decides the property.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$tier"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export VH_OUT="${VH_OUT:-$here}" VH_REPO="${VH_REPO:-/repo}"
VH_WORK="$(mktemp -d /tmp/vh.XXXXXXXX)" || exit 2
export VH_WORK VH_HARNESS="$here/harness"
trap 'rm -rf "$VH_WORK"' EXIT
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)"
cp "$here/harness/go.mod" "$VH_WORK/vh.mod" && cp "$here/harness/go.sum" "$VH_WORK/vh.sum" || exit 2
(cd "$here/harness" && go build -modfile "$VH_WORK/vh.mod" -o "$VH_WORK/vh" ./cmd/vh) || exit 2
cd "$VH_WORK" || exit 2
"$VH_WORK/vh" "$id" "$tier" &
pid=$!
trap 'kill -TERM $pid 2>/dev/null; wait $pid; pkill -KILL -f "^$VH_WORK/" 2>/dev/null; rm -rf "$VH_WORK"; exit 2' TERM INT
wait $pid
rc=$?
pkill -KILL -f "^$VH_WORK/" 2>/dev/null # servers a crashed harness left behind
rm -rf "$VH_WORK"
exit $rc
