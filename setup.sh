#!/bin/bash
# Warms the build cache: compiles the harness and the server variants once.
here="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
w="$(mktemp -d /tmp/vhsetup.XXXXXXXX)" || exit 2
cp "$here/harness/go.mod" "$w/vh.mod" && cp "$here/harness/go.sum" "$w/vh.sum" || exit 2
(cd "$here/harness" && go build -modfile "$w/vh.mod" -o "$w/vh" ./cmd/vh) || exit 2
(cd /repo && go build -o "$w/plain" ./cmd/server && CGO_ENABLED=1 go build -race -o "$w/race" ./cmd/server) || exit 2
rm -rf "$w"
mkdir -p "$here/evidence" "$here/replays"
exit 0
