#!/bin/bash
# reseed.sh [ids]: checks that planted bugs still apply to /repo, build, pass the
# stable tests, fail their demonstration, and that it passes without them.
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")/.." && pwd)"
one() {
  id=$1 d="$V/seeded/$1" t="$(mktemp -d /tmp/reseed.XXXXXX)"
  cp -a /repo "$t/r"; mkdir "$t/d"; cp "$d"/* "$t/d/"; rm -f "$t/d/patch.diff" "$t/d/meta.json"
  cd "$t/r" || exit
  say="ok"
  if ! git apply "$d/patch.diff" 2>/dev/null; then say="does not apply"
  elif ! go build ./... >/dev/null 2>&1; then say="does not build"
  else
    timeout 300 bash "$t/d/demo.sh" >/dev/null 2>&1 && say="demo passes with the patch"
    if [ -z "$NOTESTS" ]; then
    flock /tmp/seed.lock go test -json -vet=off -count=1 -timeout 2m ./... > "$t/t.json" 2>/dev/null
    python3 - "$t/t.json" <<'P' || say="$say; stable tests fail"
import json,sys
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get("Test") and e["Action"] in("pass","fail","skip"): res[e["Package"]+"/"+e["Test"]]=e["Action"]
sys.exit(any(res.get(x)!="pass" for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]))
P
    fi
    git checkout -q -- .
    timeout 300 bash "$t/d/demo.sh" >/dev/null 2>&1 || say="$say; demo fails without the patch"
  fi
  echo "$id $say"
  cd /; rm -rf "$t"
}
export -f one; export V
ids="$*"; [ -n "$ids" ] || ids="$(ls "$V/seeded")"
echo $ids | tr ' ' '\n' | xargs -P "${JOBS:-3}" -I{} bash -c 'one {}'
