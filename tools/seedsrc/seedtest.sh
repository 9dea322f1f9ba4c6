#!/bin/bash
# seedtest.sh [-d] ID... : verify planted bugs in scratch copies (build, tests, demonstration) and run the check of
# the property (-d: without the check).
. /opt/vp/env.sh
NOCHECK=; [ "$1" = -d ] && { NOCHECK=1; shift; }
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedtest-XXXXXX)
  cp -a ${SRC:-/repo} "$W/repo"; cp -a $S "$W/demo"
  cd "$W/repo"
  if bash "$W/demo/demo.sh" >"$W/o0" 2>&1; then a=ok; else a="BAD-CLEAN-DEMO($(tail -c 300 "$W/o0"))"; fi
  git apply $S/patch.diff || a="$a BAD-PATCH"
  go build ./... 2>"$W/b" || a="$a BAD-BUILD($(tail -c 300 "$W/b"))"
  go test -count=1 ./... >"$W/t" 2>&1 || a="$a BAD-TESTS($(grep -h FAIL "$W/t" | head -3))"
  if bash "$W/demo/demo.sh" >"$W/o1" 2>&1; then a="$a BAD-DEMO-PASSES"; else a="$a $(tail -n1 "$W/o1" | cut -c1-150)"; fi
  c=
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    t=$(date +%s)
    c=$(VERIF_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} /verif/check $p quick 2>&1 | grep -aE '^(VIOLATION|OK)' | cut -c1-80 | tail -1)
    c="$c $(( $(date +%s) - t ))s"
  fi
  echo "$id: $a | $c"
  cd /; rm -rf -- "$W"
done
