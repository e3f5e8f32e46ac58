#!/bin/bash
# check.sh PROPERTY [-only CASE]: builds the check from /repo's working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOENV=off
repo=${VERIF_REPO:-/repo}
export VERIF_ROOT=$here
export VERIF_REPO=$repo
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
dir=$(echo "$prop" | tr 'A-Z' 'a-z')
python3 "$here/mkoverlay.py" "$work" "$repo" || exit 3
cd "$repo" || exit 3
if ! go build -overlay "$work/overlay.json" -ldflags=-checklinkname=0 -o "$work/check" "./zz_verif/$dir" 2>"$work/build.log"; then
	cat "$work/build.log" >&2
	exit 3
fi
if [ "$1" = -build ]; then exit 0; fi
export TMPDIR=$work
cd "$work" || exit 3
"$work/check" "$@" >"$work/out" 2>"$work/err"
rc=$?
cat "$work/out"
tail -c 4000 "$work/err" >&2
case $rc in
0|1) exit $rc ;;
esac
# The process died. A stack overflow, a memory blow-up or a fatal runtime error inside the code under
# test cannot be recovered in Go: it is reported as a violation, with the runtime's own report.
if [ $rc = 137 ] || grep -q -E "stack overflow|goroutine stack exceeds|out of memory|fatal error: (concurrent map|all goroutines are asleep)" "$work/err"; then
	mkdir -p "$here/replays" "$here/evidence"
	rp=$here/replays/$prop-crash.txt
	head -c 20000 "$work/err" >"$rp"
	python3 - "$prop" "$here" "$rc" <<'P'
import json, os, sys
p, here, rc = sys.argv[1:]
json.dump({"property": p, "tier": os.environ.get("VERIF_TIER") or "quick", "seed": int(os.environ.get("VERIF_SEED") or 0),
  "level": "other", "coverage": {"explanation": "the process died (status %s) while the exploration ran" % rc}, "wall_s": 0.0, "violations": 1},
  open(os.path.join(here, "evidence", p + ".json"), "w"))
P
	echo "the process under test died (status $rc)"
	echo "VIOLATION property=$prop replay=$rp"
	exit 1
fi
exit $rc
