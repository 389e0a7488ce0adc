#!/bin/bash
# trybug.sh PATCH PROP...  builds the repository with PATCH applied (in reverse with -R PATCH)
# in scratch copies and runs the checks of the given properties on it (default: the one
# in meta.json beside the patch; "all": every one).
R=; [ "$1" = -R ] && { R=-R; shift; }
P="$(realpath "$1")"; shift
V="$(cd "$(dirname "$0")/.." && pwd)"
W="$(mktemp -d /tmp/trybug.XXXXXX)"; trap 'rm -rf "$W"' EXIT
PROPS=("$@")
[ $# = 0 ] && PROPS=("$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$(dirname "$P")/meta.json")")
[ "$1" = all ] && mapfile -t PROPS < <(python3 -c 'import json;[print(c["property"]) for c in json.load(open("'"$V"'/MANIFEST.json"))["checks"]]')
git -C /repo worktree prune
mkdir "$W/repo" && git -C /repo archive HEAD | tar -x -C "$W/repo"
( cd "$W/repo" && git init -q . && git apply $R "$P" ) || { echo "PATCH DOES NOT APPLY $P"; exit 3; }
mkdir -p "$W/build" && cp -a "$V/build/am" "$W/build/am" && cp -a "$V/build/sim" "$W/build/sim"
mkdir "$W/root" && cp -a "$V/certs" "$V/known-findings.txt" "$W/root/"
export AMSIM_REPO="$W/repo" AMSIM_BUILD="$W/build" AMSIM_ROOT="$W/root"
"$V/build.sh" > "$W/log" 2>&1 || { echo "BUILD FAILED $P"; tail -5 "$W/log"; exit 3; }
for p in "${PROPS[@]}"; do
  "$W/build/sim/release/amsim" check "$p" > "$W/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$W/out"; then
    # the replay file must show the same again
    f="$(grep -m1 "^VIOLATION" "$W/out" | sed 's/.*replay=//')"
    "$W/build/sim/release/amsim" replay "$f" > "$W/rep" 2>&1; rr=$?
    echo "CAUGHT $p $(basename "$(dirname "$P")") replay-rc=$rr :: $(grep -v '^VIOLATION' "$W/out" | head -${LINES_OUT:-1} | cut -c1-300)"
    [ -n "$KEEP" ] && cp "$f" "$KEEP"
  else echo "MISSED $p $(basename "$(dirname "$P")") rc=$rc $(tail -1 "$W/out" | cut -c1-200)"; fi
done
