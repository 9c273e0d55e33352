#!/bin/bash
# run.sh PROPERTY quick|thorough [--only CASE] : build the checker against
# /repo's current tree and run one property.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"; TIER="${2:-quick}"; shift; shift || true
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
DIR="$(mktemp -d /tmp/vp.XXXXXX)"
trap 'rm -rf "$DIR"' EXIT
ARGS=()
while [ $# -gt 0 ]; do case "$1" in --only) ARGS+=(-only "$2"); shift 2;; --deadline) ARGS+=(-deadline "$2"); shift 2;; *) shift;; esac; done
cd "$ROOT/harness" || exit 2
if [ "$PROP" = C15 ] && bash ./overlay.sh "$DIR" && go build -overlay "$DIR/overlay.json" -tags maphook -ldflags=-checklinkname=0 -o "$DIR/vp" . 2>"$DIR/build.log"; then
  : # the runtime's map iteration is under the control of the harness
elif [ "$PROP" = C13 ] && go run ./instr "$(go list -m -f '{{.Dir}}' github.com/signintech/pdft)" "$DIR" && go build -overlay "$DIR/overlay.json" -tags yield -ldflags=-checklinkname=0 -o "$DIR/vp" . 2>"$DIR/build.log"; then
  : # the library reports before every statement to the scheduler of the harness
elif ! go build -o "$DIR/vp" . 2>"$DIR/build.log"; then
  cat "$DIR/build.log" >&2
  echo "the checker does not build against the current tree" >&2
  exit 2
fi
TMPDIR="$DIR" "$DIR/vp" -prop "$PROP" -tier "$TIER" -root "$ROOT" "${ARGS[@]}"
exit $?
