#!/bin/bash
# run.sh setup              build the verifier and the executable layer
# run.sh check ID TIER      decide one property on /repo's current tree
# run.sh verify ARGS...     run the verifier by hand
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1
B=$VERIF/.build
mkdir -p "$B" "$VERIF/evidence"

build_gocv() { (cd "$VERIF/gocv" && go build -o "$B/gocv" .); }
build_replay() { # from /repo's working tree, without touching it
  rm -f "$B/replay"
  (cd "$VERIF/replay" && go build -modfile="$B/replay.mod" -o "$B/replay" .) >"$B/replay.log" 2>&1
}
prep_mod() { cp "$VERIF/replay/go.mod" "$B/replay.mod"; cp "$VERIF/replay/go.sum" "$B/replay.sum"; }

case "${1:-}" in
setup)
  build_gocv && prep_mod && build_replay || { cat "$B/replay.log"; exit 1; }
  ;;
check)
  P=$2; TIER=${3:-${VERIF_TIER:-quick}}
  build_gocv || exit 2
  prep_mod
  build_replay || true
  GOCV_REPLAY="$B/replay" GOCV_REPLAY_LOG="$B/replay.log" exec "$B/gocv" check -prop "$P" -tier "$TIER" -repo /repo -verif "$VERIF"
  ;;
replay) # run.sh replay ID [quick|thorough]: the executable oracle alone, against /repo
  prep_mod; build_replay || { cat "$B/replay.log"; exit 2; }
  D=$(mktemp -d)
  (cd "$D" && "$B/replay" -prop "$2" -tier "${3:-quick}" -seed "${VERIF_SEED:-1}" -out "$D/out.json" -scratch "$D"; cat "$D/out.json"; echo)
  rm -rf "$D"
  ;;
verify)
  shift
  build_gocv || exit 2
  exec "$B/gocv" verify -repo /repo -verif "$VERIF" "$@"
  ;;
*)
  echo "usage: run.sh setup | check ID TIER | verify ARGS" >&2; exit 2 ;;
esac
