#!/bin/bash
# check.sh <property> <quick|thorough>: decide one property on /repo's current tree.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
P="$1"
T="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$T"
SEED="${VERIF_SEED:-1}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p "$V/.build" "$V/out" "$V/evidence"
BIN="$V/.build/gvc"
if [ ! -x "$BIN" ] || [ -n "$(find "$V/gvc" -name '*.go' -newer "$BIN" -print -quit)" ]; then
  if ! (cd "$V/gvc" && GOFLAGS=-mod=vendor go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") 2> "$V/out/build.$P.log"; then
    echo "the verifier does not build: see $V/out/build.$P.log"
    cat "$V/out/build.$P.log"
    exit 2
  fi
fi
"$BIN" -prop "$P" -spec "$V/specs/$P.gvc" -repo /repo -overlay "$V/specs/lemmas" -tier "$T" -seed "$SEED" \
  -evidence "$V/evidence/$P.json" -known "$V/known-findings.txt" -replaydir "$V/replay" -out "$V/out" 2> "$V/out/$P.$T.log"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the checker itself failed: say so and report it as an undischarged proof
  tail -5 "$V/out/$P.$T.log"
  cp "$V/out/$P.$T.log" "$V/out/$P.txt"
  echo "VIOLATION property=$P replay=$V/out/$P.txt no-failing-input-found"
  exit 1
fi
exit $rc
