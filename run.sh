#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra args of the check binary]
# Builds the check of PROPERTY against /repo's working tree and runs it.
set -u
P="$1"; shift
TIER="${VERIF_TIER:-quick}"
if [ $# -gt 0 ]; then case "$1" in quick|thorough) TIER="$1"; shift;; esac; fi
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false"
export HOME="${HOME:-/root}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_KNOWN="$HERE/known_findings.jsonl" VERIF_EVIDENCE_DIR="$HERE/evidence"
D="$HERE/harness/props/$(echo "$P" | tr 'A-Z' 'a-z')"
[ -d "$D" ] || { echo "no such check: $P" >&2; exit 2; }
TMP="$(mktemp -d /tmp/verif-run-XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
trap 'exit 143' TERM INT
export TMPDIR="$TMP"
RACE=""; [ -f "$D/RACE" ] && RACE="-race"
OVER=""; [ -f "$D/overlay.sh" ] && { . "$D/overlay.sh"; OVER="-overlay=$TMP/overlay.json"; }
cd "$HERE/harness" || exit 2
go build $RACE $OVER -o "$TMP/check" "./props/$(basename "$D")" || { echo "build of the check for $P failed" >&2; exit 2; }
"$TMP/check" "$@"
