# Sourced by run.sh: package os with a hook before every operation.
(cd "$HERE/harness" && go run ./tools/faultos "$TMP/os" > "$TMP/overlay.json") || exit 2
