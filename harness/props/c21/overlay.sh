# Sourced by run.sh: adds export.go.txt to package indexedhashestree.
printf '{"Replace": {"%s/indexedhashestree/zz_verif_export.go": "%s/export.go.txt"}}\n' "${VERIF_REPO:-/repo}" "$D" > "$TMP/overlay.json"
