#!/bin/bash
# Run the check of every planted change (or of those named) on the changed tree.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" || exit 1
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$d/meta.json")
    copy=$(mktemp -d /tmp/seeded-XXXXXX)
    git clone -q /repo "$copy/repo" && git -C "$copy/repo" apply "$here/seeded/$d/patch.diff"
    out=$(VERIF_REPO="$copy/repo" VERIF_EVIDENCE_DIR="$copy/evidence" VERIF_TIER=quick ./check "$p" 2>&1)
    printf '%-26s %s exit=%s %s\n' "$d" "$p" "$?" "$(printf '%s\n' "$out" | tail -n 2 | tr '\n' ' ' | cut -c1-150)"
    rm -rf "${copy:?}"
done
