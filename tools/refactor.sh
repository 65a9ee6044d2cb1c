#!/bin/bash
# Run every check (or those named) on the behaviour-preserving rewrites in tools/refactor; all must hold.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" || exit 1
checks=${*:-$(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
for d in tools/refactor/*.diff; do
    copy=$(mktemp -d /tmp/refactor-XXXXXX)
    git clone -q /repo "$copy/repo" && git -C "$copy/repo" apply "$here/$d"
    for p in $checks; do
        out=$(VERIF_REPO="$copy/repo" VERIF_EVIDENCE_DIR="$copy/evidence" VERIF_TIER=quick ./check "$p" 2>&1)
        printf '%-28s %s exit=%s %s\n' "$(basename "$d" .diff)" "$p" "$?" "$(printf '%s\n' "$out" | tail -n 1 | cut -c1-120)"
    done
    rm -rf "${copy:?}"
done
