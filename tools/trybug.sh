#!/bin/sh
# Runs checks against a copy of /repo with a planted bug: tools/trybug.sh BUG [CHECK...]
bug=$1; shift
verif=$(cd "$(dirname "$0")/.." && pwd)
dir=$(mktemp -d /tmp/bug.XXXXXX)
cp -a "${VERIF_REPO:-/repo}" "$dir/repo"
git -C "$dir/repo" apply "$verif/seeded/$bug/patch.diff" || exit 2
[ $# -gt 0 ] || set -- $(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$verif/seeded/$bug/meta.json")
for c in "$@"; do
    out=$(cd "$verif" && VERIF_REPO="$dir/repo" VERIF_EVIDENCE="$dir" ./check "$c" 2>&1); code=$?
    echo "$bug $c exit=$code $(echo "$out" | grep -m1 -B1 VIOLATION | head -1 | cut -c1-160)"
done
case $dir in /tmp/bug.??????) rm -rf "$dir";; esac
