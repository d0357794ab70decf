#!/bin/bash
# trybug.sh ID CHECK... : applies a planted bug to a scratch copy of /repo and runs the checks against that copy.
id=$1; shift
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
(cd "$w" && git init -q . && git apply "$OLDPWD/seeded/$id/patch.diff") || exit 2
for c in "$@"; do VERIF_REPO=$w ./check $c quick >/tmp/try.$c 2>&1; echo "   $c exit $?"; grep -A1 -E '^VIOLATION|^ok |CHECK-BROKEN|^[A-Za-z]*Error' /tmp/try.$c | grep -v -e '^VIOLATION' -e '^note' -e '^--' | cut -c1-250 | head -${L:-2}; done
