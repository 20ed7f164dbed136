#!/bin/bash
# mut.sh PROPERTY FILE 's/a/b/' ...: run a property's check against a scratch copy of the source with a sed edit (development aid)
set -e
prop=$1; file=$2; shift 2
tmp=$(mktemp -d /tmp/verif-mut.XXXXXX)
mkdir "$tmp/repo"; cp -a /repo/src "$tmp/repo/"; cp -a /repo/build "$tmp/repo/" 2>/dev/null || true
for e in "$@"; do perl -0pi -e "$e" "$tmp/repo/src/$file"; done
diff -u /repo/src/$file "$tmp/repo/src/$file" | head -40 || true
VERIF_REPO="$tmp/repo" python3 "$(dirname "$0")/check.py" "$prop" $MUTARGS | cut -c1-400 || true
rm -rf "${tmp:?}"
