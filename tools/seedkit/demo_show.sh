#!/bin/bash
# Highlights the sources beside this script and compares the tokens with the correct ones.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++-13 -std=c++23 -w -Iinclude "$D/show.cpp" _build/libulight.a -o "$W/show" || exit 2
rc=0
for c in "$D"/case*.args; do
    b=${c%.args}
    read -r lang flags cap < "$c"
    timeout 60 "$W/show" "$lang" "$flags" "$b.src" $cap > "$W/out"
    if ! diff "$b.want" "$W/out"; then echo "wrong tokens for $b"; rc=1; fi
done
exit $rc
