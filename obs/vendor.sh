#!/bin/bash
# A directory source for building the standard library for another target with no
# network: the toolchain's own vendored crates plus those obs/Cargo.lock names,
# taken from the cargo cache. Links only. Argument: the directory to make.
set -eu
LOCK="$(dirname "$0")/Cargo.lock"
LIB="$(rustc --print sysroot)/lib/rustlib/src/rust/library"
D=$1
rm -rf "$D"; mkdir -p "$D"
for c in "$LIB"/vendor/*; do ln -s "$c" "$D/"; done
CH="${CARGO_HOME:-$HOME/.cargo}"
awk -F'"' '/^name/{n=$2} /^version = "/{v=$2} /^checksum/{print n, v, $2}' "$LOCK" |
while read -r n v sum; do
    [ -e "$D/$n-$v" ] && continue
    mkdir "$D/$n-$v"
    src=$(ls -d "$CH"/registry/src/*/"$n-$v" 2>/dev/null | head -1)
    if [ -z "$src" ]; then
        tar -xzf "$(ls "$CH"/registry/cache/*/"$n-$v.crate" | head -1)" -C "$D"
    else
        ln -s "$src"/* "$D/$n-$v/"
    fi
    echo "{\"files\":{},\"package\":\"$sum\"}" > "$D/$n-$v/.cargo-checksum.json"
done
