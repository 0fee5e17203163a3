#!/bin/bash
# Builds the small program beside this script against the crate in the current directory and runs it.
repo=$PWD
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh >/dev/null 2>&1
mkdir "$t/src"
cp "$d"/*.rs "$t/src/"
sed "s#@REPO@#$repo#" "$d/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
