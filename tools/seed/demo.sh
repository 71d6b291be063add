#!/bin/bash
# Builds and runs the small program beside this file against the crate in the current directory.
# Exit status: 0 if the storage behaves as it should.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/demo/*.rs "$tmp/src/"
sed "s|REPO|$repo|" "$here/demo/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp"
CARGO_NET_OFFLINE=true cargo run --offline -q --target-dir "$tmp/target"
