#!/bin/bash
# mkseed.sh <id>: lays the common demo files into seeded/<id> (which holds main.rs, patch.diff, meta.json)
V=$(cd "$(dirname "$0")/.." && pwd)
D=$V/seeded/$1
mkdir -p "$D/stubs"
cp "$V/tools/seedkit/demo.sh" "$D/demo.sh"; chmod +x "$D/demo.sh"
for c in num rulinalg; do rm -rf "$D/stubs/$c"; mkdir -p "$D/stubs/$c"; cp -r "$V/stubs/$c/Cargo.toml" "$V/stubs/$c/src" "$D/stubs/$c/"; done
