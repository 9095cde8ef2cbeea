#!/bin/bash
# Runs in the repository after a build: exit 0 if the program behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
python3 "$here/link.py" "$here/demo.rs" "$tmp/demo" || exit 3
timeout 200 "$tmp/demo"
