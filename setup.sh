#!/bin/bash
# Sanity of the tools the checks need; nothing is cached, every check builds from /repo itself.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ aarch64-linux-gnu-g++ arm-linux-gnueabihf-g++ qemu-aarch64 qemu-arm valgrind python3; do
  command -v $t >/dev/null || { echo "missing $t"; exit 1; }
done
mkdir -p evidence .work
python3 -c "import json; json.load(open('MANIFEST.json'))"
echo setup ok
