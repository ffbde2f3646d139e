#!/bin/bash
# builds the machinery from the committed files and warms the build caches; offline
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
(cd $V/weave && RUSTFLAGS= cargo build --release --offline)
mkdir -p $V/build
python3 - "$V" <<'E'
import sys
sys.path.insert(0, sys.argv[1] + "/bin")
import check
notes = []
b, f = check.build_tablecheck(notes)
print(b, f, notes)
finds = []
print(check.build_e2e(b, 1, 120, finds, notes, False), finds, notes)
E
