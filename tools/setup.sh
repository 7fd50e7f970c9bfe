#!/bin/bash
# builds the framework (THIR dumper, driver) offline
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
(cd thirdump && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/thirdump cargo +nightly build --offline -q)
python3 -c "
import sys; sys.path.insert(0,'tools'); import search
rc,out,b=search.build(); print(out[-2000:]) if rc else None; sys.exit(1 if rc else 0)"
