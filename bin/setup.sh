#!/bin/bash
# Warms nothing that matters: every check builds what it needs itself.  This
# only makes sure that the toolchain, TLC and the harness work here.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
cd "$here"
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$PWD/target
mkdir -p work
python3 bin/gen_types.py 1 2 work/types.rs P06
export MH_TYPES=$PWD/work/types.rs
(cd harness && cargo build --offline --quiet --bin text)
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/dev/null) || { echo "SANY: $f"; exit 1; }
done
echo setup ok
