#!/bin/sh
# Builds the harness against /repo, and parses every specification.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
sys.dont_write_bytecode = True
import common
common.cargo_build("rt")
common.cargo_build("rt", bins=("v_body", "v_error", "v_service", "v_blocking"))
print("harness built")
PY
for m in spec/*.tla; do
    (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/dev/null) || { echo "cannot parse $m"; exit 1; }
done
echo "specifications parsed"
