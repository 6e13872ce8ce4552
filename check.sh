#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the simulator from /repo's working tree and explores.
# exit 0 held, 1 violation (VIOLATION line printed), 2 the check itself could not run
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-quick}
seed=${VERIF_SEED:-1}
case $tier in
  quick) budget=${SIM_BUDGET:-60};;
  thorough) budget=${SIM_BUDGET:-600};;
  *) echo "unknown tier $tier"; exit 2;;
esac
export SIM_TARGET=${SIM_TARGET:-$PWD/target}
bash sim/build.sh >"/tmp/sim-build.$$" 2>&1 || { cat "/tmp/sim-build.$$"; rm -f "/tmp/sim-build.$$"; echo "build failed"; exit 2; }
rm -f "/tmp/sim-build.$$"
bin=$SIM_TARGET/x86_64-unknown-linux-gnu/release/sim
grep "property=$id " known_findings.txt | grep '^KNOWN-FINDING:' || true
exec "$bin" --profile "$id" --seed "$seed" --tier "$tier" --budget "$budget" --out "$PWD/evidence/$id.json" --replays "$PWD/replays"
