#!/bin/bash
# check.sh PROPERTY [quick|thorough]      run one check against /repo's working tree
# check.sh --replay FILE                  re-execute one recorded case
# check.sh PROPERTY TIER -only W [-idx N] run one workload / case
here=$(cd "$(dirname "$0")" && pwd)
replay=
if [ "$1" = --replay ]; then
	replay=$2
	eval "$(python3 - "$replay" <<'P'
import json,sys,shlex
f=json.load(open(sys.argv[1]))
print("set -- %s %s -only %s -idx %d; VERIF_SEED=%d"%(f["property"],f["tier"],shlex.quote(f["workload"]),f["idx"],f["seed"]))
P
)"
fi
prop=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
seed=${VERIF_SEED:-1}
. "$here/env.sh"
build=$here/.build
mkdir -p "$build" || exit 3
bash "$here/build.sh" "" || exit 3
extra=()
for m in $("$build/harness" modes "$prop"); do
	bash "$here/build.sh" "$m" || exit 3
	extra+=("-${m}bin" "$build/harness-$m")
done
export GODEBUG=cgocheck=0,randautoseed=0,randseednop=0
exec "$build/harness" run -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" \
	-replays "$here/replays" -known "$here/known-findings.txt" "${extra[@]}" "$@"
