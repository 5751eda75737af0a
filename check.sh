#!/bin/bash
# usage: check.sh <property> [quick|thorough]   rebuilds from /repo's working tree, then searches
D="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
[ "$T" = thorough ] || T=quick
mkdir -p "$D/target" "$D/evidence"
exec 9>"$D/target/.lock"
flock 9
if ! bash "$D/sim/build.sh" 2>"$D/target/build.log"; then
    tail -n 40 "$D/target/build.log" >&2
    echo "check: the library does not build under the simulator" >&2
    exit 2
fi
flock -u 9
exec 9>&-
cd "$D" || exit 2
exec "$D/target/x86_64-unknown-linux-gnu/release/symsim" check "$P" --tier "$T" --seed "${VERIF_SEED:-1}" ${SYMSIM_SECS:+--secs "$SYMSIM_SECS"}
