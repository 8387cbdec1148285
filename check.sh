#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property from /repo's current source.
root=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$root/.bin/jsvalcheck
if [ ! -x "$bin" ] || [ -n "$(find "$root/analyzer" -name '*.go' -newer "$bin" -print -quit)" ]; then
	bash "$root/setup.sh" >&2 || { echo "analyser build failed" >&2; exit 2; }
fi
. /opt/vp/env.sh
cd "$root" || exit 2
exec "$bin" -root "$root" -repo /repo -property "$prop" -tier "$tier"
