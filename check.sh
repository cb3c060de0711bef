#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
"$here/setup.sh" >&2 || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec "$here/bin/gosym" -verif "$here" -repo "${REPO:-/repo}" -prop "$prop" -tier "$tier"
