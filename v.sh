#!/bin/bash
# dev helper: v.sh UNIT [verus args]
. /opt/vp/env.sh
U=$1; shift
mkdir -p /tmp/vw
/tmp/xt/debug/extract ${REPO:-/repo} /verif/contracts /tmp/vw/$U.rs $U || exit 2
grep -n "\"lost\"" /tmp/vw/$U.rs.map.json | cut -c1-400
cd /tmp/vw && verus $U.rs --triggers-mode silent --verify-only-module $U --multiple-errors 6 "$@"
