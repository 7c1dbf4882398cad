#!/bin/bash
# dev helper: build the harness against ${REPO:-/repo} into /tmp/h, then run args
. /opt/vp/env.sh
R=${REPO:-/repo}; T=${T:-/tmp/h}
mkdir -p $T/src
rm -rf $T/crate; cp -a /verif/harness $T/crate
sed -i "s#\"../../repo/#\"$R/#" $T/crate/Cargo.toml
cd $T/crate && CARGO_INCREMENTAL=1 cargo build --offline --target-dir $T/target $FEAT 2>&1 | grep -E "^(error|warning: unused)|-->|Finished" -A6 | grep -v "^--" | head -${ERRL:-60}
[ -n "$1" ] && exec $T/target/debug/harness "$@"
