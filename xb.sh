#!/bin/bash
. /opt/vp/env.sh; cd /verif/extract && cargo build --offline --target-dir /tmp/xt 2>&1 | grep -E "^(error|warning: unused)|-->" -A8 | head -40
