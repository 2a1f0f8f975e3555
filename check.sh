#!/bin/bash
# check.sh <property>: build the checker against /repo's current tree and run one property (tier: VERIF_TIER).
cd /verif || exit 2
. ./build.sh || exit 2
exec target/release/gsmc check "$1"
