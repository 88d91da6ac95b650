#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's tree and explores the property.
# VERIF_SEED (default 1) and VERIF_TIER (quick|thorough) choose the exploration.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
./build.sh || exit 2
exec harness/target/release/sim check "$1"
