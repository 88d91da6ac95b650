#!/bin/bash
# replay.sh FILE: re-executes a recorded violation; exit 1 if it occurs again.
F=$(realpath -m "${1:?usage: replay.sh FILE}")
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
./build.sh || exit 2
exec harness/target/release/sim replay "$F"
