#!/bin/bash
# replay.sh <file>: builds the simulator and runs a recorded violation again (exit 1: reproduced).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
f="$1"; case "$f" in /*) ;; *) f="$OLDPWD/$f" ;; esac
./build.sh || exit 2
exec target/debug/dst replay "$f"
