#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulator against /repo and checks one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
mkdir -p target
if ! ./build.sh >target/build.log 2>&1; then
    cat target/build.log >&2
    echo "the simulator does not build" >&2
    exit 2
fi
exec target/debug/dst check "$1" "${2:-quick}"
