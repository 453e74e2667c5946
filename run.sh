#!/bin/bash
# Usage: run.sh PROPERTY TIER
# Builds the checker from the current working tree of /repo and runs it for the given property.
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_ROOT="$root"
base=/tmp
[ -d /dev/shm ] && [ -w /dev/shm ] && base=/dev/shm
work=$(mktemp -d "$base/verif.XXXXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
cd "$root/mc" || exit 2
go build -o "$work/mc" . || exit 2
"$work/mc" -property "$1" -tier "${2:-quick}" -work "$work"
exit $?
