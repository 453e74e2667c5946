#!/bin/bash
# Builds the checker and warms the Go build cache. The checks build again what they need from the current tree.
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cd "$root/mc" && go build -o "$work/mc" . || exit 1
cd /repo && go build -o "$work/metamodel" ./cmd/metamodel || exit 1
exit 0
