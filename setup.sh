#!/bin/bash
# Builds the analyser from /verif/tool (vendored dependencies, no network).
dir=$(cd "$(dirname "$0")" && pwd)
. "$dir/env.sh"
mkdir -p "$dir/bin" && cd "$dir/tool" && GOFLAGS=-mod=vendor go build -o "$dir/bin/verif.tmp" . && mv "$dir/bin/verif.tmp" "$dir/bin/verif"
