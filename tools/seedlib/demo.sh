#!/bin/bash
# cwd: /repo
. "$(dirname "$0")/lib.sh"
. "$here/build.args"
build "${FLAGS[@]}" -- $SRCS
timeout 120 "$work/demo"
