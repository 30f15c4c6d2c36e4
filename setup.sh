#!/bin/bash
# Builds the framework once (also warms the build cache).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
(cd "$here/harness" && go vet ./gen ./mc) || exit 3
build vh
build_sched
