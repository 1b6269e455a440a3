#!/bin/bash
# Warms the build caches of every harness; each check builds again what changed.
cd "$(dirname "$0")" || exit 1
./conc/build.sh >/dev/null || exit 1
./conc/build.sh mcver >/dev/null || exit 1
./seq/build.sh traced >/dev/null || exit 1
./comp/build.sh >/dev/null || exit 1
exit 0
