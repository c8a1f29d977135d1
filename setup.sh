#!/bin/bash
# Builds everything the checks need, from /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
rc=0
build_native || rc=1
build_asan || rc=1
build_tsan || rc=1
build_python || rc=1
build_wasm || rc=1
build_cdylib || rc=1
exit $rc
