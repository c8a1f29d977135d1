#!/bin/bash
# check.sh ID: 0 held on everything explored, 1 VIOLATION, 2 error of the check.
# The tier is VERIF_TIER (quick by default), the seed VERIF_SEED (1 by default).
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id=${1:?usage: check.sh ID}
rm -f "$VERIF_ROOT/evidence/$id.json"
rm -f "$VERIF_ROOT/evidence/$id".*.json
case $id in
C13)
    build_native && build_asan || exit 2
    run_part native "$B/native/release/vmon" run "$id"
    run_part asan asan "$id"
    python3 tools/merge.py "$id" asan || exit 2
    exit $WORST
    ;;
C14 | C19)
    build_native && build_tsan || exit 2
    run_part native "$B/native/release/vmon" run "$id"
    # a violation already seen stands without it
    if [ "$WORST" = 1 ]; then exit 1; fi
    run_part tsan tsan "$id"
    python3 tools/merge.py "$id" tsan || exit 2
    exit $WORST
    ;;
C16)
    build_native && build_python || exit 2
    with_python
    exec "$B/native/release/vmon" run "$id"
    ;;
C17)
    build_native && build_wasm || exit 2
    with_wasm
    exec "$B/native/release/vmon" run "$id"
    ;;
C25)
    build_native && build_python && build_wasm || exit 2
    with_python
    with_wasm
    VMON_NO_RLIMIT=1 exec "$B/native/release/vmon" run "$id"
    ;;
C01 | C02 | C04 | C05 | C07 | C10 | C11 | C12 | C20 | C21 | C22)
    build_native || exit 2
    # the property through the modules too; that they can be made is for C16 and C17
    if build_python; then with_python; fi
    case $id in
    C05) ;;
    *) if build_wasm; then with_wasm; fi ;;
    esac
    exec "$B/native/release/vmon" run "$id"
    ;;
C23)
    build_native && build_cdylib || exit 2
    export VMON_CDYLIB="$B/cdylib/release/libcosmian_abe_gpsw.so"
    exec "$B/native/release/vmon" run "$id"
    ;;
*)
    build_native || exit 2
    exec "$B/native/release/vmon" run "$id"
    ;;
esac
