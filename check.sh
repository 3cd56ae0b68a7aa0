#!/bin/bash
# check.sh ID -- build what the check needs from /repo's working tree, run it.
cd "$(dirname "$0")" || exit 2
. ./build.inc
ID=$1
build base || exit 2
case $ID in
C14) build noglobal || exit 2 ;;
C13 | C22) build stderr || exit 2 ;;
C24) build stderr || exit 2
    build tsan || { unset LISOMON_TSAN; echo "going on without ThreadSanitizer"; }
    build asan || { unset LISOMON_ASAN; echo "going on without AddressSanitizer"; } ;;
esac
case $ID in
C22) exec ./target/stderr/debug/lisomon run "$ID" ;;
*) exec ./target/debug/lisomon run "$ID" ;;
esac
