#!/bin/bash
# Builds the monitor (and with it liso from /repo's working tree).
cd "$(dirname "$0")" || exit 2
. ./build.inc
build base && build noglobal && build stderr || exit 1
build tsan; build asan; exit 0
