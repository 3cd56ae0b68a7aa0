#!/bin/bash
# sweep.sh PATCH|revert:HASH|none "IDS": run checks in a scratch copy of /repo and
# /verif with a patch applied or a commit of /repo reverted. (Developer's tool.)
SC=${SC:-/tmp/sc}
mkdir -p "$SC/verif"; rm -rf "$SC/repo"; git clone -q /repo "$SC/repo"; cp /repo/Cargo.lock "$SC/repo/" 2>/dev/null
rm -rf "$SC/verif/harness"; cp -a /verif/harness /verif/check.sh /verif/setup.sh /verif/build.inc /verif/known-findings.txt "$SC/verif/"
[ -d /verif/extra ] && rm -rf "$SC/verif/extra" && cp -a /verif/extra "$SC/verif/"
cd "$SC/repo" || exit 2
case $1 in
revert:*) git revert -n "${1#revert:}" >/dev/null 2>&1 || { git revert --abort 2>/dev/null; git checkout -q -f .; echo "CONFLICT $1"; exit 3; } ;;
none) ;;
*) git apply "$1" || { echo "APPLYFAIL $1"; exit 3; } ;;
esac
export LISOMON_EVIDENCE=$SC/ev LISOMON_REPLAYS=$SC/rep
for i in $2; do
  s=$(date +%s)
  timeout 900 "$SC/verif/check.sh" "$i" >"$SC/out.$i" 2>&1; rc=$?
  echo "$1 $i rc=$rc $(( $(date +%s) - s ))s $(grep -v '^inconclusive' "$SC/out.$i" | tail -2 | tr '\n' ' ' | cut -c1-${W:-260})"
done
