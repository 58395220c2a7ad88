#!/bin/bash
# soak.sh SECS SEED... -- runs every check with several seeds for SECS seconds each (evidence goes to a scratch folder)
cd "$(dirname "$0")" || exit 2
secs=$1; shift
root=$(mktemp -d); cp known_findings.txt "$root"/ 2>/dev/null
for v in "$@"; do for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
  out=$(VERIF_ROOT=$root VERIF_SEED=$v SIM_SECS=$secs sim/target/release/sim check $p 2>&1); rc=$?
  echo "seed $v $p rc $rc: $(echo "$out" | tail -1)"
  [ $rc -ne 0 ] && { echo "$out"; cp "$root"/replays/* /tmp/ 2>/dev/null; }
done; done
rm -rf "$root"
