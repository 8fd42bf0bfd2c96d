#!/bin/bash
# run.sh <property>: rebuilds the check from /repo's working tree and runs it (tier and seed from
# VERIF_TIER / VERIF_SEED). run.sh replay <property> <file> replays one failing case.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
mode=check
if [ "$1" = replay ]; then mode=replay; shift; fi
id="$1"
case "$id" in
  C01|C02|C03|C04|C05|C08|C24|C25) bin=r1cs ;;
  C15|C16|C17|C18|C19) bin=gadgets ;;
  C10|C11|C12|C13|C14) bin=tree ;;
  C07|C09) bin=gens ;;
  C06|C20|C21|C22) bin=coin ;;
  C23) bin=builds ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
# properties of code that depends on the feature set: a share of the cases also runs without features
alt=
case "$id" in C01|C09|C11|C13|C21|C22) alt=none ;; esac
cd "$here/harness" || exit 2
mkdir -p "$here/harness/target"
. "$here/variants.sh"
log="$here/harness/target/build-$bin.log"
exec_bin="$here/harness/target/release/$bin"
if [ "$bin" = builds ]; then
  export VH_BUILDS="$variants"
  all_variants builds || { echo "build of the check failed" >&2; exit 2; }
  exec_bin="$exec_bin-default"
else
  pid=
  if [ -n "$alt" ]; then variant "$bin" "$alt" >"$log-$alt" 2>&1 & pid=$!; fi
  cargo build --release --offline --quiet --bin "$bin" >"$log" 2>&1 || { cat "$log" >&2; echo "build of the check failed" >&2; exit 2; }
  if [ -n "$pid" ]; then
    wait "$pid" || { cat "$log-$alt" >&2; echo "build of the check failed" >&2; exit 2; }
    export VH_ALT="$alt:$exec_bin-$alt"
  fi
fi
if [ "$mode" = replay ]; then
  if [ -n "$alt" ] && grep -q "\"build\": \"$alt\"" "$2"; then exec_bin="$exec_bin-$alt"; fi
  exec "$exec_bin" replay "$2"
fi
exec "$exec_bin" check "$id"
