#!/bin/bash
# check.sh <property id> [quick|thorough]: builds that property's check against /repo's current
# working tree and runs it. Exit 0: held; 1: VIOLATION printed; 2: the check could not be built.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
bin=$(echo "$id" | tr 'A-Z' 'a-z')
T="$VERIF_ROOT/target"
# never trust timestamps: the crates under test are always rebuilt from their current sources
rm -rf "$T"/debug/.fingerprint/parsel-* "$T"/debug/.fingerprint/parsel_derive-* "$T"/debug/.fingerprint/vh-* "$T"/debug/.fingerprint/vh_face-*
log=$(mktemp)
# these are checked on generated type definitions, too
case "$id" in C01|C02|C03|C04|C14|C18|C23|C24) more="--bin c22";; *) more=;; esac
package=harness
[ "$id" = C27 ] && package=harness/face
if ! cargo build --offline --locked --quiet --manifest-path "$package/Cargo.toml" --target-dir "$T" --bin "$bin" $more >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "check error: $id could not be built against /repo"
  exit 2
fi
# the procedural macros of C25 and C26
if { [ "$id" = C25 ] || [ "$id" = C26 ]; } && ! cargo build --offline --locked --quiet --manifest-path harness/inside/Cargo.toml --target-dir "$T" >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "check error: the macro of $id could not be built against /repo"
  exit 2
fi
# the library that the programs of C27 use
if [ "$id" = C27 ] && ! cargo build --offline --locked --quiet --manifest-path harness/face/Cargo.toml --target-dir "$T" -p parsel >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "check error: parsel could not be built"
  exit 2
fi
rm -f "$log"
if [ -n "$more" ]; then
  export VH_MERGE="$T/part-$id.json"
  rm -f "$VH_MERGE"
  VH_EVIDENCE="$VH_MERGE" "$T/debug/c22" --as "$id"
  case $? in
    0) ;;
    1) mkdir -p evidence; cp "$VH_MERGE" "evidence/$id.json"; exit 1;;
    # definitions that do not compile are decided by C22
    *) echo "$id: no generated types were checked"; rm -f "$VH_MERGE";;
  esac
fi
exec "$T/debug/$bin"
