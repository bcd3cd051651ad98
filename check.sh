#!/bin/bash
# usage: ./check.sh <property> [--case <id>]     (VERIF_TIER=quick|thorough)
# Builds the explorer of the property against /repo's working tree and runs it.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
id="$1"
if [ "$id" = setup ]; then
  # builds every explorer once
  for p in C22 C12 C09 C06 C01 C18 C16; do "$0" $p --list > /dev/null || exit 1; done
  exit 0
fi
case "$id" in
  C22|C23|C26|C27) bin=mc_alg ;;
  C12|C13|C14|C15|C17|C28) bin=mc_poly ;;
  C09|C10|C11|C24) bin=mc_comm ;;
  C06|C07|C08) bin=mc_fri ;;
  C01|C02|C03|C04|C05) bin=mc_stark ;;
  C18|C19|C20|C21|C25) bin=mc_air ;;
  C16) bin=mc_sched ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
export MC_ROOT="$PWD" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL
mkdir -p evidence replay
[ "$2" = --list ] || rm -f "evidence/$id.json"

groups="query fft trace vdf fp2 tensor"
build() {
  local f="-Awarnings --cfg hodor_verif"
  for g in "$@"; do f="$f --cfg hodor_verif_$g"; done
  (cd mc && RUSTFLAGS="$f" cargo build -q --release --offline --locked --bin "$bin" $features) 2> mc/build.log
}
# the transforms are also explored as built with the feature `nightly`
features=""
[ $bin = mc_poly ] && features="--features checks/prefetched"
ok=0
if build $groups; then ok=1
else
  cp mc/build.log mc/build.first.log
  if [ -n "$features" ]; then
    features=""
    if build $groups; then ok=1; echo "note: does not build with the feature 'nightly', going on without"; fi
  fi
  # an entry point may no longer fit the code behind it: go on without that group
  [ $ok = 1 ] || for skip in $groups; do
    rest=""; for g in $groups; do [ "$g" = "$skip" ] || rest="$rest $g"; done
    if build $rest; then ok=1; echo "note: entry points of group '$skip' do not build, going on without"; break; fi
  done
  if [ $ok = 0 ] && build; then ok=1; echo "note: only the basic entry point builds"; fi
fi
if [ $ok = 0 ]; then
  grep -E '^error' -A 12 mc/build.first.log | head -60 >&2
  echo "the explorer does not build against this tree" >&2
  exit 2
fi
exec "mc/target/release/$bin" "$@"
