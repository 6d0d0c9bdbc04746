#!/bin/bash
# bash check.sh C01            run the check of one property (VERIF_SEED, VERIF_TIER)
# bash check.sh replay FILE    run one recorded case again
# bash check.sh build          build everything
here="$(cd "$(dirname "$0")" && pwd)"
export VH_ROOT="$here" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
log="$(mktemp)"
trap 'rm -f "$log"' EXIT

build() { # directory of the crate
  if [ "$1" = ida/vi ] && ! python3 "$here/ida/sync.py" >"$log" 2>&1; then
    cat "$log" >&2
    return 1
  fi
  if ! cargo build --release --offline --manifest-path "$here/$1/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "$1 does not build against /repo" >&2
    return 1
  fi
}

prop="$1"
if [ "$1" = build ]; then
  build harness && build ida/vi
  exit
fi
if [ "$1" = replay ]; then
  prop="$(python3 -c 'import json,sys; j=json.load(open(sys.argv[1])); print(j.get("property") or j["properties"][0])' "$2")" || exit 2
fi
case "$prop" in
  C4? | C5?) crate=ida/vi; exe=vi ;;  # the integrator in /repo/src
  *) crate=harness; exe=vh ;;         # crates/linear and crates/nonlinear
esac
build "$crate" || exit 2
exe="$here/$crate/target/release/$exe"
if [ "$1" = replay ]; then
  "$exe" replay "$2"
else
  "$exe" check "$1"
fi
