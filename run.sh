#!/bin/bash
# run.sh setup | check ID [quick|thorough] | replay FILE | list
# Builds the explorer (mc/; for C09 sched/) against /repo's working tree and runs it. Exit codes of "check": 0 held, 1 VIOLATION, anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
build() {
  mkdir -p "$CARGO_TARGET_DIR"
  (
    flock 9
    # never judge an old build: file times may say nothing about contents
    rm -rf "$here"/target/release/.fingerprint/faerie-*
    cd "$here/mc" && cargo build --release --offline --locked >"$here/target/build.log" 2>&1
  ) 9>"$here/target/.lock"
  local rc=$?
  if [ $rc -ne 0 ]; then grep -E '^error' -A8 "$here/target/build.log" | head -60 >&2; tail -3 "$here/target/build.log" >&2; echo "the explorer does not build against /repo" >&2; exit 3; fi
}
build_sched() {
  mkdir -p "$here/target/sched"
  (
    flock 9
    rm -rf "$here"/target/sched/release/build/faerie "$here"/target/sched/release/build/faerie-* "$here"/target/sched/release/.fingerprint/faerie-*
    cd "$here/sched" && RUSTC_WRAPPER="$here/sched/rustc.sh" CARGO_TARGET_DIR="$here/target/sched" cargo +nightly build --release --offline --locked >"$here/target/sched/build.log" 2>&1
  ) 9>"$here/target/.lock"
  local rc=$?
  if [ $rc -ne 0 ]; then grep -E '^error' -A8 "$here/target/sched/build.log" | head -60 >&2; tail -3 "$here/target/sched/build.log" >&2; echo "the scheduler does not build against /repo" >&2; exit 3; fi
}
sched="$here/target/sched/release/sched"
case "${1:-}" in
  setup) build; build_sched ;;
  check) if [ "$2" = C09 ]; then build_sched; exec "$sched" check C09 --tier "${3:-${VERIF_TIER:-quick}}"; fi
    build; exec "$here/target/release/mc" check "$2" --tier "${3:-${VERIF_TIER:-quick}}" ;;
  replay) if [ "$(head -c5 "$2")" = sched ]; then build_sched; exec "$sched" replay "$2"; fi
    build; exec "$here/target/release/mc" replay "$2" ;;
  list) build; exec "$here/target/release/mc" list ;;
  *) sed -n 2,3p "$0" >&2; exit 2 ;;
esac
