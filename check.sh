#!/bin/bash
# check.sh ID [quick|thorough]      decide one property on /repo's current tree
# check.sh ID --replay FILE         re-run one recorded failing case (exit 1 if it still fails)
# exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run
set -u
here=$(cd "$(dirname "$0")" && pwd)
id="${1:?property id}"; shift
tier="${VERIF_TIER:-quick}"
replay=""
while [ $# -gt 0 ]; do
  case "$1" in
    quick|thorough) tier="$1" ;;
    --replay) replay="$2"; shift ;;
    *) echo "unknown argument $1" >&2; exit 2 ;;
  esac
  shift
done
seed="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/harness/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
manifest="$here/harness/Cargo.toml"
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
log=$(mktemp) || exit 2
work=$(mktemp -d) || exit 2
trap '/bin/rm -rf -- "$work" "$log"' EXIT

# C24 also runs in an interpreter, which needs a standard library of its own and the crate compiled for it
mi="$CARGO_TARGET_DIR/mi"
export MIRI_SYSROOT="$mi/sysroot"
export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"
interpreter() {
  [ "$id" = C24 ] || return 0
  (
    unset RUSTC_WRAPPER
    flock 8
    now=$(cd /repo && cat Cargo.toml $(find src build.rs -type f 2>/dev/null | LC_ALL=C sort) | cat - "$here/harness/mi/src/"*.rs | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$mi/yason.sum" 2>/dev/null)" != "$now" ]; then
      /bin/rm -rf -- "$mi/t"
    fi
    [ -d "$MIRI_SYSROOT/lib" ] || cargo +nightly miri setup >"$mi/log" 2>&1 || exit 1
    : >"$mi/empty"
    CARGO_TARGET_DIR="$mi/t" cargo +nightly miri run --offline --locked --release --manifest-path "$here/harness/mi/Cargo.toml" -- "$mi/empty" >"$mi/log" 2>&1 </dev/null || exit 1
    echo "$now" >"$mi/yason.sum"
  ) 8>"$mi/.lock"
}
[ "$id" = C24 ] && mkdir -p "$mi"
interpreter &
ip=$!

(
  flock 9
  # cargo decides by time stamps; the content decides here
  now=$(cd /repo && cat Cargo.toml $(find src build.rs -type f 2>/dev/null | LC_ALL=C sort) | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$CARGO_TARGET_DIR/yason.sum" 2>/dev/null)" != "$now" ]; then
    CARGO_TARGET_DIR="$CARGO_TARGET_DIR/dbg" cargo clean --offline --manifest-path "$manifest" -p yason -p yvh >/dev/null 2>&1
    cargo clean --offline --release --manifest-path "$manifest" -p yason -p yvh >/dev/null 2>&1
    echo "$now" >"$CARGO_TARGET_DIR/yason.sum"
  fi
  cargo build --offline --locked --release --manifest-path "$manifest" >"$log" 2>&1 &
  a=$!
  CARGO_TARGET_DIR="$CARGO_TARGET_DIR/dbg" cargo build --offline --locked --manifest-path "$manifest" >"$log.d" 2>&1 &
  b=$!
  wait $a; ra=$?
  wait $b; rb=$?
  [ $ra -eq 0 ] && [ $rb -eq 0 ]
) 9>"$CARGO_TARGET_DIR/.lock"
if [ $? -ne 0 ]; then
  echo "the harness does not build against /repo:" >&2
  grep -hE '^(error|warning: unused)' -A6 "$log" "$log.d" | head -60 >&2
  /bin/rm -f -- "$log.d"
  exit 2
fi
/bin/rm -f -- "$log.d"
[ "$id" = --build-only ] && exit 0
wait $ip && if [ "$id" = C24 ]; then
  YV_MIRI_BIN=$(ls "$mi"/t/miri/*/release/yvmi 2>/dev/null | head -1)
  YV_MIRI_RUNNER="$(rustc +nightly --print sysroot 2>/dev/null)/bin/cargo-miri"
  if [ -n "$YV_MIRI_BIN" ] && [ -x "$YV_MIRI_RUNNER" ]; then
    export YV_MIRI_BIN YV_MIRI_RUNNER
  fi
fi
if [ "$id" = C24 ] && [ -z "${YV_MIRI_RUNNER:-}" ]; then
  echo "C24: no interpreter: $(tail -3 "$mi/log" 2>/dev/null)" >&2
fi
rel="$CARGO_TARGET_DIR/release/yvh"
dbg="$CARGO_TARGET_DIR/dbg/debug/yvh"

if [ -n "$replay" ]; then
  python3 - "$replay" "$work/c" >"$work/s" <<'PY' || exit 2
import json, sys
r = json.load(open(sys.argv[1]))
open(sys.argv[2], "w").write(r["choices"])
print(r["sub"], r["profile"], r.get("worker", ""))
PY
  read -r sub profile worker <"$work/s"
  bin="$rel"; [ "$profile" = debug ] && bin="$dbg"
  if [ -n "$worker" ]; then
    "$bin" shm "$work/shm"
    # shellcheck disable=SC2086
    "$bin" worker "$id" $worker --shm "$work/shm" --hashes "$work/h" --deadline 420 >"$work/o"
    rc=$?
    grep '^VIOL' "$work/o" && rc=1
  else
    "$bin" case "$id" --sub "$sub" --choices "$work/c"
    rc=$?
  fi
  if [ $rc -ne 0 ]; then
    echo "VIOLATION property=$id replay=$replay"
    exit 1
  fi
  echo "the case passes now"
  exit 0
fi

"$rel" run "$id" --seed "$seed" --tier "$tier" --dbg "$dbg" --evidence "$here/evidence/$id.json" \
  --work "$work" --replays "$here/replays" --known "$here/known-findings.txt"
exit $?
