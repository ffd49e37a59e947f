#!/usr/bin/env bash
# usage: run.sh <property> [quick|thorough]   (seed from VERIF_SEED)
set -u
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"; S="${VERIF_SEED:-1}"
rm -f "$V/evidence/$P.json"
if ! cargo build --offline --manifest-path "$V/harness/Cargo.toml" >"$V/harness/build.log" 2>&1; then
  tail -40 "$V/harness/build.log"; echo "HARNESS-BUILD-FAILED"; exit 2
fi
ulimit -S -v 6000000 2>/dev/null
if [ "$P" = P04 ]; then
  "$V/harness/target/debug/cgarv" run "$P" "$T" "$S" "$V" || exit $?
  ulimit -v unlimited 2>/dev/null
  exec "$V/tsan.sh" "$T" "$S"
fi
exec "$V/harness/target/debug/cgarv" run "$P" "$T" "$S" "$V"
