#!/usr/bin/env bash
# usage: tsan.sh <quick|thorough> <seed>
# The P04 workloads under ThreadSanitizer (standard library instrumented too).
# Adds what was observed to evidence/P04.json; exit 1 with a VIOLATION line on a report.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
T="$1"; S="$2"
note() { python3 - "$V/evidence/P04.json" "$1" "$2" "$3" <<'P'
import json,sys
p=sys.argv[1]; e=json.load(open(p))
e["coverage"]["thread_sanitizer"]={"built":sys.argv[2]=="yes","evaluations":int(sys.argv[3]),"reports":int(sys.argv[4])}
if int(sys.argv[4]): e["violations"]=e.get("violations",0)+int(sys.argv[4])
json.dump(e,open(p,"w"),indent=1)
P
}
export RUSTFLAGS="-Zsanitizer=thread"
if ! rustup run nightly cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path "$V/tsan/Cargo.toml" >"$V/tsan/build.log" 2>&1; then
  echo "NOTE: no ThreadSanitizer build (see tsan/build.log); the plain run stands alone"
  note no 0 0; exit 0
fi
unset RUSTFLAGS
R="$V/tsan/target/runs/$$"; mkdir -p "$R/evidence"
trap 'rm -rf "$V/tsan/target/runs/$$"' EXIT
if [ "$T" = thorough ]; then export CGARV_SCALE=0.3 CGARV_CAP=1200; else export CGARV_SCALE=0.2 CGARV_CAP=120; fi
TSAN_OPTIONS="halt_on_error=0 exitcode=0 report_thread_leaks=0 log_path=$R/report" "$V/tsan/target/x86_64-unknown-linux-gnu/debug/cgart" run P04 "$T" "$S" "$R" >"$R/out" 2>&1
C=$?
K=$(cat "$R"/report.* 2>/dev/null | grep -c "WARNING: ThreadSanitizer")
N=$(python3 -c "import json;print(json.load(open('$R/evidence/P04.json'))['coverage']['evaluations'])" 2>/dev/null || echo 0)
note yes "$N" "$K"
if [ "$K" -gt 0 ]; then
  mkdir -p "$V/evidence/replay"; cat "$R"/report.* | head -400 > "$V/evidence/replay/P04-thread-sanitizer.txt"
  head -30 "$V/evidence/replay/P04-thread-sanitizer.txt"
  echo "VIOLATION property=P04 replay=$V/evidence/replay/P04-thread-sanitizer.txt"; exit 1
fi
if [ "$C" -eq 1 ]; then
  mkdir -p "$V/evidence/replay"; cp "$R/out" "$V/evidence/replay/P04-under-thread-sanitizer.txt"
  grep -v "^VIOLATION" "$R/out" | head -20
  echo "VIOLATION property=P04 replay=$V/evidence/replay/P04-under-thread-sanitizer.txt"; exit 1
fi
echo "P04 under ThreadSanitizer: $N cases, $K reports"
exit 0
