#!/bin/bash
# Builds the checkers against /repo's working tree and runs one check:
#   run.sh run <ID> [--sub NAME] [--scale X]   |   run.sh replay <FILE>   |   run.sh build
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
id=""
case "${1:-}" in
  build) ;;
  run) id="${2:-}" ;;
  replay) id="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "${2:-/dev/null}" | head -1)" ;;
  *) echo "usage: run.sh build | run ID [--sub NAME] [--scale X] | replay FILE"; exit 2 ;;
esac
bin=""
if [ "$1" != build ]; then
  bin="$(awk -v id="$id" '{for (i = 2; i <= NF; i++) if ($i == id) print $1}' "$HERE/harness/bins.txt")"
  [ -n "$bin" ] || { echo "ERROR unknown property '$id'"; exit 2; }
fi
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
cd "$HERE/harness" || exit 2
log="$(mktemp)"
if ! cargo build --locked --offline ${bin:+--bin "$bin"} >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "ERROR the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$HERE/harness/target/debug/$bin" "$@"
