#!/bin/bash
# run.sh <ID>: builds the harness against /repo's working tree and explores property <ID>.
# run.sh --build: only builds.   run.sh --replay <ID> <file>: re-executes a recorded violation.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true RUSTFLAGS="${RUSTFLAGS:--Awarnings}"
build() { # $1 features, $2 target dir
  cargo build -q --offline --manifest-path "$V/harness/Cargo.toml" --no-default-features --features "$1" --target-dir "$V/target/$2" >"$V/out/build-$2.log" 2>&1 || { cat "$V/out/build-$2.log" >&2; echo "BUILD FAILED" >&2; exit 2; }
}
mkdir -p "$V/out" "$V/evidence"
case "${1:-}" in
  --build) build full full; build flex flex; build bare bare; exit 0;;
  --replay) f=full; case "$3" in *.flex.replay) f=flex;; *.bare.replay) f=bare;; esac
    build $f $f; exec "$V/target/$f/debug/harness" replay "$2" "$3";;
esac
build full full
rm -f "$V/out/$1.part.flex.json" "$V/out/$1.part.bare.json"
if [ "$1" = C16 ]; then # no codec at all; then the other implementation of LZ4, under the feature lz4_flex
  for f in bare flex; do
    build $f $f
    MC_PART=$f "$V/target/$f/debug/harness" check "$1" || exit $?
  done
fi
exec "$V/target/full/debug/harness" check "$1"
