#!/bin/bash
# check.sh ID            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh replay FILE   replay a minimised scenario
# check.sh build         build the simulator only
cd "$(dirname "$0")" || exit 2
V="$PWD"
export RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$V/target" RUSTC_WRAPPER="$V/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
build() { # profile
  local p="$1" d="debug"; [ "$p" = dev ] || d="$p"
  # always compile the library from /repo's current tree
  ( cd sim && cargo clean -q --offline --profile "$p" -p fxd -p fxdshim 2>/dev/null
    cargo build -q --offline --profile "$p" ) || { echo "check.sh: the simulator does not build" >&2; exit 2; }
  BIN="$V/target/$d/fxdsim"
}
mkdir -p out evidence
case "$1" in
  build) build dev; exit 0;;
  replay|digest|gen|selftest)
    build "${FXDSIM_PROFILE:-dev}"; exec "$BIN" "$@";;
  "") echo "usage: check.sh ID | replay FILE" >&2; exit 2;;
esac
ID="$1"; shift
if [ "${VERIF_TIER:-quick}" = thorough ]; then
  # the same properties under release semantics (wrapping arithmetic)
  build rel
  "$BIN" check "$ID" --profile release-semantics --out "$V/out" --known "$V/known-findings.txt" --corpus "$V/corpus" --evidence "$V/evidence/$ID.json" "$@"
  rc=$?; [ $rc -eq 0 ] || exit $rc
fi
build dev
exec "$BIN" check "$ID" --profile debug-semantics --out "$V/out" --known "$V/known-findings.txt" --corpus "$V/corpus" --evidence "$V/evidence/$ID.json" "$@"
