#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the harness against /repo's current working tree and runs one property.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
# the pinned toolchain of the repository
TC=$(sed -n 's/^export RUSTUP_TOOLCHAIN=//p' /opt/vp/env.sh 2>/dev/null)
export RUSTUP_TOOLCHAIN=${TC:-nightly-2026-04-01}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=$ROOT/target

# features of the harness each property needs
case $PROP in
  A01|A03|A05) F=hosted,p_math ;;
  A02) F=hosted,p_simd ;;
  A04) F=hosted,p_codec ;;
  A06) F=hosted,p_real ;;
  B0[1-5]) F=hosted,p_att ;;
  C0[1-5]) F=hosted,time ;;
  D01) F=hosted,units ;;
  E0[1-5]) F=hosted,models ;;
  F0[12]) F=hosted,shapes ;;
  G01) F=hosted,interp ;;
  G0[234]) F=hosted,opt ;;
  H0[12]) F=hosted,stats ;;
  H0[34]) F=hosted,ml ;;
  I0[12]) F=hosted,catalogs ;;
  I03) F=hosted,graphics ;;
  I0[45]) F=hosted,viz ;;
  J01) F=hosted,asserts ;;
  *) echo "unknown property $PROP" >&2; exit 2 ;;
esac

build() { # build <features> <name>; binary ends up in $CARGO_TARGET_DIR/bin-<name>
  local log=$CARGO_TARGET_DIR/build-$2.log
  mkdir -p "$CARGO_TARGET_DIR"
  if ! cargo build --release --offline --locked --manifest-path "$ROOT/harness/Cargo.toml" --no-default-features --features "$1" >"$log" 2>&1; then
    grep -A15 -E '^error' "$log" | head -80 >&2
    echo "harness build failed ($1)" >&2
    return 2
  fi
  cp -f "$CARGO_TARGET_DIR/release/harness" "$CARGO_TARGET_DIR/bin-$2"
}

# other builds of the library in which the property must hold: features | name | code generation flags
case $PROP in
  A02) V=("std,simd,p_simd|simd-no-fma|" "simd,p_simd|nostd-simd|" "simd,fma,p_simd|nostd-avx|-Ctarget-feature=+avx,+fma" "p_simd|nostd|") ;;
  A01|A03|A05) V=("p_math|nostd|") ;;
  A06) V=("p_real|nostd|" "p_real,p_wide|wide|") ;;
  B0[1-5]) V=("p_att|nostd|") ;;
  *) V=() ;;
esac

EXTRA=()
RC=0
for v in "${V[@]}"; do
  IFS='|' read -r NF N FLAGS <<<"$v"
  # a configuration the tree does not build in (the repository's own build makes only some of them) has no behaviour to judge
  RUSTFLAGS=$FLAGS build "$NF" "$PROP-$N" || { echo "configuration $N does not build: not examined" >&2; continue; }
  "$CARGO_TARGET_DIR/bin-$PROP-$N" run "$PROP" --root "$ROOT" --tier "$TIER" --seed "$SEED" --variant "$N" --scale "$([ "$PROP" = A06 ] && echo 1 || echo 0.4)" --part "$CARGO_TARGET_DIR/$PROP-$N.part"
  R=$?
  [ $R -le 1 ] || exit $R
  [ $R -eq 1 ] && RC=1
  EXTRA+=(--merge "$CARGO_TARGET_DIR/$PROP-$N.part")
done
NAME=$(echo "$F" | tr ',' '-')
build "$F" "$NAME" || exit 2
"$CARGO_TARGET_DIR/bin-$NAME" run "$PROP" --root "$ROOT" --tier "$TIER" --seed "$SEED" "${EXTRA[@]}" 2> >(grep -v '^\[aether_catalogs\] Skipped' >&2)
RC2=$?
[ $RC2 -gt 1 ] && exit $RC2
[ $RC -eq 1 ] && exit 1
exit $RC2
