#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [--replay FILE] [--only SCENARIO]
# Builds the harness against /repo's working tree (hooks on) and decides one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check.
set -u
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg ripp_verif -Awarnings"
here=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT="$here"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
case "$id" in
  C01|C02) bin=p_ip ;;
  C03|C04|C05) bin=p_sipp ;;
  C06|C07|C08) bin=p_gipa ;;
  C10|C11|C12) bin=p_tipa ;;
  C13|C14) bin=p_ssm ;;
  C15|C16|C17|C18|C19|C28) bin=p_poly ;;
  C09) bin=p_fs ;;
  C20|C21|C22) bin=p_groth ;;
  C23|C25|C26|C27) bin=p_misc ;;
  C29) bin=p_setup ;;
  C30) bin=p_chal ;;
  C31) bin=p_cost ;;
  C24) exec bash "$here/check_c24.sh" "$tier" "${@:3}" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
cd "$here/mc" || exit 2
cargo build --release --offline --locked --bin "$bin" >"$here/mc/build-$bin.log" 2>&1 || {
  tail -n 40 "$here/mc/build-$bin.log"; echo "harness does not build" >&2; exit 2; }
exec "$here/mc/target/release/$bin" "$id" "$tier" "${@:3}"
