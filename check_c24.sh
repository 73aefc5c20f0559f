#!/bin/bash
# Builds the catalogue of calls with and without the `parallel` feature and compares every result.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tier="$1"; shift
cd "$here/mc" || exit 2
cargo build --release --offline --locked --bin p_corpus >"$here/mc/build-p_corpus.log" 2>&1 || {
  tail -n 40 "$here/mc/build-p_corpus.log"; echo "harness does not build" >&2; exit 2; }
builds= failed=
one() { # name, crates that stay parallel
  python3 "$here/tools/gen_c24.py" "$here/c24/$1" "$2" || exit 2
  if (cd "$here/c24/$1/mc" && CARGO_TARGET_DIR="$here/c24/target-$1" cargo build --release --offline --bin p_corpus) >"$here/c24/$1.log" 2>&1; then
    builds="$builds,$1=$here/c24/target-$1/release/p_corpus"
  else
    tail -n 30 "$here/c24/$1.log"; failed="$failed,$1"
  fi
}
one sequential ""
if [ "$tier" = thorough ]; then
  one products-sequential ip_proofs,dh_commitments,sipp
  one proofs-sequential inner_products,dh_commitments,sipp
fi
C24_BUILDS="$builds" C24_FAILED="$failed" exec "$here/mc/target/release/p_corpus" C24 "$tier" "$@"
