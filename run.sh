#!/bin/bash
# run.sh ID : rebuild what property ID needs from /repo's working tree and run its check.
# VERIF_SEED and VERIF_TIER come from the environment. Exit 0 held, 1 violation, 2 error.
set -u
ID=$1
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS 2>/dev/null
mkdir -p "$ROOT/target" "$ROOT/evidence"

# Cargo judges by modification times; a source tree whose content differs from the one last built is built again whatever its times.
REPO_HASH=$(cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
fresh() { # TARGET-DIR PROFILE
  local s="$ROOT/target/$1/.repo-hash"
  if [ "$(cat "$s" 2>/dev/null)" != "$REPO_HASH" ]; then
    find "$ROOT/target/$1/$2/.fingerprint" -maxdepth 1 -type d \( -name 'toon-rs-*' -o -name 'toon-cli-*' -o -name 'toon-wasm-*' \) -exec rm -rf {} + 2>/dev/null
    rm -f "$s"
  fi
}
built() { mkdir -p "$ROOT/target/$1"; echo "$REPO_HASH" >"$ROOT/target/$1/.repo-hash"; }

build_set() { # default | alloc | all
  local log="$ROOT/target/build-$1.log"
  fresh "$1" release
  harness() { (cd "$ROOT/harness" && CARGO_TARGET_DIR="$ROOT/target/$1" cargo build --release --offline --locked -q --bin toon-verif --no-default-features --features "set-$1$2") >"$log" 2>&1; }
  if ! harness "$1" ,inner && ! harness "$1" ""; then
    echo "ERROR: building the harness (set $1) failed" >&2; tail -30 "$log" >&2; exit 2
  fi
  built "$1"
}
build_guided() { # the same with edge counters in the library
  local log="$ROOT/target/build-cov-$1.log"
  fresh "cov-$1" release
  harness() { (cd "$ROOT/harness" && RUSTC_WRAPPER="$ROOT/tools/cov-rustc.sh" CARGO_TARGET_DIR="$ROOT/target/cov-$1" cargo build --release --offline --locked -q --bin toon-verif --no-default-features --features "set-$1,guided$2") >"$log" 2>&1; }
  if ! harness "$1" ,inner && ! harness "$1" ""; then
    echo "ERROR: building the harness (set $1, guided) failed" >&2; tail -30 "$log" >&2; exit 2
  fi
  built "cov-$1"
}
build_tool() { # what the property drives besides the library: the command-line tool, the bindings
  local log="$ROOT/target/build-tool.log"
  case "$1" in
    C17)
      export TOON_CLI=$ROOT/target/cli/debug/toon-cli
      fresh cli debug
      cargo build --offline --locked -q --manifest-path /repo/Cargo.toml -p toon-cli --bin toon-cli --target-dir "$ROOT/target/cli" >"$log" 2>&1 && built cli ;;
    C18)
      export VERIF_WASM=$ROOT/target/wasm/release/toon-wasm-serve
      fresh wasm release
      (cd "$ROOT/harness-wasm" && CARGO_TARGET_DIR="$ROOT/target/wasm" cargo build --release --offline --locked -q) >"$log" 2>&1 && built wasm ;;
  esac || { echo "ERROR: building for $1 failed" >&2; tail -30 "$log" >&2; exit 2; }
}
exe() { echo "$ROOT/target/$1/release/toon-verif"; }

sets=$("$ROOT/tools/sets.sh" "$ID") || exit 2
build_tool "$ID"
# The sets searched by coverage, too. The command-line tool and the bindings run in processes of their own, which this does not see.
gsets=
case "$ID" in
  C17 | C18) ;;
  *) for s in $sets; do [ "${s#+}" = "$s" ] && gsets="$gsets $s"; done
     [ "$VERIF_TIER" = thorough ] || gsets=$(set -- $gsets; echo "$1") ;;
esac
pids=()
for s in $sets; do build_set "${s#+}" & pids+=($!); done
for s in $gsets; do build_guided "$s" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p" || exit 2; done
main= ; extra=()
for s in $sets; do
  if [ "${s#+}" != "$s" ]; then export VERIF_PEER=$(exe "${s#+}"); continue; fi
  if [ -z "$main" ]; then main=$(exe "$s"); else extra+=("$s=$(exe "$s")"); fi
done
for s in $gsets; do extra+=("guided-$s=$(exe "cov-$s")"); done
exec "$main" run "$ID" "${extra[@]}"
