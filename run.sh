#!/bin/bash
# run.sh <property> <quick|thorough>: rebuilds the machinery against /repo's working tree and runs one check.
# Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Anything else: the check itself failed.
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.93.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset SBF_OUT_DIR BPF_OUT_DIR CARGO_BUILD_TARGET
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log=$(mktemp)
trap 'rm -f "$log" "$log".*' EXIT
build() { # crate, extra args...
  local crate="$1"; shift
  if ! (cd "$crate" && cargo build --release --offline --locked "$@") >"$log" 2>&1; then
    echo "build of $crate against /repo failed" >&2; tail -60 "$log" >&2; exit 3
  fi
}
# one dump of what the SDK builds and publishes, per feature set
dump_sdk() { # name, folder, cargo arguments, what...
  local name="$1" dir="$2" args="$3"; shift 3
  export CARGO_TARGET_DIR="$VERIF_ROOT/target/sdk-$name" RUSTFLAGS=
  (cd "sdkmc/$dir" && cargo build --offline --locked $args) >"$log.$name" 2>&1 || { echo "build of the SDK ($name) failed" >&2; tail -60 "$log.$name" >&2; return 1; }
  local w
  for w in "$@"; do
    rm -f "$VERIF_ROOT/target/dump-$name.$w"
    "$CARGO_TARGET_DIR/debug/sdkmc" "$w" "$VERIF_ROOT/target/dump-$name.$w" >&2 || { echo "dump of the SDK ($name $w) failed" >&2; return 1; }
  done
}
dump_all() { # what
  local ok=1 p
  local pids=()
  dump_sdk default plain "" "$1" & pids+=($!)
  dump_sdk backward-compat plain "--features backward-compat" "$1" & pids+=($!)
  dump_sdk anchor anchor "" "$1" & pids+=($!)
  dump_sdk anchor-compat anchorc "" "$1" & pids+=($!)
  for p in "${pids[@]}"; do wait "$p" || ok=0; done
  [ $ok = 1 ] || exit 3
}
mkdir -p target
case "$prop" in
  C20|C29|C31)
    what=requests; [ "$prop" = C29 ] && what=addresses
    if [ "$prop" = C31 ]; then
      dump_sdk anchor anchor "" consumer & a=$!
      dump_sdk anchor-compat anchorc "" consumer & b=$!
      wait $a || exit 3; wait $b || exit 3
    else
      dump_all "$what"
    fi
    export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif_default_queue"
    # the published constants are compared without the hook
    [ "$prop" = C29 ] && export CARGO_TARGET_DIR="$PWD/target/nohook" RUSTFLAGS=
    build svm
    rm -f "$log" "$log".*; exec "$CARGO_TARGET_DIR/release/svm" "$prop" "$tier"
    ;;
  C23|C24|C25|C26|C27)
    export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif_default_queue"
    build oraclemc
    if [ "$prop" = C27 ]; then
      # the cache on its own; where /repo's module cannot be compiled alone, the service as a whole decides
      export MC_CACHE="$PWD/target/cachemc.json"
      rm -f "$MC_CACHE"
      ms=20000 depth=6; [ "$tier" = thorough ] && ms=600000 depth=40
      if (cd oraclemc/cache && cargo build --release --offline --locked) >"$log" 2>&1; then
        timeout 860 ./target/release/cachemc "$MC_CACHE" $ms $depth || { echo "the exploration of the cache failed" >&2; exit 3; }
      else
        echo "the blockhash cache does not compile on its own; only the whole service is explored" >&2
      fi
    fi
    rm -f "$log"; exec ./target/release/oraclemc "$prop" "$tier"
    ;;
  C30)
    (cd /repo && CARGO_TARGET_DIR="$VERIF_ROOT/target/cli" CARGO_PROFILE_DEV_DEBUG=0 cargo build -p vrf-cli --offline --locked) >"$log" 2>&1 \
      || { echo "build of vrf-cli failed" >&2; tail -60 "$log" >&2; exit 3; }
    export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif_default_queue"
    build svm
    rm -f "$log"; exec ./target/release/svm "$prop" "$tier"
    ;;
  *)
    export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif_default_queue"
    build svm
    case "$tier-$prop" in
      thorough-C0[1-9]|thorough-C1[0-5]|thorough-C28)
        # recorded transactions of this check on agave's bank; the result goes into the evidence
        build conform
        export VERIF_CONFORM="$PWD/target/conform-$prop.json"
        rm -f "$VERIF_CONFORM"
        VERIF_ROOT="$PWD/target/conform-root" timeout 1200 ./target/release/conform "$prop" 4 "$VERIF_CONFORM" >"$log" 2>&1
        tail -3 "$log" >&2
        ;;
    esac
    rm -f "$log"; exec ./target/release/svm "$prop" "$tier"
    ;;
esac
