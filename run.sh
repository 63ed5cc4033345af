#!/bin/bash
# run.sh setup | run.sh ID [quick|thorough] [extra arguments of vmon check]
# Builds the monitor against the current working tree of /repo and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
LOG=$VERIF/target/build.log
mkdir -p "$VERIF/target"

# Content, not time stamps, decides whether the library is rebuilt.
sources_hash() {
    { find /repo/src /repo/examples /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
      find "$VERIF/harness" "$VERIF/examples-crate" -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
    } 2>/dev/null | sha256sum | cut -c1-40
}

# build NAME TARGET_DIR BINARY cargo-arguments...
build() {
    local name=$1 dir=$2 bin=$3; shift 3
    local stamp=$VERIF/target/$name.stamp now
    now=$(sources_hash)
    if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then
        return 0
    fi
    rm -f "$stamp"
    ( cd "$VERIF/${CRATE:-harness}" || exit 1
      export CARGO_TARGET_DIR=$dir
      # make sure that cargo looks at the contents again
      find "$dir" -maxdepth 5 \( -path '*/.fingerprint/rusty-git-*' -o -path '*/.fingerprint/vmon-*' \) -prune -exec rm -rf {} + 2>/dev/null
      cargo "$@" ) >"$LOG.$name" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then
        echo "build of $name failed:"; grep -E '^error' -A8 "$LOG.$name" | head -60
        return 1
    fi
    echo "$now" >"$stamp"
}

# A library that builds, but whose handles (readers, objects) the compiler does not let threads
# share (pass on), cannot do what these properties say.
not_for_threads() { # build log
    local what
    case $ID in
        C02|C18) what='(Repository|ObjectDatabase|ReferenceDatabase)`' ;;
        C24) what='rusty_git|ObjectReader|Repository' ;;
        *) return ;;
    esac
    [ "$(grep -cE '^error(\[|:)' "$1")" -gt 0 ] || return
    # nothing else is wrong
    grep -E '^error(\[|:)' "$1" | grep -vE 'between threads safely|could not compile|aborting' | grep -q . && return
    grep -E 'between threads safely' -A25 "$1" | grep -E "$what" >/dev/null || return
    mkdir -p "$VERIF/replay"
    cp "$1" "$VERIF/replay/$ID-threads.txt"
    echo "VIOLATION property=$ID replay=$VERIF/replay/$ID-threads.txt"
    echo "  $(grep -m1 -E 'between threads safely' "$1")"
    exit 1
}

main_build() { build vmon "$VERIF/target/main" "$VERIF/target/main/debug/vmon" build --offline; }
T=x86_64-unknown-linux-gnu
san_build() { # tsan thread | asan address
    RUSTFLAGS="-Zsanitizer=$2 -Cforce-frame-pointers=yes" \
        build "$1" "$VERIF/target/$1" "$VERIF/target/$1/$T/debug/vmon" \
        +nightly build --offline -Zbuild-std --target $T --features plain
}

# The example programs, for C25.
examples_build() {
    CRATE=examples-crate build examples "$VERIF/target/examples" "$VERIF/target/examples/debug/refs" build --offline
}

exec 9>"$VERIF/target/lock"
flock 9

if [ "${1:-}" = setup ]; then
    main_build && examples_build && san_build tsan thread && san_build asan address && "$VERIF/target/main/debug/vmon" selftest
    exit $?
fi

ID=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
if ! main_build; then
    not_for_threads "$LOG.vmon"
    exit 2
fi
if [ "$ID" = C18 ]; then
    san_build tsan thread || exit 2
    export VMON_TSAN=$VERIF/target/tsan/$T/debug/vmon
fi
if [ "$ID" = C07 ] && [ "$TIER" = thorough ]; then
    san_build asan address || exit 2
    export VMON_ASAN=$VERIF/target/asan/$T/debug/vmon
fi
if [ "$ID" = C25 ]; then
    examples_build || exit 2
    export VMON_EXAMPLES=$VERIF/target/examples/debug
fi
flock -u 9; exec 9>&-
LIMIT=()
[ "$TIER" = thorough ] && LIMIT=(--limit "${VMON_LIMIT:-760}")
[ "$TIER" = quick ] && LIMIT=(--limit "${VMON_LIMIT:-420}")
exec "$VERIF/target/main/debug/vmon" check "$ID" --tier "$TIER" --out "$VERIF" "${LIMIT[@]}" "$@"
