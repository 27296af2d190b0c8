#!/bin/bash
# Usage: check.sh setup | check.sh C01..C18, C20 [quick|thorough] | check.sh replay FILE
#        check.sh show|digest PROP SEED N
# Builds the simulator with /repo's current working tree and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTFLAGS="--cfg graph_safe_compare_sim"
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
log="$here/sim/target/build.log"
mkdir -p "$here/sim/target"

build() {
    # Two builds, side by side: with the library's own checks, and as shipped.
    ( cd "$here/sim" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/a" cargo build --offline --release ) >"$log.a" 2>&1 &
    local a=$!
    ( cd "$here/sim" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/b" cargo build --offline --profile shipped ) >"$log.b" 2>&1 &
    local b=$!
    wait $a; local ra=$?
    wait $b; local rb=$?
    if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
        grep -h -E '^error' -A12 "$log.a" "$log.b" | head -80 >&2
        echo "the simulator does not build with /repo's working tree" >&2
        exit 4
    fi
    mkdir -p "$here/sim/target/release" "$here/sim/target/shipped"
    # Not overwritten in place, in case one is running.
    for p in a/release:release b/shipped:shipped; do
        cp -f --remove-destination "$here/sim/target/${p%%:*}/gsc_sim" "$here/sim/target/${p##*:}/gsc_sim" || exit 4
    done
}

# One reduced build per selection of the library's features, as users build it (for C18): name, toolchain,
# features.  Violates C18 if the library itself does not build so although it does otherwise.
variants() {
    local v="$here/sim/target/variants"
    mkdir -p "$v"
    while IFS=: read -r name tool features; do
        (
            unset RUSTFLAGS
            mkdir -p "$v/$name"
            CARGO_TARGET_DIR="$v/$name/build" cargo $tool build --offline --release --no-default-features \
                --features "$features" --manifest-path "$here/sim/Cargo.toml" >"$v/$name/log" 2>&1
            echo $? >"$v/$name/rc"
        ) &
    done <<END
default::std,wyrng
fastrand::std,fastrand
oorandom::std,oorandom
every::std,wyrng,oorandom,fastrand
nostd::alloc,wyrng,oorandom
alloc::alloc
none::
anticipate:+nightly:std,oorandom,fastrand,anticipate
std::std
fastrand-bare::fastrand
two-others::std,oorandom,fastrand
wyrng-fastrand::std,wyrng,fastrand
bare::wyrng,oorandom,fastrand
anticipate-bare:+nightly:anticipate
END
    wait
    for d in "$v"/*/; do
        local name; name="$(basename "$d")"
        if [ "$(cat "$d/rc")" != 0 ]; then
            # Either the library itself, or what uses it misses something there.
            local what=
            if grep -q 'could not compile `graph_safe_compare`' "$d/log"; then
                what="the library does not build"
            elif grep -q '^error\[E' "$d/log"; then
                what="what there is otherwise is not there, or not the same,"
            fi
            if [ -n "$what" ]; then
                mkdir -p "$here/replays"
                cp "$d/log" "$here/replays/C18-build-$name.log"
                echo "$what with the features selected as \"$name\"" >&2
                grep -h -E '^error' -A6 "$d/log" | head -20 >&2
                echo "VIOLATION property=C18 replay=$here/replays/C18-build-$name.log"
                exit 1
            fi
            grep -h -E '^error' -A12 "$d/log" | head -40 >&2
            echo "the reduced simulator \"$name\" does not build with /repo's working tree" >&2
            exit 4
        fi
        cp -f --remove-destination "$d/build/release/gsc_sim" "$d/gsc_sim" || exit 4
    done
}

bin="$here/sim/target/release/gsc_sim"
case "${1:-}" in
setup)
    build; variants ;;
replay|show|digest|exec)
    build
    case "$*" in *C18*) variants ;; esac
    exec "$bin" "$@" ;;
C[0-9][0-9])
    build
    if [ "$1" = C18 ]; then variants; fi
    tier="${2:-${VERIF_TIER:-quick}}"
    exec "$bin" check "$1" "$tier" "${VERIF_SEED:-1}" \
        "$here/evidence/$1.json" "$here/replays" "$here/known-findings.txt" ;;
*)
    sed -n 2,4p "$0"; exit 2 ;;
esac
