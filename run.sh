#!/bin/bash
# run.sh <property> [quick|thorough]   build the harness from /repo's working tree, run one check
# run.sh setup                         build everything
# run.sh replay <file>                 re-run one recorded counterexample
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_DIR="$HERE"
export CARGO_TARGET_DIR="$HERE/target"
unset RUSTFLAGS
REPO=/repo

crate_of() { # which harness crate decides a property
    case "$1" in
        N*) echo native ;;
        *) echo core ;;
    esac
}

build() { # crate
    local dir="$HERE/$1" out="$HERE/target/$1"
    mkdir -p "$out"
    exec 9>"$out/.verif-lock"
    flock 9
    # cargo decides staleness by mtime; decide it by content as well.
    local now old
    now="$(cd "$REPO" && find src mrp protobuf call_sim Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 2>/dev/null \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    old="$(cat "$out/.verif-srchash" 2>/dev/null || true)"
    if [ "$now" != "$old" ]; then
        rm -f "$out/.verif-srchash"
        if [ -n "$old" ]; then
            (cd "$dir" && cargo clean --offline --target-dir "$out" -p ringrtc -p mrp -p protobuf -p regex-aot) >/dev/null 2>&1
        fi
    fi
    (cd "$dir" && cargo build --offline --target-dir "$out" 2>"$out/.verif-build.log") || {
        tail -n 60 "$out/.verif-build.log" >&2
        echo "run.sh: the harness does not build against $REPO" >&2
        flock -u 9
        return 1
    }
    echo "$now" >"$out/.verif-srchash"
    flock -u 9
}

case "${1:-}" in
setup)
    for c in core native; do
        [ -d "$HERE/$c" ] && { build "$c" || exit 2; }
    done
    exit 0
    ;;
replay)
    id="$(basename "$2" | cut -d- -f1)"
    c="$(crate_of "$id")"
    build "$c" || exit 2
    exec "$HERE/target/$c/debug/rr$c" replay "$2"
    ;;
"" | -h | --help)
    sed -n 2,4p "$0"
    exit 2
    ;;
*)
    id="$1"
    tier="${2:-${VERIF_TIER:-quick}}"
    c="$(crate_of "$id")"
    build "$c" || exit 2
    if [ "$tier" = quick ]; then export VERIF_WATCHDOG="${VERIF_WATCHDOG:-600}"; else export VERIF_WATCHDOG="${VERIF_WATCHDOG:-14400}"; fi
    exec "$HERE/target/$c/debug/rr$c" run "$id" "$tier"
    ;;
esac
