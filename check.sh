#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]      tier and seed from VERIF_TIER (quick|thorough) and VERIF_SEED
# Builds the harness against /repo's current working tree and explores the property's bounded space.
# exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; anything else: the check itself failed.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS=
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
prop=${1:?usage: check.sh PROPERTY}
target=$root/target
mkdir -p "$target" "$root/evidence"
# cargo decides by time stamps what to rebuild; decide by content instead
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$target/sources.sha256" 2>/dev/null)" ]; then
    rm -rf "$target"/release/.fingerprint/dandy* "$target"/release/.fingerprint/mc-* "$target"/release/.fingerprint/mcweb-* "$target"/release/.fingerprint/mcgui-*
fi
bins="--bin mc"
case "$prop" in P20 | P21 | P22 | P23 | P27 | setup) bins="$bins --bin dandy-cli" ;; esac
bin=mc
build() { cargo build --release --offline --quiet --target-dir "$target" --manifest-path "$root/$@" >"$target/build.log" 2>&1; }
# the drawing surfaces are compiled only where they are looked at: egui, and the web canvas on a page that stands in for
# the browser (should the drawing code come to use what that page lacks, without the canvas)
ok=
if [ "$prop" = P25 ]; then
    if build mcweb/Cargo.toml --locked --bin mcweb; then
        ok=1 bin=mcweb
    else
        echo "P25: the web canvas does not build against the page in mcweb/web-sys and is left out" >&2
        bins="$bins --features egui"
    fi
fi
if [ -z "$ok" ] && ! build mc/Cargo.toml $bins || { [ "$prop" = P28 ] && ! build mcgui/Cargo.toml --locked --bin dandy-egui; }; then
    cat "$target/build.log" >&2
    echo "the harness does not build against /repo" >&2
    exit 3
fi
echo "$now" >"$target/sources.sha256"
# lets the checks of the command line choose its hash seeds; they work without
if [ ! -e "$target/release/seed.so" ] || [ "$root/mc/shim/seed.c" -nt "$target/release/seed.so" ]; then
    cc -O1 -shared -fPIC -o "$target/release/seed.so" "$root/mc/shim/seed.c" 2>/dev/null || rm -f "$target/release/seed.so"
fi
[ "$prop" = setup ] && exit 0
MC_ROOT=$root exec "$target/release/$bin" "$@"
