#!/bin/bash
# Usage: check.sh <PROPERTY-ID> [qlcheck args]      run one check (tier from VERIF_TIER, seed from VERIF_SEED)
#        check.sh --build                           only build the harness
#        check.sh --tier thorough <PROPERTY-ID>     run at the given tier
# Exit: 0 property held on everything explored, 1 violation, 2 no answer (the build failed).
cd "$(dirname "$0")" || exit 2
root=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if [ "$1" = "--tier" ]; then export VERIF_TIER="$2"; shift 2; fi

build() {
    local target="$root/harness/target"
    mkdir -p "$target" || return 1
    # Cargo decides by modification time; decide by content as well, so that a tree whose files were
    # replaced with older ones is never judged by a stale build.
    local now old
    now=$(find /repo/src /repo/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$target/repo.sha256" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -rf "$target"/debug/.fingerprint/rust-quantlib-* "$target"/debug/.fingerprint/qlcheck-*
        rm -f "$target/repo.sha256"
    fi
    (cd harness && cargo build --offline --quiet) >"$target/build.log" 2>&1 || { cat "$target/build.log" >&2; return 1; }
    printf '%s\n' "$now" >"$target/repo.sha256"
}

exec 9>"$root/.build.lock"
flock 9
build || { echo "check.sh: the harness does not build" >&2; exit 2; }
flock -u 9
[ "$1" = "--build" ] && exit 0
export QLCHECK_ROOT="$root"
exec "$root/harness/target/debug/qlcheck" "$@"
