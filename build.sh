#!/bin/bash
# Builds the harness against /repo's current working tree.
#   build.sh checked|plain|libm ...
# Exit 0: built; 1: the library itself does not compile; 3: anything else.
set -u
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL

# What the library is made of, by content: file times do not survive copying.
fingerprint() {
    {
        (cd /repo && find Cargo.toml mlx9064x -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum)
        find harness/src harness/Cargo.toml harness/Cargo.lock libm/src libm/Cargo.toml libm/Cargo.lock build.sh -type f -print0 | sort -z | xargs -0 sha256sum
        rustc --version
    } | sha256sum | cut -d' ' -f1
}

one() {
    local kind=$1 dir pkg profile out
    case $kind in
        checked) dir=harness pkg=mlxprop profile=release out=harness/target/release/mlxprop ;;
        plain) dir=harness pkg=mlxprop profile=plain out=harness/target/plain/mlxprop ;;
        libm) dir=libm pkg=mlxlibm profile=release out=libm/target/release/libmlxlibm.so ;;
        *) echo "build.sh: unknown kind $kind" >&2; return 3 ;;
    esac
    mkdir -p "$dir/target" || return 3
    local want stamp="$dir/target/stamp-$kind" log="$dir/target/log-$kind"
    want=$(fingerprint) || return 3
    if [ -f "$stamp" ] && [ -f "$out" ] && [ "$(cat "$stamp")" = "$want" ]; then
        return 0
    fi
    rm -f "$stamp"
    (
        cd "$dir" || exit 3
        cargo clean --offline --quiet --profile "$profile" -p mlx9064x -p "$pkg" >/dev/null 2>&1
        cargo build --offline --locked --profile "$profile"
    ) >"$log" 2>&1
    local r=$?
    if [ $r -ne 0 ] && [ $dir = harness ] && ! grep -q 'could not compile `mlx9064x`' "$log"; then
        # The calibration interface may have got another required item, which the harness's own
        # implementations of it lack: do without them.
        (cd "$dir" && cargo build --offline --locked --profile "$profile" --no-default-features) >"$log.reduced" 2>&1
        r=$?
        [ $r -eq 0 ] && echo "build.sh: built without user-made calibrations, see $log" >&2
    fi
    if [ $r -ne 0 ]; then
        cat "$log" >&2
        if grep -q 'could not compile `mlx9064x`' "$log" && grep -q '^error\[E' "$log"; then
            return 1
        fi
        return 3
    fi
    [ -f "$out" ] || return 3
    echo "$want" >"$stamp"
}

exec 9>.build.lock
flock 9
for k in "$@"; do
    one "$k"
    r=$?
    [ $r -eq 0 ] || exit $r
done
