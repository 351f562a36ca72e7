#!/bin/bash
# check.sh <property> [quick|thorough] [family]
# Exit 0: held; 1: VIOLATION line printed; anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 3
id=$1
family=${3:-}
export VERIF_DIR=$PWD VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export MLX_LIBM_SO=$PWD/libm/target/release/libmlxlibm.so
unset MLX_SECOND
checked=harness/target/release/mlxprop plain=harness/target/plain/mlxprop
build() {
    ./build.sh "$1" || { echo "check.sh: the $1 build failed" >&2; exit 3; }
}

if [ "$id" = C28 ]; then
    build checked
    ./build.sh libm
    r=$?
    if [ $r -eq 1 ]; then
        # The std build compiles and the libm build of the same sources does not.
        mkdir -p replays evidence
        cp libm/target/log-libm replays/C28-libm-build.log
        cat >evidence/C28.json <<J
{"property": "C28", "tier": "$VERIF_TIER", "seed": $VERIF_SEED, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the libm build of the library compiles",
  "samples": [{"family": "build", "case": "cargo build --no-default-features --features libm"}]},
 "assumptions": [], "wall_s": 0, "violations": 1}
J
        echo "C28/build: the library does not compile without std"
        echo "VIOLATION property=C28 replay=$PWD/replays/C28-libm-build.log"
        exit 1
    fi
    [ $r -eq 0 ] || exit 3
fi

# run BINARY: one pass over the property's cases; exits unless it held.
run() {
    local bin=$1 left=$((880 - SECONDS)) r t s
    timeout -k 5 "$left" "$bin" check "$id" $family
    r=$?
    [ $r -eq 0 ] && return
    case $r in
        132 | 134 | 135 | 136 | 139)
            # The process died: find the case again, one at a time.
            echo "check.sh: the run died (status $r); looking for the case" >&2
            mkdir -p replays
            t=$PWD/replays/$id-crash.json
            rm -f "$t"
            VERIF_TRACE=$t timeout -k 5 400 "$bin" check "$id" $family
            s=$?
            case $s in
                132 | 134 | 135 | 136 | 139)
                    [ -s "$t" ] || exit 3
                    echo "VIOLATION property=$id replay=$t"
                    exit 1
                    ;;
                1) exit 1 ;;
            esac
            exit 3
            ;;
    esac
    exit $r
}

case $id in
    # Loading arbitrary content is only promised without overflow checks.
    C05 | C06)
        build plain
        run $plain
        ;;
    *)
        build checked
        run $checked
        # Once more in the build a user ships (no overflow checks, no debug assertions).
        if [ $SECONDS -lt 560 ]; then
            build plain
            export MLX_SECOND=1
            run $plain
        else
            echo "check.sh: no time left for a pass with the shipped build" >&2
        fi
        ;;
esac
exit 0
