#!/bin/bash
# run.sh ID [quick|thorough]: rebuild the monitor for property ID against /repo's working tree and run it.
# exit 0 held on everything observed, 1 violation, 2 inconclusive (build failure, watchdog, nothing observed).
set -u
cd "$(dirname "$0")" || exit 2
id=${1:?property id}; tier=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$PWD VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
export RUSTFLAGS="${RUSTFLAGS:-} -Awarnings"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
limit=780; prof=dev; out=debug
[ "$tier" = thorough ] && { limit=7200; prof=deep; out=deep; }
mkdir -p evidence
rm -f "evidence/$id.json" evidence/replay/"$id"-seed*
build() { # crate-dir extra cargo args
    local dir=$1; shift
    local log; log=$(mktemp)
    if ! (cd "$dir" && timeout 600 cargo build --offline --profile $prof --bin "$bin" "$@") >"$log" 2>&1; then
        tail -n 40 "$log"; rm -f "$log"; return 1
    fi
    rm -f "$log"
}
case $id in
C01) exec ./miri.sh "$tier" ;;
C22|C23) build harness/constraint || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
C24) for p in core transform; do # which uses of constrained methods does the compiler admit?
        l=$(mktemp); f=; [ $p = transform ] && f='--features transform'
        (cd harness/probe && timeout 600 cargo check --offline --message-format=short --bin $p $f) >"$l" 2>&1
        export "VERIF_PROBE_$(echo $p | tr a-z A-Z)=$l"
    done
    build harness/constraint --features core >/dev/null || build harness/constraint || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
C19|C20) build harness/numeric || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
C25|C26|C27) build harness/core --features transform || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
C10|C16|C17|C18|C21|C28) build harness/core --features transform >/dev/null || build harness/core || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
*) build harness/core || { echo "INCONCLUSIVE property=$id: does not build"; exit 2; } ;;
esac
timeout $limit "$CARGO_TARGET_DIR/$out/$bin"; rc=$?
rm -f "${VERIF_PROBE_CORE:-}" "${VERIF_PROBE_TRANSFORM:-}"
[ $id$rc = C020 ] && { python3 tools/layout.py "$tier"; rc=$?; }
case $rc in
0|1|2) exit $rc ;;
101|132|134|135|136|139) # the code under test brought the process down (panic on valid input, stack overflow, abort, invalid access)
    mkdir -p evidence/replay; r=$PWD/evidence/replay/$id-seed$VERIF_SEED.txt
    printf 'property %s\nreplay: cd /verif && VERIF_SEED=%s VERIF_TIER=%s ./run.sh %s %s\n\nevent process-crash: the monitored process ended with status %s\n' "$id" "$VERIF_SEED" "$tier" "$id" "$tier" $rc >"$r"
    printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended with status %s inside the code under test", "samples": ["see replay"]}, "assumptions": [], "wall_s": 0.0, "violations": 1}\n' "$id" "$tier" "$VERIF_SEED" $rc >"evidence/$id.json"
    echo "VIOLATION property=$id replay=$r"; exit 1 ;;
124) echo "INCONCLUSIVE property=$id: watchdog after ${limit}s"; exit 2 ;;
*) echo "INCONCLUSIVE property=$id: monitor ended with $rc"; exit 2 ;;
esac
