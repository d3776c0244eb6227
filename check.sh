#!/bin/bash
# check.sh <ID> quick|thorough      decide one property on /repo's working tree
# check.sh --replay <file>          re-run the single case of a replay file
# check.sh --setup                  build the harness
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
# build_one MANIFEST ARTIFACTS
build_one() {
    mkdir -p target
    # cargo's own lock serialises concurrent builds; output is shown only on failure
    local new="target/artifacts.$$.json"
    if ! out=$(cargo build --release --offline --manifest-path "$1" --message-format=json-render-diagnostics 2>&1 >"$new"); then
        rm -f "$PWD/$new"
        echo "$out" | tail -n 60 >&2
        echo "harness build failed" >&2
        exit 2
    fi
    mv -f "$new" "target/$2"
}
# build ID: the harness, and what the check of ID needs besides
build() {
    if [ "$1" = C24 ] || [ "$1" = all ]; then
        (
            export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
            export CARGO_TARGET_DIR="$PWD/target/stable"
            build_one mc/stable/Cargo.toml artifacts-stable.json
        ) || exit 2
    fi
    build_one mc/Cargo.toml artifacts.json
}
case "${1:-}" in
--setup) build all; exit 0 ;;
--replay)
    read -r id tier key < <(python3 - "$2" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); print(d["property"],d["tier"],"-")
P
)
    key=$(python3 -c 'import json,sys; sys.stdout.write(json.load(open(sys.argv[1]))["key"])' "$2")
    build "$id"
    [ -n "$key" ] || exec "$0" "$id" "$tier"
    exec ./target/release/mc "$id" "$tier" --only "$key" ;;
esac
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier"
build "$id"
# Runaway recursion or memory in the code under test ends the process; every
# panic of the code under test is caught and compared inside of it.
ulimit -v 28000000
./target/release/mc "$id" "$tier"
rc=$?
if [ "$rc" = 134 ] || [ "$rc" = 139 ]; then
    mkdir -p replays
    echo "{\"property\": \"$id\", \"tier\": \"$tier\", \"key\": \"\", \"what\": \"the process was aborted by the code under test (status $rc)\"}" >"replays/$id-abort.json"
    echo "VIOLATION property=$id replay=$PWD/replays/$id-abort.json"
    exit 1
fi
exit "$rc"
