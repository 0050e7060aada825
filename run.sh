#!/bin/bash
# Builds the harness against /repo's working tree and runs one property.
#   run.sh <property> [quick|thorough]    run.sh replay <file>    run.sh setup
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
unset RUSTFLAGS CARGO_TARGET_DIR MARKDOWN_FMT_LOG
REPO=/repo
mkdir -p target evidence

# Cargo goes by modification times; a tree whose files changed without newer times is rebuilt too.
build() { # build <lock name> <target dir> <package to clean> <command...>
    local stamp="target/$1.stamp" dir="$2" now; shift 2
    now=$(cd "$REPO" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
    if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
        (cd harness && cargo clean --offline -q --release -p markdown-fmt --target-dir "$dir") 2>/dev/null
    fi
    if ! "$@" >"$stamp.log" 2>&1; then
        cat "$stamp.log" >&2
        echo "error: the build failed" >&2
        exit 4
    fi
    echo "$now" >"$stamp"
}
harness() { build harness "$PWD/harness/target" cargo build --release --offline -q --manifest-path harness/Cargo.toml --target-dir "$PWD/harness/target"; }
tool() {
    build tool "$PWD/target/cli" cargo build --release --offline -q --manifest-path "$REPO/Cargo.toml" --locked --features build-binary --bin markdown-fmt --target-dir "$PWD/target/cli"
    export MDFMT_BIN="$PWD/target/cli/release/markdown-fmt"
}
exec 9>target/lock
flock 9
harness
case "${1:-}" in
    setup) tool; exit 0 ;;
    C17) tool ;;
    replay) if grep -q '"property": "C17"' "${2:-/dev/null}"; then tool; fi ;;
esac
flock -u 9
bin=harness/target/release/mdpbt
case "${1:-}" in
    replay) exec "$bin" replay "$2" ;;
    "") echo "usage: run.sh <property> [quick|thorough] | replay <file> | setup" >&2; exit 2 ;;
    *) VERIF_TIER="${2:-quick}" exec "$bin" run "$1" ;;
esac
