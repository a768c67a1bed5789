#!/bin/bash
# Builds the checker from /repo's working tree and runs one check.
# usage: run.sh <property> <quick|thorough>
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target"
export MC_EVIDENCE="$here/evidence"
mkdir -p "$here/target" "$here/evidence"
rm -f "$here/evidence/$id.json"
exec 9>"$here/target/.lock"
flock 9

# Do not rely on time stamps to notice changes of the code under test.
stamp=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat "$here/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
    for p in release checked; do
        rm -rf "$here/target/$p/.fingerprint/"eth_trie_utils-* "$here/target/$p/.fingerprint/"mc-* "$here/target/$p/.fingerprint/"conc-*
    done
    echo "$stamp" > "$here/target/.stamp"
fi

build() { # crate profile
    (cd "$here/$1" && cargo build -q --offline --locked --profile "$2" 9>&-) || {
        echo "build of $1 ($2) failed" >&2
        exit 2
    }
}

ulimit -v 26000000 2>/dev/null
case $id in
C19)
    build conc release
    flock -u 9
    exec "$here/target/release/conc" "$id" "$tier"
    ;;
C01 | C02 | C03 | C14 | C15 | C16)
    build mc checked
    build mc release
    flock -u 9
    "$here/target/checked/mc" "$id" "$tier" || exit $?
    MC_MERGE=1 exec "$here/target/release/mc" "$id" "$tier"
    ;;
*)
    build mc checked
    flock -u 9
    exec "$here/target/checked/mc" "$id" "$tier"
    ;;
esac
