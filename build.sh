#!/bin/bash
# build.sh [ID]: builds the harness (and, through its path dependencies, /repo's crates with the
# hooks on). Where that fails and a check is named, builds only what this check needs, so that an
# interface which one group of checks relies on and which has changed leaves the others working.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp)
trap 'rm -f "$log"' EXIT
editor='--cfg ced_verif="editor"'
server='--cfg ced_verif="server"'

build() { # flags, features, directory
    RUSTFLAGS=$1 cargo build --release --offline --target-dir "$3" --no-default-features --features "$2" \
        >>"$log" 2>&1 && ln -sfn "$3/release/cedmc" cedmc.tmp$$ && mv -T cedmc.tmp$$ cedmc
}

build "$editor $server" table,server,editor,remote,client target && exit 0
case "$1" in
C01 | C02 | C03) build "$editor" table target/part ;;
C04 | C06 | C07 | C08 | C09 | C10 | C15 | C16 | C20 | C24) build "" editor target/part ;;
C05) build "$editor" table,editor target/part || build "" editor target/part ;;
C11) build "$server" server target/part ;;
C13 | C14 | C18 | C23) build "" remote target/part ;;
C17) build "" client target/part ;;
C12 | C19 | C21 | C22) build "" "" target/part ;;
*) false ;;
esac && exit 0
grep -E "^(error|warning: unused)" -A12 "$log" | head -60
tail -5 "$log"
exit 2
