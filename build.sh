#!/bin/bash
# build.sh [ID|all]: builds the harness and, for the command line properties, the vimwiki binary
cd "$(dirname "$0")" || exit 2
. ./env.sh
# only P30 needs the wrappers for JavaScript, only P39 the measuring of time
features=; [ "$1" = P30 ] && features="--features wasm"; [ "$1" = P39 ] && features="--features watch"
(cd harness && cargo build --offline -q $features 2>/tmp/vh-build.$$ ) || { cat /tmp/vh-build.$$; rm -f /tmp/vh-build.$$; exit 1; }
rm -f /tmp/vh-build.$$
case "$1" in
  P25|P26|P27|P28|P33|P39|P40|P41|all)
    CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q --manifest-path /repo/Cargo.toml -p vimwiki-cli --target-dir "$CARGO_TARGET_DIR/cli" 2>/tmp/vh-build.$$ || { cat /tmp/vh-build.$$; rm -f /tmp/vh-build.$$; exit 1; }
    rm -f /tmp/vh-build.$$ ;;
esac
if [ "$1" = P39 ]; then
    CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q --manifest-path /repo/Cargo.toml -p vimwiki-cli --features timekeeper --target-dir "$CARGO_TARGET_DIR/tk" 2>/tmp/vh-build.$$ || { cat /tmp/vh-build.$$; rm -f /tmp/vh-build.$$; exit 1; }
    rm -f /tmp/vh-build.$$
fi
