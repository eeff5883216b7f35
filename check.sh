#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the explorer against /repo's working tree, then explore.
# Exit 0 held, 1 violated, 2 the check itself failed.
cd "$(dirname "$0")" || exit 2
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
[ -n "$2" ] && export VERIF_TIER="$2"
build() { (cd mc && exec 9>target.lock && flock 9 && cargo build --release --offline --quiet); }
if ! build 2>/tmp/mc-build.$$; then
  cat /tmp/mc-build.$$ >&2; rm -f /tmp/mc-build.$$; exit 2
fi
rm -f /tmp/mc-build.$$
[ "$1" = build ] && exit 0
exec mc/target/release/mc check "$1"
