#!/bin/bash
# check.sh ID [quick|thorough]   build from /repo's working tree and decide one property
# check.sh replay FILE           re-execute a replay file in a fresh process
# check.sh build                 build only
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_HUSKY_DONT_INSTALL_HOOKS=true CARGO_TARGET_DIR="$VERIF/target"
export FQSIM_ROOT="$VERIF"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
REPO=/repo
mkdir -p "$VERIF/target"
build() {
  (
    flock 9
    # cargo decides by modification time; make it decide by content as well
    h=$(cd $REPO && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ -f "$VERIF/target/.tree" ] && [ "$(cat "$VERIF/target/.tree")" != "$h" ]; then
      (cd "$VERIF/sim" && cargo clean --release --offline -p finquant >/dev/null 2>&1)
    fi
    echo "$h" > "$VERIF/target/.tree"
    cd "$VERIF/sim" && cargo build --release --offline --locked > "$VERIF/target/build.log" 2>&1
  ) 9> "$VERIF/target/.lock"
}
if ! build; then
  tail -40 "$VERIF/target/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
BIN="$VERIF/target/release/fqsim"
case "$1" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
