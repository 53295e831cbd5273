#!/usr/bin/env bash
# check.sh <property> [--tier quick|thorough] [--replay FILE] [--seed N]
# Builds the machinery of one property against the current tree of /repo and runs it.
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 no verdict (e.g. does not build).
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT="$here"
id="$1"
case "$id" in
  W*) pkg=rt ;;
  G* | B*) pkg=code ;;
  L* | K* | O*) pkg=proc ;;
  *) pkg=lang ;;
esac
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu INSTA_UPDATE=no
export CARGO_TARGET_DIR="$here/harness/target" CARGO_TERM_COLOR=never
# cargo goes by time stamps; go by contents as well, so that no stale build of /repo is ever checked
now=$(cd /repo && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p "$CARGO_TARGET_DIR"
if [ "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" != "$now" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/mabo*
  printf '%s\n' "$now" >"$CARGO_TARGET_DIR/.sources"
fi
if ! out=$(cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" -p "$pkg" 2>&1); then
  printf '%s\n' "$out" | grep -vE '^ *(Compiling|Finished|warning: unused)' | tail -60 >&2
  echo "check.sh: the machinery does not build against /repo" >&2
  exit 2
fi
if [ "$pkg" = proc ]; then
  # the programs under test
  if ! out=$(CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --manifest-path /repo/Cargo.toml -p mabo-cli -p mabo-lsp -p mabo-go 2>&1); then
    printf '%s\n' "$out" | grep -vE '^ *(Compiling|Finished|warning: unused)' | tail -60 >&2
    echo "check.sh: the programs of /repo do not build" >&2
    exit 2
  fi
fi
exec "$CARGO_TARGET_DIR/debug/$pkg" "$@"
