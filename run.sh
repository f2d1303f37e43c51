#!/bin/bash
# run.sh build          builds the harness and the command line tool from /repo's working tree
# run.sh ID [tier]      runs the check of property ID
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export RUSTFLAGS="-A dependency_on_unit_never_type_fallback"
export PVH_VERIF="$here"
id="${1:-build}"
[ $# -ge 2 ] && export VERIF_TIER="$2"
target="$here/harness/target"
mkdir -p "$target"
log="$target/build.log"
build() {
  # cargo decides by time stamps what to rebuild; the content decides here
  local h old=""
  h="$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  [ -f "$target/repo.sha" ] && old="$(cat "$target/repo.sha")"
  if [ "$h" != "$old" ]; then
    rm -f "$target/repo.sha"
    (cd "$here/harness" && cargo clean --offline -q -p papyri-lang) >/dev/null 2>&1
    cargo clean --offline -q --manifest-path /repo/Cargo.toml --target-dir "$target/repo" -p papyri-lang >/dev/null 2>&1
  fi
  (cd "$here/harness" && cargo build --offline --locked) >"$log" 2>&1 || return 1
  cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin papyri --target-dir "$target/repo" >>"$log" 2>&1 || return 1
  echo "$h" > "$target/repo.sha"
}
exec 9>"$target/.lock"
flock 9
build || { tail -n 40 "$log"; echo "the build failed"; exit 3; }
flock -u 9
exec 9>&-
[ "$id" = build ] && exit 0
export PVH_PAPYRI="$target/repo/debug/papyri"
exec "$target/debug/pvh" check "$id"
