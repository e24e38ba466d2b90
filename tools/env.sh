# sourced by run.sh and setup.sh
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$VERIF_ROOT/target}
export RUSTFLAGS="--cfg tokio_unstable --cfg nargun_verif --cfg nargun_verif_main -C link-arg=-rdynamic -A warnings"
build_bin() {
  mkdir -p "$CARGO_TARGET_DIR"
  # cargo trusts mtimes; make it rebuild nargun whenever the content differs from the last build
  local sum stamp="$CARGO_TARGET_DIR/nargun.sha" log="$CARGO_TARGET_DIR/build-$1.log"
  sum=$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/nargun-*
  fi
  if (cd "$VERIF_ROOT/harness" && cargo build --offline --bin "$1") > "$log" 2>&1; then
    echo "$sum" > "$stamp"; return 0
  fi
  grep -E '^(error|warning: unused)' -A6 "$log" | head -60; return 1
}
