# Sourced by check.sh, setup.sh and replay.sh.
VERIF="$PWD"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF/target"
export RCHECK_DIR="$VERIF"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# the program that contains the check of a property
bin_of() {
    basename "$(grep -l "^ *\"$1\" => " "$VERIF"/harness/src/bin/*.rs | head -1)" .rs
}
# build [PROGRAM]: all programs, or one
build() {
    mkdir -p "$CARGO_TARGET_DIR" "$VERIF/evidence" || return 1
    (
        flock 9
        # cargo judges freshness by time stamps: rebuild rstar whenever its content differs
        sum=$( (cd /repo && find rstar Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
        if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/rstar.sum" 2>/dev/null)" ]; then
            rm -f "$CARGO_TARGET_DIR/rstar.sum"
            rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/rstar-* "$CARGO_TARGET_DIR"/release/.fingerprint/rcheck-*
        fi
        cd "$VERIF/harness" && cargo build --release --offline --quiet ${1:+--bin "$1"} 2>"$CARGO_TARGET_DIR/build.log" ||
            { tail -40 "$CARGO_TARGET_DIR/build.log"; exit 1; }
        echo "$sum" >"$CARGO_TARGET_DIR/rstar.sum"
    ) 9>"$CARGO_TARGET_DIR/lock"
}
