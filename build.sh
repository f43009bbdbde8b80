# Sourced: builds everything the checks need from /repo's working tree, offline.
# Sets PM (the monitors) and PM_POST (the program), leaves /repo's tracked files alone.
REPO=/repo
B=$PM_HOME/.build
mkdir -p "$B"
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec 9> "$B/lock"
flock 9
# /repo ignores its lock file
[ -e "$REPO/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$REPO/Cargo.lock" 2> /dev/null
# Modification times may lie (a restored or copied file may be older than the build): go by content
SUM=$(cd "$REPO" && find Cargo.toml src sim -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$SUM" != "$(cat "$B/sum" 2> /dev/null)" ]; then
    find "$B" -maxdepth 5 -type d -path '*/.fingerprint/*' \( -name 'sim-*' -o -name 'post-*' -o -name 'pm-*' \) -exec rm -rf {} + 2> /dev/null
fi
build() { # RUSTFLAGS target-dir
    RUSTFLAGS="$1" cargo build --offline --release --quiet --manifest-path "$PM_HOME/harness/Cargo.toml" --target-dir "$2" > "$B/log" 2>&1
}
if build "--cfg post_monitor" "$B/h"; then
    PM=$B/h/release/pm
elif build "" "$B/n"; then
    echo "note: /repo does not build with the monitoring hook, only final states and printed output are observed" >&2
    PM=$B/n/release/pm
else
    cat "$B/log" >&2
    echo "error: cannot build the monitors against $REPO" >&2
    return 2
fi
if cargo build --offline --quiet -p post --manifest-path "$REPO/Cargo.toml" --target-dir "$B/post" > "$B/log" 2>&1; then
    export PM_POST=$B/post/debug/post
else
    cat "$B/log" >&2
    echo "error: cannot build the program from $REPO" >&2
    return 2
fi
# The monitors under a sanitizer, standard library included, if the tool chain can do that
PM_SAN=
for San in ${SANITIZERS:-}; do
    if RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg post_monitor -Zsanitizer=$San" \
        cargo build -Zbuild-std --offline --release --quiet --target x86_64-unknown-linux-gnu \
        --manifest-path "$PM_HOME/harness/Cargo.toml" --target-dir "$B/$San" > "$B/log" 2>&1; then
        PM_SAN="$PM_SAN$San=$B/$San/x86_64-unknown-linux-gnu/release/pm;"
    else
        echo "note: cannot build with the $San sanitizer, going on without" >&2
    fi
done
echo "$SUM" > "$B/sum"
flock -u 9
exec 9>&-
export PM PM_SAN PM_PLOT_SHIM=$PM_HOME/harness/plot_shim.py PM_PLOT=$REPO/utils/plot/plot.py
