#!/bin/bash
# Builds .build/out/*.wasm (the contracts, from /repo) and .build/mc/release/mc (the checker).
# Sourced by run.sh; also the setup command. Nothing is written in /repo.
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
B=$here/.build
mkdir -p "$B/out"
T=/root/.rustup/toolchains
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=$T/1.69.0-x86_64-unknown-linux-gnu/bin/rustc
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=
unset LD_LIBRARY_PATH RUST_BACKTRACE CARGO_TARGET_DIR

mc_build() {
    (cd "$here/mc" && CARGO_TARGET_DIR="$B/mc" cargo build --offline --locked --release) >"$B/mc.log" 2>&1
}
wasm_build() {
    # the sources decide, not their time stamps
    local h
    h=$(cd /repo && find . \( -name target -o -name .git -o -name res -o -name releases \) -prune -o -type f \
        \( -name '*.rs' -o -name 'Cargo.*' -o -name 'rust-toolchain*' -o -path '*/.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$B/out/stamp" 2>/dev/null)" = "$h" ]; then return 0; fi
    rm -f "$B/out/stamp"
    rm -rf "$B"/wasm/wasm32-unknown-unknown/release/.fingerprint/ref[-_]*
    (cd /repo && CARGO_TARGET_DIR="$B/wasm" CARGO_PROFILE_RELEASE_LTO=false CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
        CARGO_PROFILE_RELEASE_CODEGEN_UNITS=256 \
        cargo build --offline --locked -p ref-exchange -p ref_farming --target wasm32-unknown-unknown --release) >"$B/wasm.log" 2>&1 || return 1
    cp "$B"/wasm/wasm32-unknown-unknown/release/ref_exchange.wasm "$B"/wasm/wasm32-unknown-unknown/release/ref_farming.wasm "$B/out/" || return 1
    echo "$h" >"$B/out/stamp"
}
build_all() {
    exec 9>"$B/lock"; flock 9
    mc_build & local p=$!
    if ! wasm_build; then echo "contract build failed:" >&2; tail -20 "$B/wasm.log" >&2; wait $p; exec 9>&-; return 1; fi
    if ! wait $p; then echo "checker build failed:" >&2; tail -20 "$B/mc.log" >&2; exec 9>&-; return 1; fi
    exec 9>&-
}
build_all
