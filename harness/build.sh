#!/bin/bash
# Builds the explorer (ctl) and procstar as found in /repo/src (app).
set -e
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
B=/verif/build
mkdir -p $B
exec 9> $B/lock; flock 9
if [ ! -f $B/tokio/.done ]; then
    src=$(ls -d /root/.cargo/registry/src/*/tokio-1.29.1)
    mkdir -p $B/tokio
    cp -r "$src"/. $B/tokio/
    python3 - $B/tokio/src/macros/support.rs <<'PY'
import sys
p = sys.argv[1]; s = open(p).read()
old = "        crate::runtime::context::thread_rng_n(n)\n"
assert s.count(old) == 1
new = """        extern "C" { fn px_select(n: u32, dflt: u32) -> u32; }
        let dflt = crate::runtime::context::thread_rng_n(n);
        #[allow(unsafe_code)]
        unsafe { px_select(n, dflt) }
"""
open(p, "w").write(s.replace(old, new))
PY
    rm -f $B/tokio/Cargo.toml.orig $B/tokio/.cargo-checksum.json
    touch $B/tokio/.done
fi
cmp -s px.c $B/px.c || { gcc -O1 -fPIC -Wall -Wno-unused-result -c px.c -o $B/px.o; cp px.c $B/px.c; }
if [ "$1" != app ]; then
    (cd ctl && CARGO_TARGET_DIR=$B/ctl-target cargo build --release --offline -q)
fi
# Never trust timestamps: rebuild procstar whenever the sources' content differs
# from that of the last build.
H=$(cat /repo/src/*.rs $(find /repo/src -mindepth 2 -type f | sort) px.c app/Cargo.toml | sha256sum)
if [ "$H" != "$(cat $B/app.hash 2>/dev/null)" ]; then
    rm -f $B/app.hash
    rm -rf $B/app-target/x86_64-unknown-linux-gnu/debug/.fingerprint/procstar-*
    (cd app && RUSTFLAGS="-C link-arg=$B/px.o -C link-arg=-Wl,--export-dynamic-symbol=getrandom -A warnings" CARGO_TARGET_DIR=$B/app-target \
        cargo build --offline --target x86_64-unknown-linux-gnu -q)
    echo "$H" > $B/app.hash
fi
