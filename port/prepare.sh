#!/bin/bash
# usage: prepare.sh CLASS   builds what the executions of a class run on, from /repo's current tree:
#   asan, msan, tsan: native with Address-, Memory-, ThreadSanitizer; wasm: 32-bit WebAssembly;
#   mem, val: for the interpreter, 32-bit x86 without SSE2
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$here/../target"
mkdir -p "$t"
t="$(cd "$t" && pwd)"
export CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$t/cache"
unset RUSTFLAGS RUSTUP_TOOLCHAIN
s="$(rustc +nightly --print sysroot)" x=x86_64-unknown-linux-gnu
b() { # TARGET RUSTFLAGS KIND...
    RUSTFLAGS="$2" CARGO_TARGET_DIR="$t/$class" \
        cargo +nightly build --release "${@:3}" --offline --quiet --target "$1" --manifest-path "$here/Cargo.toml"
}
sysroot() { # TARGET RUSTFLAGS PANIC: the standard library for the target, from the sources that came with the compiler
    y="$t/sysroot-$class-$(rustc +nightly --version | tr -dc 'a-zA-Z0-9')"
    [ -e "$y/done" ] && return
    (cd "$s/lib/rustlib/src/rust/library" && RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=vk CARGO_TARGET_DIR="$t/std-$class" \
        CARGO_PROFILE_RELEASE_PANIC=$3 CARGO_PROFILE_RELEASE_DEBUG=0 RUSTFLAGS="-Cembed-bitcode=no -Zforce-unstable-if-unmarked $2" \
        cargo +nightly build --release --offline --locked --quiet --target "$1" --manifest-path sysroot/Cargo.toml) || exit 1
    mkdir -p "$y/lib/rustlib/$1/lib" "$y/lib/rustlib/$x"
    find "$t/std-$class/$1" \( -name '*.rlib' -o -name '*.rmeta' \) -exec cp {} "$y/lib/rustlib/$1/lib/" \;
    cp "$s/lib/rustlib/$1/lib/"*_rt.*.a "$y/lib/rustlib/$1/lib/" 2>/dev/null
    ln -sfn "$s/lib/rustlib/$x/bin" "$y/lib/rustlib/$x/bin"
    touch "$y/done"
}
class="$1"
case "$class" in
asan)
    b $x -Zsanitizer=address --bin port ;;
msan)
    sysroot $x -Zsanitizer=memory unwind
    b $x "--sysroot $y -Zsanitizer=memory" --bin port ;;
tsan)
    sysroot $x -Zsanitizer=thread unwind
    b $x "--sysroot $y -Zsanitizer=thread" --bin port ;;
wasm)
    sysroot wasm32-unknown-unknown "" abort
    b wasm32-unknown-unknown "--sysroot $y -Clinker=$s/lib/rustlib/$x/bin/rust-lld" --lib ;;
mem|val)
    CARGO_TARGET_DIR="$t/miri-$class" \
        cargo +nightly miri run --quiet --offline --target i586-unknown-linux-gnu --manifest-path "$here/Cargo.toml" -- nothing ;;
esac
