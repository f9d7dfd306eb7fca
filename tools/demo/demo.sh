#!/bin/bash
# Compiles demo.rs against the libraries build.sh made, and runs it: exit 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export RUSTUP_TOOLCHAIN=nightly-2025-04-06 RUST_MIN_STACK=33554432
deps=/repo/target/debug/deps
tmp="$(mktemp -d)" || exit 99
trap 'find "$tmp" -delete' EXIT
newest() { ls -t "$deps"/lib$1-*.rlib 2>/dev/null; }
pick() { newest "$1" | head -1; }
ext=()
for c in cairo_m_compiler_semantic cairo_m_compiler_diagnostics cairo_m_formatter cairo_m_project salsa tempfile; do
    grep -q "$c" "$here/demo.rs" && f="$(pick $c)" && [ -n "$f" ] && ext+=(--extern "$c=$f")
done
ok=
for p in $(newest cairo_m_compiler_parser); do
    for s in $(newest salsa); do
        if rustc --edition 2021 -A warnings -o "$tmp/demo" "$here/demo.rs" -L "dependency=$deps" \
            "${ext[@]}" --extern "cairo_m_compiler_parser=$p" --extern "salsa=$s" 2>"$tmp/err"; then
            ok=1
            break 2
        fi
    done
done
if [ -z "$ok" ]; then cat "$tmp/err"; echo "the demonstration does not compile"; exit 98; fi
cd "$tmp" && timeout 120 ./demo
