#!/bin/bash
# Mirrors the crate under test into target/nodesrc (only files whose content
# changed are rewritten, so cargo's freshness check works by content) and writes
# node/Cargo.toml from its dependency list.
set -e
cd "$(dirname "$0")"
repo="${VSIM_REPO:-/repo}"
out=../target/nodesrc
mkdir -p "$out"
( cd "$repo/rust" && find src -type f ) | sort > "$out/.list.new"
while read -r f; do
  if ! cmp -s "$repo/rust/$f" "$out/$f"; then
    mkdir -p "$out/$(dirname "$f")"
    cp "$repo/rust/$f" "$out/$f"
    touch "$out/$f"
  fi
done < "$out/.list.new"
( cd "$out" && find src -type f ) | sort | comm -13 "$out/.list.new" - | while read -r f; do rm -f "$out/$f"; done
mv "$out/.list.new" "$out/.list"
{
cat <<'T'
# generated by gen.sh from the Cargo.toml of the crate under test
[workspace]

[package]
name = "rust"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "rust"
path = "../target/nodesrc/src/main.rs"

[lints.rust]
unexpected_cfgs = "allow"

[patch.crates-io]
fftw-src = { path = "fftw-sim" }

T
sed -n '/^\[dependencies/,/^\[/p' "$repo/rust/Cargo.toml" | sed '1!{/^\[/d}'
sed -n '/^\[profile\.release\]/,/^\[/p' "$repo/rust/Cargo.toml" | sed '1!{/^\[/d}'
} > Cargo.toml.new
if ! cmp -s Cargo.toml.new Cargo.toml; then mv Cargo.toml.new Cargo.toml; else rm Cargo.toml.new; fi
