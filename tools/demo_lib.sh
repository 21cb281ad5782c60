# copied beside each demo as lib.sh: builds main.rs (beside the demo) against the crates of the current directory
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock" || true
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-core = { path = "$repo/bluejay-core", features = ["serde_json"] }
bluejay-parser = { path = "$repo/bluejay-parser", features = ["format-errors"] }
bluejay-printer = { path = "$repo/bluejay-printer" }
bluejay-validator = { path = "$repo/bluejay-validator" }
bluejay-visibility = { path = "$repo/bluejay-visibility" }
bluejay-schema-comparator = { path = "$repo/bluejay-schema-comparator" }
serde_json = "1"
T
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.79.0 CARGO_TARGET_DIR="$t/target"
cd "$t"
cargo run --offline -q
