#!/bin/bash
# seed.sh ID PROPERTY: takes the change made in the scratch worktree /tmp/wt as planted bug ID, with the
# demonstration /tmp/demo.rs; NEEDS and BREAKS describe it. Verifies it there: builds, tests pass, demo tells.
set -e
ID=$1; PROP=$2; D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
cp /tmp/demo.rs $D/demo.rs
cat > $D/demo.sh <<'X'
#!/bin/bash
# Runs demo.rs against the crate in the current directory; exit 0 when it behaves.
R=$PWD
D="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock" || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tycho-types = { path = "$R", features = ["base64", "serde", "models", "sync", "abi", "rayon", "stats"] }
anyhow = "1"
ahash = "0.8"
num-bigint = "0.4"
serde_json = "1"
[profile.dev]
debug = 0
incremental = false
T
cd "$W" && CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" timeout 280 cargo run --offline -q 2>&1 | tail -20
exit ${PIPESTATUS[0]}
X
chmod +x $D/demo.sh
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
export DEMO_TARGET=/tmp/wt_demo
cd /tmp/wt
if bash $D/demo.sh >/tmp/demo.out 2>&1; then echo "demo does not notice the change"; cat /tmp/demo.out; exit 1; fi
tail -3 /tmp/demo.out
. /opt/vp/env.sh; cd /tmp/wt
CARGO_TARGET_DIR=/tmp/wt_target cargo test --workspace --features $FEATURES --offline --no-fail-fast 2>&1 | grep -E "^test result|FAILED|failed|^error" | sort | uniq -c | tee /tmp/seed_t.out | grep -v " ok\b.* 0 passed"; grep -q FAILED /tmp/seed_t.out && { echo "THE TESTS NOTICE IT"; rm -rf "$D"; git -C /tmp/wt checkout -q -- .; exit 1; } || true
git -C /tmp/wt checkout -q -- .
cd /tmp/wt && bash $D/demo.sh || { echo "demo fails on the unchanged tree"; exit 1; }
echo "$ID ok"
