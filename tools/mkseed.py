#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FEATURES 'needs' 'what' < demo.rs ; reads the change from the scratch copy given by $SCRATCH (git diff there)"""
import sys, os, json, subprocess
i, prop, feats, needs, what = sys.argv[1:6]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ["SCRATCH"], "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.rs", "w").write(sys.stdin.read())
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
deps = ""
if "tokio" in feats: deps += 'tokio = { version = "1", features = ["rt", "net", "macros", "time"] }\n'
if "smol" in feats: deps += 'async-io = "2"\nfutures-lite = "2"\n'
fl = ", ".join(f'"{f}"' for f in feats.split(",") if f and f != "-")
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# run with cwd = the repository; 0: behaves, nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
crossmist = {{ path = "$R", features = [{fl}] }}
libc = "0.2"
{deps}[profile.dev]
debug = 0
[workspace]
X
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.81.0 CARGO_TARGET_DIR=$T/target TMPDIR=$T
cargo build --offline -q 2>"$T/log" || {{ cat "$T/log"; exit 2; }}
timeout -k 5 100 "$T/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
