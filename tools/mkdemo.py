#!/usr/bin/env python3
"""mkdemo.py ID: write the boilerplate of seeded/ID (Cargo.toml, Cargo.lock, kit.rs, demo.sh) around main.rs."""
import re, sys, os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sys.argv[1])
src = open(os.path.join(d, "main.rs")).read()
toml = open(os.path.join(V, "mc/Cargo.toml")).read()
base = toml[toml.index("[dependencies]"):toml.index("[profile.release]")]
out = []
always = {"cosmwasm-std", "cosmwasm-schema", "cw-multi-test", "cw20", "cw20-base", "cw4", "cw4-group", "cw721", "cw721-base", "serde", "serde_json", "cw-utils", "cw-storage-plus", "anyhow"}
for line in base.splitlines()[1:]:
    m = re.match(r"([\w-]+) *=", line)
    if not m:
        continue
    n = m.group(1)
    if n in always or re.search(r"\b%s\b" % n.replace("-", "_"), src):
        out.append(line)
open(os.path.join(d, "Cargo.toml"), "w").write(
    '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[[bin]]\nname = "demo"\npath = "main.rs"\n\n'
    "[profile.dev]\ndebug = false\nincremental = false\n\n[dependencies]\n" + "\n".join(out) + "\n")
shutil.copy(os.path.join(V, "mc/Cargo.lock"), os.path.join(d, "Cargo.lock"))
shutil.copy(os.path.join(V, "tools/demo/kit.rs"), os.path.join(d, "kit.rs"))
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# exit 0: the property holds on this history; nonzero: it is broken
export CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D"/main.rs "$D"/kit.rs "$D"/Cargo.toml "$D"/Cargo.lock "$T"/ || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline -q --manifest-path "$T/Cargo.toml" >&2 || exit 4
"$T/target/debug/demo"
""")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
