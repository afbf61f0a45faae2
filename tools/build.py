#!/usr/bin/env python3
"""Build harness binaries against /repo's current working tree.

Cargo decides freshness by modification time; to be independent of how /repo's files got their
times, every /repo crate whose *content* differs from what was last built has its fingerprint
removed first, so it is always recompiled."""
import hashlib, os, subprocess, sys, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
T = os.path.join(V, "target")
ST = os.path.join(T, "stamps")

def crates():
    for base in ("contracts", "packages"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = [d for d in dirs if d not in ("target", "node_modules", ".git")]
            if "Cargo.toml" in files:
                name = None
                for line in open(os.path.join(root, "Cargo.toml")):
                    if line.startswith("name"):
                        name = line.split("=")[1].strip().strip('"')
                        break
                yield name, root
                dirs[:] = []

def digest(root):
    h = hashlib.sha256()
    for r, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("target", "schema", "examples", "tests"))
        for f in sorted(files):
            p = os.path.join(r, f)
            if f.endswith((".rs", ".toml")) and os.path.isfile(p):
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()

def main():
    os.makedirs(ST, exist_ok=True)
    ws = hashlib.sha256(open(os.path.join(REPO, "Cargo.toml"), "rb").read()).hexdigest()
    new = {}
    for name, root in crates():
        d = digest(root) + ws
        p = os.path.join(ST, name)
        old = open(p).read() if os.path.exists(p) else None
        if old != d:
            if old is not None:
                os.remove(p)
            for f in glob.glob(os.path.join(T, "release/.fingerprint", name + "-*")):
                shutil.rmtree(f, ignore_errors=True)
            new[p] = d
    env = dict(os.environ, CARGO_TARGET_DIR=T, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    cmd = ["cargo", "build", "--offline", "--locked", "--release", "--manifest-path", os.path.join(V, "mc/Cargo.toml"), "-q"]
    cmd += ["--bins"] if sys.argv[1:] in ([], ["all"]) else sum((["--bin", b] for b in sys.argv[1:]), [])
    r = subprocess.run(cmd, env=env, stdout=sys.stderr)
    if r.returncode:
        print("build failed", file=sys.stderr)
        sys.exit(2)
    for p, d in new.items():
        open(p, "w").write(d)

main()
