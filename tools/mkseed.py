#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a spec from stdin (JSON: edits [[file, old, new]...], main, needs, breaks[, lib]) and writes seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds main.rs against the zod in the current directory and runs it
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
here=$(cd "$(dirname "$0")" && pwd); zod=$(pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$zod/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zod = { path = "$zod" }
zod-core = { path = "$zod/core" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
futures = "0.3"
async-trait = "0.1"
tokio = { version = "1", features = ["rt", "macros", "time", "rt-multi-thread"] }
[profile.dev]
debug = 0
T
cd "$d" && cargo build --offline -q 2> "$d/log" || { tail -40 "$d/log"; exit 9; }
timeout 60 ./target/debug/demo
'''
def make(id, prop, spec):
    s = f'{V}/seeded/{id}'; os.makedirs(s, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    try:
        for f, old, new in spec['edits']:
            p = f'{w}/r/{f}'; t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = subprocess.run(['git', '-C', w + '/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        assert d
        open(f'{s}/patch.diff', 'w').write(d)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r']); shutil.rmtree(w)
    open(f'{s}/main.rs', 'w').write(spec['main'])
    open(f'{s}/demo.sh', 'w').write(spec.get('demo', DEMO))
    json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['breaks']), open(f'{s}/meta.json', 'w'), indent=1)
