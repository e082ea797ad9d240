#!/usr/bin/env python3
"""derive_lib.py OUT: the derive macros of /repo as an ordinary library, so that they can be executed symbolically.
Only the attributes that make functions macros are removed; everything else is the text in /repo."""
import os, re, shutil, sys
out = sys.argv[1]; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = out + '.new'
shutil.rmtree(tmp, ignore_errors=True)
shutil.copytree('/repo/derive/src', tmp + '/src')
p = tmp + '/src/lib.rs'; t = open(p).read()
entries = {}
# the derives and attributes, and the functions behind them
for m in re.finditer(r'#\[\s*proc_macro(?:_derive|_attribute)?\b(?P<a>[^\]]*)\](?:\s*#\[[^\]]*\]|\s*///[^\n]*)*\s*pub\s+fn\s+(?P<f>\w+)', t):
    d = re.match(r'\s*\(\s*(\w+)', m['a'])
    entries['derive_' + d[1] if d else 'attribute_' + m['f']] = m['f']
t = re.sub(r'#\[\s*proc_macro(?:_derive|_attribute|_error)?\s*(?:\([^\]]*\))?\s*\]', '', t)
t += '\npub mod __entry {\n' + ''.join(f'    pub use super::{f} as {n};\n' for n, f in sorted(entries.items())) + '}\n'
open(p, 'w').write('#![allow(warnings)]\n' + t)
dep = lambda n: f'{{ package = "shim-{n.replace("_", "-")}", path = "{V}/harness/dv/shims/{n}" }}'
open(tmp + '/Cargo.toml', 'w').write(f'''[package]
name = "zod-derive-lib"
version = "0.1.0"
edition = "2021"
[dependencies]
darling = "0.14.3"
proc-macro2 = "1.0.51"
quote = "1.0.23"
serde_derive_internals = "0.26.0"
syn = {dep("syn")}
proc_macro = {dep("proc_macro")}
proc-macro-crate = {dep("proc_macro_crate")}
proc-macro-error = {dep("proc_macro_error")}
[features]
default = ["rpc"]
rpc = []
''')
# keep the time stamps of what did not change
for b, _, fs in os.walk(tmp):
    for f in fs:
        s = os.path.join(b, f); d = os.path.join(out, os.path.relpath(s, tmp))
        if os.path.exists(d) and open(d).read() == open(s).read(): continue
        os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copyfile(s, d)
for b, _, fs in os.walk(out + '/src'):
    for f in fs:
        d = os.path.join(b, f)
        if not os.path.exists(os.path.join(tmp, os.path.relpath(d, out))): os.remove(d)
shutil.rmtree(tmp)
