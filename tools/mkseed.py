"""Helper to write a planted bug: seeded/<id>/{patch.diff,meta.json,demo.sh,...} from edits and files."""
import json, os, subprocess, difflib, stat
V = '/verif/seeded'
RUN = '''#!/bin/bash
# Exit 0: behaves as documented; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/crubit_demo_{id}
mkdir -p /tmp/crubit_demo_{id}
trap 'rm -rf /tmp/crubit_demo_{id}' EXIT
cp -r "$here"/. /tmp/crubit_demo_{id}/
cd /tmp/crubit_demo_{id} || exit 3
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
unset RUST_BACKTRACE RUSTFLAGS
export RUSTUP_TOOLCHAIN=nightly-2026-08-20 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/tmp/crubit_demo_{id}/target
'''
CARGO = RUN + 'timeout 280 cargo run --offline -q --bin demo\n'
def seed(id, prop, needs, breaks, edits, files, demo=None):
    d = f'{V}/{id}'; os.makedirs(d, exist_ok=True)
    out = ''
    byfile = {}
    for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        t = s = open('/repo/' + f).read()
        for old, new in es:
            assert t.count(old) == 1, (f, t.count(old), old)
            t = t.replace(old, new)
        out += f'diff --git a/{f} b/{f}\n' + ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for n, c in files.items():
        p = f'{d}/{n}'; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(c)
    open(d + '/demo.sh', 'w').write((CARGO if demo is None else RUN + demo).replace('{id}', id))
    os.chmod(d + '/demo.sh', 0o755)
def toml(deps, extra=''):
    return f'''[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[[bin]]
name = "demo"
path = "demo.rs"

[dependencies]
{deps}
[workspace]
{extra}'''
CTOR = {
 'ctor/Cargo.toml': '[package]\nname = "ctor"\nversion = "0.0.0"\nedition = "2024"\n[lib]\npath = "/repo/support/ctor.rs"\n[dependencies]\nctor_proc_macros = { path = "../ctor_proc_macros" }\n',
 'ctor_proc_macros/Cargo.toml': '[package]\nname = "ctor_proc_macros"\nversion = "0.0.0"\nedition = "2024"\n[lib]\npath = "/repo/support/ctor_proc_macros.rs"\nproc-macro = true\n[dependencies]\nproc-macro2 = "1"\nquote = "1"\nsyn = { version = "2", features = ["extra-traits", "full"] }\n',
}
