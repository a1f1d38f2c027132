#!/usr/bin/env python3
"""Writes a manifest for every crate of the generator, around the real sources in /repo, which differs from the
repository's own in that the protobuf crates are the stand-ins."""
import os
B = '/repo/rs_bindings_from_cc/'
G = B + 'generate_bindings/'
C = '/repo/cargo/common/'
COMMON = ['arc_anyhow', 'code_gen_utils', 'crubit_abi_type', 'crubit_feature', 'dyn_format', 'error_report', 'errors', 'ffi_types', 'kythe_metadata', 'memoized', 'token_stream_printer']
EXT = {'flagset': '0.4', 'itertools': '0.13', 'proc-macro2': '1', 'quote': '1', 'syn': None, 'heck': None, 'once_cell': '1', 'unicode-ident': '1', 'serde_json': '1', 'phf': None, 'either': '1'}
CRATES = {
    'bazel_label': B + 'bazel_label.rs',
    'ir': B + 'ir.rs',
    'database': G + 'database/lib.rs',
    'generate_bindings': G + 'lib.rs',
    'cc_api': G + 'cc_api.rs',
}
for n in ['lifetime_defaults_transform', 'generate_comment', 'has_bindings', 'rs_type_kind', 'generate_enum', 'generate_function', 'generate_function_thunk', 'generate_struct_and_union', 'cpp_type_name']:
    CRATES[n] = G + n + '.rs'
import re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
manifest = {}
for p in glob.glob('/repo/cargo/rs_bindings_from_cc/**/Cargo.toml', recursive=True):
    s = open(p).read()
    m = re.search(r'^path = "([^"]*)"', s, re.M)
    if m: manifest[os.path.normpath(os.path.join(os.path.dirname(p), m[1]))] = s
ws = open('/repo/Cargo.toml').read()
for n, src in CRATES.items():
    s = manifest[src]
    deps = re.search(r'^\[dependencies\]\n(.*?)(?=^\[|\Z)', s, re.S | re.M)[1]
    out = []
    for l in deps.splitlines():
        l = l.strip()
        if not l or l.startswith('#'): continue
        k = re.match(r'([\w-]+)', l)[1]
        if k in CRATES: out.append(f'{k} = {{ path = "../{k}" }}')
        elif k in ('ir_rust_proto', 'generate_bindings_rust_proto', 'protobuf'): out.append(f'{k} = {{ path = "../{k}" }}')
        elif '.workspace' in l:
            w = re.search(r'^%s = (.*)$' % re.escape(k), ws, re.M)
            out.append(f'{k} = {w[1]}')
        else:
            m = re.search(r'path = "(?:\.\./)*(cargo/[^"]*)"', l)
            pk = re.search(r', package = "[^"]*"', l)
            out.append(f'{k} = {{ path = "/repo/{m[1]}"{pk[0] if pk else ""} }}')
    d = f'{here}/crates/{n}'
    os.makedirs(d, exist_ok=True)
    ed = re.search(r'^edition = "(\d+)"', ws, re.M)
    open(f'{d}/Cargo.toml', 'w').write(f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "{ed[1]}"\npublish = false\n\n[lib]\nname = "{n}"\npath = "{src}"\ndoctest = false\n\n[dependencies]\n' + '\n'.join(out) + '\n\n[workspace]\n')
