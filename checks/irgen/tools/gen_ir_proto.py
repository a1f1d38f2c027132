#!/usr/bin/env python3
"""Writes the Rust types of a .proto file in the shape that Crubit's code uses them in.

There is no protoc here. What is emitted stands in for the code that protoc would
emit: owned messages, views of them, enums and oneofs, without the wire format.
A map is a list of entries, whose order is whatever the owner gave it.
"""
import re, sys

SCALAR = {'int32': 'i32', 'int64': 'i64', 'uint64': 'u64', 'bool': 'bool'}

def tokens(s):
    s = re.sub(r'//[^\n]*', '', s)
    return re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,]', s)

def parse(ts):
    out, i = [], 0
    def block(i):
        items = []
        while ts[i] != '}':
            t = ts[i]
            if t in ('message', 'enum', 'oneof'):
                name = ts[i + 1]
                body, i = block(i + 3)
                items.append((t, name, body))
            elif t in ('reserved', 'option'):
                while ts[i] != ';': i += 1
                i += 1
            elif t == 'repeated':
                items.append(('field', ts[i + 2], ('repeated', ts[i + 1]))); i += 6
            elif t == 'map':
                items.append(('field', ts[i + 6], ('map', ts[i + 2], ts[i + 4]))); i += 10
            elif t == 'optional':
                items.append(('field', ts[i + 2], ('one', ts[i + 1]))); i += 6
            elif ts[i + 1] == '=':
                items.append(('value', t, int(ts[i + 2]))); i += 4
            else:
                items.append(('field', ts[i + 1], ('one', t))); i += 5
        return items, i + 1
    while i < len(ts):
        if ts[i] in ('message', 'enum'):
            k, name = ts[i], ts[i + 1]
            body, i = block(i + 3)
            out.append((k, name, body))
        else:
            while ts[i] != ';': i += 1
            i += 1
    return out

def snake(n):
    if n == 'Enum': return 'r#enum'  # a keyword
    n = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()

def camel(n): return ''.join(p[:1].upper() + p[1:].lower() for p in n.split('_'))

def ident(n): return 'r#' + n if n in ('type', 'mod', 'fn', 'struct', 'enum', 'union', 'const') else n

class Gen:
    def __init__(self, root, externs):
        self.root, self.externs, self.o = root, externs, []
    def resolve(self, path, t):
        """The Rust path of a type named in the message at `path`, and whether it is an enum."""
        t = t.split('.')[-1]
        if t in self.externs: return self.externs[t], False
        for k in range(len(path), -1, -1):
            items = self.root
            for p in path[:k]:
                items = next(b for kk, n, b in items if kk == 'message' and n == p)
            for kk, n, _ in items:
                if n == t and kk in ('message', 'enum'):
                    return '::'.join(['crate'] + [snake(p) for p in path[:k]] + [t]), kk == 'enum'
        raise KeyError(t)
    def kind(self, path, t):
        """(owned type, view type, expression for a view of `x: &owned`, is a message)"""
        if t in SCALAR: s = SCALAR[t]; return s, s, '*x', False
        if t in ('string', 'bytes'): return 'protobuf::ProtoString', "&'msg protobuf::ProtoStr", 'x.as_view()', False
        r, enum = self.resolve(path, t)
        if enum: return r, r, '*x', False
        return r, f"{r}View<'msg>", 'x.as_view()', True
    def enum(self, name, body):
        prefix = re.sub(r'(?<!^)(?=[A-Z])', '_', name).upper() + '_'
        w = self.o.append
        w(f'#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)] pub struct {name}(pub i32);')
        w('#[allow(non_upper_case_globals)]')
        w(f'impl {name} {{')
        for _, v, n in body:
            c = camel(v[len(prefix):] if v.startswith(prefix) else v)
            w(f'    pub const {c}: {name} = {name}({n});')
        w('}')
        w(f"impl std::fmt::Debug for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ write!(f, \"{name}({{}})\", self.0) }} }}")
        w(f"impl protobuf::Proxied for {name} {{ type View<'msg> = {name}; fn view(&self) -> {name} {{ *self }} }}")
        w(f'impl From<{name}> for i32 {{ fn from(x: {name}) -> i32 {{ x.0 }} }}')
    def is_enum(self, p, t):
        return t not in SCALAR and t not in ('string', 'bytes') and self.resolve(p, t)[1]
    def inner(self, p, what, t, x):
        """Visits the value of type `t` that `x`, a mutable reference, is."""
        if t in SCALAR: return ''
        if t in ('string', 'bytes'): return f'v.string("{what}", {x});'
        if self.is_enum(p, t): return f'v.number("{what}", &mut {x}.0);'
        return f'protobuf::Damage::damage({x}, v);'
    def absent(self, what, t, x):
        if t in ('string', 'bytes'): return f'v.no_string("{what}", &mut {x});'
        return f'v.no_number("{what}", &mut {x}, |x, n| x.0 = n);'
    def damage(self, p, name, fields, oneofs, mod):
        """A visitor of everything in a message that can be wrong."""
        w = self.o.append
        w(f'impl protobuf::Damage for {name} {{ #[allow(unused)] fn damage(&mut self, v: &mut protobuf::Damager) {{')
        for n, f in fields:
            i, what = 'self.' + ident(n), f'{name}.{n}'
            if f[0] == 'one':
                t = f[1]
                if t in SCALAR: continue
                message = self.kind(p, t)[3]
                if message: w(f'    v.message("{what}", &mut {i});')
                w(f'    if let Some(x) = &mut {i} {{ {self.inner(p, what, t, "x.as_mut()" if message else "x")} }}')
                if not message: w(f'    else {{ {self.absent(what, t, i)} }}')
            elif f[0] == 'repeated':
                b = self.inner(p, what, f[1], 'x')
                if b: w(f'    for x in &mut {i} {{ {b} }} v.more("{what}", &mut {i});')
            else:
                b = self.inner(p, what + '.key', f[1], '&mut x.0') + self.inner(p, what, f[2], '&mut x.1')
                if b: w(f'    for x in &mut {i} {{ {b} }}')
        for n, b in oneofs:
            w(f'    v.oneof("{name}.{n}", &mut self.{n});')
            w(f'    if let Some(x) = &mut self.{n} {{ match x {{')
            for _, fn, f in b:
                m = self.kind(p, f[1])[3]
                w(f'        {mod}::{camel(n)}Owned::{camel(fn)}(x) => {{ {self.inner(p, name + "." + fn, f[1], "x.as_mut()" if m else "x")} }}')
            w('    } }')
        w('} }')
    def message(self, path, name, body):
        w = self.o.append
        p = path + [name]
        me = '::'.join(['crate'] + [snake(x) for x in path] + [name])
        mod = '::'.join(['crate'] + [snake(x) for x in p])
        fields = [(n, f) for k, n, f in body if k == 'field']
        oneofs = [(n, b) for k, n, b in body if k == 'oneof']
        w(f'#[derive(Clone, Debug, PartialEq, Default)] pub struct {name} {{')
        for n, f in fields:
            if f[0] == 'one':
                o, _, _, m = self.kind(p, f[1]); w(f'    pub {ident(n)}: Option<{"Box<" + o + ">" if m else o}>,')
            elif f[0] == 'repeated': w(f'    pub {ident(n)}: Vec<{self.kind(p, f[1])[0]}>,')
            else: w(f'    pub {ident(n)}: Vec<({self.kind(p, f[1])[0]}, {self.kind(p, f[2])[0]})>,')
        for n, b in oneofs: w(f'    pub {n}: Option<{mod}::{camel(n)}Owned>,')
        w('}')
        w(f"#[derive(Clone, Copy)] pub struct {name}View<'msg>(&'msg {name});")
        w(f"impl<'msg> std::fmt::Debug for {name}View<'msg> {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ self.0.fmt(f) }} }}")
        w(f"impl Default for {name}View<'_> {{ fn default() -> Self {{ {name}View({name}::default_instance()) }} }}")
        w(f"pub struct {name}Mut<'msg>(&'msg mut {name});")
        w(f"impl protobuf::Proxied for {name} {{ type View<'msg> = {name}View<'msg>; fn view(&self) -> {name}View<'_> {{ {name}View(self) }} }}")
        w(f'impl {name} {{')
        w(f'    pub fn new() -> Self {{ Self::default() }}')
        w(f"    pub fn as_view(&self) -> {name}View<'_> {{ {name}View(self) }}")
        w(f"    pub fn as_mut(&mut self) -> {name}Mut<'_> {{ {name}Mut(self) }}")
        w(f"    fn default_instance() -> &'static {name} {{ static D: std::sync::OnceLock<{name}> = std::sync::OnceLock::new(); D.get_or_init(Default::default) }}")
        w('}')
        w(f"impl<'a> protobuf::TakeFrom<{name}Mut<'a>> for {name} {{ fn take_from(&mut self, from: {name}Mut<'a>) {{ *self = std::mem::take(from.0) }} }}")
        w(f"impl<'msg> {name}View<'msg> {{")
        for n, f in fields:
            i = ident(n)
            if f[0] == 'one':
                o, v, e, m = self.kind(p, f[1])
                w(f"    pub fn {n}_opt(self) -> Option<{v}> {{ self.0.{i}.as_ref().map(|x| {e}) }}")
                w(f"    pub fn {i}(self) -> {v} {{ self.{n}_opt().unwrap_or_default() }}")
                w(f"    pub fn has_{n}(self) -> bool {{ self.0.{i}.is_some() }}")
            elif f[0] == 'repeated':
                o = self.kind(p, f[1])[0]
                w(f"    pub fn {i}(self) -> protobuf::RepeatedView<'msg, {o}> {{ protobuf::RepeatedView(&self.0.{i}) }}")
            else:
                k, v = self.kind(p, f[1])[0], self.kind(p, f[2])[0]
                w(f"    pub fn {i}(self) -> protobuf::MapView<'msg, {k}, {v}> {{ protobuf::MapView(&self.0.{i}) }}")
        for n, b in oneofs:
            w(f"    pub fn {n}(self) -> {mod}::{camel(n)}Oneof<'msg> {{ match &self.0.{n} {{ None => {mod}::{camel(n)}Oneof::not_set(std::marker::PhantomData),")
            for _, fn, f in b:
                w(f"        Some({mod}::{camel(n)}Owned::{camel(fn)}(x)) => {mod}::{camel(n)}Oneof::{camel(fn)}({self.kind(p, f[1])[2]}),")
            w('    } }')
        w('}')
        w(f"impl<'msg> {name}Mut<'msg> {{")
        for n, f in fields:
            if f[0] != 'one': continue
            o, v, e, m = self.kind(p, f[1])
            if m: w(f"    pub fn {n}_mut(&mut self) -> {o}Mut<'_> {{ self.0.{ident(n)}.get_or_insert_default().as_mut().as_mut() }}")
            else: w(f"    pub fn set_{n}(&mut self, x: impl Into<{o}>) {{ self.0.{ident(n)} = Some(x.into()) }}")
        w("    pub fn as_mut(&mut self) -> %sMut<'_> { %sMut(self.0) }" % (name, name))
        w('}')
        self.damage(p, name, fields, oneofs, mod)
        w(f'pub mod {snake(name)} {{')
        for k, n, b in body:
            if k == 'message': self.message(p, n, b)
            if k == 'enum': self.enum(n, b)
            if k == 'oneof':
                w(f'#[derive(Clone, Debug, PartialEq)] pub enum {camel(n)}Owned {{')
                for _, fn, f in b:
                    o, _, _, m = self.kind(p, f[1]); w(f'    {camel(fn)}({"Box<" + o + ">" if m else o}),')
                w('}')
                w(f"#[non_exhaustive] #[allow(non_camel_case_types)] #[derive(Clone, Copy, Debug)] pub enum {camel(n)}Oneof<'msg> {{ not_set(std::marker::PhantomData<&'msg ()>),")
                for _, fn, f in b: w(f'    {camel(fn)}({self.kind(p, f[1])[1]}),')
                w('}')
        w('}')

if __name__ == '__main__':
    src, dst = sys.argv[1:3]
    externs = dict(a.split('=') for a in sys.argv[3:])
    root = parse(tokens(open(src).read()))
    g = Gen(root, externs)
    g.o.append(f'// Written by tools/gen_ir_proto.py from {src}.')
    for k, n, b in root:
        (g.message([], n, b) if k == 'message' else g.enum(n, b))
    text = '\n'.join(g.o) + '\n'
    try:
        if open(dst).read() == text: sys.exit(0)
    except OSError: pass
    open(dst, 'w').write(text)
