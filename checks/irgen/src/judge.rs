//! What the generated bindings say, read back from their text.
use crate::*;
use quote::ToTokens;
use simkit::check;
use std::collections::{BTreeMap, BTreeSet};
use syn::{ForeignItem, ImplItem, Item, Stmt};

/// One item of the generated Rust, or one part of an item that stands for one declaration.
#[derive(Clone, Debug, PartialEq)]
pub struct Chunk {
    pub path: String,
    pub text: String,
}

/// What names have in common in all their spellings.
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_' && !c.is_whitespace()).flat_map(|c| c.to_lowercase()).collect()
}

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

#[derive(Default)]
pub struct Rust {
    pub chunks: Vec<Chunk>,
    /// Definitions: scope, name space and name.
    pub defs: BTreeMap<(String, &'static str, String), usize>,
    /// Foreign functions of the module of thunks: what is passed and the symbol if it is another one.
    pub foreign: BTreeMap<String, (Passed, Option<String>)>,
    /// Structs and unions by path.
    pub records: BTreeMap<String, syn::Item>,
    /// Identifiers after `detail ::`.
    pub used: BTreeSet<String>,
}

fn symbol(attrs: &[syn::Attribute]) -> Option<String> {
    attrs.iter().find(|a| a.path().is_ident("link_name")).and_then(|a| match &a.meta {
        syn::Meta::NameValue(nv) => match &nv.value {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
            _ => None,
        },
        _ => None,
    })
}

impl Rust {
    pub fn read(text: &str) -> Result<Self, String> {
        let file = syn::parse_file(text).map_err(|e| format!("{e}"))?;
        let mut r = Rust::default();
        r.items("", &file.items);
        let mut last = [String::new(), String::new(), String::new()];
        fn walk(t: proc_macro2::TokenStream, last: &mut [String; 3], used: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), last, used),
                    x => {
                        let x = x.to_string();
                        if last[0] == "detail" && last[1] == ":" && last[2] == ":" && x.starts_with("__") {
                            used.insert(x.clone());
                        }
                        last.rotate_left(1);
                        last[2] = x;
                    }
                }
            }
        }
        walk(file.to_token_stream(), &mut last, &mut r.used);
        Ok(r)
    }
    fn def(&mut self, path: &str, space: &'static str, name: impl ToString) {
        *self.defs.entry((path.into(), space, name.to_string())).or_default() += 1;
    }
    fn chunk(&mut self, path: &str, text: String) {
        self.chunks.push(Chunk { path: path.into(), text });
    }
    fn items(&mut self, path: &str, items: &[Item]) {
        for i in items {
            match i {
                Item::Mod(m) => {
                    self.def(path, "type", &m.ident);
                    let p = format!("{path}::{}", m.ident);
                    match &m.content {
                        Some((_, c)) => self.items(&p, c),
                        None => self.chunk(path, toks(i)),
                    }
                }
                Item::ForeignMod(f) => {
                    for x in &f.items {
                        if let ForeignItem::Fn(g) = x {
                            self.def(path, "value", &g.sig.ident);
                            if path == "::detail" {
                                self.foreign.insert(g.sig.ident.to_string(), (passed_in_rust(&g.sig), symbol(&g.attrs)));
                            }
                        }
                        if let ForeignItem::Static(g) = x {
                            self.def(path, "value", &g.ident);
                        }
                        self.chunk(path, toks(x));
                    }
                }
                Item::Impl(im) => {
                    let of = toks(&im.self_ty);
                    match &im.trait_ {
                        None => {
                            for x in &im.items {
                                match x {
                                    ImplItem::Fn(f) => self.def(&format!("{path}::<{of}>"), "value", &f.sig.ident),
                                    ImplItem::Const(c) => self.def(&format!("{path}::<{of}>"), "value", &c.ident),
                                    _ => {}
                                }
                                self.chunk(path, format!("{of} {}", toks(x)));
                            }
                        }
                        Some((not, t, _)) => {
                            self.def(path, "impl", format!("{}{} for {of}", if not.is_some() { "!" } else { "" }, toks(t)));
                            self.chunk(path, toks(i));
                        }
                    }
                }
                Item::Const(c) if c.ident == "_" => match &*c.expr {
                    syn::Expr::Block(b) => {
                        for st in &b.block.stmts {
                            let t = match st {
                                Stmt::Macro(m) => toks(&m.mac),
                                st => toks(st),
                            };
                            self.chunk(path, t);
                        }
                    }
                    _ => self.chunk(path, toks(i)),
                },
                _ => {
                    match i {
                        Item::Struct(x) => {
                            self.def(path, "type", &x.ident);
                            self.records.insert(format!("{path}::{}", x.ident), i.clone());
                        }
                        Item::Union(x) => {
                            self.def(path, "type", &x.ident);
                            self.records.insert(format!("{path}::{}", x.ident), i.clone());
                        }
                        Item::Enum(x) => self.def(path, "type", &x.ident),
                        Item::Type(x) => self.def(path, "type", &x.ident),
                        Item::Trait(x) => self.def(path, "type", &x.ident),
                        Item::Const(x) => self.def(path, "value", &x.ident),
                        Item::Static(x) => self.def(path, "value", &x.ident),
                        Item::Fn(x) => self.def(path, "value", &x.sig.ident),
                        _ => {}
                    }
                    self.chunk(path, toks(i));
                }
            }
        }
    }
}

/// What one parameter or result is for the calling convention.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Void,
    /// Whether what it points to may be written, if that is known, and what that is.
    Pointer(Option<bool>, Box<Kind>),
    /// Bytes and one of `i`, `u`, `f`, `b` and `c`, the last of unknown sign.
    Scalar(i64, char),
    /// A type that a declaration gives, by what its names have in common.
    Named(String),
}

/// What a function takes and gives back.
#[derive(Clone, Debug)]
pub struct Passed {
    pub params: Vec<Kind>,
    pub result: Kind,
    /// Of a thunk in C++: its body, without space but between words.
    pub body: String,
}

fn kind_in_rust(ty: &syn::Type) -> Kind {
    match ty {
        syn::Type::Ptr(p) => return Kind::Pointer(Some(p.mutability.is_some()), Box::new(kind_in_rust(&p.elem))),
        syn::Type::Reference(r) => return Kind::Pointer(Some(r.mutability.is_some()), Box::new(kind_in_rust(&r.elem))),
        syn::Type::BareFn(_) => return Kind::Pointer(None, Box::new(Kind::Named("?".into()))),
        syn::Type::Tuple(t) if t.elems.is_empty() => return Kind::Void,
        syn::Type::Path(p) => {
            let Some(seg) = p.path.segments.last() else { return Kind::Void };
            let arg = match &seg.arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                    syn::GenericArgument::Type(t) => Some(t),
                    _ => None,
                }),
                _ => None,
            };
            let name = seg.ident.to_string();
            let signed = |n| Kind::Scalar(n, 'i');
            let unsigned = |n| Kind::Scalar(n, 'u');
            let to = |write| Kind::Pointer(Some(write), Box::new(arg.map_or(Kind::Named("?".into()), kind_in_rust)));
            return match name.as_str() {
                "Pin" if arg.is_some() => kind_in_rust(arg.unwrap()),
                "RvalueReference" | "CMut" => to(true),
                "ConstRvalueReference" | "CRef" => to(false),
                "c_void" => Kind::Void,
                "Option" => match arg.map(kind_in_rust) {
                    Some(Kind::Pointer(k, t)) => Kind::Pointer(k, t),
                    _ => Kind::Named("?".into()),
                },
                "bool" => Kind::Scalar(1, 'b'),
                "c_char" => Kind::Scalar(1, 'c'),
                "i8" | "c_schar" => signed(1),
                "u8" | "c_uchar" => unsigned(1),
                "i16" | "c_short" => signed(2),
                "u16" | "c_ushort" | "c_char16_t" => unsigned(2),
                "i32" | "c_int" => signed(4),
                "u32" | "c_uint" => unsigned(4),
                "i64" | "isize" | "c_long" | "c_longlong" => signed(8),
                "u64" | "usize" | "c_ulong" | "c_ulonglong" => unsigned(8),
                "f32" => Kind::Scalar(4, 'f'),
                "f64" => Kind::Scalar(8, 'f'),
                n => Kind::Named(norm(n.trim_start_matches("r#"))),
            };
        }
        _ => {}
    }
    Kind::Named("?".into())
}

fn passed_in_rust(sig: &syn::Signature) -> Passed {
    Passed {
        params: sig
            .inputs
            .iter()
            .map(|i| match i {
                syn::FnArg::Typed(t) => kind_in_rust(&t.ty),
                syn::FnArg::Receiver(_) => Kind::Named("?".into()),
            })
            .collect(),
        body: String::new(),
        result: match &sig.output {
            syn::ReturnType::Default => Kind::Void,
            syn::ReturnType::Type(_, t) => kind_in_rust(t),
        },
    }
}

/// A type in C++, without the name of what has it.
pub fn kind_in_cc(t: &str) -> Kind {
    let t = t.trim();
    let t = t.strip_suffix("const").unwrap_or(t).trim();
    if let Some(p) = t.strip_suffix("&&").or(t.strip_suffix('&')).or(t.strip_suffix('*')) {
        let p = p.trim();
        if p.contains("type_identity_t") && !p.contains('*') {
            return Kind::Pointer(None, Box::new(Kind::Named("?".into())));
        }
        return Kind::Pointer(Some(!p.ends_with("const")), Box::new(kind_in_cc(p)));
    }
    let t = t.strip_suffix("const").unwrap_or(t).trim();
    let t = t.strip_prefix("std::").unwrap_or(t);
    let signed = |n| Kind::Scalar(n, 'i');
    let unsigned = |n| Kind::Scalar(n, 'u');
    match t {
        "void" => Kind::Void,
        "bool" => Kind::Scalar(1, 'b'),
        "char" => Kind::Scalar(1, 'c'),
        "signed char" | "int8_t" => signed(1),
        "unsigned char" | "uint8_t" => unsigned(1),
        "short" | "int16_t" => signed(2),
        "unsigned short" | "uint16_t" | "char16_t" => unsigned(2),
        "int" | "int32_t" => signed(4),
        "unsigned int" | "unsigned" | "uint32_t" => unsigned(4),
        "long" | "long long" | "int64_t" | "ptrdiff_t" | "intptr_t" => signed(8),
        "unsigned long" | "unsigned long long" | "uint64_t" | "size_t" | "uintptr_t" => unsigned(8),
        "float" => Kind::Scalar(4, 'f'),
        "double" => Kind::Scalar(8, 'f'),
        t => Kind::Named(norm(t.rsplit("::").next().unwrap_or("?").split_whitespace().last().unwrap_or("?"))),
    }
}

/// A type followed by a name, which may be written together.
fn param_in_cc(t: &str) -> Kind {
    let t = t.trim_end();
    let cut = t.rfind(|c: char| !(c.is_alphanumeric() || c == '_')).map_or(0, |k| k + 1);
    kind_in_cc(&t[..cut])
}

fn tight(s: &str) -> String {
    let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    let mut o = String::new();
    for w in s.split_whitespace() {
        if word(o.chars().last()) && word(w.chars().next()) {
            o.push(' ');
        }
        o += w;
    }
    o
}

/// Thunks that the C++ defines: what is passed and the number of definitions.
pub fn thunks(cc: &str) -> BTreeMap<String, (Passed, usize)> {
    let mut m = BTreeMap::<String, (Passed, usize)>::new();
    for part in cc.split("extern \"C\"").skip(1) {
        let Some(at) = ["__rust_thunk__", "__crubit_"].iter().filter_map(|p| part.find(p)).min() else { continue };
        let rest = &part[at..];
        let Some(open) = rest.find('(') else { continue };
        let name = rest[..open].trim().to_string();
        let (mut depth, mut params, mut close, mut from) = (0i32, vec![], 0, open + 1);
        for (k, c) in rest[open..].char_indices() {
            match c {
                '(' | '<' | '[' => depth += 1,
                ')' | '>' | ']' => {
                    depth -= 1;
                    if depth == 0 {
                        close = open + k;
                        if !rest[from..close].trim().is_empty() {
                            params.push(param_in_cc(&rest[from..close]));
                        }
                        break;
                    }
                }
                ',' if depth == 1 => {
                    params.push(param_in_cc(&rest[from..open + k]));
                    from = open + k + 1;
                }
                _ => {}
            }
        }
        // A declaration only is no definition.
        if !rest[close + 1..].trim_start().starts_with('{') {
            continue;
        }
        let mut end = rest.len();
        let mut depth = 0;
        for (k, c) in rest[close..].char_indices() {
            match c {
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = close + k;
                        break;
                    }
                }
                _ => {}
            }
        }
        let body = tight(&rest[close + 1..end]);
        let p = Passed { params, result: kind_in_cc(&part[..at]), body };
        m.entry(name).or_insert((p, 0)).1 += 1;
    }
    m
}

/// Why the two are not passed in the same way, if they are not; names that are aliases may be anything.
pub fn misfit(w: &World, cells: &BTreeSet<String>, rust: &Kind, cc: &Kind) -> Option<String> {
    let known = |n: &String| w.decls.iter().any(|d| matches!(d.kind, "rec" | "enum") && norm(&d.name) == *n) && !w.decls.iter().any(|d| !matches!(d.kind, "rec" | "enum") && norm(&d.name) == *n);
    let ok = match (rust, cc) {
        (Kind::Named(a), Kind::Named(b)) => a == b || !known(a) || !known(b),
        (Kind::Named(a), _) | (_, Kind::Named(a)) => !known(a),
        (Kind::Scalar(n, 'c'), Kind::Scalar(m, _)) | (Kind::Scalar(n, _), Kind::Scalar(m, 'c')) => n == m,
        (Kind::Pointer(x, a), Kind::Pointer(y, b)) => {
            // A shared reference to a cell may be written through.
            let cell = matches!((x, &**a), (Some(false), Kind::Named(n)) if cells.contains(n));
            (x.is_none() || y.is_none() || x == y || cell) && (**a == Kind::Void || misfit(w, cells, a, b).is_none())
        }
        (a, b) => a == b,
    };
    (!ok).then(|| format!("{rust:?} in Rust and {cc:?} in C++"))
}

/// The lines of the C++ that say something.
pub fn cc_lines(cc: &str) -> Vec<String> {
    cc.lines().filter(|l| !l.starts_with('#') && !l.starts_with("//") && !l.trim().is_empty()).map(|l| l.to_string()).collect()
}

/// What a fault in `from` may change: declarations, as what their names have in common.
pub fn affected(w: &World, from: &[usize]) -> BTreeSet<usize> {
    let mut a: BTreeSet<usize> = from.iter().copied().collect();
    loop {
        let before = a.len();
        for (i, d) in w.decls.iter().enumerate() {
            if d.refs.iter().any(|r| a.contains(r)) || d.parent.is_some_and(|p| a.contains(&p) && w.decls[p].kind != "ns") {
                a.insert(i);
            }
            // The names of thunks depend on whether there is another function of the name.
            if d.given.is_some() && a.iter().any(|x| w.decls[*x].given == d.given || w.decls[*x].path == d.path) {
                a.insert(i);
            }
            if d.special && a.contains(&i) {
                a.extend(d.refs.iter().copied());
                a.extend(d.parent.filter(|p| w.decls[*p].kind != "ns"));
            }
        }
        if a.len() == before {
            return a;
        }
    }
}

/// The names that chunks of these declarations mention.
pub fn tags(w: &World, a: &BTreeSet<usize>) -> BTreeSet<String> {
    let given = a.iter().filter_map(|i| w.decls[*i].given.clone());
    a.iter().filter(|i| !w.decls[**i].name.is_empty() && w.decls[**i].kind != "ns").map(|i| norm(&w.decls[*i].name)).chain(given).collect()
}

/// Size and alignment in bytes of a type of the generated Rust.
pub fn layout_of(w: &World, ty: &syn::Type) -> Option<(i64, i64)> {
    let t = toks(ty).replace(' ', "");
    match ty {
        syn::Type::Ptr(_) | syn::Type::Reference(_) | syn::Type::BareFn(_) => return Some((8, 8)),
        syn::Type::Array(a) => {
            let n: i64 = toks(&a.len).parse().ok()?;
            let (s, al) = layout_of(w, &a.elem)?;
            return Some((s * n, al));
        }
        _ => {}
    }
    let last = t.rsplit("::").next().unwrap_or("");
    if t.ends_with("MaybeUninit<u8>>") || t.ends_with("MaybeUninit<u8>") {
        return Some((1, 1));
    }
    if t.starts_with("Option<") || t.starts_with("::core::option::Option<") {
        return Some((8, 8));
    }
    if let Some(x) = t.strip_prefix("::core::mem::ManuallyDrop<").and_then(|x| x.strip_suffix('>')) {
        return layout_of(w, &syn::parse_str(x).ok()?);
    }
    if let Some(x) = t.strip_prefix("::core::cell::Cell<").and_then(|x| x.strip_suffix('>')) {
        return layout_of(w, &syn::parse_str(x).ok()?);
    }
    let n = match last {
        "bool" | "u8" | "i8" | "c_char" | "c_uchar" | "c_schar" => 1,
        "u16" | "i16" | "c_char16_t" => 2,
        "u32" | "i32" | "f32" | "c_int" | "c_uint" => 4,
        "u64" | "i64" | "f64" | "usize" | "isize" | "c_long" | "c_ulong" | "c_ulonglong" | "c_longlong" => 8,
        _ => {
            let k = norm(last);
            let d = w.decls.iter().find(|d| is_type(d.kind) && norm(&d.name) == k && k.ends_with('q'))?;
            return Some((d.size / 8, d.align / 8));
        }
    };
    Some((n, n))
}

/// Offsets of the named fields, and the size and alignment, by the rules of `repr(C)`.
pub fn record_layout(w: &World, i: &Item) -> Option<(BTreeMap<String, i64>, i64, i64)> {
    let (attrs, fields, union): (&[syn::Attribute], Vec<&syn::Field>, bool) = match i {
        Item::Struct(s) => (&s.attrs, s.fields.iter().collect(), false),
        Item::Union(u) => (&u.attrs, u.fields.named.iter().collect(), true),
        _ => return None,
    };
    let mut align = 1;
    let mut c = false;
    for a in attrs.iter().filter(|a| a.path().is_ident("repr")) {
        let t = toks(&a.meta).replace(' ', "");
        if t.contains("packed") || t.contains("transparent") {
            return None;
        }
        c |= t.contains("(C");
        if let Some(x) = t.split("align(").nth(1) {
            align = x.split(')').next()?.parse().ok()?;
        }
    }
    if !c {
        return None;
    }
    let (mut off, mut size) = (0i64, 0i64);
    let mut m = BTreeMap::new();
    for f in fields {
        let (s, a) = layout_of(w, &f.ty)?;
        off = if union { 0 } else { (off + a - 1) / a * a };
        if let Some(n) = &f.ident {
            m.insert(n.to_string(), off);
        }
        off += s;
        size = size.max(off);
        align = align.max(a);
    }
    Some((m, (size + align - 1) / align * align, align))
}

/// A thunk passes on what the function takes, in the order of the headers.
pub fn thunk_does(w: &World, n: &str, thunk: &Passed, f: &Function) {
    let none = BTreeSet::new();
    let mut got = thunk.params.clone();
    let object = matches!(f.result.kind, Kind::Named(_)) && f.result.behind == Some(true);
    let extra = got.len() as i64 - f.params.len() as i64;
    check!(extra == 0 || (extra == 1 && (object || f.result.behind.is_none())), "function-arity", "`{n}` has {} parameters and the function {}", got.len(), f.params.len());
    if extra == 1 {
        let k = Kind::Pointer(Some(true), Box::new(f.result.kind.clone()));
        let first = got.remove(0);
        let m = misfit(w, &none, &k, &first);
        check!(m.is_none() || f.result.behind.is_none(), "function-type", "the room for the result of `{n}`: {}", m.unwrap());
        check!(thunk.result == Kind::Void, "function-type", "`{n}` has a result and room for it");
    } else {
        let m = misfit(w, &none, &thunk.result, &f.result.kind);
        check!(m.is_none(), "function-type", "the result of `{n}` is {} in the header", m.unwrap());
    }
    for (x, (name, p)) in got.iter().zip(&f.params) {
        let object = matches!(p.kind, Kind::Named(_)) && p.behind == Some(true);
        let y = match object {
            true => Kind::Pointer(None, Box::new(p.kind.clone())),
            false => p.kind.clone(),
        };
        let m = misfit(w, &none, x, &y);
        check!(m.is_none() || (p.behind.is_none() && matches!(y, Kind::Named(_))), "function-type", "`{name}` of `{n}` is {} in the header", m.unwrap());
    }
    check!(thunk.body.contains(&f.called), "calls-another", "`{n}` does not call `{}` but does `{}`", f.called, thunk.body);
    // The mentions of the parameters.
    let mut at = vec![];
    let b = thunk.body.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut k = 0;
    while k < b.len() {
        let from = k;
        while k < b.len() && word(b[k]) {
            k += 1;
        }
        if let Some(i) = f.params.iter().position(|(p, _)| k > from && thunk.body[from..k] == **p) {
            at.push((i, from > 0 && b[from - 1] == b'*'));
        }
        k = k.max(from + 1);
    }
    let order: Vec<usize> = at.iter().map(|x| x.0).collect();
    check!(order == (0..f.params.len()).collect::<Vec<_>>(), "arguments", "`{n}` passes the parameters {order:?} of {}: `{}`", f.params.len(), thunk.body);
    for (i, star) in at {
        let behind = if i == 0 && f.method { Some(f.rvalue) } else { f.params[i].1.behind };
        check!(behind.is_none_or(|x| x == star), "argument-form", "`{n}` passes `{}` with the wrong number of stars: `{}`", f.params[i].0, thunk.body);
    }
    check!(!f.rvalue || thunk.body.contains("move(*__this)"), "argument-form", "`{n}` calls a method of temporaries: `{}`", thunk.body);
}

/// What Rust may do with an object of a class by itself: copy it, move it, destroy it, share it among threads.
pub fn owns(w: &World, rs: &str, r: &Rust, path: &str, item: &syn::Item, d: &Decl) -> Option<String> {
    let mut unbound = None;
    use ir_rust_proto::SpecialMemberFunc as S;
    let o = d.owner.as_ref()?;
    let (attrs, fields): (&[syn::Attribute], Vec<&syn::Field>) = match item {
        syn::Item::Struct(s) => (&s.attrs, s.fields.iter().collect()),
        syn::Item::Union(u) => (&u.attrs, u.fields.named.iter().collect()),
        _ => return None,
    };
    let squeeze = |t: &dyn Fn() -> String| -> String { t().split_whitespace().collect() };
    let mut derives = BTreeSet::new();
    let mut pinned = None;
    for a in attrs {
        let t = squeeze(&|| toks(&a.meta));
        if let Some(l) = t.strip_prefix("derive(") {
            derives.extend(l.trim_end_matches(')').split(',').map(|x| x.to_string()));
        }
        if let Some(l) = t.strip_prefix("::ctor::recursively_pinned") {
            pinned = Some(l == "(PinnedDrop)");
        }
    }
    let last = path.rsplit("::").next().unwrap().trim_start_matches("r#").to_string();
    let scope = path.rsplit_once("::").map_or("", |x| x.0);
    // Implementations stand beside the definition.
    let implemented = |t: &str| {
        r.defs.iter().filter(|((p, space, name), _)| {
            *space == "impl" && p == scope && name.split_once(" for ").is_some_and(|(x, of)| {
                x.split_whitespace().collect::<String>() == t && of.split(['<', ' ']).next().unwrap().trim_start_matches("r#") == last
            })
        }).map(|(_, n)| *n).sum::<usize>()
    };
    let (copy, clone) = (derives.contains("Copy"), derives.contains("Clone"));
    let bytes = o.copy == S::Trivial && o.trivial_abi && o.dtor == S::Trivial;
    if copy {
        simkit::probe("copied-as-bytes");
        check!(bytes && !o.abstracted && !o.thread_safe && !o.mutable, "copy-of-owner", "`{path}` is Copy, and C++ does not copy it as bytes: {o:?}");
    }
    if clone {
        check!(o.copy == S::Trivial && o.trivial_abi && !o.abstracted && !o.thread_safe, "clone-of-owner", "`{path}` is cloned as bytes, and C++ does not copy it so: {o:?}");
    }
    if bytes && !o.asked && !o.abstracted && !o.thread_safe && !o.mutable {
        check!(copy && clone, "not-copied", "`{path}` is not Copy, and C++ copies it as bytes: {o:?}");
    }
    check!(derives.contains("::ctor::MoveAndAssignViaCopy") == copy, "derives-differ", "`{path}` derives {derives:?}");
    check!(pinned.is_none() == o.trivial_abi, "pinning", "`{path}` is {}pinned: {o:?}", if pinned.is_some() { "" } else { "not " });
    let drops = !matches!(o.dtor, S::Trivial | S::Unavailable);
    if let Some(p) = pinned {
        check!(p == drops, "pinned-drop", "`{path}` has {}destructor in place: {o:?}", if p { "a " } else { "no " });
    }
    let (d1, d2) = (implemented("Drop"), implemented("::ctor::PinnedDrop"));
    if !drops {
        check!(d1 + d2 == 0, "drop-of-nothing", "`{path}` is destroyed by C++, whose destructor does nothing or is not to be called: {o:?}");
    } else {
        let (x, y) = if o.trivial_abi { (1, 0) } else { (0, 1) };
        simkit::probe(if x == 1 { "destroyed-by-drop" } else { "destroyed-in-place" });
        let me = w.decls.iter().position(|e| std::ptr::eq(e, d));
        let faulty = w.decls.iter().any(|e| e.parent == me && e.name == "Destructor" && e.faulty);
        // The class says that it is destroyed by a function that is not there, which rustc refuses.
        if (d1, d2) == (0, 0) && (faulty || rs.contains(&format!("~{}` could not be bound", d.name))) {
            unbound = Some(format!("`{path}` is to be destroyed by a C++ destructor that could not be bound"));
        }
        check!(unbound.is_some() || (d1, d2) == (x, y), "drop-missing", "`{path}` has {d1} Drop and {d2} PinnedDrop, and its C++ destructor is {:?}, trivial ABI {}", o.dtor, o.trivial_abi);
    }
    if drops || matches!(item, syn::Item::Union(_)) {
        for f in fields {
            let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
            if o.destroyed.contains(&n) {
                simkit::probe("field-destroyed-by-cpp");
                let t = squeeze(&|| toks(&f.ty));
                check!(t.contains("::core::mem::ManuallyDrop<") || t.contains("MaybeUninit<u8>"), "destroyed-twice", "`{n}` of `{path}` is destroyed by C++ and then by Rust: {t}");
            }
        }
    }
    for (t, yes) in [("Send", o.send), ("Sync", o.sync)] {
        let (p, n) = (implemented(t), implemented(&format!("!{t}")));
        check!((p > 0, n > 0) == (yes, !yes), "threads", "`{path}` has {p} {t} and {n} !{t}, and the headers say {yes}");
    }
    unbound
}
