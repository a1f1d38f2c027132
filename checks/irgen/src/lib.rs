//! What the importer would say about C++ headers, made from a tree of choices, and runs of the real generator on it.
pub mod judge;
pub mod made;
pub mod run;
use ir_rust_proto::*;
use protobuf::ProtoString;
use simkit::Node;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

pub const TARGETS: [&str; 4] = ["//test:lib", "//dep:one", "//dep/two:two", "//plain:off"];
pub const PRIMS: [&str; 14] = [
    "int", "bool", "float", "double", "char", "unsigned char", "long", "unsigned long long", "int8_t", "uint16_t", "std::int32_t", "std::uint64_t",
    "size_t", "char16_t",
];
/// Operators, with the number of operands, and whether only members of a class may be one.
pub const OPS: [(&str, usize, bool); 16] = [
    ("==", 2, false), ("<", 2, false), ("+", 2, false), ("-", 1, false), ("+=", 2, false), ("[]", 2, true), ("!=", 2, false), ("<<", 2, false),
    ("=", 2, true), ("*", 1, false), ("()", 3, true), ("!", 1, false), ("==", 2, false), ("++", 1, false), ("*=", 2, false), ("-", 2, false),
];
pub const FEATURES: [&[&str]; 8] = [
    &["all"],
    &["supported"],
    &["supported", "experimental"],
    &["supported", "wrapper"],
    &["types"],
    &["supported", "assume_lifetimes"],
    &["all", "thunkless_accessors"],
    &["supported", "unsafe_view", "record_impl_debug"],
];

/// The choices a run makes that the importer and the operating system make in the real program.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Accidents {
    /// Seeds the keys of hash tables.
    pub keys: u64,
    /// Seeds the order of the entries of maps.
    pub maps: u64,
    /// Seeds the addresses of declarations, which are their ids.
    pub ids: u64,
}

/// A fault in what the importer found.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub item: usize,
    pub kind: u64,
}
pub const FAULT_NAMES: [&str; 4] = ["unknown-attribute", "unsupported-type", "unsupported-item", "absent"];

/// What is known about one declaration.
#[derive(Clone, Debug, Default)]
pub struct Decl {
    pub kind: &'static str,
    pub target: usize,
    pub parent: Option<usize>,
    /// The name in C++, and its path.
    pub name: String,
    pub path: String,
    /// Declarations that its types mention.
    pub refs: BTreeSet<usize>,
    pub must_bind: bool,
    /// Size and alignment in bits.
    pub size: i64,
    pub align: i64,
    /// The fields of a record: name, offset and size in bits, public.
    pub fields: Vec<(String, i64, i64, bool)>,
    /// A function that is a constructor, destructor or operator.
    pub special: bool,
    /// A special function that says whether it is safe, which is a fatal error.
    pub annotated: bool,
    /// What is wrong on purpose.
    pub faulty: bool,
    /// The name a function gives itself, which others may have.
    pub given: Option<String>,
    /// A function of the message.
    pub func: Option<Function>,
    /// What an alias stands for.
    pub aliased: Option<judge::Kind>,
    /// How objects of a class are copied and destroyed.
    pub owner: Option<Owner>,
}

/// How C++ copies and destroys objects of a class, and what the headers ask for.
#[derive(Clone, Debug)]
pub struct Owner {
    pub copy: SpecialMemberFunc,
    pub mv: SpecialMemberFunc,
    pub dtor: SpecialMemberFunc,
    pub trivial_abi: bool,
    pub abstracted: bool,
    pub thread_safe: bool,
    pub mutable: bool,
    pub asked: bool,
    pub send: bool,
    pub sync: bool,
    /// Fields whose objects have a destructor that does something.
    pub destroyed: BTreeSet<String>,
}

/// A function as the headers declare it.
#[derive(Clone, Debug)]
pub struct Function {
    pub symbol: String,
    /// Whether a caller that knows nothing of C++ may call the symbol itself.
    pub direct: bool,
    pub params: Vec<(String, Param)>,
    pub result: Param,
    /// How C++ calls it.
    pub called: String,
    pub method: bool,
    /// A method that is called on a temporary.
    pub rvalue: bool,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub kind: judge::Kind,
    /// Behind a pointer in a thunk, which is an object or a reference in C++; nothing if not known.
    pub behind: Option<bool>,
}

#[derive(Default)]
pub struct World {
    pub decls: Vec<Decl>,
}

/// The lifetimes that a header which asks for elision gives to the references of function `i`; none if it cannot.
fn elide(i: usize, instance: bool, params: &mut [FuncParam], ret: &mut CcType, names: &mut Vec<LifetimeName>) {
    fn pointers<'a>(t: &'a mut CcType, out: &mut Vec<&'a mut i32>) {
        if let Some(cc_type::VariantOwned::Pointer(p)) = &mut t.variant {
            // Lifetimes of function pointers are their own.
            let p = &mut **p;
            if let Some(x) = p.pointee_type.as_mut() {
                if !matches!(&x.variant, Some(cc_type::VariantOwned::FuncPointer(_))) {
                    out.push(p.lifetime.get_or_insert(0));
                    pointers(x, out);
                }
            }
        }
    }
    let before: Vec<FuncParam> = params.to_vec();
    let (mut all, mut this) = (vec![], None);
    for (k, p) in params.iter_mut().enumerate() {
        let mut v = vec![];
        pointers(p.r#type.as_mut().unwrap(), &mut v);
        for x in v {
            *x = (i * 32 + all.len() + 1) as i32;
            if instance && k == 0 && this.is_none() {
                this = Some(*x);
            }
            all.push(*x);
        }
    }
    let mut v = vec![];
    let mut r = ret.clone();
    pointers(&mut r, &mut v);
    if !v.is_empty() {
        let Some(from) = this.or(match all[..] { [x] => Some(x), _ => None }) else {
            params.clone_from_slice(&before);
            return;
        };
        for x in v {
            *x = from;
        }
        *ret = r;
    }
    names.extend(all.iter().enumerate().map(|(k, id)| LifetimeName { name: s(["a", "b", "c", "d", "e", "f", "g", "h"].get(k).map(|x| x.to_string()).unwrap_or(format!("l{k}"))), id: Some(*id) }));
}

fn nothing() -> Node {
    simkit::node("ty", &[])
}
fn s(x: impl Into<String>) -> Option<ProtoString> {
    Some(ProtoString::from(x.into()))
}
fn ident(x: &str) -> Option<Box<Identifier>> {
    Some(Box::new(Identifier { identifier: s(x) }))
}

fn is_error(t: &CcType) -> bool {
    matches!(&t.variant, Some(cc_type::VariantOwned::Error(_)))
}
pub fn is_type(op: &str) -> bool {
    matches!(op, "rec" | "enum" | "alias" | "fwd" | "ert")
}
pub fn is_decl(op: &str) -> bool {
    is_type(op) || matches!(op, "fn" | "const" | "var" | "ns" | "uns" | "com" | "use")
}
fn kind_of(op: &str) -> &'static str {
    ["rec", "enum", "alias", "fwd", "ert", "fn", "const", "var", "ns", "uns", "com", "use"].into_iter().find(|k| *k == op).unwrap_or("?")
}

struct Builder {
    /// Targets whose lifetimes are assumed.
    assumed: [bool; 4],
    acc: Accidents,
    faults: Vec<Fault>,
    world: World,
    /// Types that may be mentioned: index of the declaration.
    types: Vec<usize>,
    /// The nodes in the order of their numbers.
    next: usize,
    /// Names used, by scope.
    used: BTreeSet<(Option<usize>, String, usize)>,
    /// The last function of each scope.
    last: BTreeMap<Option<usize>, String>,
    cur: usize,
    /// What comes later is not visible.
    cap: usize,
    /// Size and alignment of the last type that became an error.
    lost: (i64, i64),
    /// The owner of a type that the importer does not name.
    lost_owner: Option<Owner>,
}

impl Builder {
    fn id(&self, i: usize) -> u64 {
        // Distinct, as addresses are.
        ((simkit::mix(self.acc.ids ^ (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)) >> 20) << 10) | (i as u64 + 1)
    }
    fn faulty(&self, kind: u64) -> bool {
        self.faults.contains(&Fault { item: self.cur, kind })
    }
    /// Size and alignment in bits.
    fn layout(&self, t: &CcType) -> (i64, i64) {
        match &t.variant {
            Some(cc_type::VariantOwned::Primitive(p)) => {
                let name = p.spelling.clone().map(|x| String::from_utf8(x.0).unwrap()).unwrap_or_default();
                let b = match name.as_str() {
                    "bool" | "char" | "unsigned char" | "int8_t" => 8,
                    "uint16_t" | "char16_t" => 16,
                    "int" | "float" | "std::int32_t" => 32,
                    _ => 64,
                };
                (b, b)
            }
            Some(cc_type::VariantOwned::Decl(id)) => {
                let i = (id & 1023) as usize - 1;
                let d = &self.world.decls[i];
                (d.size, d.align)
            }
            Some(cc_type::VariantOwned::Error(_)) => self.lost,
            _ => (64, 64),
        }
    }

    /// The owner of the class that a type is, if it is one.
    fn owner(&self, t: &CcType) -> Option<Owner> {
        match &t.variant {
            Some(cc_type::VariantOwned::Decl(id)) => self.world.decls[(id & 1023) as usize - 1].owner.clone(),
            Some(cc_type::VariantOwned::Error(_)) => self.lost_owner.clone(),
            _ => None,
        }
    }

    fn prim(&self, i: usize) -> CcType {
        CcType {
            variant: Some(cc_type::VariantOwned::Primitive(Box::new(cc_type::Primitive { spelling: s(PRIMS[i % PRIMS.len()]) }))),
            ..Default::default()
        }
    }
    fn void(&self) -> CcType {
        CcType { variant: Some(cc_type::VariantOwned::Primitive(Box::new(cc_type::Primitive { spelling: s("void") }))), ..Default::default() }
    }
    /// Whether the importer gave up on this declaration, or on what it is in.
    fn gone(&self, d: usize) -> bool {
        let w = &self.world.decls;
        self.faults.contains(&Fault { item: d, kind: 2 }) || w[d].parent.is_some_and(|p| w[p].kind != "ns" && self.gone(p))
    }
    fn error(&self, fmt: &str, message: String) -> CcType {
        CcType { variant: Some(cc_type::VariantOwned::Error(Box::new(FormattedError { fmt: s(fmt), message: s(message) }))), ..Default::default() }
    }
    fn decl_type(&mut self, d: usize) -> CcType {
        let c = self.cur;
        if self.gone(d) && !self.gone(c) {
            self.world.decls[c].refs.insert(d);
            self.lost = (self.world.decls[d].size, self.world.decls[d].align);
            self.lost_owner = self.world.decls[d].owner.clone();
            return self.error("No generated bindings found for '{}'", format!("No generated bindings found for '{}'", self.world.decls[d].path));
        }
        self.world.decls[c].refs.insert(d);
        CcType { variant: Some(cc_type::VariantOwned::Decl(self.id(d))), ..Default::default() }
    }
    fn pointer(&mut self, kind: PointerTypeKind, to: CcType) -> CcType {
        if is_error(&to) {
            self.lost = (64, 64);
            self.lost_owner = None;
            return to;
        }
        CcType {
            variant: Some(cc_type::VariantOwned::Pointer(Box::new(cc_type::PointerType {
                kind: Some(kind),
                lifetime: None,
                pointee_type: Some(Box::new(to)),
            }))),
            ..Default::default()
        }
    }
    /// A type; by value only what is complete: declarations before number `below`.
    fn ty(&mut self, n: &Node, below: usize, depth: usize) -> CcType {
        let k = n.ix(0, 12);
        let sel = n.a(1) as usize;
        let mut t = match k {
            0..=3 => self.prim(sel),
            4..=6 => {
                let v: Vec<usize> = self.types.iter().copied().filter(|d| *d < below && (self.world.decls[*d].kind != "fwd" || depth > 0)).collect();
                match v.is_empty() {
                    true => self.prim(sel),
                    false => self.decl_type(v[sel % v.len()]),
                }
            }
            7..=10 if depth < 3 => {
                let kind = [PointerTypeKind::Nullable, PointerTypeKind::LValueRef, PointerTypeKind::NonNull, PointerTypeKind::RValueRef][k - 7];
                let kind = if depth > 0 { PointerTypeKind::Nullable } else { kind };
                let e = nothing();
                let kid = n.kids.first().cloned().unwrap_or(e);
                // Behind a pointer the whole of the header is visible.
                let cap = self.cap;
                let v: Vec<usize> = self.types.iter().copied().filter(|d| *d < cap).collect();
                let mut to = if sel % 5 == 0 && !v.is_empty() {
                    let d = v[sel / 5 % v.len()];
                    self.decl_type(d)
                } else {
                    self.ty(&kid, below, depth + 1)
                };
                to.is_const = Some(n.a(2) % 2 == 0);
                self.pointer(kind, to)
            }
            11 if depth < 2 => {
                let mut v: Vec<CcType> = vec![];
                for kid in &n.kids {
                    v.push(self.ty(kid, below, depth + 1));
                }
                v.push(self.void());
                if let Some(i) = v.iter().position(is_error) {
                    self.lost = (64, 64);
                    self.lost_owner = None;
                    return v.swap_remove(i);
                }
                CcType {
                    variant: Some(cc_type::VariantOwned::FuncPointer(Box::new(cc_type::FuncPointer {
                        non_null: Some(sel % 2 == 0),
                        call_conv: Some(CallingConv::CDecl),
                        param_and_return_types: v,
                        lifetime_inputs: vec![],
                    }))),
                    ..Default::default()
                }
            }
            _ => self.prim(sel),
        };
        if n.a(3) == 7 && depth == 0 {
            t.unknown_attr = s("preserve_most");
        }
        if self.faulty(1) && depth == 0 {
            self.lost = self.layout(&t);
            self.lost_owner = self.owner(&t);
            return self.error("Unsupported clang::Type class '{}'", "Unsupported clang::Type class 'Injected'".into());
        }
        t
    }

    /// A name that no other declaration has, or now and then a Rust keyword that its scope does not have yet.
    fn name(&mut self, parent: Option<usize>, base: &str) -> String {
        let keyword = matches!(base, "type" | "fn" | "as" | "loop");
        match keyword && self.used.insert((parent, base.to_string(), 0)) {
            true => base.into(),
            false => format!("{base}Q{}Q", self.next),
        }
    }

    fn enter(&mut self, op: &str, target: usize, parent: Option<usize>, name: String) -> usize {
        let i = self.next;
        self.next += 1;
        assert_eq!(i, self.world.decls.len());
        let path = match parent {
            Some(p) => format!("{}::{name}", self.world.decls[p].path),
            None => name.clone(),
        };
        self.world.decls.push(Decl { kind: kind_of(op), target, parent, name, path, size: 64, align: 64, ..Default::default() });
        if is_type(op) {
            self.types.push(i);
        }
        self.cur = i;
        i
    }

    fn unsupported(&self, i: usize, name: &str, kind: unsupported_item::Kind, msg: &str) -> Item {
        let d = &self.world.decls[i];
        let item = UnsupportedItem {
            name: s(name),
            unique_name: s(format!("c:{}", d.path)),
            kind: Some(kind),
            path: Some(Box::new(unsupported_item::Path {
                ident: Some(Box::new(UnqualifiedIdentifier { identifier: Some(unqualified_identifier::IdentifierOwned::Ident(ident(name).unwrap())) })),
                enclosing_item_id: d.parent.map(|p| self.id(p)),
            })),
            errors: vec![FormattedError { fmt: s("Unsupported: {}"), message: s(msg) }],
            source_loc: s(format!("Generated from: test/lib.h;l={}", i + 1)),
            id: Some(self.id(i)),
            must_bind: Some(false),
            defining_target: s(TARGETS[d.target]),
            inline_cpp_source_text: None,
        };
        Item { item: Some(item::ItemOwned::UnsupportedItem(Box::new(item))) }
    }

    fn doc(&self, n: &Node, k: usize) -> Option<ProtoString> {
        (n.a(k) % 3 == 0).then(|| ProtoString::from(format!("Comment number {}.\nSecond line.", n.a(k) % 10)))
    }

    /// A type as C++ passes it.
    fn kind(&self, t: &CcType) -> judge::Kind {
        use judge::Kind as K;
        match &t.variant {
            Some(cc_type::VariantOwned::Primitive(p)) => judge::kind_in_cc(&String::from_utf8(p.spelling.clone().unwrap().0).unwrap()),
            Some(cc_type::VariantOwned::Pointer(p)) => {
                let to = p.pointee_type.as_ref().unwrap();
                match self.kind(to) {
                    // A reference to a function.
                    K::Pointer(None, x) => K::Pointer(None, Box::new(K::Pointer(None, x))),
                    x => K::Pointer(Some(!to.is_const.unwrap_or(false)), Box::new(x)),
                }
            }
            Some(cc_type::VariantOwned::FuncPointer(_)) => K::Pointer(None, Box::new(K::Named("?".into()))),
            Some(cc_type::VariantOwned::Decl(id)) => {
                let d = &self.world.decls[(id & 1023) as usize - 1];
                match d.kind {
                    "alias" => d.aliased.clone().unwrap_or(K::Named("?".into())),
                    "rec" | "enum" | "fwd" => K::Named(judge::norm(&d.name)),
                    _ => K::Named("?".into()),
                }
            }
            _ => K::Named("?".into()),
        }
    }
    fn param(&self, t: &CcType) -> Param {
        let kind = self.kind(t);
        let behind = match &t.variant {
            Some(cc_type::VariantOwned::Pointer(p)) => Some(matches!(p.kind, Some(PointerTypeKind::LValueRef | PointerTypeKind::RValueRef))),
            Some(cc_type::VariantOwned::Primitive(_)) => Some(false),
            Some(cc_type::VariantOwned::Decl(_)) => match &kind {
                judge::Kind::Named(n) => match self.world.decls.iter().find(|d| judge::norm(&d.name) == *n).map(|d| d.kind) {
                    Some("rec" | "fwd") => Some(true),
                    Some("enum") => Some(false),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        Param { kind, behind }
    }

    /// The declarations a node stands for. A fault that turns a declaration into something else happens here.
    fn item(&mut self, n: &Node, parent: Option<usize>, target: usize) -> Option<Item> {
        let first = self.next;
        let made = self.item_really(n, parent, target);
        self.cur = first;
        let name = self.world.decls.get(first).map(|d| d.name.clone()).unwrap_or_default();
        if self.faulty(2) && n.op != "ns" && n.op != "com" && n.op != "use" {
            use unsupported_item::Kind as K;
            let kind = match n.op.as_str() {
                "fn" => K::Func,
                "rec" | "fwd" | "ert" => K::Struct,
                "enum" => K::Enum,
                "alias" => K::TypeAlias,
                "var" => K::GlobalVar,
                _ => K::Other,
            };
            for d in &mut self.world.decls[first..] {
                d.func = None;
            }
            return Some(self.unsupported(first, &name, kind, "injected"));
        }
        if self.faulty(3) && matches!(n.op.as_str(), "fn" | "const" | "var") {
            self.world.decls[first].func = None;
            return None;
        }
        made
    }

    fn item_really(&mut self, n: &Node, parent: Option<usize>, target: usize) -> Option<Item> {
        let src = |i: usize| s(format!("Generated from: test/lib.h;l={}", i + 1));
        let in_record = parent.is_some_and(|p| self.world.decls[p].kind == "rec");
        Some(Item {
            item: Some(match n.op.as_str() {
                "rec" => {
                    let base = ["Alpha", "Beta", "Gamma", "Delta", "type", "HTTPServer"][n.ix(0, 6)];
                    let name = self.name(parent, base);
                    let i = self.enter("rec", target, parent, name.clone());
                    let below = i;
                    let mut fields = vec![];
                    let mut bases = vec![];
                    let mut derived = false;
                    let (mut off, mut align, mut widest) = (0i64, 8i64, 0i64);
                    let is_union = n.ix(1, 8) == 0;
                    let mut parts: Vec<Option<Owner>> = vec![];
                    let mut destroyed = BTreeSet::new();
                    let mut mutable = false;
                    if !is_union && n.a(9) % 3 == 0 {
                        let v: Vec<usize> = self.types.iter().copied().filter(|d| *d < below && self.world.decls[*d].kind == "rec" && Some(*d) != parent).collect();
                        if !v.is_empty() {
                            let b = v[n.a(9) as usize / 3 % v.len()];
                            self.world.decls[i].refs.insert(b);
                            if !self.gone(b) {
                                bases.push(BaseClass { base_record_id: Some(self.id(b)), offset: Some(0) });
                            }
                            derived = true;
                            parts.push(self.world.decls[b].owner.clone());
                            off = self.world.decls[b].size;
                            align = self.world.decls[b].align;
                        }
                    }
                    for (k, f) in n.kids.iter().filter(|k| k.op == "fld").enumerate() {
                        let e = nothing();
                        // A member of itself by value, or of what encloses it, is not C++.
                        let t = self.ty(f.kids.first().unwrap_or(&e), below.min(parent.unwrap_or(below)), 0);
                        let bits = f.a(4) % 13 == 1 && matches!(&t.variant, Some(cc_type::VariantOwned::Primitive(_)));
                        let no_unique = !bits && f.a(3) % 13 == 1;
                        let (fs, fa) = if bits { (5, 8) } else { self.layout(&t) };
                        let owner = self.owner(&t);
                        if owner.as_ref().is_some_and(|o| o.dtor != SpecialMemberFunc::Trivial) {
                            destroyed.insert(format!("m{k}"));
                        }
                        parts.push(owner);
                        mutable |= f.a(5) % 13 == 1;
                        off = if is_union { 0 } else { (off + fa - 1) / fa * fa };
                        align = align.max(fa);
                        let access = [AccessSpecifier::Public, AccessSpecifier::Public, AccessSpecifier::Private, AccessSpecifier::Protected][f.ix(1, 4)];
                        self.world.decls[i].fields.push((format!("m{k}"), off, fs, access == AccessSpecifier::Public && !bits));
                        fields.push(Field {
                            rust_identifier: ident(&format!("m{k}")),
                            cpp_identifier: ident(&format!("m{k}")),
                            doc_comment: self.doc(f, 0),
                            r#type: Some(Box::new(t)),
                            access: Some(access),
                            offset: Some(off),
                            size: Some(fs),
                            unknown_attr: Some(Box::new(StatusOrOptionalString {
                                result: (f.a(2) % 11 == 1).then(|| status_or_optional_string::ResultOwned::OkValue("no_such_attr".into())),
                            })),
                            is_no_unique_address: Some(no_unique),
                            is_bitfield: Some(bits),
                            is_inheritable: Some(false),
                            deprecated: None,
                            is_mutable: Some(f.a(5) % 13 == 1),
                        });
                        off += fs;
                        widest = widest.max(off);
                    }
                    let over = n.a(11) % 7 == 1;
                    if over {
                        align = align.max(128);
                    }
                    let size = (off.max(widest).max(8) + align - 1) / align * align;
                    self.world.decls[i].size = size;
                    self.world.decls[i].align = align;
                    let sm = |k: i64| {
                        [SpecialMemberFunc::Trivial, SpecialMemberFunc::Trivial, SpecialMemberFunc::NontrivialMembers, SpecialMemberFunc::NontrivialUserDefined, SpecialMemberFunc::Unavailable]
                            [k as usize % 5]
                    };
                    // A member's special functions decide what the class's own can be.
                    let part = |own: SpecialMemberFunc, of: &dyn Fn(&Owner) -> SpecialMemberFunc| {
                        let all: Vec<SpecialMemberFunc> = parts.iter().flatten().map(of).collect();
                        match own {
                            SpecialMemberFunc::Trivial | SpecialMemberFunc::NontrivialMembers => {
                                if all.contains(&SpecialMemberFunc::Unavailable) || (is_union && all.iter().any(|x| *x != SpecialMemberFunc::Trivial)) {
                                    SpecialMemberFunc::Unavailable
                                } else if all.iter().any(|x| *x != SpecialMemberFunc::Trivial) {
                                    SpecialMemberFunc::NontrivialMembers
                                } else {
                                    SpecialMemberFunc::Trivial
                                }
                            }
                            own => own,
                        }
                    };
                    let dtor = [SpecialMemberFunc::Trivial, SpecialMemberFunc::Trivial, SpecialMemberFunc::NontrivialUserDefined, SpecialMemberFunc::Unavailable][n.ix(4, 4)];
                    let dtor = part(dtor, &|o| o.dtor);
                    let (copy, mv) = (part(sm(n.a(2)), &|o| o.copy), part(sm(n.a(3)), &|o| o.mv));
                    let trivial_abi = parts.iter().flatten().all(|o| o.trivial_abi)
                        && dtor != SpecialMemberFunc::Unavailable
                        && (n.a(14) % 9 == 2 || (dtor == SpecialMemberFunc::Trivial && (copy == SpecialMemberFunc::Trivial || mv == SpecialMemberFunc::Trivial)));
                    // Whoever asks for more than C++ gives asks for what does not compile.
                    let abstracted = !is_union && n.a(13) % 9 == 4;
                    let bytes = copy == SpecialMemberFunc::Trivial && trivial_abi && dtor == SpecialMemberFunc::Trivial && !abstracted && !mutable;
                    let pol = |k: i64| if bytes && k % 5 == 1 { TraitImplPolarity::Positive } else if k % 7 == 3 { TraitImplPolarity::Negative } else { TraitImplPolarity::None };
                    self.world.decls[i].owner = Some(Owner {
                        copy,
                        mv,
                        dtor,
                        trivial_abi,
                        abstracted,
                        thread_safe: n.a(16) % 11 == 1,
                        mutable,
                        asked: pol(n.a(5)) != TraitImplPolarity::None || pol(n.a(6)) != TraitImplPolarity::None,
                        send: n.a(7) % 7 == 1,
                        sync: n.a(7) % 11 == 1,
                        destroyed,
                    });
                    if dtor == SpecialMemberFunc::Unavailable {
                        self.used.insert((Some(i), "Destructor".into(), 0));
                    }
                    let mut children = vec![];
                    for (k, c) in n.kids.iter().enumerate() {
                        if is_decl(&c.op) && !matches!(c.op.as_str(), "ns" | "use" | "ert" | "var" | "fwd") {
                            if let Some(x) = self.item(c, Some(i), target) {
                                children.push((k, x));
                            }
                        }
                    }
                    // The importer lists every destructor that does something.
                    if dtor != SpecialMemberFunc::Trivial && !self.used.contains(&(Some(i), "Destructor".into(), 0)) {
                        let d = simkit::node("fn", &[&[1][..], &n.args[1..4], &[4, 0, 0, 0], &n.args[8..], &[1; 8]].concat());
                        if let Some(x) = self.item(&d, Some(i), target) {
                            children.push((n.kids.len(), x));
                        }
                    }
                    self.cur = i;
                    let children = children.into_iter().map(|(_, x): (usize, Item)| x).collect();
                    item::ItemOwned::Record(Box::new(Record {
                        rs_name: ident(&name),
                        cc_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        mangled_cc_name: s(mangle(&self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        unknown_attr: (self.faulty(0) || n.a(10) % 17 == 3).then(|| "injected_attr".into()),
                        doc_comment: self.doc(n, 8),
                        source_loc: src(i),
                        unambiguous_public_bases: bases.clone(),
                        fields,
                        size_align: Some(Box::new(SizeAlign { size: Some(size / 8), alignment: Some(align / 8) })),
                        trait_derives: Some(Box::new(TraitDerives {
                            clone: Some(pol(n.a(5))),
                            copy: Some(pol(n.a(6))),
                            debug: Some(TraitImplPolarity::None),
                            send: Some(n.a(7) % 7 == 1),
                            sync: Some(n.a(7) % 11 == 1),
                            custom: if n.a(5) % 9 == 4 { vec!["Hash".into()] } else { vec![] },
                        })),
                        is_derived_class: Some(derived),
                        override_alignment: Some(over || derived),
                        safety_annotation: Some([SafetyAnnotation::Unannotated, SafetyAnnotation::Unannotated, SafetyAnnotation::Unsafe, SafetyAnnotation::DisableUnsafe][n.ix(12, 4)]),
                        copy_constructor: Some(copy),
                        move_constructor: Some(mv),
                        destructor: Some(dtor),
                        is_trivial_abi: Some(trivial_abi),
                        is_inheritable: Some(n.a(13) % 2 == 0),
                        is_abstract: Some(abstracted),
                        nodiscard: (n.a(13) % 10 == 5).then(|| "take it".into()),
                        record_type: Some(if is_union { RecordType::Union } else { [RecordType::Struct, RecordType::Class][n.ix(1, 2)] }),
                        is_aggregate: Some(n.a(14) % 2 == 0),
                        is_canonical_alias: Some(false),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 15)),
                        overloads_operator_delete: Some(n.a(14) % 13 == 1),
                        detected_formatter: Some(n.a(14) % 5 == 1),
                        is_thread_safe: Some(n.a(16) % 11 == 1),
                        lifetime_inputs: vec![],
                        deprecated: (n.a(16) % 9 == 2).then(|| "old".into()),
                        is_explicit_class_template_instantiation_definition: Some(false),
                        has_private_or_deleted_operator_delete: Some(false),
                        children,
                        impl_debug: Some(n.a(16) % 7 == 3),
                        has_private_pointer_or_reference_fields: Some(false),
                        ..Default::default()
                    }))
                }
                "fn" => {
                    let k = n.ix(0, 12);
                    let base = ["f", "g", "make", "get", "set", "loop"][n.ix(1, 6)];
                    // An operator outside of a class has an operand of a class or an enumeration.
                    let classes: Vec<usize> = self.types.iter().copied().filter(|d| matches!(self.world.decls[*d].kind, "rec" | "enum")).collect();
                    let op = Some(OPS[n.ix(2, OPS.len())]).filter(|o| (k == 2 || k == 3) && (in_record || (!o.2 && !classes.is_empty())));
                    let kids = n.kids.iter().filter(|k| k.op == "ty").count();
                    // At most one of each kind of special function, and overloads that differ in the number of parameters.
                    let op = op.filter(|o| self.used.insert((parent, format!("operator{}", o.0), o.1)));
                    let special = if in_record && op.is_none() { k } else { 9 };
                    let special = match special {
                        0 if self.used.insert((parent, "Constructor".into(), kids)) => 0,
                        1 if self.used.insert((parent, "Destructor".into(), 0)) => 1,
                        _ => 9,
                    };
                    let plain = match self.last.get(&parent).cloned() {
                        Some(f) if n.a(17) % 3 == 0 && self.used.insert((parent, f.clone(), kids)) => f,
                        _ => {
                            let f = self.name(parent, base);
                            self.used.insert((parent, f.clone(), kids));
                            f
                        }
                    };
                    let (cc, rs, shown) = {
                        use unqualified_identifier::IdentifierOwned as I;
                        match special {
                            0 => (I::SpecialName(SpecialName::Constructor), I::SpecialName(SpecialName::Constructor), "Constructor".to_string()),
                            1 => (I::SpecialName(SpecialName::Destructor), I::SpecialName(SpecialName::Destructor), "Destructor".to_string()),
                            _ if op.is_some() => {
                                let o = op.unwrap().0;
                                let op = || Box::new(Operator { name: s(o) });
                                (I::Oper(op()), I::Oper(op()), format!("operator{o}"))
                            }
                            _ => {
                                let name = plain.clone();
                                (I::Ident(ident(&name).unwrap()), I::Ident(ident(&name).unwrap()), name)
                            }
                        }
                    };
                    if special == 9 && op.is_none() {
                        self.last.insert(parent, shown.clone());
                    }
                    let ctor = shown == "Constructor";
                    let dtor = shown == "Destructor";
                    let i = self.enter("fn", target, parent, shown.clone());
                    if let Some(p) = parent {
                        if in_record {
                            self.world.decls[i].refs.insert(p);
                        }
                    }
                    // These may be static since C++23.
                    let may = op.is_none_or(|o| matches!(o.0, "[]" | "()"));
                    self.world.decls[i].special = ctor || dtor || op.is_some();
                    self.world.decls[i].annotated = self.world.decls[i].special && n.ix(13, 4) > 1;
                    let stat = !ctor && !dtor && may && n.ix(3, 5) == 0;
                    let instance = in_record && !stat;
                    let mut params = vec![];
                    let is_const = n.a(4) % 2 == 0 && !ctor && !dtor;
                    let refq = [instance_method_metadata::ReferenceQualification::Unqualified, instance_method_metadata::ReferenceQualification::LValue, instance_method_metadata::ReferenceQualification::RValue][n.ix(5, 9).min(2) * usize::from(n.ix(5, 9) < 3)];
                    if instance {
                        let mut t = self.decl_type(parent.unwrap());
                        t.is_const = Some(is_const);
                        let t = self.pointer(PointerTypeKind::NonNull, t);
                        params.push(FuncParam { r#type: Some(Box::new(t)), identifier: ident("__this"), ..Default::default() });
                    }
                    let far = usize::MAX;
                    let tys: Vec<&Node> = n.kids.iter().filter(|k| k.op == "ty").collect();
                    let e = nothing();
                    let ret = match ctor || dtor || n.a(6) % 3 == 0 {
                        true => self.void(),
                        false => self.ty(tys.first().unwrap_or(&&e), far, 0),
                    };
                    let count = match op {
                        Some(o) => o.1 - usize::from(instance),
                        None if dtor => 0,
                        None => tys.len().saturating_sub(1),
                    };
                    {
                        for j in 0..count {
                            let t = match op.is_some() && !instance && j == 0 {
                                true => {
                                    let d = self.decl_type(classes[n.a(15) as usize % classes.len()]);
                                    match n.a(15) % 3 {
                                        0 => d,
                                        _ => self.pointer(PointerTypeKind::LValueRef, CcType { is_const: Some(n.a(16) % 2 == 0), ..d }),
                                    }
                                }
                                false => {
                                    let t = tys.get(j + 1).copied().unwrap_or(&e);
                                    self.ty(t, far, 0)
                                }
                            };
                            let name = if n.a(7) % 5 == 1 { "a".to_string() } else { format!("p{j}") };
                            let name = if n.a(7) % 5 == 1 && j > 0 { format!("{name}{j}") } else { name };
                            params.push(FuncParam {
                                r#type: Some(Box::new(t)),
                                identifier: ident(&name),
                                unknown_attr: (n.a(7) % 19 == 3).then(|| "param_attr".into()),
                                ..Default::default()
                            });
                        }
                    }
                    if self.faulty(1) && !dtor && params.len() == usize::from(instance) && (ctor || dtor || n.a(6) % 3 == 0) {
                        let t = self.ty(&e, far, 0);
                        params.push(FuncParam { r#type: Some(Box::new(t)), identifier: ident("bad"), ..Default::default() });
                    }
                    let inline = n.a(9) % 2 == 0;
                    let virt = instance && n.a(10) % 5 == 1;
                    let symbol = match n.a(18) % 11 {
                        // Names that are given, which more than one function may have.
                        3 if !ctor && !dtor => format!("given{}", n.a(18) / 11 % 2),
                        // An assembler's name.
                        4 => format!("\u{1}sym$of.{i}.{}", mangle(&self.world.decls[i].path)),
                        _ => format!("_Z{i}{}", mangle(&self.world.decls[i].path)),
                    };
                    let conv = [CallingConv::CDecl, CallingConv::CDecl, CallingConv::CDecl, CallingConv::CDecl, CallingConv::VectorCall, CallingConv::MsAbi][n.ix(19, 12).min(5)];
                    let conv = if n.ix(19, 12) > 5 { CallingConv::CDecl } else { conv };
                    let of_template = in_record && n.a(18) % 13 == 5;
                    // Where lifetimes are not assumed they are elided if the header asks for it; a destructor's `this` always has one.
                    let mut lifetime_params = vec![];
                    let mut ret = ret;
                    if !self.assumed[target.min(3)] && (n.a(20) % 2 == 1 || dtor) {
                        elide(i, instance, &mut params, &mut ret, &mut lifetime_params);
                    }
                    let function = {
                        let params: Vec<(String, Param)> = params
                            .iter()
                            .map(|p| {
                                let name = p.identifier.as_ref().unwrap().identifier.clone().unwrap();
                                (String::from_utf8(name.0).unwrap(), self.param(p.r#type.as_ref().unwrap()))
                            })
                            .collect();
                        let result = self.param(&ret);
                        let object = |p: &Param| matches!(&p.kind, judge::Kind::Named(_)) && p.behind == Some(true);
                        Function {
                            symbol: symbol.clone(),
                            direct: !inline && !virt && conv == CallingConv::CDecl && !of_template && !object(&result) && !params.iter().any(|(_, p)| object(p)),
                            params,
                            result,
                            called: match (&op, ctor, dtor) {
                                (_, true, _) => "construct_at(".into(),
                                (_, _, true) => "destroy_at(".into(),
                                (Some(o), ..) => format!("operator{}(", o.0),
                                _ if instance => format!("{shown}("),
                                _ => format!("{}(", self.world.decls[i].path),
                            },
                            method: instance && !ctor && !dtor,
                            rvalue: instance && !ctor && !dtor && refq == instance_method_metadata::ReferenceQualification::RValue,
                        }
                    };
                    self.world.decls[i].given = symbol.starts_with("given").then(|| symbol.clone());
                    self.world.decls[i].func = Some(function);
                    item::ItemOwned::Func(Box::new(Func {
                        cc_name: Some(Box::new(UnqualifiedIdentifier { identifier: Some(cc) })),
                        rs_name: Some(Box::new(UnqualifiedIdentifier { identifier: Some(rs) })),
                        unique_name: s(format!("c:{}#{i}", self.world.decls[i].path)),
                        owning_target: s(TARGETS[target]),
                        doc_comment: self.doc(n, 8),
                        mangled_name: s(symbol),
                        return_type: Some(Box::new(ret)),
                        params,
                        lifetime_params,
                        is_inline: Some(inline),
                        instance_method_metadata: instance.then(|| {
                            Box::new(InstanceMethodMetadata { reference: Some(refq), is_const: Some(is_const), is_virtual: Some(virt) })
                        }),
                        is_extern_c: Some(!in_record && n.a(10) % 7 == 2),
                        is_noreturn: Some(!dtor && n.a(11) % 17 == 1),
                        is_variadic: Some(!dtor && n.a(11) % 19 == 2),
                        is_consteval: Some(!dtor && n.a(11) % 23 == 3),
                        nodiscard: (n.a(11) % 7 == 4).then(|| "use it".into()),
                        deprecated: (n.a(12) % 3 == 1).then(|| "do not".into()),
                        unknown_attr: (self.faulty(0) || n.a(12) % 17 == 4).then(|| "injected_attr".into()),
                        is_member_or_descendant_of_class_template: Some(of_template),
                        safety_annotation: Some([SafetyAnnotation::Unannotated, SafetyAnnotation::Unannotated, SafetyAnnotation::Unsafe, SafetyAnnotation::DisableUnsafe][n.ix(13, 4)]),
                        source_loc: src(i),
                        id: Some(self.id(i)),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        adl_enclosing_record: None,
                        must_bind: Some(self.must(n, 14)),
                        lifetime_inputs: vec![],
                        inline_cpp_source_text: None,
                        semantic: None,
                        call_conv: Some(conv),
                    }))
                }
                "enum" => {
                    let name = self.name(parent, ["Color", "Kind", "Mode"][n.ix(0, 3)]);
                    let i = self.enter("enum", target, parent, name.clone());
                    let t = self.prim([0, 9, 8, 11][n.ix(1, 4)]);
                    let count = n.ix(2, 5);
                    (self.world.decls[i].size, self.world.decls[i].align) = self.layout(&t);
                    item::ItemOwned::EnumDecl(Box::new(Enum {
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        source_loc: src(i),
                        underlying_type: Some(Box::new(t)),
                        enumerators: (0..count)
                            .map(|k| Enumerator {
                                identifier: ident(["kA", "kB", "self_", "match", "kE"][(k + n.ix(3, 5)) % 5]),
                                value: Some(Box::new(IntegerConstant { is_negative: Some(false), wrapped_value: Some(k as i64 * 3) })),
                                unknown_attr: (n.a(4) % 13 == 1 && k == 1).then(|| "enumerator_attr".into()),
                                deprecated: (n.a(4) % 7 == 2 && k == 0).then(|| "old".into()),
                                doc_comment: None,
                            })
                            .collect(),
                        unknown_attr: self.faulty(0).then(|| "injected_attr".into()),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 5)),
                        detected_formatter: Some(n.a(6) % 5 == 1),
                        nodiscard: None,
                        deprecated: (n.a(6) % 7 == 3).then(|| "old".into()),
                        doc_comment: self.doc(n, 7),
                        mangled_cc_name: s(mangle(&self.world.decls[i].path)),
                        is_incomplete: Some(n.a(6) % 11 == 5),
                    }))
                }
                "const" => {
                    let name = self.name(parent, ["kOne", "kTwo", "as"][n.ix(0, 3)]);
                    let i = self.enter("const", target, parent, name.clone());
                    let enums: Vec<usize> = self.types.iter().copied().filter(|d| self.world.decls[*d].kind == "enum").collect();
                    let t = match n.a(6) % 4 == 1 && !enums.is_empty() {
                        true => self.decl_type(enums[n.a(6) as usize / 4 % enums.len()]),
                        false => self.prim([0, 9, 8, 11][n.ix(1, 4)]),
                    };
                    item::ItemOwned::Constant(Box::new(Constant {
                        value: Some(Box::new(IntegerConstant { is_negative: Some(false), wrapped_value: Some(n.a(2) as i64 % 100) })),
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        source_loc: src(i),
                        r#type: Some(Box::new(t)),
                        unknown_attr: self.faulty(0).then(|| "injected_attr".into()),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 3)),
                        deprecated: None,
                        doc_comment: self.doc(n, 4),
                    }))
                }
                "var" => {
                    let name = self.name(parent, ["global", "table", "fn"][n.ix(0, 3)]);
                    let i = self.enter("var", target, parent, name.clone());
                    let e = nothing();
                    let t = self.ty(n.kids.first().unwrap_or(&e), usize::MAX, 0);
                    item::ItemOwned::GlobalVar(Box::new(GlobalVar {
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        source_loc: src(i),
                        mangled_name: (n.a(1) % 2 == 0).then(|| mangle(&self.world.decls[i].path).into()),
                        r#type: Some(Box::new(t)),
                        unknown_attr: self.faulty(0).then(|| "injected_attr".into()),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 2)),
                        deprecated: None,
                        doc_comment: self.doc(n, 3),
                    }))
                }
                "alias" => {
                    let name = self.name(parent, ["Handle", "Alias", "Fn"][n.ix(0, 3)]);
                    // What it stands for is complete before it.
                    let below = self.next.min(if in_record { parent.unwrap() } else { usize::MAX });
                    self.cap = below;
                    let i = self.enter("alias", target, parent, name.clone());
                    let e = nothing();
                    let t = self.ty(n.kids.first().unwrap_or(&e), below, 0);
                    self.cap = usize::MAX;
                    self.world.decls[i].aliased = Some(self.kind(&t));
                    self.world.decls[i].owner = self.owner(&t);
                    (self.world.decls[i].size, self.world.decls[i].align) = self.layout(&t);
                    item::ItemOwned::TypeAlias(Box::new(TypeAlias {
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        doc_comment: self.doc(n, 2),
                        unknown_attr: self.faulty(0).then(|| "injected_attr".into()),
                        underlying_type: Some(Box::new(t)),
                        source_loc: src(i),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 3)),
                        deprecated: (n.a(4) % 5 == 1).then(|| "old".into()),
                        lifetime_inputs: vec![],
                    }))
                }
                "fwd" => {
                    let name = self.name(parent, ["Opaque", "Hidden"][n.ix(0, 2)]);
                    let i = self.enter("fwd", target, parent, name.clone());
                    item::ItemOwned::IncompleteRecord(Box::new(IncompleteRecord {
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        owning_target: s(TARGETS[target]),
                        unknown_attr: self.faulty(0).then(|| "injected_attr".into()),
                        record_type: Some(RecordType::Class),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        must_bind: Some(self.must(n, 1)),
                    }))
                }
                "ert" => {
                    let name = self.name(parent, "Mapped");
                    let i = self.enter("ert", target, None, name.clone());
                    if n.ix(0, 3) == 1 {
                        (self.world.decls[i].size, self.world.decls[i].align) = (32, 32);
                    }
                    let bytes = self.world.decls[i].size / 8;
                    item::ItemOwned::ExistingRustType(Box::new(ExistingRustType {
                        rs_name: s(["::other::Thing", "u32", "i64"][n.ix(0, 3)]),
                        cc_name: s(name.clone()),
                        unique_name: s(format!("c:{name}")),
                        template_args: vec![],
                        owning_target: s(TARGETS[target]),
                        size_align: (n.a(1) % 2 == 0).then(|| Box::new(SizeAlign { size: Some(bytes), alignment: Some(bytes) })),
                        is_same_abi: Some(n.a(2) % 2 == 0),
                        id: Some(self.id(i)),
                        must_bind: Some(self.must(n, 3)),
                        impl_debug: Some(false),
                    }))
                }
                "ns" => {
                    let name = ["outer", "inner", "impl", "detail"][n.ix(0, 4)].to_string();
                    let i = self.enter("ns", target, parent, name.clone());
                    // The first namespace of the name in its scope is the canonical one.
                    let canon = (0..i).find(|j| {
                        let d = &self.world.decls[*j];
                        d.kind == "ns" && d.path == self.world.decls[i].path
                    });
                    let mut children = vec![];
                    for c in &n.kids {
                        if is_decl(&c.op) {
                            if let Some(x) = self.item(c, Some(canon.unwrap_or(i)), target) {
                                children.push(x);
                            }
                        }
                    }
                    self.cur = i;
                    item::ItemOwned::NamespaceDecl(Box::new(Namespace {
                        cc_name: ident(&name),
                        rs_name: ident(&name),
                        unique_name: s(format!("c:@N@{}", self.world.decls[i].path)),
                        id: Some(self.id(i)),
                        canonical_namespace_id: Some(self.id(canon.unwrap_or(i))),
                        unknown_attr: None,
                        owning_target: s(TARGETS[target]),
                        enclosing_item_id: parent.map(|p| self.id(p)),
                        is_inline: Some(n.a(1) % 9 == 4),
                        must_bind: Some(false),
                        deprecated: (n.a(1) % 7 == 3).then(|| "old".into()),
                        doc_comment: None,
                        children,
                    }))
                }
                "uns" => {
                    let name = self.name(parent, "Weird");
                    let i = self.enter("uns", target, parent, name.clone());
                    use unsupported_item::Kind as K;
                    return Some(self.unsupported(i, &name, [K::Func, K::Struct, K::Other, K::Enum][n.ix(0, 4)], "as found"));
                }
                "com" => {
                    let i = self.enter("com", target, parent, String::new());
                    item::ItemOwned::Comment(Box::new(Comment { text: s(format!("A remark, number {}.", n.a(0) % 10)), id: Some(self.id(i)), must_bind: Some(false) }))
                }
                "use" => {
                    let i = self.enter("use", target, None, String::new());
                    item::ItemOwned::UseMod(Box::new(UseMod {
                        path: s(format!("path/to/extra{}.rs", n.a(0) % 3)),
                        mod_name: ident(&format!("extra{i}")),
                        id: Some(self.id(i)),
                        must_bind: Some(false),
                    }))
                }
                _ => return None,
            }),
        })
    }
    fn must(&mut self, n: &Node, k: usize) -> bool {
        let m = n.a(k) % 29 == 7;
        let c = self.cur;
        self.world.decls[c].must_bind = m;
        m
    }
}

fn mangle(path: &str) -> String {
    path.split("::").map(|p| format!("{}{}", p.len(), p.chars().map(|c| if c.is_alphanumeric() || c == '_' { c } else { 'x' }).collect::<String>())).collect()
}

/// The importer's message for the declarations of `case`, and what they are.
pub fn build(case: &Node, acc: Accidents, faults: &[Fault]) -> (IRProto, World) {
    let assumed = std::array::from_fn(|t| t < 3 && FEATURES[case.a(t) as usize % FEATURES.len()].contains(&"assume_lifetimes"));
    let mut b = Builder {
        assumed,
        acc,
        faults: faults.to_vec(),
        world: World::default(),
        types: vec![],
        next: 0,
        used: BTreeSet::new(),
        last: BTreeMap::new(),
        cur: 0,
        cap: usize::MAX,
        lost: (64, 64),
        lost_owner: None,
    };
    let mut top: Vec<Vec<Item>> = vec![vec![]; TARGETS.len()];
    for n in &case.kids {
        if !is_decl(&n.op) {
            continue;
        }
        let t = [0, 0, 0, 0, 0, 1, 2, 3][n.a(20) as usize % 8];
        if let Some(x) = b.item(n, None, t) {
            top[t].push(x);
        }
    }
    let mut p = IRProto { current_target: s(TARGETS[0]), ..Default::default() };
    p.public_headers = vec![HeaderName { name: s("test/lib.h") }, HeaderName { name: s("test/extra.h") }];
    let mut maps = simkit::Rng::new(acc.maps);
    for (t, items) in top.into_iter().enumerate() {
        let feats: &[&str] = match t {
            3 => &[],
            t => FEATURES[case.a(t) as usize % FEATURES.len()],
        };
        if !feats.is_empty() {
            p.crubit_features.push((TARGETS[t].into(), feature_set(feats)));
        }
        p.top_level_items.push((TARGETS[t].into(), ir_proto::ItemList { items }));
    }
    if case.a(4) % 2 == 0 {
        p.crate_names.push((TARGETS[1].into(), "renamed".into()));
        p.crate_names.push((TARGETS[2].into(), "two_renamed".into()));
    }
    shuffle(&mut p.crubit_features, &mut maps);
    shuffle(&mut p.top_level_items, &mut maps);
    shuffle(&mut p.crate_names, &mut maps);
    for f in faults {
        if let Some(d) = b.world.decls.get_mut(f.item) {
            d.faulty = true;
        }
    }
    (p, b.world)
}
fn feature_set(f: &[&str]) -> ir_proto::FeatureSet {
    ir_proto::FeatureSet { features: f.iter().map(|x| ProtoString::from(*x)).collect() }
}
fn shuffle<T>(v: &mut [T], r: &mut simkit::Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.usize(i + 1));
    }
}

thread_local! {
    static KEYS: Cell<Option<u64>> = const { Cell::new(None) };
}
/// What the standard library seeds its hash tables from: the simulator, in a thread that runs the generator.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match KEYS.try_with(|k| k.get()) {
        Ok(Some(seed)) => {
            for i in 0..len {
                // SAFETY: the caller's buffer.
                unsafe { *buf.add(i) = simkit::mix(seed.wrapping_add(i as u64)) as u8 };
            }
            len as isize
        }
        _ => {
            unsafe extern "C" {
                fn syscall(n: i64, ...) -> i64;
            }
            // SAFETY: the system call this function stands for.
            unsafe { syscall(318, buf, len, flags) as isize }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Answer {
    pub rs: String,
    pub cc: String,
    pub report: String,
    pub fatal: String,
}
pub type Outcome = Result<Answer, String>;

/// Runs the real entry point of the generator once, on this thread.
pub fn answer(p: IRProto, golden: bool) -> Answer {
    use generate_bindings_rust_proto::{GenerateBindingsRequest, GenerateBindingsResponse};
    let req = GenerateBindingsRequest {
        ir_proto: Some(Box::new(p)),
        crubit_support_path_format: s("\"crubit/support/{header}\""),
        crubit_support_versioned_path_format: s(""),
        generate_error_report: Some(true),
        is_golden_test: Some(golden),
        ..Default::default()
    };
    let mut resp = GenerateBindingsResponse::default();
    cc_api::generate_bindings(req, resp.as_mut());
    let t = |x: Option<ProtoString>| String::from_utf8(x.unwrap_or_default().0).unwrap();
    Answer { rs: t(resp.rs_api), cc: t(resp.rs_api_impl), report: t(resp.error_report), fatal: t(resp.fatal_errors) }
}

/// Runs `f` on a new thread whose hash tables have the given keys.
pub fn with_keys<T: Send>(keys: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                KEYS.with(|k| k.set(Some(keys)));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// As `answer`, on the generator below its entry point, which would end the process on a panic.
pub fn try_answer(p: &IRProto, golden: bool) -> Outcome {
    let r = simkit::catch(|| -> Result<Answer, String> {
        let ir = ir::proto_to_ir(p.as_view()).map_err(|e| format!("not accepted: {e:?}"))?;
        let report = error_report::ErrorReport::new(error_report::SourceLanguage::Cpp);
        let fatal = error_report::FatalErrors::new();
        let none = std::ffi::OsStr::new("");
        let b = generate_bindings::generate_bindings(&ir, "\"crubit/support/{header}\"", "", none, none, none, &report, &fatal, golden, false, "")
            .map_err(|e| format!("no bindings: {e:?} {}", fatal.take_string()))?;
        Ok(Answer { rs: b.rs_api, cc: b.rs_api_impl, report: report.to_json_string(), fatal: fatal.take_string() })
    });
    match r {
        Ok(r) => r,
        Err(simkit::Caught::Injected(_)) => unreachable!(),
        Err(simkit::Caught::Other(m)) => Err(format!("panic: {m}")),
    }
}
