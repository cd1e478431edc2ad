//! Type terms: generated, rendered as TypeScript, interned into a store (possibly perturbed), and
//! normalised by an independent reference implementation of the store's documented rules.
use hcommon::Src;
use std::collections::BTreeSet;
use std::sync::Arc;
use types_ts_interned::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Prop { pub name: String, pub num: bool, pub ty: T, pub opt: bool, pub ro: bool, pub method: bool, pub acc: u8, pub origin: u8, pub decl: u8 }
#[derive(Clone, Debug, PartialEq)]
pub struct Sig { pub params: Vec<(T, bool, bool)>, pub ret: Box<T>, pub this: Option<Box<T>>, pub tps: Vec<(u32, Option<T>)> }
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Prim(&'static str), Bool(bool), Num(f64), Str(String), Big(i64),
    Tuple(Vec<(T, bool, bool)>, bool), Arr(Box<T>, bool), Union(Vec<T>), Inter(Vec<T>),
    Obj { props: Vec<Prop>, call: Vec<Sig>, ctor: Vec<Sig>, idx: Vec<(T, T, bool)> },
    Fn(Vec<Sig>), Ref(u64, Vec<T>), Param(u32), Infer(u32, Option<Box<T>>),
    Cond(Box<[T; 4]>, bool), Mapped { p: u32, src: Box<T>, val: Box<T>, ro: u8, opt: u8, as_: Option<Box<T>> },
    Tpl(String, Vec<(T, String)>), Intr(u8, Box<T>), Index(Box<T>, Box<T>), KeyOf(Box<T>), Pred(Option<u32>, Option<Box<T>>, bool),
}
pub const PRIMS: [&str; 14] = ["string", "number", "boolean", "any", "unknown", "never", "void", "null", "undefined", "bigint", "symbol", "unique symbol", "{}", "this"];

/// What a generator may produce.
#[derive(Clone)]
pub struct Opt { pub depth: u32, pub all: bool, pub refs: u64 }

pub fn name(s: &mut Src) -> String { s.pick(&["a", "b", "c", "x", "length", "ab", "", "é", "Z"]).to_string() }
fn lit(s: &mut Src) -> T {
    match s.below(4) {
        0 => T::Str(name(s)),
        1 => T::Num(*s.pick(&[0.0, 1.0, -1.0, 1.5, -0.0, 1e21, 2.0, f64::INFINITY])),
        2 => T::Bool(s.chance(1, 2)),
        _ => T::Big(s.range(-2, 3)),
    }
}
pub fn gen(s: &mut Src, o: &Opt) -> T {
    if o.depth == 0 { return if s.chance(1, 2) { lit(s) } else { T::Prim(*s.pick(&PRIMS[..])) }; }
    let d = Opt { depth: o.depth - 1, ..o.clone() };
    match s.weighted(&[3, 3, 2, 5, 4, 5, 2, 2, if o.all { 6 } else { 0 }, 2]) {
        0 => T::Prim(*s.pick(&PRIMS[..])),
        1 => lit(s),
        2 => T::Arr(Box::new(gen(s, &d)), s.chance(1, 3)),
        3 => { let n = 1 + s.below(4); T::Union((0..n).map(|_| gen(s, &d)).collect()) }
        4 => { let n = 1 + s.below(3); T::Inter((0..n).map(|_| gen(s, &d)).collect()) }
        5 => {
            // many declarations of few properties: merging
            let dups = s.chance(1, 6);
            let n = if dups { 3 + s.below(4) } else { s.below(4) };
            let mut props: Vec<Prop> = (0..n).map(|_| Prop {
                name: if dups { s.pick(&["a", "b"]).to_string() } else { name(s) }, num: s.chance(1, 8), ty: gen(s, &d), opt: s.chance(1, 4), ro: s.chance(1, 4), method: s.chance(1, 6),
                acc: if s.chance(1, 5) { s.below(4) as u8 } else { 0 }, origin: if s.chance(1, 3) { s.below(4) as u8 } else { 0 }, decl: if s.chance(1, if dups { 2 } else { 8 }) { s.below(4) as u8 } else { 0 },
            }).collect();
            // at most two declared types per key: intersections of three types are not associative where any is involved
            let mut seen: Vec<(bool, String)> = vec![];
            for p in props.iter_mut() { let k = (p.num, if p.num { p.name.len().to_string() } else { p.name.clone() }); seen.push(k.clone()); if seen.iter().filter(|x| **x == k).count() > 2 { p.ty = T::Prim("unknown"); } }
            let call = if s.chance(1, 5) { let n = 1 + s.below(2); (0..n).map(|_| sig(s, &d)).collect() } else { vec![] };
            let ctor = if s.chance(1, 8) { let n = 1 + s.below(2); (0..n).map(|_| sig(s, &d)).collect() } else { vec![] };
            let idx = if s.chance(1, 4) { let n = 1 + s.below(2); (0..n).map(|_| (T::Prim(*s.pick(&["string", "number", "symbol"][..])), gen(s, &d), s.chance(1, 3))).collect() } else { vec![] };
            T::Obj { props, call, ctor, idx }
        }
        6 => { let n = 1 + s.below(2); T::Fn((0..n).map(|_| sig(s, &d)).collect()) }
        7 => { let n = s.below(4); T::Tuple((0..n).map(|_| (gen(s, &d), s.chance(1, 4), s.chance(1, 6))).collect(), s.chance(1, 4)) }
        8 => match s.below(8) {
            0 => T::Cond(Box::new([gen(s, &d), gen(s, &d), gen(s, &d), gen(s, &d)]), s.chance(1, 2)),
            1 => T::Mapped { p: s.below(3) as u32, src: Box::new(gen(s, &d)), val: Box::new(gen(s, &d)), ro: s.below(3) as u8, opt: s.below(3) as u8, as_: if s.chance(1, 3) { Some(Box::new(gen(s, &d))) } else { None } },
            2 => { let n = 1 + s.below(2); T::Tpl(name(s), (0..n).map(|_| (gen(s, &d), name(s))).collect()) }
            3 => T::Intr(s.below(6) as u8, Box::new(gen(s, &d))),
            4 => T::Index(Box::new(gen(s, &d)), Box::new(gen(s, &d))),
            5 => T::KeyOf(Box::new(gen(s, &d))),
            6 => T::Infer(s.below(3) as u32, if s.chance(1, 3) { Some(Box::new(gen(s, &d))) } else { None }),
            _ => T::Pred(if s.chance(1, 3) { None } else { Some(s.below(2) as u32) }, if s.chance(1, 3) { None } else { Some(Box::new(gen(s, &d))) }, s.chance(1, 2)),
        },
        _ => if o.refs > 0 && s.chance(2, 3) { let n = s.below(3); T::Ref(s.below(o.refs as usize) as u64, (0..n).map(|_| gen(s, &d)).collect()) } else { T::Param(s.below(3) as u32) },
    }
}
fn sig(s: &mut Src, d: &Opt) -> Sig {
    let n = s.below(3);
    Sig {
        params: (0..n).map(|_| (gen(s, d), s.chance(1, 5), s.chance(1, 8))).collect(), ret: Box::new(gen(s, d)),
        this: if s.chance(1, 10) { Some(Box::new(gen(s, d))) } else { None },
        tps: if s.chance(1, 8) { vec![(s.below(3) as u32, if s.chance(1, 2) { Some(gen(s, d)) } else { None })] } else { vec![] },
    }
}

pub struct Build<'a> { pub st: &'a Arc<TypeStore>, pub perturb: Option<&'a mut Src> }
impl<'a> Build<'a> {
    fn members(&mut self, ms: &[T], union: bool) -> Vec<TypeId> {
        let mut v: Vec<TypeId> = ms.iter().map(|m| self.ty(m)).collect();
        if let Some(s) = self.perturb.as_deref_mut() {
            s.shuffle(&mut v);
            if !v.is_empty() && s.chance(1, 3) { let x = *s.pick(&v); let i = s.below(v.len() + 1); v.insert(i, x); }
            // `any & A & B` is any while A & B may be never: intersections with any are not associative (as in TypeScript)
            let any = self.st.primitive_ids().any;
            if v.len() > 1 && (union || !v.contains(&any)) && s.chance(1, 2) {
                let k = 1 + s.below(v.len() - 1);
                let i = s.below(v.len() - k + 1);
                let part: Vec<TypeId> = v.drain(i..i + k).collect();
                let st = self.st;
                let p = match (union, s.chance(1, 2)) { (true, true) => st.union(part), (true, false) => st.intern_type(TypeKind::Union(part)), (false, true) => st.intersection(part), _ => st.intern_type(TypeKind::Intersection(part)) };
                v.insert(i, p);
            }
            if s.chance(1, 6) { let i = s.below(v.len() + 1); let p = self.st.primitive_ids(); v.insert(i, if union { p.never } else { p.unknown }); }
        }
        v
    }
    fn sig(&mut self, g: &Sig) -> SignatureId {
        let params = g.params.iter().enumerate().map(|(i, (t, o, r))| {
            let ty = self.ty(t);
            let nm = match self.perturb.as_deref_mut() { Some(s) => if s.chance(1, 2) { Some(format!("p{}", s.below(9))) } else { None }, None => Some(format!("q{i}")) };
            Param { name: nm.map(|n| self.st.intern_name(n)), ty, optional: *o, rest: *r }
        }).collect();
        let mut sg = Signature::new(params, self.ty(&g.ret));
        sg.this_param = g.this.as_ref().map(|t| self.ty(t));
        sg.type_params = g.tps.iter().map(|(id, c)| { let mut d = TypeParamDecl::new(TypeParamId(*id)); d.constraint = c.as_ref().map(|c| self.ty(c)); d }).collect();
        self.st.intern_signature(sg)
    }
    fn sigs(&mut self, gs: &[Sig]) -> Vec<SignatureId> {
        let mut v: Vec<SignatureId> = gs.iter().map(|g| self.sig(g)).collect();
        if let Some(s) = self.perturb.as_deref_mut() {
            s.shuffle(&mut v);
            if !v.is_empty() && s.chance(1, 3) { let x = *s.pick(&v); v.push(x); }
        }
        v
    }
    pub fn ty(&mut self, t: &T) -> TypeId {
        let st = self.st;
        let kind = match t {
            T::Prim(p) => match *p {
                "any" => TypeKind::Any, "unknown" => TypeKind::Unknown, "never" => TypeKind::Never, "void" => TypeKind::Void, "null" => TypeKind::Null,
                "undefined" => TypeKind::Undefined, "boolean" => TypeKind::Boolean, "number" => TypeKind::Number, "string" => TypeKind::String, "bigint" => TypeKind::BigInt,
                "symbol" => TypeKind::Symbol, "unique symbol" => TypeKind::UniqueSymbol, "{}" => TypeKind::EmptyObject, _ => TypeKind::This,
            },
            T::Bool(b) => TypeKind::BooleanLiteral(*b),
            T::Num(n) => TypeKind::NumberLiteral((*n).into()),
            T::Str(x) => TypeKind::StringLiteral(st.intern_name(x.clone())),
            T::Big(x) => TypeKind::BigIntLiteral((*x).into()),
            T::Tuple(es, ro) => TypeKind::Tuple(es.iter().map(|(t, o, r)| TupleElem { ty: self.ty(t), optional: *o, rest: *r, readonly: *ro }).collect()),
            T::Arr(t, ro) => TypeKind::Array { ty: self.ty(t), readonly: *ro },
            T::Union(ms) => { let v = self.members(ms, true); if let Some(s) = self.perturb.as_deref_mut() { if s.chance(1, 2) { return st.union(v); } } TypeKind::Union(v) }
            T::Inter(ms) => { let v = self.members(ms, false); if let Some(s) = self.perturb.as_deref_mut() { if s.chance(1, 2) { return st.intersection(v); } } TypeKind::Intersection(v) }
            T::Obj { props, call, ctor, idx } => {
                let mut ps: Vec<Property> = props.iter().map(|p| Property {
                    key: if p.num { PropKey::Number(p.name.len() as i64) } else { PropKey::String(st.intern_name(p.name.clone())) },
                    data: PropData {
                        ty: self.ty(&p.ty), optional: p.opt, readonly: p.ro, is_method: p.method,
                        accessibility: match p.acc { 1 => Some(Accessibility::Public), 2 => Some(Accessibility::Protected), 3 => Some(Accessibility::Private), _ => None },
                        origin: if p.origin > 0 { Some(p.origin as u32) } else { None }, declared_on: if p.decl > 0 { Some(DefId(p.decl as u64)) } else { None },
                    },
                }).collect();
                let mut ix: Vec<Indexer> = idx.iter().map(|(k, v, r)| Indexer { key_type: self.ty(k), value_type: self.ty(v), readonly: *r }).collect();
                let call_signatures = self.sigs(call);
                let construct_signatures = self.sigs(ctor);
                if let Some(s) = self.perturb.as_deref_mut() { s.shuffle(&mut ps); s.shuffle(&mut ix); }
                let shape = st.intern_shape(Shape { properties: ps, call_signatures, construct_signatures, indexers: ix });
                TypeKind::Object(st.intern_object(ObjectType { shape }))
            }
            T::Fn(gs) => TypeKind::Callable { overloads: self.sigs(gs) },
            T::Ref(d, a) => TypeKind::Ref { def: DefId(*d), args: a.iter().map(|t| self.ty(t)).collect() },
            T::Param(p) => TypeKind::TypeParam(TypeParamId(*p)),
            T::Infer(p, c) => TypeKind::Infer { param: TypeParamId(*p), constraint: c.as_ref().map(|c| self.ty(c)) },
            T::Cond(b, d) => TypeKind::Conditional { check: self.ty(&b[0]), extends: self.ty(&b[1]), true_ty: self.ty(&b[2]), false_ty: self.ty(&b[3]), distributive: *d },
            T::Mapped { p, src, val, ro, opt, as_ } => TypeKind::Mapped(MappedType { param: TypeParamId(*p), source: self.ty(src), value: self.ty(val), readonly: modi(*ro), optional: modi(*opt), name_type: None, as_type: as_.as_ref().map(|t| self.ty(t)) }),
            T::Tpl(h, sp) => TypeKind::TemplateLiteral(TemplateLiteralType { head: h.clone(), spans: sp.iter().map(|(t, l)| TemplateChunk { literal: l.clone(), ty: self.ty(t) }).collect() }),
            T::Intr(k, t) => TypeKind::Intrinsic { kind: INTR[*k as usize], ty: self.ty(t) },
            T::Index(a, b) => TypeKind::IndexedAccess { obj: self.ty(a), index: self.ty(b) },
            T::KeyOf(a) => TypeKind::KeyOf(self.ty(a)),
            T::Pred(p, a, s) => TypeKind::Predicate { parameter: p.map(PredicateParam::Param), asserted: a.as_ref().map(|t| self.ty(t)), asserts: *s },
        };
        st.intern_type(kind)
    }
}
pub const INTR: [IntrinsicKind; 6] = [IntrinsicKind::Uppercase, IntrinsicKind::Lowercase, IntrinsicKind::Capitalize, IntrinsicKind::Uncapitalize, IntrinsicKind::NoInfer, IntrinsicKind::BuiltinIteratorReturn];
fn modi(m: u8) -> MappedModifier { match m { 0 => MappedModifier::Preserve, 1 => MappedModifier::Add, _ => MappedModifier::Remove } }
pub fn build(st: &Arc<TypeStore>, t: &T) -> TypeId { Build { st, perturb: None }.ty(t) }
pub fn build_perturbed(st: &Arc<TypeStore>, t: &T, s: &mut Src) -> TypeId { Build { st, perturb: Some(s) }.ty(t) }

/// Reference normal form.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum N { L(&'static str), Lit(&'static str, String), U(BTreeSet<N>), I(BTreeSet<N>), C(String, Vec<N>) }
pub fn union_n(ms: impl IntoIterator<Item = N>) -> N {
    let mut f = BTreeSet::new();
    for m in ms { match m { N::U(i) => f.extend(i), m => { f.insert(m); } } }
    if f.contains(&N::L("any")) { return N::L("any"); }
    if f.contains(&N::L("unknown")) { return N::L("unknown"); }
    f.remove(&N::L("never"));
    if f.contains(&N::Lit("boolean", "true".into())) && f.contains(&N::Lit("boolean", "false".into())) { f.insert(N::L("boolean")); }
    let g = f.clone();
    f.retain(|m| match m { N::Lit(p, _) => !g.contains(&N::L(p)), N::C(k, _) if k.starts_with("tpl") => !g.contains(&N::L("string")), N::L("unique symbol") => !g.contains(&N::L("symbol")), _ => true });
    match f.len() { 0 => N::L("never"), 1 => f.into_iter().next().unwrap(), _ => N::U(f) }
}
pub fn inter_n(ms: impl IntoIterator<Item = N>) -> N {
    let mut f = BTreeSet::new();
    for m in ms { match m { N::I(i) => f.extend(i), m => { f.insert(m); } } }
    if f.contains(&N::L("never")) { return N::L("never"); }
    if f.contains(&N::L("any")) { return N::L("any"); }
    f.remove(&N::L("unknown"));
    let g = f.clone();
    f.retain(|m| match m {
        N::L(p @ ("string" | "number" | "boolean" | "bigint")) => !g.iter().any(|x| matches!(x, N::Lit(q, _) if q == p) || (*p == "string" && matches!(x, N::C(k, _) if k.starts_with("tpl")))),
        N::L("symbol") => !g.contains(&N::L("unique symbol")), _ => true });
    let fam = |m: &N| match m { N::L(p @ ("string" | "number" | "boolean" | "bigint" | "symbol")) => Some(*p), N::L("unique symbol") => Some("symbol"), N::Lit(p, _) => Some(*p), N::C(k, _) if k.starts_with("tpl") => Some("string"), _ => None };
    let fams: BTreeSet<&str> = f.iter().filter_map(fam).collect();
    let lits = f.iter().filter(|m| matches!(m, N::Lit(..))).count();
    if f.len() > 1 && (fams.len() > 1 || lits > 1) { return N::L("never"); }
    match f.len() { 0 => N::L("unknown"), 1 => f.into_iter().next().unwrap(), _ => N::I(f) }
}
fn sigs_n(gs: &[Sig]) -> N { N::C("sigs".into(), gs.iter().map(sig_n).collect::<BTreeSet<_>>().into_iter().collect()) }
fn sig_n(g: &Sig) -> N {
    let mut v: Vec<N> = g.params.iter().map(|p| norm(&p.0)).collect();
    v.push(norm(&g.ret));
    v.extend(g.this.as_ref().map(|t| norm(t)));
    v.extend(g.tps.iter().filter_map(|t| t.1.as_ref()).map(norm));
    N::C(format!("sig{:?}{}{:?}", g.params.iter().map(|p| (p.1, p.2)).collect::<Vec<_>>(), g.this.is_some(), g.tps.iter().map(|t| (t.0, t.1.is_some())).collect::<Vec<_>>()), v)
}
pub fn norm(t: &T) -> N {
    let opt = |t: &Option<Box<T>>| t.iter().map(|t| norm(t)).collect::<Vec<_>>();
    match t {
        T::Prim(p) => N::L(p),
        T::Bool(b) => N::Lit("boolean", b.to_string()),
        T::Num(n) => N::Lit("number", if *n == 0.0 { "0".into() } else { n.to_string() }),
        T::Str(x) => N::Lit("string", x.clone()),
        T::Big(x) => N::Lit("bigint", x.to_string()),
        T::Tuple(es, ro) => N::C(format!("tuple{:?}{ro}", es.iter().map(|e| (e.1, e.2)).collect::<Vec<_>>()), es.iter().map(|e| norm(&e.0)).collect()).fix_empty_tuple(es.is_empty()),
        T::Arr(t, ro) => N::C(format!("array{ro}"), vec![norm(t)]),
        T::Union(ms) => union_n(ms.iter().map(norm)),
        T::Inter(ms) => inter_n(ms.iter().map(norm)),
        T::Obj { props, call, ctor, idx } => {
            let mut m: std::collections::BTreeMap<(bool, String), Vec<&Prop>> = Default::default();
            for p in props { m.entry((p.num, if p.num { p.name.len().to_string() } else { p.name.clone() })).or_default().push(p); }
            let one = |v: Vec<u8>| { let s: BTreeSet<u8> = v.into_iter().filter(|x| *x > 0).collect(); if s.len() == 1 { *s.iter().next().unwrap() } else { 0 } };
            let ps = m.into_iter().map(|(k, v)| N::C(
                format!("prop{k:?} {} {} {} {} {} {}", v.iter().all(|p| p.opt), v.iter().any(|p| p.ro), v.iter().any(|p| p.method), v.iter().map(|p| p.acc).max().unwrap(),
                    one(v.iter().map(|p| p.origin).collect()), one(v.iter().map(|p| p.decl).collect())),
                vec![if v.len() == 1 { norm(&v[0].ty) } else { inter_n(v.iter().map(|p| norm(&p.ty))) }])).collect();
            let mut im: std::collections::BTreeMap<N, (Vec<N>, bool)> = Default::default();
            for (k, v, r) in idx { let e = im.entry(norm(k)).or_default(); e.0.push(norm(v)); e.1 |= r; }
            let ix = im.into_iter().map(|(k, (v, r))| N::C(format!("idx{r}"), vec![k, if v.len() == 1 { v[0].clone() } else { inter_n(v) }])).collect();
            N::C("obj".into(), vec![N::C("props".into(), ps), sigs_n(call), sigs_n(ctor), N::C("ix".into(), ix)])
        }
        T::Fn(gs) => N::C("fn".into(), vec![sigs_n(gs)]),
        T::Ref(d, a) => N::C(format!("ref{d}"), a.iter().map(norm).collect()),
        T::Param(p) => N::C(format!("param{p}"), vec![]),
        T::Infer(p, c) => N::C(format!("infer{p}"), opt(c)),
        T::Cond(b, d) => N::C(format!("cond{d}"), b.iter().map(norm).collect()),
        T::Mapped { p, src, val, ro, opt: o, as_ } => { let mut v = vec![norm(src), norm(val)]; v.extend(opt(as_)); N::C(format!("mapped{p} {ro} {o}"), v) }
        T::Tpl(h, sp) => N::C(format!("tpl{h:?}{:?}", sp.iter().map(|x| &x.1).collect::<Vec<_>>()), sp.iter().map(|x| norm(&x.0)).collect()),
        T::Intr(k, t) => N::C(format!("intr{k}"), vec![norm(t)]),
        T::Index(a, b) => N::C("index".into(), vec![norm(a), norm(b)]),
        T::KeyOf(a) => N::C("keyof".into(), vec![norm(a)]),
        T::Pred(p, a, s) => N::C(format!("pred{p:?}{s}{}", a.is_some()), opt(a)),
    }
}
impl N { fn fix_empty_tuple(self, empty: bool) -> N { if empty { N::C("tuple[]".into(), vec![]) } else { self } } }
