//! C15: assignability obeys its laws, does not depend on history, caches or threads, and (C15t)
//! agrees with the TypeScript compiler on the structural fragment.
use crate::terms::*;
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node, Src, Value};
use std::sync::Arc;
use types_ts_interned::*;

pub struct Ex { pub bodies: Vec<TypeId> }
impl RelateTypeExpander for Ex {
    fn expand_ref(&self, _: &TypeStore, def: DefId, _: &[TypeId]) -> Option<TypeId> { self.bodies.get(def.0 as usize).copied() }
}
fn ctx_with<'a>(st: &Arc<TypeStore>, o: TypeOptions, ex: &'a Ex, c: RelationCache, n: EvaluatorCaches) -> RelateCtx<'a> {
    RelateCtx::with_hooks_cache_and_normalizer_caches(st.clone(), o, RelateHooks { expander: Some(ex), is_same_origin_private_member: None }, c, n)
}
fn cfg(n: usize) -> CacheConfig { CacheConfig { max_entries: n, shard_count: 1 + n % 3 } }

pub struct Case { pub opts: TypeOptions, pub bodies: Vec<T>, pub terms: Vec<T> }
/// A small edit of a term: pairs of near-equal types exercise the deep comparisons.
pub fn mutate(s: &mut Src, t: &T, o: &Opt) -> T {
    let d = Opt { depth: o.depth.saturating_sub(1), ..o.clone() };
    match t {
        T::Obj { props, call, ctor, idx } if !props.is_empty() && s.chance(4, 5) => {
            let mut ps = props.clone();
            let i = s.below(ps.len());
            match s.below(4) {
                0 => { ps.remove(i); } 1 => ps[i].opt = !ps[i].opt,
                // callbacks of methods have rules of their own: only the return type changes
                _ => ps[i].ty = match &props[i].ty { T::Fn(gs) if props[i].method => { let mut g = gs.clone(); g[0].ret = Box::new(mutate(s, &gs[0].ret, &d)); T::Fn(g) } t => mutate(s, t, &d) },
            }
            if ps.iter().all(|p| p.opt) && call.is_empty() && idx.is_empty() { if ps.is_empty() { return T::Prim("{}"); } ps[0].opt = false; }
            T::Obj { props: ps, call: call.clone(), ctor: ctor.clone(), idx: idx.clone() }
        }
        T::Arr(e, r) if s.chance(4, 5) => if s.chance(1, 3) { T::Arr(e.clone(), !r) } else { T::Arr(Box::new(mutate(s, e, &d)), *r) },
        T::Inter(ms) if !o.all => s.pick(ms).clone(),
        T::Union(ms) | T::Inter(ms) if !ms.is_empty() && s.chance(4, 5) => {
            let mut v = ms.clone();
            let i = s.below(v.len());
            match s.below(3) { 0 if v.len() > 1 => { v.remove(i); } 1 => { v.push(gen_like(s, &d)); } _ => v[i] = mutate(s, &ms[i], &d) }
            if matches!(t, T::Union(_)) { T::Union(v) } else { T::Inter(v) }
        }
        T::Tuple(es, r) if !es.is_empty() && s.chance(4, 5) => { let mut v = es.clone(); let i = s.below(v.len()); v[i].0 = match &es[i].0 { T::Arr(e, _) if es[i].2 => T::Arr(Box::new(mutate(s, e, &d)), false), e => mutate(s, e, &d) }; T::Tuple(v, *r) }
        T::Fn(gs) if !gs.is_empty() && s.chance(4, 5) => {
            let mut v = gs.clone();
            if v[0].params.is_empty() || s.chance(1, 2) { v[0].ret = Box::new(mutate(s, &gs[0].ret, &d)); } else { let k = s.below(v[0].params.len()); v[0].params[k].0 = match &gs[0].params[k].0 { T::Arr(e, _) if gs[0].params[k].2 => T::Arr(Box::new(mutate(s, e, &d)), false), e => mutate(s, e, &d) }; }
            T::Fn(v)
        }
        T::Ref(d0, _) if s.chance(1, 2) => T::Ref((d0 + 1) % o.refs.max(1), vec![]),
        _ => gen_like(s, &d),
    }
}
fn gen_like(s: &mut Src, d: &Opt) -> T { frag(s, d) }
const NAMES: [&str; 5] = ["pa", "pb", "pc", "pd", "pe"];
/// The structural fragment.
pub fn frag(s: &mut Src, o: &Opt) -> T {
    if o.refs > 0 && s.chance(1, 8) { return T::Ref(s.below(o.refs as usize) as u64, vec![]); }
    if o.depth == 0 || s.chance(1, 5) {
        return match s.below(5) {
            0 => T::Str(s.pick(&["k1", "k2", ""]).to_string()), 1 => T::Num(s.below(3) as f64), 2 => T::Bool(s.chance(1, 2)), 3 if s.chance(1, 3) => T::Big(s.below(2) as i64),
            _ => T::Prim(*s.pick(&["string", "number", "boolean", "any", "unknown", "never", if o.all { "void" } else { "undefined" }, "null", "undefined", "bigint", "symbol", "{}"][..])),
        };
    }
    let d = Opt { depth: o.depth - 1, ..o.clone() };
    match s.weighted(&[6, 3, 3, 2, 2, 3]) {
        0 => obj(s, &d),
        1 => { let n = 2 + s.below(2); T::Union((0..n).map(|_| frag(s, &d)).collect()) }
        2 => T::Arr(Box::new(frag(s, &d)), s.chance(1, 4)),
        3 => { let n = 1 + s.below(3); let opt_from = s.below(n + 1); let rest = n > 1 && s.chance(1, 4);
            T::Tuple((0..n).map(|i| { let r = rest && i == n - 1; (if r { T::Arr(Box::new(frag(s, &d)), false) } else { frag(s, &d) }, i >= opt_from && !r, r) }).collect(), s.chance(1, 5)) }
        // intersections of object types: TypeScript reduces those with null or undefined, the store does not
        // (and reduces those with conflicting literal properties: the members have different keys)
        4 => T::Inter(vec![if o.refs > 0 && s.chance(1, 4) { T::Ref(s.below(o.refs as usize) as u64, vec![]) } else { obj_of(s, &d, &NAMES[..3]) }, obj_of(s, &d, &NAMES[3..])]),
        _ => T::Fn(vec![fsig(s, &d)]),
    }
}
fn obj(s: &mut Src, d: &Opt) -> T { obj_of(s, d, &NAMES) }
fn obj_of(s: &mut Src, d: &Opt, names: &[&str]) -> T {
            let n = 1 + s.below(3);
            let mut used = vec![];
            let mut props = vec![];
            for _ in 0..n { let nm = *s.pick(names); if used.contains(&nm) { continue; } used.push(nm); let method = s.chance(1, 8);
                let ty = if method { T::Fn(vec![fsig(s, &Opt { depth: 0, refs: 0, ..d.clone() })]) } else { frag(s, d) };
                props.push(Prop { name: nm.into(), num: false, ty, opt: s.chance(1, 4), ro: s.chance(1, 5), method, acc: 0, origin: 0, decl: 0 }); }
            if props.iter().all(|p| p.opt) { props[0].opt = false; }
            let idx = if d.all && s.chance(1, 8) { vec![(T::Prim("string"), frag(s, d), false)] } else { vec![] };
            let call = if s.chance(1, 10) { vec![fsig(s, d)] } else { vec![] };
            T::Obj { props, call, ctor: vec![], idx }
}
fn fsig(s: &mut Src, d: &Opt) -> Sig {
    let n = s.below(4);
    let opt_from = s.below(n + 1);
    let rest = n > 0 && s.chance(1, 4);
    Sig { params: (0..n).map(|i| { let r = rest && i == n - 1; (if r { T::Arr(Box::new(frag(s, d)), false) } else { frag(s, d) }, i >= opt_from && !r && n > 1, r) }).collect(), ret: Box::new(if s.chance(1, 8) { T::Prim("void") } else { frag(s, d) }), this: None, tps: vec![] }
}
pub fn gen_case(s: &mut Src, wild: bool) -> Case {
    let refs = s.below(4) as u64;
    let o = Opt { depth: 1 + s.below(3) as u32, all: wild && s.chance(1, 2), refs };
    let one = |s: &mut Src| if wild && s.chance(1, 2) { gen(s, &o) } else { frag(s, &o) };
    // alias bodies are object types, so recursion is through a member
    let bodies: Vec<T> = (0..refs).map(|k| {
        let n = 1 + s.below(3);
        let mut props: Vec<Prop> = vec![];
        for i in 0..n {
            let ty = if s.chance(1, 2) { let r = T::Ref(s.below(refs as usize) as u64, vec![]); match s.below(4) { 0 => T::Arr(Box::new(r), false), 1 => T::Union(vec![r, T::Prim("null")]), 2 => T::Fn(vec![Sig { params: vec![(r.clone(), false, false)], ret: Box::new(r), this: None, tps: vec![] }]), _ => r } } else { frag(s, &o) };
            props.push(Prop { name: NAMES[(i + if s.chance(1, 6) { k as usize } else { 0 }) % 3].into(), num: false, ty, opt: i > 0 && s.chance(1, 4), ro: false, method: false, acc: 0, origin: 0, decl: 0 });
        }
        props.sort_by(|a, b| a.name.cmp(&b.name));
        props.dedup_by(|a, b| a.name == b.name);
        T::Obj { props, call: vec![], ctor: vec![], idx: vec![] }
    }).collect();
    let n = 2 + s.below(4);
    let mut terms: Vec<T> = (0..n).map(|_| one(s)).collect();
    for _ in 0..n { let t = s.pick(&terms).clone(); terms.push(mutate(s, &t, &o)); }
    for k in 0..refs { terms.push(T::Ref(k, vec![])); terms.push(mutate(s, &bodies[k as usize], &o)); }
    Case { opts: TypeOptions { strict_null_checks: !s.chance(1, 5), strict_function_types: !s.chance(1, 5), ..Default::default() }, bodies, terms }
}

type Err = (&'static str, String);
fn check(s: &mut Src, stats: &mut [u64; 4]) -> Result<(), Err> {
    let c = gen_case(s, true);
    let st = TypeStore::with_options(c.opts);
    let bodies: Vec<TypeId> = c.bodies.iter().map(|t| build(&st, t)).collect();
    let ex = Ex { bodies };
    let ids: Vec<TypeId> = c.terms.iter().map(|t| build(&st, t)).collect();
    let n = ids.len();
    let show = |i: usize| format!("`{}` ({:?})", st.display(ids[i]), c.terms[i]);
    let env = || format!("\n aliases: {:?}", ex.bodies.iter().map(|b| st.display(*b).to_string()).collect::<Vec<_>>());
    let ask = |x: &RelateCtx, k: usize, a: TypeId, b: TypeId| match k { 0 => x.is_assignable(a, b), 1 => x.is_comparable(a, b), _ => x.is_strict_subtype(a, b) };
    let mut queries: Vec<(usize, usize, usize)> = vec![];
    for i in 0..n { for j in 0..n { queries.push((0, i, j)); if s.chance(1, 6) { queries.push((1 + s.below(2), i, j)); } } }
    const NAMES: [&str; 3] = ["assignable", "comparable", "strict subtype"];
    // reference: a fresh context for every question (without any cache where that is not exponential)
    let rec = !c.bodies.is_empty();
    let rcap = if rec { 4096 } else { 0 };
    let reference: Vec<bool> = queries.iter().map(|&(k, i, j)| ask(&ctx_with(&st, c.opts, &ex, RelationCache::new(cfg(rcap)), EvaluatorCaches::new(cfg(rcap))), k, ids[i], ids[j])).collect();
    stats[0] += reference.len() as u64;
    stats[1] += reference.iter().filter(|b| **b).count() as u64;
    let differ = |how: &str, q: usize, got: bool| -> Err { let (k, i, j) = queries[q]; ("answer depends on history or caches", format!("{}: {} to {} is {} on a fresh context and {got} {how}{}", NAMES[k], show(i), show(j), reference[q], env())) };
    let mut order: Vec<usize> = (0..queries.len()).collect();
    for (how, cap, ncap) in [("in a shared context", 4096, 4096), ("in a shared context without normaliser cache", 4096, if rec { 4096 } else { 0 }), ("with a tiny cache", if rec { 4096 } else { 1 + s.below(6) }, if rec { 4096 } else { 1 + s.below(6) }), ("with a normaliser cache only", if rec { 4096 } else { 0 }, 4096)] {
        s.shuffle(&mut order);
        let x = ctx_with(&st, c.opts, &ex, RelationCache::new(cfg(cap)), EvaluatorCaches::new(cfg(ncap)));
        for &q in &order {
            let (k, i, j) = queries[q];
            let r = ask(&x, k, ids[i], ids[j]);
            stats[2] += 1;
            if r != reference[q] { return Err(differ(how, q, r)); }
            if k == 0 && s.chance(1, 8) {
                let e = x.explain_assignable(ids[i], ids[j]);
                if e.result != r { return Err(differ("when an explanation is asked for", q, e.result)); }
                if !r && !e.reason.as_ref().is_some_and(|n| !n.outcome && n.src == ids[i] && n.dst == ids[j]) { return Err(("missing explanation", format!("{} to {}: {:?}", show(i), show(j), e.reason))); }
            }
        }
    }
    if s.chance(1, 3) {
        let cache = RelationCache::new(cfg(if rec { 4096 } else { *s.pick(&[4096, 3]) }));
        let norms = EvaluatorCaches::new(cfg(if rec { 4096 } else { *s.pick(&[4096, 3]) }));
        let k = 2 + s.below(4);
        let orders: Vec<Vec<usize>> = (0..k).map(|_| { let mut o = order.clone(); s.shuffle(&mut o); o }).collect();
        let _watch = hcommon::stall::watch("querying threads", json!({"choices": s.rec}));
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = orders.iter().map(|o| { let (cache, norms, st, ex, queries, ids, reference) = (cache.clone(), norms.clone(), &st, &ex, &queries, &ids, &reference);
                sc.spawn(move || { let x = ctx_with(st, c.opts, ex, cache, norms); for &q in o { let (k, i, j) = queries[q]; let r = match k { 0 => x.is_assignable(ids[i], ids[j]), 1 => x.is_comparable(ids[i], ids[j]), _ => x.is_strict_subtype(ids[i], ids[j]) }; if r != reference[q] { return Some((q, r)); } } None }) }).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Result<Vec<_>, ()>>()
        }).map_err(|_| ("panic", "a querying thread panicked".to_string()))?;
        stats[3] += k as u64;
        if let Some((q, r)) = bad.into_iter().flatten().next() { return Err(differ("on concurrent threads sharing caches", q, r)); }
    }
    // laws
    let p = st.primitive_ids();
    let fresh = || ctx_with(&st, c.opts, &ex, RelationCache::new(cfg(4096)), EvaluatorCaches::new(cfg(4096)));
    let le = |a: TypeId, b: TypeId| fresh().is_assignable(a, b);
    for i in 0..n {
        let a = ids[i];
        for (law, x, y) in [("A to A", a, a), ("never to A", p.never, a), ("A to unknown", a, p.unknown), ("A to any", a, p.any)] {
            if !le(x, y) { return Err(("law", format!("{law} must hold for {}{}", show(i), env()))); }
        }
        for j in 0..n {
            let b = ids[j];
            if !le(a, st.union(vec![a, b])) { return Err(("law", format!("A to A|B: {} ; {}{}", show(i), show(j), env()))); }
            let ab = st.intersection(vec![a, b]);
            // X & any is any, and any is not assignable to an X that evaluates to never
            if a != p.any && b != p.any && !le(ab, a) { return Err(("law", format!("A&B to A: {} ; {}{}", show(i), show(j), env()))); }
        }
    }
    Ok(())
}
fn run1(s: &mut Src, st: &mut [u64; 4]) -> Result<(), Err> { match catch(|| check(s, st)) { Ok(r) => r, Err(p) => Err(("panic", p)) } }
pub fn replay_src(ctx: &Ctx, i: u64, replay: Option<&Value>) -> Src {
    match replay { Some(v) => Src::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()), None => ctx.src(i) }
}
pub fn c15(ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
    let mut s = replay_src(ctx, i, replay);
    let mut st = [0; 4];
    let r = run1(&mut s, &mut st);
    ctx.add("questions answered by a fresh cacheless context", st[0]);
    ctx.add("of which yes", st[1]);
    ctx.add("answers compared under shared, tiny or no caches", st[2]);
    ctx.add("concurrent contexts", st[3]);
    ctx.observed(format!("{:?}", s.rec).as_bytes(), true);
    if let Err((k, m)) = r {
        let rec = if replay.is_some() { s.rec.clone() } else { shrink(s.rec.clone(), 300, |c| matches!(run1(&mut Src::replay(c.to_vec()), &mut [0; 4]), Err((k2, _)) if k2 == k)) };
        let m = match run1(&mut Src::replay(rec.clone()), &mut [0; 4]) { Err((_, m)) => m, _ => m };
        ctx.violation(k, &m, json!({"choices": rec}));
    }
}

/// Whether a union of several object types occurs in the term.
fn obj_union(t: &T) -> bool {
    let g = |gs: &[Sig]| gs.iter().any(|g| obj_union(&g.ret) || g.params.iter().any(|p| obj_union(&p.0)));
    match t {
        T::Union(ms) => ms.iter().filter(|m| matches!(m, T::Obj { .. } | T::Ref(..) | T::Inter(_) | T::Union(_))).count() > 1 || ms.iter().any(obj_union),
        T::Inter(ms) => ms.iter().any(obj_union), T::Arr(t, _) => obj_union(t), T::Tuple(es, _) => es.iter().any(|e| obj_union(&e.0)), T::Fn(gs) => g(gs),
        T::Obj { props, call, .. } => props.iter().any(|p| obj_union(&p.ty)) || g(call), _ => false,
    }
}
/// TypeScript rendering of a fragment term.
pub fn ts(t: &T) -> String {
    let sig = |g: &Sig, arrow: &str| format!("({}){arrow} {}", g.params.iter().enumerate().map(|(i, (t, o, r))| format!("{}p{i}{}: {}", if *r { "..." } else { "" }, if *o { "?" } else { "" }, ts(t))).collect::<Vec<_>>().join(", "), ts(&g.ret));
    match t {
        T::Prim(p) => p.to_string(),
        T::Bool(b) => b.to_string(), T::Num(n) => n.to_string(), T::Str(x) => format!("{x:?}"), T::Big(n) => format!("{n}n"),
        T::Arr(t, r) => format!("{}({})[]", if *r { "readonly " } else { "" }, ts(t)),
        T::Tuple(es, r) => format!("{}[{}]", if *r { "readonly " } else { "" }, es.iter().map(|(t, o, r)| if *r { format!("...({})", ts(t)) } else { format!("({}){}", ts(t), if *o { "?" } else { "" }) }).collect::<Vec<_>>().join(", ")),
        T::Union(ms) => ms.iter().map(|m| format!("({})", ts(m))).collect::<Vec<_>>().join(" | "),
        T::Inter(ms) => ms.iter().map(|m| format!("({})", ts(m))).collect::<Vec<_>>().join(" & "),
        T::Obj { props, call, ctor, idx } => {
            let mut v: Vec<String> = props.iter().map(|p| match (&p.ty, p.method) {
                (T::Fn(gs), true) => format!("{}{}{}", p.name, if p.opt { "?" } else { "" }, sig(&gs[0], ":")),
                _ => format!("{}{}{}: {}", if p.ro { "readonly " } else { "" }, p.name, if p.opt { "?" } else { "" }, ts(&p.ty)) }).collect();
            v.extend(call.iter().map(|g| sig(g, ":")));
            v.extend(ctor.iter().map(|g| format!("new {}", sig(g, ":"))));
            v.extend(idx.iter().map(|(k, t, r)| format!("{}[k: {}]: {}", if *r { "readonly " } else { "" }, ts(k), ts(t))));
            format!("{{ {} }}", v.join("; "))
        }
        T::Fn(gs) => format!("({})", sig(&gs[0], " =>")),
        T::Ref(d, _) => format!("R{d}"),
        _ => "unsupported".into(),
    }
}
pub struct C15t { node: Node, sigs: std::collections::HashMap<String, u64> }
impl C15t {
    pub fn new() -> Self { C15t { node: Node::new("main.mjs"), sigs: Default::default() } }
    fn judge(&mut self, s: &mut Src, stats: &mut [u64; 3]) -> Result<(), Err> {
        let mut c = gen_case(s, false);
        // without strictNullChecks the relation is deliberately looser than TypeScript's
        c.opts.strict_null_checks = true;
        c.opts.strict_function_types = true;
        let st = TypeStore::with_options(c.opts);
        let ex = Ex { bodies: c.bodies.iter().map(|t| build(&st, t)).collect() };
        let mut src = String::new();
        for (i, b) in c.bodies.iter().enumerate() { src.push_str(&format!("type R{i} = {};\n", ts(b))); }
        for (i, t) in c.terms.iter().enumerate() { src.push_str(&format!("type A{i} = {};\n", ts(t))); }
        let Some(a) = self.node.ask(&json!({"op":"relate","src":src,"n":c.terms.len(),"strictNullChecks":c.opts.strict_null_checks,"strictFunctionTypes":c.opts.strict_function_types})) else { return Ok(()) };
        let Some(m) = a["matrix"].as_array() else { stats[2] += 1; return Ok(()) };
        let ids: Vec<TypeId> = c.terms.iter().map(|t| build(&st, t)).collect();
        let x = ctx_with(&st, c.opts, &ex, RelationCache::default(), EvaluatorCaches::new(CacheConfig::default()));
        let n = ids.len();
        for i in 0..n { for j in 0..n {
            let Some(w) = m[i * n + j].as_bool() else { continue };
            let g = x.is_assignable(ids[i], ids[j]);
            stats[0] += 1; if w { stats[1] += 1; }
            // the relation does not decompose unions discriminated by a literal property
            if w && !g && (c.terms.iter().chain(&c.bodies)).any(obj_union) { stats[2] += 1; continue; }
            if g != w { return Err((if w { "rejects what TypeScript accepts" } else { "accepts what TypeScript rejects" }, format!("{} to {}   [aliases {}]{}", ts(&c.terms[i]), ts(&c.terms[j]), c.bodies.iter().enumerate().map(|(i, b)| format!("R{i} = {}", ts(b))).collect::<Vec<_>>().join("; "), if c.opts.strict_null_checks { "" } else { " (not strictNullChecks)" }))); }
        } }
        Ok(())
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut s = replay_src(ctx, i, replay);
        let mut st = [0; 3];
        let r = match catch(|| self.judge(&mut s, &mut st)) { Ok(r) => r, Err(p) => Err(("panic", p)) };
        ctx.add("pairs compared with tsc", st[0]);
        ctx.add("pairs tsc calls assignable", st[1]);
        ctx.add("pairs skipped (unions of object types)", st[2]);
        ctx.observed(format!("{:?}", s.rec).as_bytes(), st[0] > 0);
        if let Err((k, m)) = r {
            let rec = if replay.is_some() { s.rec.clone() } else { shrink(s.rec.clone(), 150, |c| matches!(catch(|| self.judge(&mut Src::replay(c.to_vec()), &mut [0; 3])), Ok(Err((k2, _))) if k2 == k)) };
            let m = match catch(|| self.judge(&mut Src::replay(rec.clone()), &mut [0; 3])) { Ok(Err((_, m))) => m, _ => m };
            *self.sigs.entry(k.into()).or_insert(0) += 1;
            ctx.violation(k, &m, json!({"choices": rec}));
        }
    }
}
