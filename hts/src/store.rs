//! C14: interning is canonical and independent of order and schedule.
use crate::terms::*;
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Src, Value};
use std::cmp::Ordering;
use std::sync::{Arc, Barrier};
use types_ts_interned::*;

fn snap(st: &TypeStore) -> String { serde_json::to_string(&st.snapshot()).unwrap() }

fn check(s: &mut Src, stats: &mut [u64; 3]) -> Result<(), (&'static str, String)> {
    let o = Opt { depth: 1 + s.below(3) as u32, all: s.chance(1, 2), refs: 3 };
    let n = 3 + s.below(6);
    let mut terms: Vec<T> = (0..n).map(|_| gen(s, &o)).collect();
    // variants that share most of their structure
    for _ in 0..2 { let a = s.pick(&terms).clone(); let b = s.pick(&terms).clone(); terms.push(match s.below(4) { 0 => T::Union(vec![a, b]), 1 => T::Inter(vec![a, b]), 2 => T::Union(vec![T::Union(vec![b, a.clone()]), a]), _ => T::Arr(Box::new(a), false) }); }
    let opts = TypeOptions { strict_null_checks: s.chance(3, 4), ..Default::default() };
    let s0 = TypeStore::with_options(opts);
    let ids: Vec<TypeId> = terms.iter().map(|t| build(&s0, t)).collect();
    let disp: Vec<String> = ids.iter().map(|i| s0.display(*i).to_string()).collect();
    let snap0 = snap(&s0);
    let norms: Vec<N> = terms.iter().map(norm).collect();
    let show = |i: usize| format!("{:?} displayed `{}`", terms[i], disp[i]);
    for i in 0..ids.len() { for j in 0..i {
        stats[0] += 1;
        if (norms[i] == norms[j]) != (ids[i] == ids[j]) { return Err((if ids[i] == ids[j] { "distinct types share an id" } else { "equal types get different ids" }, format!("{}\n {}", show(i), show(j)))); }
    } }
    // another order and perturbed construction
    let mut order: Vec<usize> = (0..ids.len()).collect();
    s.shuffle(&mut order);
    let s1 = TypeStore::with_options(opts);
    for &i in &order {
        let id = build_perturbed(&s1, &terms[i], s);
        stats[1] += 1;
        if id != ids[i] { return Err(("id depends on member order, duplication or nesting", format!("{}\n perturbed displayed `{}`", show(i), s1.display(id)))); }
        let d = s1.display(id).to_string();
        if d != disp[i] { return Err(("display depends on insertion order", format!("{} vs {d}", show(i)))); }
    }
    let s2 = TypeStore::with_options(opts);
    for &i in &order { build(&s2, &terms[i]); }
    if snap(&s2) != snap0 { return Err(("snapshot depends on insertion order", format!("order {order:?}: {terms:?}"))); }
    // threads
    if s.chance(1, 3) {
        let s3 = TypeStore::with_options(opts);
        let k = 2 + s.below(5);
        let bar = Arc::new(Barrier::new(k));
        let orders: Vec<Vec<usize>> = (0..k).map(|_| { let mut o = order.clone(); s.shuffle(&mut o); o }).collect();
        let _watch = hcommon::stall::watch("interning threads", json!({"choices": s.rec}));
        let got: Vec<Vec<(usize, TypeId)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = orders.iter().map(|o| { let (s3, bar, terms) = (s3.clone(), bar.clone(), &terms); sc.spawn(move || { bar.wait(); o.iter().map(|&i| (i, build(&s3, &terms[i]))).collect::<Vec<_>>() }) }).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Result<Vec<_>, ()>>()
        }).map_err(|_| ("panic", "an interning thread panicked".to_string()))?;
        stats[2] += k as u64;
        for v in got { for (i, id) in v { if id != ids[i] { return Err(("id depends on the thread schedule", show(i))); } } }
        if snap(&s3) != snap0 { return Err(("snapshot depends on the thread schedule", format!("{terms:?}"))); }
        for i in 0..ids.len() { if s3.display(ids[i]).to_string() != disp[i] { return Err(("display depends on the thread schedule", show(i))); } }
    }
    // restore
    let text = snap0.clone();
    let back: TypeStoreSnapshot = serde_json::from_str(&text).map_err(|e| ("snapshot does not deserialize", e.to_string()))?;
    let r = TypeStore::from_snapshot(back);
    if snap(&r) != snap0 { return Err(("restored snapshot differs", format!("{terms:?}"))); }
    for i in 0..ids.len() {
        if !r.contains_type_id(ids[i]) || r.type_kind(ids[i]) != s0.type_kind(ids[i]) { return Err(("restored type differs", show(i))); }
        if r.display(ids[i]).to_string() != disp[i] { return Err(("restored display differs", show(i))); }
        if build(&r, &terms[i]) != ids[i] { return Err(("re-interning into a restored store gives another id", show(i))); }
        if serde_json::to_string(&r.debug_json(ids[i])).ok() != serde_json::to_string(&s0.debug_json(ids[i])).ok() { return Err(("restored debug form differs", show(i))); }
    }
    if snap(&r) != snap0 { return Err(("re-interning changed the restored store", format!("{terms:?}"))); }
    // algebra
    let p = s0.primitive_ids();
    for i in 0..ids.len() {
        let a = ids[i];
        for (law, x) in [("a|a", s0.union(vec![a, a])), ("a&a", s0.intersection(vec![a, a])), ("a|never", s0.union(vec![a, p.never])), ("a&unknown", s0.intersection(vec![p.unknown, a])), ("canon", s0.canon(a)), ("a", s0.union(vec![a]))] {
            if x != a { return Err(("law", format!("{law} of {} is {}", show(i), s0.display(x)))); }
        }
        for j in 0..ids.len() {
            let b = ids[j];
            let c1 = s0.type_cmp(a, b);
            if c1 != s0.type_cmp(b, a).reverse() || (c1 == Ordering::Equal) != (a == b) { return Err(("type order", format!("{} vs {}", show(i), show(j)))); }
            if s0.union(vec![a, b]) != s0.union(vec![b, a]) || s0.intersection(vec![a, b]) != s0.intersection(vec![b, a]) { return Err(("law", format!("commutativity: {} vs {}", show(i), show(j)))); }
            let k = s.below(ids.len());
            let c = ids[k];
            if s0.union(vec![s0.union(vec![a, b]), c]) != s0.union(vec![a, s0.union(vec![b, c])]) { return Err(("law", format!("union associativity: {} ; {} ; {}", show(i), show(j), show(k)))); }
            if [a, b, c].iter().all(|x| *x != p.any) && s0.intersection(vec![s0.intersection(vec![a, b]), c]) != s0.intersection(vec![a, s0.intersection(vec![b, c])]) { return Err(("law", format!("intersection associativity: {} ; {} ; {}", show(i), show(j), show(k)))); }
            if c1 == Ordering::Less && s0.type_cmp(b, c) == Ordering::Less && s0.type_cmp(a, c) != Ordering::Less { return Err(("type order", format!("not transitive: {} ; {} ; {}", show(i), show(j), show(k)))); }
        }
    }
    Ok(())
}
fn run1(s: &mut Src, st: &mut [u64; 3]) -> Result<(), (&'static str, String)> {
    match catch(|| check(s, st)) { Ok(r) => r, Err(p) => Err(("panic", p)) }
}
pub fn c14(ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
    let mut s = match replay { Some(v) => Src::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()), None => ctx.src(i) };
    let mut st = [0; 3];
    let r = run1(&mut s, &mut st);
    ctx.add("pairs of types compared with the reference normal form", st[0]);
    ctx.add("perturbed constructions", st[1]);
    ctx.add("interning threads raced", st[2]);
    ctx.observed(format!("{:?}", s.rec).as_bytes(), true);
    if let Err((k, m)) = r {
        let rec = if replay.is_some() { s.rec.clone() } else { shrink(s.rec.clone(), 400, |c| matches!(run1(&mut Src::replay(c.to_vec()), &mut [0; 3]), Err((k2, _)) if k2 == k)) };
        let m = match run1(&mut Src::replay(rec.clone()), &mut [0; 3]) { Err((_, m)) => m, _ => m };
        ctx.violation(k, &m, json!({"choices": rec}));
    } else { ctx.sample(|| json!({"choices": s.rec.len()})); }
}
