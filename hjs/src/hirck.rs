//! C13: HIR lowering: deterministic, complete, span-accurate, with ids that survive unrelated edits.
use crate::syn::{gen_text, Text};
use diagnostics::{FileId, TextRange};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node as Oracle, Src, Value};
use hir_js::ids::{DefKind, *};
use hir_js::{lower_file_with_diagnostics, FileKind, LowerResult};
use parse_js::Dialect;
use std::collections::{BTreeMap, BTreeSet};

fn gen(s: &mut Src) -> (Text, Dialect) {
    match s.below(5) {
        0 => { let module = s.chance(1, 2); (Text { src: hcommon::gen_scope::Scoper::program(s, module), module, kind: "scope" }, Dialect::Js) }
        1 => { let c = crate::c08::gen_case(s); (Text { module: c.mode == minify_js::TopLevelMode::Module, src: c.src, kind: "exec" }, Dialect::Js) }
        2 => (gen_text(s, 0), Dialect::Ecma),
        _ => { let t = crate::front::ts_text(s); (t, Dialect::Ts) }
    }
}
fn lower(src: &str, d: Dialect, module: bool) -> Option<LowerResult> {
    let ast = crate::syn::parse(src, d, module).ok()?.ok()?;
    let fk = if d == Dialect::Ts { FileKind::Ts } else { FileKind::Js };
    Some(lower_file_with_diagnostics(FileId(3), fk, &ast).0)
}
type Fail = (String, String);
fn fail<T>(k: &str, m: impl Into<String>) -> Result<T, Fail> { Err((k.into(), m.into())) }
fn name_of(l: &LowerResult, n: NameId) -> String { l.names.resolve(n).unwrap_or("?").to_string() }

/// Reference for the span index: the smallest range covering the offset.
fn innermost<T: Copy + PartialEq + std::fmt::Debug>(what: &str, src: &str, items: &[(TextRange, T)], q: impl Fn(u32) -> Option<(TextRange, T)>, lookups: &mut u64) -> Result<(), Fail> {
    let n = src.len() as u32;
    let covers = |r: &TextRange, o: u32| if r.start == r.end { o == r.start } else { r.start <= o && o < r.end };
    for o in 0..=n {
        *lookups += 1;
        let got = q(o);
        let best = items.iter().filter(|(r, _)| covers(r, o)).map(|(r, _)| r.end - r.start).min();
        match (got, best) {
            (None, None) => {}
            (Some((r, id)), Some(b)) => {
                if !covers(&r, o) { return fail(&format!("{what} lookup returns a span that does not cover the offset"), format!("offset {o}: {r:?}")); }
                if r.end - r.start != b { return fail(&format!("{what} lookup is not innermost"), format!("offset {o}: {r:?} {id:?}, smallest has length {b}")); }
                if !items.iter().any(|(r2, i2)| *i2 == id && r.start == r2.start && r.end == r2.end) { return fail(&format!("{what} lookup returns an unknown item"), format!("offset {o}: {r:?} {id:?}")); }
            }
            (g, b) => return fail(&format!("{what} lookup {}", if g.is_none() { "misses an item" } else { "invents an item" }), format!("offset {o}: {g:?} expected length {b:?}")),
        }
    }
    Ok(())
}
/// Structural invariants of one lowering.
fn well_formed(src: &str, l: &LowerResult, lookups: &mut u64) -> Result<(), Fail> {
    let ok = |r: TextRange| r.start <= r.end && (r.end as usize) <= src.len() && src.is_char_boundary(r.start as usize) && src.is_char_boundary(r.end as usize);
    let mut ids = BTreeSet::new();
    for (i, d) in l.defs.iter().enumerate() {
        if !ids.insert(d.id) { return fail("definition id not unique", format!("{:?}", d.id)); }
        if l.def_index.get(&d.id) != Some(&i) { return fail("definition index wrong", format!("{:?}", d.id)); }
        if !ok(d.span) { return fail("definition span out of the file", format!("{:?}", d.span)); }
        if d.id.file() != FileId(3) { return fail("definition id of another file", format!("{:?}", d.id)); }
        if l.hir.def_paths.get(&d.path) != Some(&d.id) { return fail("definition path does not lead to the definition", format!("{:?}", d.path)); }
    }
    let mut bids = BTreeSet::new();
    for (i, b) in l.hir.bodies.iter().enumerate() {
        if !bids.insert(*b) { return fail("body id not unique", format!("{b:?}")); }
        if l.body_index.get(b).is_none_or(|k| *k >= l.bodies.len()) { return fail("body index wrong", format!("{b:?} {i}")); }
    }
    if l.body_index.len() != l.bodies.len() || l.hir.bodies.len() != l.bodies.len() { return fail("body tables disagree", format!("{} {} {}", l.body_index.len(), l.bodies.len(), l.hir.bodies.len())); }
    if !bids.contains(&l.hir.root_body) { return fail("root body missing", ""); }
    for d in &l.defs {
        let (mut p, mut n) = (d.parent, 0);
        while let Some(x) = p { n += 1; if n > l.defs.len() { return fail("definition parents form a cycle", format!("{:?}", d.id)); } match l.def_index.get(&x) { Some(k) => p = l.defs[*k].parent, None => return fail("parent definition missing", format!("{:?} of {:?}", x, d.path)) } }
        if let Some(b) = d.body { if !bids.contains(&b) { return fail("body of a definition missing", format!("{b:?}")); } }
    }
    let (mut exprs, mut stmts, mut pats, mut bodies) = (vec![], vec![], vec![], vec![]);
    for (bid, k) in &l.body_index {
        let b = &l.bodies[*k];
        if !ok(b.span) { return fail("body span out of the file", format!("{:?}", b.span)); }
        if let Some(r) = l.hir.span_map.body_span(*bid) { if !ok(r) { return fail("body span out of the file", format!("{r:?}")); } bodies.push((r, *bid)); }
        for (i, e) in b.exprs.iter().enumerate() { if !ok(e.span) { return fail("expression span out of the file", format!("{:?}", e.span)); } exprs.push((e.span, (*bid, ExprId(i as u32)))); }
        for (i, e) in b.stmts.iter().enumerate() { if !ok(e.span) { return fail("statement span out of the file", format!("{:?}", e.span)); } stmts.push((e.span, (*bid, StmtId(i as u32)))); }
        for (i, e) in b.pats.iter().enumerate() { if !ok(e.span) { return fail("pattern span out of the file", format!("{:?}", e.span)); } pats.push((e.span, (*bid, PatId(i as u32)))); }
        for s in &b.root_stmts { if s.0 as usize >= b.stmts.len() { return fail("root statement missing", format!("{s:?}")); } }
    }
    if src.len() > 3000 { return Ok(()); }
    let m = &l.hir.span_map;
    innermost("expression", src, &exprs, |o| m.expr_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    innermost("statement", src, &stmts, |o| m.stmt_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    innermost("pattern", src, &pats, |o| m.pat_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    innermost("body", src, &bodies, |o| m.body_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    let defs: Vec<_> = l.defs.iter().map(|d| (d.span, d.id)).collect();
    innermost("definition", src, &defs, |o| m.def_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    let mut ts = (vec![], vec![], vec![]);
    for (d, a) in &l.types {
        for (i, x) in a.type_exprs.iter().enumerate() { ts.0.push((x.span, (*d, TypeExprId(i as u32)))); }
        for (i, x) in a.type_members.iter().enumerate() { ts.1.push((x.span, (*d, TypeMemberId(i as u32)))); }
        for (i, x) in a.type_params.iter().enumerate() { ts.2.push((x.span, (*d, TypeParamId(i as u32)))); }
    }
    for r in ts.0.iter().map(|x| x.0).chain(ts.1.iter().map(|x| x.0)).chain(ts.2.iter().map(|x| x.0)) { if !ok(r) { return fail("type span out of the file", format!("{r:?}")); } }
    innermost("type", src, &ts.0, |o| m.type_expr_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    innermost("type member", src, &ts.1, |o| m.type_member_span_at_offset(o).map(|x| (x.range, x.id)), lookups)?;
    innermost("type parameter", src, &ts.2, |o| m.type_param_span_at_offset(o).map(|x| (x.range, x.id)), lookups)
}
/// Definitions keyed by what they are and where; ids must agree.
fn table(l: &LowerResult, shift: impl Fn(TextRange) -> Option<(u32, u32)>) -> BTreeMap<(String, u32, u32, u32), Vec<(DefId, Option<BodyId>)>> {
    let mut t: BTreeMap<_, Vec<_>> = BTreeMap::new();
    for d in &l.defs {
        if let Some((a, b)) = shift(d.span) { t.entry((format!("{:?} {}", d.path.kind, name_of(l, d.name)), a, b, 0)).or_default().push((d.id, d.body)); }
    }
    for v in t.values_mut() { v.sort(); }
    t
}
fn compare(what: &str, a: BTreeMap<(String, u32, u32, u32), Vec<(DefId, Option<BodyId>)>>, b: BTreeMap<(String, u32, u32, u32), Vec<(DefId, Option<BodyId>)>>) -> Result<u64, Fail> {
    let mut n = 0;
    for (k, v) in &a {
        match b.get(k) {
            None => return fail(&format!("{what} loses a definition"), format!("{k:?}")),
            Some(w) if w != v => return fail(&format!("{what} changes an id"), format!("{k:?}: {v:?} -> {w:?}")),
            _ => n += 1,
        }
    }
    Ok(n)
}
pub struct C13 { node: Oracle }
const BATCH: usize = 8;
#[derive(Default)]
struct Facts { lookups: u64, kept_after: u64, kept_inside: u64, defs: u64 }
fn judge_local(t: &Text, d: Dialect, pick: usize) -> Result<Option<(LowerResult, Facts)>, Fail> {
    let mut f = Facts::default();
    let Some(l) = lower(&t.src, d, t.module) else { return Ok(None) };
    let l2 = lower(&t.src, d, t.module).unwrap();
    if l.hir != l2.hir || l.defs != l2.defs || l.bodies != l2.bodies || l.types != l2.types { return fail("second lowering differs", ""); }
    if l.defs.iter().any(|x| name_of(&l, x.name) != name_of(&l2, x.name)) { return fail("second lowering interns other names", ""); }
    well_formed(&t.src, &l, &mut f.lookups)?;
    f.defs = l.defs.len() as u64;
    // unrelated code after it
    let whole = |r: TextRange| if r.start == 0 && r.end as usize >= t.src.trim_end().len() { None } else { Some((r.start, r.end)) };
    let more = "\nvar unrelated1 = 1; function unrelated2(unrelated3) { return () => unrelated1; } class Unrelated4 { unrelated5() {} }\n";
    let appended = format!("{}{more}", t.src);
    if let Some(l3) = lower(&appended, d, t.module) {
        f.kept_after = compare("adding code after", table(&l, whole), table(&l3, |r| Some((r.start, r.end))))?;
    }
    // an edit inside one function body
    let bodies: Vec<_> = l.bodies.iter().filter(|b| b.function.is_some() && t.src[b.span.start as usize..].starts_with('{')).collect();
    let spots: Vec<(u32, DefId)> = bodies.iter().map(|b| (b.span.start + 1, b.owner)).chain(l.defs.iter().filter(|x| matches!(x.path.kind, DefKind::Function)).filter_map(|x| { let s = &t.src[x.span.start as usize..x.span.end as usize]; if s.ends_with('}') && x.body.is_some() { Some((x.span.end - 1, x.id)) } else { None } })).collect();
    if !spots.is_empty() {
        let (at, owner) = spots[pick % spots.len()];
        let text = ";{ let inner1 = function () { return () => 1 }; class Inner2 {} } ";
        let edited = format!("{}{text}{}", &t.src[..at as usize], &t.src[at as usize..]);
        if let Some(l4) = lower(&edited, d, t.module) {
            let n = text.len() as u32;
            // definitions not inside the edited one
            // the name of a member with a computed key is derived from the key's text
            let keyed = |id: DefId| { let mut p = Some(id); while let Some(x) = p { let y = &l.defs[l.def_index[&x]]; if name_of(&l, y.name).starts_with("<computed:") { return true; } p = y.parent; } false };
            let within = |id: DefId| { let mut p = l.defs[l.def_index[&id]].parent; while let Some(x) = p { if x == owner { return true; } p = l.defs[l.def_index[&x]].parent; } false };
            let mut a: BTreeMap<_, Vec<_>> = BTreeMap::new();
            for x in &l.defs {
                if within(x.id) || keyed(x.id) { continue; }
                // a definition that shares the edited body (its declarator, say) moves with it
                let s = |o: u32| if o >= at { o + n } else { o };
                let (p, q) = if x.span.start >= at { (s(x.span.start), s(x.span.end)) } else { (x.span.start, if x.span.end >= at { x.span.end + n } else { x.span.end }) };
                a.entry((format!("{:?} {}", x.path.kind, name_of(&l, x.name)), p, q, 0)).or_default().push((x.id, x.body));
            }
            for v in a.values_mut() { v.sort(); }
            f.kept_inside = compare("editing inside one body", a, table(&l4, |r| Some((r.start, r.end))))?;
        }
    }
    Ok(Some((l, f)))
}
impl C13 {
    pub fn new() -> Self { C13 { node: Oracle::new("main.mjs") } }
    fn judge(&mut self, ts: &[(Text, Dialect)], pick: usize) -> Vec<Result<Option<Facts>, Fail>> {
        let mut res = vec![];
        let (mut cases, mut idx) = (vec![], vec![]);
        for (i, (t, d)) in ts.iter().enumerate() {
            match catch(|| judge_local(t, *d, pick)) {
                Err(p) => res.push(fail("panic", p)),
                Ok(Err(e)) => res.push(Err(e)),
                Ok(Ok(None)) => res.push(Ok(None)),
                Ok(Ok(Some((l, f)))) => {
                    let defs: Vec<_> = l.defs.iter().map(|x| json!([format!("{:?}", x.path.kind), name_of(&l, x.name), x.span.start, x.span.end])).collect();
                    cases.push(json!({"src": t.src, "module": t.module, "ts": *d == Dialect::Ts, "defs": defs, "imports": l.hir.imports.len(), "exports": l.hir.exports.len()}));
                    idx.push(i);
                    res.push(Ok(Some(f)));
                }
            }
        }
        if cases.is_empty() { return res; }
        if let Some(r) = self.node.ask(&json!({"op":"defs","cases":cases})) {
            for (k, i) in idx.into_iter().enumerate() {
                if let Some(x) = r["results"][k]["diff"].as_str() { res[i] = fail(x, r["results"][k]["detail"].as_str().unwrap_or("")); }
            }
        }
        res
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut recs = vec![];
        let dialect = |s: &str| match s { "Ts" => Dialect::Ts, "Ecma" => Dialect::Ecma, _ => Dialect::Js };
        let ts: Vec<(Text, Dialect)> = match replay {
            Some(v) => vec![(crate::syn::from_case(v), dialect(v["dialect"].as_str().unwrap_or("")))],
            None => (0..BATCH as u64).map(|k| { let mut s = ctx.src(i * BATCH as u64 + k); let t = gen(&mut s); recs.push(s.rec); t }).collect(),
        };
        let pick = match replay { Some(v) => v["pick"].as_u64().unwrap_or(0) as usize, None => (i % 97) as usize };
        ctx.current(&json!({"src": ts.iter().map(|t| t.0.src.as_str()).collect::<Vec<_>>().join("\n/*====*/\n"), "module": ts[0].0.module}));
        for (k, r) in self.judge(&ts, pick).into_iter().enumerate() {
            match r {
                Ok(None) => ctx.add("texts the parser rejects", 1),
                Ok(Some(f)) => {
                    ctx.add("definitions", f.defs); ctx.add("span lookups compared", f.lookups);
                    ctx.add("ids kept when code was added after", f.kept_after); ctx.add("ids kept when another body was edited", f.kept_inside);
                    ctx.observed(ts[k].0.src.as_bytes(), f.defs > 0);
                    let t = &ts[k].0;
                    ctx.sample(|| json!({"src": t.src, "definitions": f.defs, "lookups": f.lookups}));
                }
                Err((kind, m)) => {
                    let (mut t, mut m) = (ts[k].clone(), m);
                    if replay.is_none() {
                        let rec = shrink(recs[k].clone(), 250, |c| { let t = gen(&mut Src::replay(c.to_vec())); matches!(&self.judge(&[t], pick)[0], Err((k2, _)) if *k2 == kind) });
                        let t2 = gen(&mut Src::replay(rec));
                        if let Err((_, m2)) = &self.judge(&[t2.clone()], pick)[0] { t = t2; m = m2.clone(); }
                    }
                    ctx.violation(&kind, &format!("{:?}: {m}\n{}", t.1, t.0.src), json!({"src": t.0.src, "module": t.0.module, "dialect": format!("{:?}", t.1), "pick": pick}));
                    if replay.is_some() { return; }
                }
            }
        }
    }
}
