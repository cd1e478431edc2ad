//! Syntax monitors: C02 (acceptance), C03 (spans), C05 (structure) against acorn and V8.
use crate::estree;
use hcommon::gen_exec::{Feats, Gen};
use hcommon::gen_syn::{layout, mutate, Syn};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node, Src, Value};
use parse_js::{parse_with_options, Dialect, ParseOptions, SourceType};

#[derive(Clone)]
pub struct Text { pub src: String, pub module: bool, pub kind: &'static str }

/// `mutated`: probability (of 16) that the token list is mutated.
pub fn gen_text(s: &mut Src, mutated: usize) -> Text {
    let module = s.chance(1, 3);
    match s.below(8) {
        0 => {
            let mut f = Feats::full();
            f.module = module;
            f.strict = module;
            f.with_ = false;
            let mut g = Gen::new(s, f);
            let src = g.program(3);
            Text { src, module, kind: "exec" }
        }
        _ => {
            let size = *s.pick(&[4, 8, 16, 30]);
            let toks = { let mut g = Syn::new(s, module); g.tokens(size) };
            let mut toks = toks;
            let m = s.below(16) < mutated;
            if m { mutate(s, &mut toks); }
            Text { src: layout(s, &toks), module, kind: if m { "mutated" } else { "grammar" } }
        }
    }
}
pub fn opts(d: Dialect, module: bool) -> ParseOptions {
    ParseOptions { dialect: d, source_type: if module { SourceType::Module } else { SourceType::Script } }
}
pub type Ast = parse_js::ast::node::Node<parse_js::ast::stx::TopLevel>;
pub fn parse(src: &str, d: Dialect, module: bool) -> Result<Result<Ast, String>, String> {
    catch(|| parse_with_options(src, opts(d, module)).map_err(|e| format!("{:?} at {:?}", e.typ, e.loc)))
}
pub fn case_json(t: &Text) -> Value { json!({"src": t.src, "module": t.module}) }
pub fn from_case(v: &Value) -> Text { Text { src: v["src"].as_str().unwrap_or("").into(), module: v["module"].as_bool().unwrap_or(false), kind: "replay" } }

#[derive(Clone, Copy, PartialEq)]
pub enum What { Accept, Tree, Spans, Reject }

pub struct SynCheck { node: Node, what: What }
const BATCH: usize = 12;

impl SynCheck {
    pub fn new(what: What) -> Self { SynCheck { node: Node::new("main.mjs"), what } }

    /// Verdicts: Ok(None) skipped, Ok(Some(())) agreed, Err((kind, message)).
    fn judge(&mut self, ts: &[Text]) -> Vec<Result<Option<&'static str>, (String, String)>> {
        let mut res: Vec<Result<Option<&'static str>, (String, String)>> = ts.iter().map(|_| Ok(None)).collect();
        if self.what == What::Accept {
            let cases: Vec<Value> = ts.iter().map(case_json).collect();
            let Some(r) = self.node.ask(&json!({"op":"syntax","what":"accepts","cases":cases})) else { return res };
            for (i, t) in ts.iter().enumerate() {
                let want = r["results"][i]["accepts"].as_bool();
                let Some(want) = want else { continue };
                match parse(&t.src, Dialect::Ecma, t.module) {
                    Err(p) => res[i] = Err(("panic".into(), p)),
                    Ok(Ok(_)) if want => res[i] = Ok(Some("accepted")),
                    Ok(Err(_)) if !want => res[i] = Ok(Some("rejected")),
                    Ok(Err(e)) => res[i] = Err(("rejects-valid".into(), e)),
                    Ok(Ok(_)) => res[i] = Err(("accepts-invalid".into(), r["results"][i]["why"].as_str().unwrap_or("").into())),
                }
            }
            return res;
        }
        let spans = self.what == What::Spans;
        let mut cases = vec![];
        let mut idx = vec![];
        for (i, t) in ts.iter().enumerate() {
            for d in [Dialect::Ecma, Dialect::Js, Dialect::Jsx] {
                if d == Dialect::Jsx && t.src.contains('<') { continue; }
                match parse(&t.src, d, t.module) {
                    Ok(Ok(a)) => { cases.push(json!({"src":t.src,"module":t.module,"tree":estree::program(&a),"spans":spans})); idx.push((i, d)); }
                    Ok(Err(e)) if d == Dialect::Js && self.what == What::Reject => { cases.push(json!({"src":t.src,"module":t.module,"accepts":true,"error":format!("{d:?}: {e}")})); idx.push((i, d)); }
                    _ => {}
                }
            }
        }
        let Some(r) = self.node.ask(&json!({"op":"syntax","what":"tree","cases":&cases})) else { return res };
        for (k, (i, d)) in idx.into_iter().enumerate() {
            let v = &r["results"][k];
            if v.get("rejected").is_some() { continue; }
            if res[i].is_err() { continue; }
            if v["accepts"] == true { res[i] = Err(("rejects-valid".into(), cases[k]["error"].as_str().unwrap_or("").into())); continue; }
            if v.get("accepts").is_some() { continue; }
            if let Some(e) = v["error"].as_str() { res[i] = Err(("oracle".into(), e.into())); continue; }
            let f = if spans { "span" } else { "diff" };
            res[i] = match v[f].as_str() {
                Some(m) => Err((f.to_string(), format!("{d:?}: {m}"))),
                None if spans && v["diff"].is_string() => Ok(None),
                None => Ok(Some("agreed")),
            };
        }
        res
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mutated = if self.what == What::Accept { 9 } else { 1 };
        let mut recs = vec![];
        let ts: Vec<Text> = match replay {
            Some(v) => vec![from_case(v)],
            None => (0..BATCH as u64).map(|k| { let mut s = ctx.src(i * BATCH as u64 + k); let t = gen_text(&mut s, mutated); recs.push(s.rec); t }).collect(),
        };
        ctx.current(&json!({"src": ts.iter().map(|t| t.src.as_str()).collect::<Vec<_>>().join("\n/*====*/\n"), "module": ts[0].module}));
        let vs = self.judge(&ts);
        for (k, v) in vs.into_iter().enumerate() {
            let t = &ts[k];
            ctx.observed(t.src.as_bytes(), matches!(v, Ok(Some(_))));
            ctx.count(t.kind);
            match v {
                Ok(Some(w)) => { ctx.count(w); ctx.sample(|| json!({"src":t.src,"module":t.module,"verdict":w})); }
                Ok(None) => ctx.count("skip"),
                Err((kind, msg)) => {
                    let mut best = t.clone();
                    let mut m = msg;
                    if let Some(rec) = recs.get(k) {
                        let small = shrink(rec.clone(), 500, |r| {
                            let t = gen_text(&mut Src::replay(r.to_vec()), mutated);
                            matches!(self.judge(&[t]).pop(), Some(Err((k2, _))) if k2 == kind)
                        });
                        let t2 = gen_text(&mut Src::replay(small), mutated);
                        if let Some(Err((_, m2))) = self.judge(&[t2.clone()]).pop() { best = t2; m = m2; }
                    }
                    ctx.violation(&kind, &m, case_json(&best));
                }
            }
        }
    }
}
