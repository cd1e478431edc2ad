//! C10: minified output is deterministic, stable, hygienic; rejected input leaves the buffer alone.
use crate::c08::mode_name;
use crate::syn::{gen_text, Text};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node as Oracle, Src, Value};
use minify_js::{minify_with_options, Dialect, MinifyOptions, TopLevelMode};

fn gen(s: &mut Src) -> Text {
    let mut t = match s.below(8) {
        0..=4 => { let module = s.chance(1, 3); Text { src: hcommon::gen_scope::Scoper::program(s, module), module, kind: "scope" } }
        5 => { let c = crate::c08::gen_case(s); Text { module: c.mode == TopLevelMode::Module, src: c.src, kind: "exec" } }
        6 => gen_text(s, 0),
        _ => gen_text(s, 16),
    };
    if s.chance(1, 20) { // cut: mostly rejected
        let n = t.src.chars().count();
        let k = s.below(n + 1);
        t.src = t.src.chars().take(k).collect();
        t.kind = "cut";
    }
    // the parser takes this for a directive (a known finding)
    t.src = t.src.replace("use\\x20strict", "use\\x20strictly");
    t
}
type Out = Result<String, Vec<String>>;
const KEEP: &[u8] = b"untouched \xff";
/// One minification; checks the contract of the output buffer.
fn run(src: &str, mode: TopLevelMode, d: Option<Dialect>) -> Result<Out, (String, String)> {
    let r = catch(|| {
        let mut out = KEEP.to_vec();
        let mut o = MinifyOptions::new(mode);
        if let Some(d) = d { o = o.with_dialect(d); }
        let r = minify_with_options(o, src, &mut out);
        (r, out)
    });
    let (r, out) = r.map_err(|p| ("panic".to_string(), p))?;
    match r {
        Ok(()) => match String::from_utf8(out) { Ok(s) => Ok(Ok(s)), Err(_) => Err(("output is not UTF-8".into(), "".into())) },
        Err(ds) => {
            if out != KEEP { return Err(("rejected input changed the buffer".into(), format!("{ds:?}"))); }
            if ds.is_empty() { return Err(("rejected without a diagnostic".into(), "".into())); }
            for d in &ds {
                for sp in std::iter::once(&d.primary).chain(d.labels.iter().map(|l| &l.span)) {
                    let (a, b) = (sp.range.start as usize, sp.range.end as usize);
                    if a > b || b > src.len() { return Err(("diagnostic span out of range".into(), format!("{a}..{b} of {}: {d:?}", src.len()))); }
                    if !src.is_char_boundary(a) || !src.is_char_boundary(b) { return Err(("diagnostic span splits a character".into(), format!("{a}..{b}: {d:?}"))); }
                }
            }
            Ok(Err(ds.iter().map(|d| format!("{d:?}")).collect()))
        }
    }
}
type Verdict = Result<Option<Value>, (String, String)>;
pub struct C10 { node: Oracle }
const BATCH: usize = 12;
impl C10 {
    pub fn new() -> Self { C10 { node: Oracle::new("main.mjs") } }
    fn judge(&mut self, ts: &[Text], threads: bool) -> Vec<(Verdict, bool)> {
        let mut res: Vec<(Verdict, bool)> = ts.iter().map(|_| (Ok(None), false)).collect();
        let mut again = vec![None; ts.len()];
        let (mut cases, mut idx, mut outs) = (vec![], vec![], vec![]);
        for (i, t) in ts.iter().enumerate() {
            for mode in if t.module { &[TopLevelMode::Module][..] } else { &[TopLevelMode::Global][..] } {
                for d in [Some(Dialect::Js), None] {
                    match run(&t.src, *mode, d) {
                        Err(e) => res[i].0 = Err(e),
                        Ok(first) => {
                            match run(&t.src, *mode, d) { Ok(x) if x == first => {} x => res[i].0 = Err(("second run differs".into(), format!("{first:?}\n{x:?}"))) }
                            outs.push((i, *mode, d, first.clone()));
                            match first {
                                Err(_) => res[i].1 = true,
                                Ok(o) => {
                                    match run(&o, *mode, d) {
                                        Err(e) => res[i].0 = Err((format!("minifying the output again: {}", e.0), format!("{}\n{o}", e.1))),
                                        Ok(Err(e)) => again[i] = Some(format!("{}: {e:?}\n{o}", mode_name(*mode))),
                                        Ok(Ok(_)) => {}
                                    }
                                    if d.is_some() { cases.push(json!({"src":t.src,"out":o,"module":t.module})); idx.push(i); }
                                }
                            }
                        }
                    }
                }
            }
        }
        if threads {
            // every text again on four threads at once, each starting somewhere else
            let bad = std::sync::Mutex::new(vec![]);
            std::thread::scope(|sc| for k in 0..4usize {
                let (outs, bad) = (&outs, &bad);
                let b = std::thread::Builder::new().stack_size(64 << 20);
                let _ = b.spawn_scoped(sc, move || for j in 0..outs.len() {
                    let (i, m, d, want) = &outs[(j + k * outs.len() / 4) % outs.len()];
                    if run(&ts[*i].src, *m, *d).as_ref().ok() != Some(want) { bad.lock().unwrap().push(*i); }
                });
            });
            for i in bad.into_inner().unwrap() { if res[i].0.is_ok() { res[i].0 = Err(("output differs on another thread".into(), "".into())); } }
        }
        if cases.is_empty() { return res; }
        let Some(r) = self.node.ask(&json!({"op":"hygiene","cases":cases})) else { return res };
        for (k, i) in idx.into_iter().enumerate() {
            let v = &r["results"][k];
            if res[i].0.is_err() || v.get("rejected").is_some() { continue; }
            match v["diff"].as_str() {
                // judged on valid programs only: the permissive dialects take some texts that are not programs
                _ if again[i].is_some() => res[i].0 = Err(("output is rejected when minified again".into(), again[i].take().unwrap_or_default())),
                Some(x) => res[i].0 = Err((x.to_string(), format!("{}\noutput: {}", v["detail"].as_str().unwrap_or(""), cases[k]["out"].as_str().unwrap_or("")))),
                None => res[i].0 = Ok(Some(v.clone())),
            }
        }
        res
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut recs = vec![];
        let ts: Vec<Text> = match replay {
            Some(v) => vec![crate::syn::from_case(v)],
            None => (0..BATCH as u64).map(|k| { let mut s = ctx.src(i * BATCH as u64 + k); let t = gen(&mut s); recs.push(s.rec); t }).collect(),
        };
        ctx.current(&json!({"src": ts.iter().map(|t| t.src.as_str()).collect::<Vec<_>>().join("\n/*====*/\n"), "module": ts[0].module}));
        for (k, (r, rejected)) in self.judge(&ts, i % 4 == 0).into_iter().enumerate() {
            match r {
                Ok(None) => { ctx.add(if rejected { "rejected inputs whose diagnostics were judged" } else { "programs acorn rejects" }, 1); if rejected { ctx.observed(ts[k].src.as_bytes(), true); } }
                Ok(Some(v)) => {
                    ctx.add("programs whose bindings were judged", 1);
                    ctx.add("identifiers", v["n"].as_u64().unwrap_or(0));
                    if v["alpha"] == true { ctx.add("same tree, renaming compared binding by binding", 1); }
                    if v["evalish"] == true { ctx.add("with eval or with", 1); }
                    if v["renamed"].as_u64().unwrap_or(0) > 0 { ctx.add("with renamed bindings", 1); }
                    ctx.observed(ts[k].src.as_bytes(), v["n"].as_u64().unwrap_or(0) > 0);
                    let t = &ts[k];
                    ctx.sample(|| json!({"src": t.src, "facts": v}));
                }
                Err((kind, m)) => {
                    let mut t = ts[k].clone();
                    let mut m = m;
                    if replay.is_none() {
                        let rec = shrink(recs[k].clone(), 300, |c| { let t = gen(&mut Src::replay(c.to_vec())); matches!(&self.judge(&[t], false)[0].0, Err((k2, _)) if *k2 == kind) });
                        let t2 = gen(&mut Src::replay(rec));
                        if let Err((_, m2)) = &self.judge(&[t2.clone()], false)[0].0 { t = t2; m = m2.clone(); }
                    }
                    ctx.violation(&kind, &format!("{}\n{m}", t.src), crate::syn::case_json(&t));
                    if replay.is_some() { return; }
                }
            }
        }
    }
}
