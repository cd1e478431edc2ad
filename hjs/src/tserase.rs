//! C09: the minifier's JavaScript for a TypeScript program behaves like the TypeScript compiler's.
use crate::c08::{judge, mode_name, Verdict};
use hcommon::gen_tsx::TsExec;
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node, Src, Value};
use minify_js::{minify_with_options, ConstEnumMode, Dialect, MinifyOptions, TopLevelMode, TsEraseOptions};

struct Case { src: String, mode: TopLevelMode, lower: bool, define: bool, konst: bool }
fn gen(s: &mut Src) -> Case {
    let mode = *s.pick(&[TopLevelMode::Module, TopLevelMode::Module, TopLevelMode::Global]);
    let lower = s.chance(1, 2);
    let define = !lower || s.chance(1, 2);
    let konst = s.chance(1, 2);
    let src = TsExec::new(s, mode == TopLevelMode::Module, define).program();
    Case { src, mode, lower, define, konst }
}
pub struct C09 { node: Node }
impl C09 {
    pub fn new() -> Self { C09 { node: Node::new("main.mjs") } }
    fn json(c: &Case) -> Value { json!({"src":c.src,"mode":mode_name(c.mode),"lower":c.lower,"define":c.define,"preserveConst":c.konst}) }
    fn check(&mut self, c: &Case) -> (Verdict, String) {
        let r = catch(|| {
            let mut out = Vec::new();
            let mut e = TsEraseOptions::default();
            e.lower_class_fields = c.lower;
            e.use_define_for_class_fields = c.define;
            e.const_enum_mode = if c.konst { ConstEnumMode::Runtime } else { ConstEnumMode::Inline };
            minify_with_options(MinifyOptions::new(c.mode).with_dialect(Dialect::Ts).with_ts_erase_options(e), &c.src, &mut out).map(|_| String::from_utf8_lossy(&out).into_owned()).map_err(|d| d.iter().map(|d| d.message.clone()).collect::<Vec<_>>().join("; "))
        });
        let out = match r { Err(p) => return (Verdict::Bad("panic", p), String::new()), Ok(x) => x };
        let m = if c.mode == TopLevelMode::Module { "module" } else { "script" };
        let r = self.node.ask(&json!({"op":"tserase","src":c.src,"mode":m,"define":c.define,"preserveConst":c.konst,"out":out.as_ref().ok()}));
        let o = out.clone().unwrap_or_default();
        let Some(r) = r else { return (Verdict::Skip("oracle"), o) };
        if !r["oracle_error"].is_null() { return (Verdict::Skip("oracle error"), o); }
        if r["error"].is_string() { return (Verdict::Skip("the TypeScript compiler rejects it"), o); }
        if r["results"][0]["end"].as_str().unwrap_or("").starts_with("link:") { return (Verdict::Skip("link error in the reference"), o); }
        if let Err(e) = out {
            if e.contains("Cannot access `") { return (Verdict::Skip("reported as certain TDZ access"), o); }
            if e.contains("require a top-level `super") { return (Verdict::Skip("documented restriction"), o); }
            return (Verdict::Bad("rejected", e), o);
        }
        (judge(&r["results"][0], &r["results"][1]), o)
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let (case, rec) = match replay {
            Some(r) => (Case { src: r["src"].as_str().unwrap_or("").into(), mode: r["mode"].as_str().unwrap_or("module").parse().unwrap(), lower: r["lower"] == true, define: r["define"] != false, konst: r["preserveConst"] == true }, None),
            None => { let mut s = ctx.src(i); let c = gen(&mut s); (c, Some(s.rec)) }
        };
        ctx.current(&Self::json(&case));
        let (v, out) = self.check(&case);
        ctx.observed(case.src.as_bytes(), matches!(v, Verdict::Same(n) if n > 2));
        match v {
            Verdict::Same(n) => { ctx.count("same"); ctx.add("events", n as u64); ctx.sample(|| json!({"src":case.src,"out":out})); }
            Verdict::Skip(w) => ctx.count(&format!("skip: {w}")),
            Verdict::Bad(k, m) => {
                let (mut best, mut msg, mut bo) = (case, m, out);
                if let Some(rec) = rec {
                    let small = shrink(rec, 500, |r| matches!(self.check(&gen(&mut Src::replay(r.to_vec()))).0, Verdict::Bad(k2, _) if k2 == k));
                    let c = gen(&mut Src::replay(small));
                    if let (Verdict::Bad(_, m2), o2) = self.check(&c) { msg = m2; best = c; bo = o2; }
                }
                let mut j = Self::json(&best);
                j["out"] = bo.into();
                ctx.violation(k, &msg, j);
            }
        }
    }
}
