//! C08: minified programs behave like their originals (trace monitor over V8 executions).
use hcommon::gen_exec::{Feats, Gen};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node, Src, Value};
use minify_js::{minify_with_options, Dialect, MinifyOptions, TopLevelMode};

pub struct Case { pub src: String, pub mode: TopLevelMode, pub names: Vec<String> }

pub fn gen_case(s: &mut Src) -> Case {
    let mode = *s.pick(&[TopLevelMode::Global, TopLevelMode::Global, TopLevelMode::Module]);
    let mut f = Feats::full();
    f.module = mode == TopLevelMode::Module;
    f.strict = f.module || s.chance(1, 4);
    f.shadow = s.chance(2, 3);
    if !f.module && s.chance(1, 8) { f.eval = true; if !f.strict && s.chance(1, 2) { f.with_ = true; } }
    if s.chance(1, 2) { f.classes = false; }
    if s.chance(1, 2) { f.async_ = false; f.generators = false; }
    if s.chance(1, 3) { f.destructuring = false; f.spread = false; }
    let mut g = Gen::new(s, f);
    let src = g.program(8);
    let names = g.top_names.clone();
    Case { src, mode, names }
}
pub fn mode_name(m: TopLevelMode) -> &'static str { match m { TopLevelMode::Global => "global", TopLevelMode::Script => "script", TopLevelMode::Module => "module" } }

pub fn minify_str(src: &str, mode: TopLevelMode, dialect: Option<Dialect>) -> Result<Result<String, String>, String> {
    catch(|| {
        let mut out = Vec::new();
        let mut o = MinifyOptions::new(mode);
        if let Some(d) = dialect { o = o.with_dialect(d); }
        match minify_with_options(o, src, &mut out) {
            Ok(()) => Ok(String::from_utf8(out).unwrap_or_else(|_| "<invalid utf8>".into())),
            Err(ds) => Err(ds.iter().map(|d| d.message.clone()).collect::<Vec<_>>().join("; ")),
        }
    })
}

pub enum Verdict { Same(usize), Skip(&'static str), Bad(&'static str, String) }

/// Judges one execution pair.
pub fn judge(a: &Value, b: &Value) -> Verdict {
    let end = |v: &Value| v["end"].as_str().unwrap_or("").to_string();
    let (ea, eb) = (end(a), end(b));
    if ea.starts_with("syntax:") { return Verdict::Skip("original rejected by V8"); }
    if eb.starts_with("syntax:") { return Verdict::Bad("output-syntax", format!("output is not valid: {eb}")); }
    if ["timeout", "full", "host:"].iter().any(|p| ea.starts_with(p) || eb.starts_with(p)) { return Verdict::Skip("resource limit"); }
    let (la, lb) = (a["log"].as_array().cloned().unwrap_or_default(), b["log"].as_array().cloned().unwrap_or_default());
    if la.iter().any(|l| l.as_str().map_or(false, |s| s.contains("Error:RangeError"))) || ea.contains("RangeError") { return Verdict::Skip("stack depth dependent"); }
    for i in 0..la.len().max(lb.len()) {
        let (x, y) = (la.get(i).and_then(|v| v.as_str()), lb.get(i).and_then(|v| v.as_str()));
        if x != y { return Verdict::Bad("trace", format!("event {i}: original {x:?}, output {y:?}")); }
    }
    if ea != eb { return Verdict::Bad("completion", format!("original ends {ea}, output ends {eb}")); }
    Verdict::Same(la.len())
}

/// The minifier reports code that is certain to read a binding in its dead zone instead of compiling it.
pub const CERTAIN_TDZ: &str = "reported as certain TDZ access";

pub struct C08 { node: Node, tdz: u64, total: u64 }

impl C08 {
    pub fn new() -> Self { C08 { node: Node::new("main.mjs"), tdz: 0, total: 0 } }
    fn check(&mut self, c: &Case) -> (Verdict, String, usize) {
        let d = Some(Dialect::Js);
        let out = match minify_str(&c.src, c.mode, d) {
            Err(p) => return (Verdict::Bad("panic", p), String::new(), 0),
            Ok(Err(e)) => {
                // rejected: legitimate only when V8 rejects the original too
                let r = self.node.ask(&json!({"op":"exec","cases":[{"src":c.src,"mode":if c.mode==TopLevelMode::Module {"module"} else {"script"}}]}));
                if e.contains("Cannot access `") { return (Verdict::Skip(CERTAIN_TDZ), String::new(), 0); }
                return match r { Some(r) if !r["results"][0]["end"].as_str().unwrap_or("").starts_with("syntax:") => (Verdict::Bad("rejected", e), String::new(), 0), _ => (Verdict::Skip("rejected by both"), String::new(), 0) };
            }
            Ok(Ok(o)) => o,
        };
        let m = if c.mode == TopLevelMode::Module { "module" } else { "script" };
        let globals = c.mode != TopLevelMode::Module;
        let r = self.node.ask(&json!({"op":"exec","cases":[
            {"src":c.src,"mode":m,"globals":globals,"observe":c.names},
            {"src":out,"mode":m,"globals":globals,"observe":c.names}]}));
        let Some(r) = r else { return (Verdict::Skip("oracle"), out, 0) };
        let n = r["results"][0]["log"].as_array().map_or(0, |l| l.len());
        (judge(&r["results"][0], &r["results"][1]), out, n)
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let case = match replay {
            Some(r) => Case {
                src: r["src"].as_str().unwrap_or("").into(),
                mode: r["mode"].as_str().unwrap_or("global").parse().unwrap(),
                names: r["names"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
            },
            None => { let mut s = ctx.src(i); let c = gen_case(&mut s); self.run_one(ctx, c, Some(s.rec)); return; }
        };
        self.run_one(ctx, case, None);
    }
    fn run_one(&mut self, ctx: &mut Ctx, case: Case, rec: Option<Vec<u32>>) {
        ctx.current(&json!({"src":case.src,"mode":mode_name(case.mode)}));
        self.total += 1;
        let (v, out, events) = self.check(&case);
        ctx.observed(case.src.as_bytes(), matches!(v, Verdict::Same(n) if n > 3));
        ctx.add("events", events as u64);
        match v {
            Verdict::Same(_) => { ctx.count("same"); if out.len() < case.src.len() { ctx.count("shrunk"); } ctx.sample(|| json!({"src":case.src,"out":out,"events":events})); }
            Verdict::Skip(w) if w == CERTAIN_TDZ && { self.tdz += 1; self.total > 100 && self.tdz * 25 > self.total } => {
                ctx.violation("rejected", "far more programs are reported as certain TDZ accesses than contain one", json!({"src":case.src,"mode":mode_name(case.mode),"names":case.names}));
            }
            Verdict::Skip(w) => ctx.count(&format!("skip: {w}")),
            Verdict::Bad(k, m) => {
                let mut best = case;
                let mut msg = m;
                let mut best_out = out;
                if let Some(rec) = rec {
                    let small = shrink(rec, 600, |r| {
                        let mut s = Src::replay(r.to_vec());
                        let c = gen_case(&mut s);
                        matches!(self.check(&c).0, Verdict::Bad(k2, _) if k2 == k)
                    });
                    let c = gen_case(&mut Src::replay(small));
                    let (v2, o2, _) = self.check(&c);
                    if let Verdict::Bad(_, m2) = v2 { msg = m2; best = c; best_out = o2; }
                }
                ctx.violation(k, &msg, json!({"src":best.src,"mode":mode_name(best.mode),"names":best.names,"out":best_out}));
            }
        }
    }
}
