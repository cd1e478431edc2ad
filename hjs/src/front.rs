//! C01 (totality), C03 (spans, structural part), C06 (emit/parse round trip): monitors over the real
//! parser and emitters that need no outside reference.
use crate::syn::{gen_text, opts, Text};
use hcommon::gen_syn::{layout, mutate};
use hcommon::gen_ts::Ts;
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Src, Value};
use parse_js::{parse_with_options, parse_with_options_cancellable, Dialect, ParseOptions, SourceType};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub const DIALECTS: [Dialect; 6] = [Dialect::Js, Dialect::Jsx, Dialect::Ts, Dialect::Tsx, Dialect::Dts, Dialect::Ecma];
pub fn dialect_of(s: &str) -> Dialect { *DIALECTS.iter().find(|d| format!("{d:?}") == s).unwrap_or(&Dialect::Js) }

/// A JSX element as one token.
pub fn jsx(s: &mut Src, depth: u32) -> String {
    let name = s.pick(&["a", "B", "a.b", "x-y", "svg:rect", "C.D.E"]).to_string();
    let mut o = String::new();
    let frag = s.chance(1, 6);
    o.push('<');
    if !frag {
        o.push_str(&name);
        for _ in 0..s.below(3) {
            o.push_str(*s.pick(&[" ", "\n ", "  "]));
            match s.below(6) {
                0 => o.push_str("{...p}"),
                1 => o.push_str(*s.pick(&["q", "data-x", "a:b"])),
                2 => o.push_str(&format!("k={}", s.pick(&["\"v\"", "'w \"'", "\"&amp;é\"", "\"a\nb\"", "\"\\\""]))),
                3 if depth > 0 => { let j = jsx(s, depth - 1); o.push_str(&format!("k={{{j}}}")); }
                _ => o.push_str(&format!("k={{{}}}", s.pick(&["1", "x", "`t`", "() => 1", "{a: 1}", "a ? b : c", "\"s\""]))),
            }
        }
        if s.chance(1, 4) { o.push_str(*s.pick(&["/>", " />"])); return o; }
    }
    o.push('>');
    for _ in 0..s.below(4) {
        match s.below(6) {
            0 if depth > 0 => { let j = jsx(s, depth - 1); o.push_str(&j); }
            1 => o.push_str(&format!("{{{}}}", s.pick(&["x", "1 + 2", "/* c */", "...xs", "a && b", "f({})", "'s'"]))),
            _ => o.push_str(*s.pick(&["text", " two words ", "\n  lines\n  ", "é &nbsp; 'q' \"r\"", "it's", "a=b;", "// no comment", "0"])),
        }
    }
    if frag { o.push_str("</>"); } else { o.push_str(&format!("</{name}>")); }
    o
}

#[derive(Clone)]
pub struct Multi { pub src: String, pub module: bool, pub kind: &'static str, pub dialects: Vec<Dialect> }

/// A text with the dialects it is written for.
pub fn gen_multi(s: &mut Src, mutated: usize) -> Multi {
    match s.below(10) {
        0..=4 => {
            let t = gen_text(s, mutated);
            let dialects = if t.src.contains('<') { vec![Dialect::Js, Dialect::Ecma] } else { vec![Dialect::Js, Dialect::Jsx, Dialect::Ecma] };
            Multi { src: t.src, module: t.module, kind: t.kind, dialects }
        }
        5 => {
            let j = jsx(s, 2);
            let pre = *s.pick(&["x = ", "", "return_(", "const v = a ? ", "f(b, "]);
            let post = match pre { "return_(" | "f(b, " => ");", "const v = a ? " => " : null;", _ => ";" };
            let d = if s.chance(1, 2) { Dialect::Jsx } else { Dialect::Tsx };
            Multi { src: format!("{pre}{j}{post}"), module: true, kind: "jsx", dialects: vec![d] }
        }
        k => {
            let module = s.chance(2, 3);
            let dts = k == 9;
            let size = *s.pick(&[3, 8, 16, 30]);
            let tsx = !dts && s.chance(1, 4);
            let mut toks = { let mut g = Ts::new(s, module, dts); g.jsx = tsx; g.tokens(size) };
            let m = s.below(16) < mutated;
            if m { mutate(s, &mut toks); }
            Multi { src: layout(s, &toks), module, kind: if m { "mutated" } else if dts { "dts" } else { "ts" }, dialects: vec![if dts { Dialect::Dts } else if tsx { Dialect::Tsx } else { Dialect::Ts }] }
        }
    }
}

pub fn ts_text(s: &mut Src) -> Text {
    let module = s.chance(2, 3);
    let size = *s.pick(&[3, 8, 16, 30]);
    let toks = Ts::new(s, module, false).tokens(size);
    Text { src: layout(s, &toks), module, kind: "ts" }
}
// ---------------------------------------------------------------------------------------- C01
const BITS: &[&str] = &["\u{0}", "\u{2028}", "\u{feff}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "é", "😀", "\u{200d}", "\u{301}", "\\u{110000}", "\\u{", "\\u00", "\\x", "`${", "/*", "*/", "<!--", "-->", "//", "/", "'", "\"", "`", "${", "}", "{", "(", "[", "<", "</", "/>", "<>", "#", "#!", "@", "\\", "0x", "1_", "1e", "0b2", "09.5", ".5.", "?.", "?.5", "...", "=>", "async", "await", "yield", "import", "export", "class", "function*", "enum", "namespace", "type", "declare", "abstract", "as", "satisfies", "<T>", "<T,>() =>", "x!", "?:", "\r", "\n", "\r\n", "let", "of", "in", "new.target", "import.meta", "super", "get", "set", "static", "accessor", "using", "await using", "=", ":", ";", ",", "0n", "1__0", "/[/", "/(?<", "\u{85}", "\u{180e}"];

pub fn wild_text(s: &mut Src, corpus: &[String]) -> (String, bool, &'static str) {
    let module = s.chance(1, 2);
    match s.below(12) {
        0 => { let n = s.below(30); let mut o = String::new(); for _ in 0..n { o.push_str(*s.pick(BITS)); if s.chance(1, 3) { o.push(' '); } } (o, module, "bits") }
        1 => {
            // deep nesting
            let n = 1 + s.below(120);
            let (a, b) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("a(", ")"), ("!", ""), ("a?b:", ""), ("`${", "}`"), ("x=>", "0"), ("if(a)", ""), ("function f(){", "}"), ("class A{m(){", "}}"), ("<a>", "</a>"), ("a<", ">"), ("[a,", "]=b"), ("({a:", "})"), ("new ", "x"), ("type T=[", "]"), ("async()=>", "1"), ("a**", "1"), ("a.b[", "]"), ("await ", "x"), ("l:", ""), ("for(;;)", ""), ("-", "1"), ("a,", "b"), ("a=", "b"), ("do ", "while(0)"), ("keyof ", ""), ("let x:Array<", ">")]);
            let m = if s.chance(1, 3) { s.below(n + 1) } else { n };
            (format!("{}{}{}", a.repeat(n), *s.pick(&["", "x", "1"]), b.repeat(m)), module, "nesting")
        }
        2 | 3 if !corpus.is_empty() => {
            let f = &corpus[s.below(corpus.len())];
            let cs: Vec<char> = f.chars().collect();
            let n = cs.len().min(1 + s.below(4000));
            let st = s.below(cs.len().saturating_sub(n).max(1));
            let mut t: Vec<char> = cs[st..st + n].to_vec();
            char_mutate(s, &mut t);
            (t.into_iter().collect(), module, "corpus")
        }
        _ => {
            let m = gen_multi(s, 8);
            let mut t: Vec<char> = m.src.chars().collect();
            let k = match s.below(4) {
                0 => { let n = s.below(t.len() + 1); t.truncate(n); "truncated" }
                1 => { char_mutate(s, &mut t); "char-mutated" }
                2 => { let n = s.below(t.len() + 1); t.drain(..n); "tail" }
                _ => m.kind,
            };
            (t.into_iter().collect(), m.module, k)
        }
    }
}
fn char_mutate(s: &mut Src, t: &mut Vec<char>) {
    for _ in 0..1 + s.below(4) {
        let i = s.below(t.len() + 1);
        match s.below(4) {
            0 => { let b = *s.pick(BITS); for (k, c) in b.chars().enumerate() { t.insert((i + k).min(t.len()), c); } }
            1 if !t.is_empty() => { let j = i.min(t.len() - 1); t.remove(j); }
            2 if !t.is_empty() => { let a = i.min(t.len() - 1); let b = s.below(t.len()); t.swap(a, b); }
            _ if !t.is_empty() => { let a = i.min(t.len() - 1); let e = (a + 1 + s.below(20)).min(t.len()); let cp: Vec<char> = t[a..e].to_vec(); let at = s.below(t.len() + 1); for (k, c) in cp.into_iter().enumerate() { t.insert(at + k, c); } }
            _ => {}
        }
    }
}
pub fn corpus() -> Vec<String> {
    let mut out = vec![];
    let mut stack: Vec<std::path::PathBuf> = ["/opt/veriftools/node/node_modules/typescript/lib", "/opt/veriftools/node/node_modules/acorn/dist", "/opt/veriftools/node/node_modules/eslint-scope", "/opt/veriftools/node/node_modules/@typescript-eslint/scope-manager/dist", "/opt/veriftools/node/node_modules/fast-check/lib"].iter().map(|s| s.into()).collect();
    while let Some(d) = stack.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() { stack.push(p); continue; }
            let n = p.to_string_lossy().to_string();
            if !(n.ends_with(".js") || n.ends_with(".ts") || n.ends_with(".mjs")) { continue; }
            if std::fs::metadata(&p).map(|m| m.len() > 60_000 || m.len() < 200).unwrap_or(true) { continue; }
            if let Ok(t) = std::fs::read_to_string(&p) { out.push(t); }
            if out.len() > 400 { return out; }
        }
    }
    out
}

type Res = Result<String, (String, (usize, usize))>;
fn run_parse(src: &str, d: Dialect, module: bool, flag: Option<Arc<AtomicBool>>) -> Res {
    let o = ParseOptions { dialect: d, source_type: if module { SourceType::Module } else { SourceType::Script } };
    let r = match flag { None => parse_with_options(src, o), Some(f) => parse_with_options_cancellable(src, o, f) };
    match r { Ok(a) => Ok(serde_json::to_string(&a).unwrap_or_else(|e| format!("unserialisable {e}"))), Err(e) => Err((format!("{:?}/{:?}", e.typ, e.actual_token), (e.loc.0, e.loc.1))) }
}
/// None: fine (returns whether accepted); Some: violation.
fn total(src: &str, d: Dialect, module: bool, mid: Option<u64>) -> Result<bool, (String, String)> {
    let r1 = catch(|| run_parse(src, d, module, None)).map_err(|p| ("panic".to_string(), p))?;
    if let Err((t, (a, b))) = &r1 {
        if !(a <= b && *b <= src.len() && src.is_char_boundary(*a) && src.is_char_boundary(*b)) { return Err(("error-location".into(), format!("{t} at {a}..{b} in text of {} bytes", src.len()))); }
        if t.starts_with("Cancelled") { return Err(("cancelled".into(), "cancellation reported without a request".into())); }
    }
    let r2 = catch(|| run_parse(src, d, module, None)).map_err(|p| ("panic".to_string(), p))?;
    if r1 != r2 { return Err(("nondeterministic".into(), format!("{:.200} / {:.200}", format!("{r1:?}"), format!("{r2:?}")))); }
    let r3 = catch(|| run_parse(src, d, module, Some(Arc::new(AtomicBool::new(false))))).map_err(|p| ("panic".to_string(), p))?;
    if r1 != r3 { return Err(("unset-flag".into(), format!("{:.200} / {:.200}", format!("{r1:?}"), format!("{r3:?}")))); }
    let r4 = catch(|| run_parse(src, d, module, Some(Arc::new(AtomicBool::new(true))))).map_err(|p| ("panic".to_string(), p))?;
    match &r4 { Err((t, (a, b))) if t.starts_with("Cancelled") && a <= b && *b <= src.len() => {} other => return Err(("set-flag".into(), format!("{:.200}", format!("{other:?}")))) }
    if let Some(delay) = mid {
        let f = Arc::new(AtomicBool::new(false));
        let g = f.clone();
        let h = std::thread::spawn(move || { for _ in 0..delay { std::hint::spin_loop(); } g.store(true, Ordering::SeqCst); });
        let r5 = catch(|| run_parse(src, d, module, Some(f))).map_err(|p| ("panic".to_string(), p));
        let _ = h.join();
        let r5 = r5?;
        let cancelled = matches!(&r5, Err((t, _)) if t.starts_with("Cancelled"));
        if !cancelled && r5 != r1 { return Err(("mid-cancel".into(), format!("{:.200} / {:.200}", format!("{r1:?}"), format!("{r5:?}")))); }
    }
    Ok(r1.is_ok())
}
pub struct C01 { corpus: Vec<String> }
impl C01 {
    pub fn new() -> Self { C01 { corpus: corpus() } }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        if let Some(v) = replay {
            let ds: Vec<Dialect> = match v["dialect"].as_str() { Some(d) => vec![dialect_of(d)], None => DIALECTS.to_vec() };
            for d in ds { for module in [false, true] {
                if v["module"].as_bool().map_or(false, |m| m != module) { continue; }
                if let Err((k, m)) = total(v["src"].as_str().unwrap_or(""), d, module, None) { ctx.violation(&k, &m, v.clone()); }
            } }
            return;
        }
        let mut s = ctx.src(i);
        let (src, module, kind) = wild_text(&mut s, &self.corpus);
        ctx.current(&json!({"src":src,"module":module}));
        ctx.observed(src.as_bytes(), true);
        ctx.count(kind);
        for d in DIALECTS {
            let mid = if s.chance(1, 40) { Some(s.below(20000) as u64) } else { None };
            let (t, src2) = (total(&src, d, module, mid), src.clone());
            match t {
                Ok(true) => ctx.count("accepted"),
                Ok(false) => ctx.count("rejected"),
                Err((k, m)) => {
                    let rec = s.rec.clone();
                    let small = shrink(rec, 600, |r| { let (t, md, _) = wild_text(&mut Src::replay(r.to_vec()), &self.corpus); matches!(total(&t, d, md, None), Err((k2, _)) if k2 == k) });
                    let (t, md, _) = wild_text(&mut Src::replay(small), &self.corpus);
                    match total(&t, d, md, None) {
                        Err((k2, m2)) if k2 == k => ctx.violation(&k, &format!("{d:?}: {m2}"), json!({"src":t,"module":md,"dialect":format!("{d:?}")})),
                        _ => ctx.violation(&k, &format!("{d:?}: {m}"), json!({"src":src2,"module":module,"dialect":format!("{d:?}")})),
                    }
                    return;
                }
            }
        }
        ctx.sample(|| json!({"src":src,"kind":kind}));
    }
}

// ---------------------------------------------------------------------------------------- C03
fn loc_of(v: &Value) -> Option<(usize, usize)> {
    let l = v.get("loc")?;
    Some((l.get("start")?.as_u64()? as usize, l.get("end")?.as_u64()? as usize))
}
struct Walk<'a> { src: &'a str, n: usize, err: Option<String> }
impl Walk<'_> {
    fn fail(&mut self, m: String) { if std::env::var("ALLSPANS").is_ok() { let k: String = m.chars().filter(|c| !c.is_ascii_digit()).collect(); let k = k.replace("span ..", ""); let k = k.split(" at /").map(|p| p.rsplit('/').next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" @ "); println!("{}", json!({"t":"viol","kind":k,"msg":m,"case":{"src":self.src}})); return; } if self.err.is_none() { self.err = Some(m); } }
    fn walk(&mut self, v: &Value, parent: Option<(usize, usize)>, path: &str) {
        if self.err.is_some() { return; }
        match v {
            Value::Array(a) => {
                let mut last: Option<(usize, usize)> = None;
                for x in a {
                    let l = loc_of(x).or_else(|| {
                        // list of wrappers: {"pattern": node...}
                        let o = x.as_object()?;
                        let ls: Vec<_> = o.values().filter_map(loc_of).collect();
                        Some((ls.iter().map(|l| l.0).min()?, ls.iter().map(|l| l.1).max()?))
                    });
                    if let Some(l) = l {
                        if let Some(p) = last { if l.0 < p.1 { self.fail(format!("siblings overlap or are out of order at {path}: {p:?} then {l:?}")); return; } }
                        last = Some(l);
                    }
                    self.walk(x, parent, path);
                }
            }
            Value::Object(o) => {
                let mut p = parent;
                if let Some((a, b)) = loc_of(v) {
                    self.n += 1;
                    let name = o.get("$t").or_else(|| o.get("stx").and_then(|s| s.get("$t"))).and_then(|t| t.as_str()).unwrap_or("?");
                    if a > b || b > self.src.len() || !self.src.is_char_boundary(a) || !self.src.is_char_boundary(b) { self.fail(format!("span {a}..{b} of {name} at {path} is not a range of the text ({} bytes)", self.src.len())); return; }
                    if let Some((x, y)) = parent { if a < x || b > y { self.fail(format!("span {a}..{b} of {name} at {path} leaves its parent's {x}..{y}")); return; } }
                    p = Some((a, b));
                }
                for (k, x) in o {
                    if k == "loc" { continue; }
                    let q = if k == "stx" { path.to_string() } else { let t = o.get("$t").and_then(|t| t.as_str()).unwrap_or(""); format!("{path}/{t}.{k}") };
                    self.walk(x, p, &q);
                }
            }
            _ => {}
        }
    }
}
fn spans(src: &str, d: Dialect, module: bool) -> Result<Option<usize>, (String, String)> {
    let r = catch(|| parse_with_options(src, opts(d, module)).ok().map(|a| serde_json::to_value(&a).unwrap_or(Value::Null)));
    let v = match r { Ok(Some(v)) => v, Ok(None) => return Ok(None), Err(_) => return Ok(None) };
    let mut w = Walk { src, n: 0, err: None };
    w.walk(&v, None, "");
    match w.err { Some(e) => Err(("nesting".into(), e)), None => Ok(Some(w.n)) }
}
pub fn c03(ctx: &mut Ctx, i: u64, replay: Option<&Value>) { multi_case(ctx, i, replay, 0, &|src, d, m| spans(src, d, m)) }

fn multi_case(ctx: &mut Ctx, i: u64, replay: Option<&Value>, mutated: usize, f: &dyn Fn(&str, Dialect, bool) -> Result<Option<usize>, (String, String)>) {
    if let Some(v) = replay {
        let d = dialect_of(v["dialect"].as_str().unwrap_or("Js"));
        if let Err((k, m)) = f(v["src"].as_str().unwrap_or(""), d, v["module"].as_bool().unwrap_or(false)) { ctx.violation(&k, &m, v.clone()); }
        return;
    }
    let mut s = ctx.src(i);
    let t = gen_multi(&mut s, mutated);
    ctx.current(&json!({"src":t.src,"module":t.module,"dialect":format!("{:?}", t.dialects[0])}));
    let mut any = false;
    for (di, &d) in t.dialects.iter().enumerate() {
        match f(&t.src, d, t.module) {
            Ok(Some(n)) => { any = true; ctx.add("nodes", n as u64); ctx.count(&format!("{}:{d:?}", t.kind)); }
            Ok(None) => ctx.count(&format!("rejected:{}:{d:?}", t.kind)),
            Err((k, m)) => {
                let small = shrink(s.rec.clone(), 800, |r| { let t = gen_multi(&mut Src::replay(r.to_vec()), mutated); t.dialects.get(di).map_or(false, |&d2| matches!(f(&t.src, d2, t.module), Err((k2, _)) if k2 == k)) });
                let t2 = gen_multi(&mut Src::replay(small), mutated);
                let r = t2.dialects.get(di).map(|&d2| (d2, f(&t2.src, d2, t2.module)));
                match r {
                    Some((d2, Err((_, m2)))) => ctx.violation(&k, &format!("{d2:?}: {m2}"), json!({"src":t2.src,"module":t2.module,"dialect":format!("{d2:?}")})),
                    _ => ctx.violation(&k, &format!("{d:?}: {m}"), json!({"src":t.src,"module":t.module,"dialect":format!("{d:?}")})),
                }
                break;
            }
        }
    }
    ctx.observed(t.src.as_bytes(), any);
    ctx.sample(|| json!({"src":t.src,"kind":t.kind}));
}

// ---------------------------------------------------------------------------------------- C06
/// Removes what printing may change: positions, and purely lexical choices.
fn strip(v: Value) -> Value {
    match v {
        Value::Object(mut o) => {
            if o.contains_key("loc") && o.contains_key("stx") && o.len() == 2 { return strip(o.remove("stx").unwrap()); }
            let mut n = serde_json::Map::new();
            let inner = o.remove("stx");
            for (k, x) in o { if k != "loc" { n.insert(k, strip(x)); } }
            if let Some(x) = inner { match strip(x) { Value::Object(m) => { for (k, y) in m { n.entry(k).or_insert(y); } } y => { n.insert("stx".into(), y); } } }
            Value::Object(n)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
        v => v,
    }
}
fn first_diff(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x { match y.get(k) { None => return Some(format!("{path}.{k} missing")), Some(w) => if let Some(d) = first_diff(v, w, &format!("{path}.{k}")) { return Some(d); } } }
            for k in y.keys() { if !x.contains_key(k) { return Some(format!("{path}.{k} added")); } }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for i in 0..x.len().max(y.len()) {
                match (x.get(i), y.get(i)) { (Some(v), Some(w)) => if let Some(d) = first_diff(v, w, &format!("{path}[{i}]")) { return Some(d); }, _ => return Some(format!("{path}: {} elements became {}", x.len(), y.len())) }
            }
            None
        }
        _ => if a == b { None } else { Some(format!("{path}: {:.80} became {:.80}", a.to_string(), b.to_string())) },
    }
}
fn emit_opts() -> Vec<(&'static str, emit_js::EmitOptions)> {
    use emit_js::*;
    let mut v = vec![];
    for (n, base) in [("minified", EmitOptions::minified()), ("canonical", EmitOptions::canonical())] {
        for (sn, sep) in [("semi", StmtSepStyle::Semicolons), ("asi", StmtSepStyle::AsiNewlines)] {
            for (qn, q) in [("auto", QuoteStyle::Auto), ("double", QuoteStyle::Double), ("single", QuoteStyle::Single)] {
                let name: &'static str = Box::leak(format!("{n}/{sn}/{qn}").into_boxed_str());
                v.push((name, base.with_stmt_sep_style(sep).with_quote_style(q)));
            }
        }
    }
    v
}
thread_local! { static OPTS: Vec<(&'static str, emit_js::EmitOptions)> = emit_opts(); }
fn roundtrip(src: &str, d: Dialect, module: bool, hir: bool) -> Result<Option<usize>, (String, String)> {
    let parse = |t: &str| catch(|| parse_with_options(t, opts(d, module)).map_err(|e| format!("{:?} at {:?}", e.typ, e.loc)));
    let ast = match parse(src) { Ok(Ok(a)) => a, _ => return Ok(None) };
    // error recovery makes trees that have no source text of their own
    if matches!(d, Dialect::Js) || (d == Dialect::Jsx && !src.contains('<')) { if !matches!(catch(|| parse_with_options(src, opts(Dialect::Ecma, module)).is_ok()), Ok(true)) { return Ok(None); } }
    let want = norm(strip(serde_json::to_value(&ast).unwrap_or(Value::Null)));
    let canon = crate::estree::program(&ast).to_string();
    let mut n = 0;
    let all: Vec<_> = OPTS.with(|o| o.clone());
    let pick = (hcommon::hash64(src.as_bytes()) % all.len() as u64) as usize;
    for (k, (name, o)) in all.into_iter().enumerate() {
        // two option sets per text: one always differs between texts
        if k != pick && k != (pick + 7) % 12 { continue; }
        let emit = |a: &crate::syn::Ast| -> Result<Result<String, String>, String> { catch(|| {
            if hir {
                let kind = match d { Dialect::Ts => hir_js::FileKind::Ts, Dialect::Tsx => hir_js::FileKind::Tsx, Dialect::Dts => hir_js::FileKind::Dts, Dialect::Jsx => hir_js::FileKind::Jsx, _ => hir_js::FileKind::Js };
                let low = hir_js::lower_file(diagnostics::FileId(0), kind, a);
                emit_js::emit_hir_file_diagnostic(&low, o).map_err(|e| format!("{e:?}"))
            } else { emit_js::emit_top_level_diagnostic(diagnostics::FileId(0), a, o).map_err(|e| format!("{e:?}")) }
        }) };
        let t1 = match emit(&ast) { Ok(Ok(t)) => t, Ok(Err(_)) => continue, Err(p) => return Err(("panic".into(), format!("{name}: {p}"))) };
        let again = emit(&ast);
        if again != Ok(Ok(t1.clone())) { return Err(("nondeterministic".into(), format!("{name}: {t1:?} / {again:?}"))); }
        let ast2 = match parse(&t1) { Ok(Ok(a)) => a, Ok(Err(e)) => return Err(("reparse".into(), format!("{name}: printed {t1:?} does not parse: {e}"))), Err(p) => return Err(("panic".into(), p)) };
        let same_canon = canon_eq(&canon, &crate::estree::program(&ast2).to_string());
        let got = norm(strip(serde_json::to_value(&ast2).unwrap_or(Value::Null)));
        if hir || matches!(d, Dialect::Js | Dialect::Ecma) {
            if let Some(m) = same_canon { return Err(("changed".into(), format!("{name}: {m}; printed {t1:?}"))); }
        }
        if !hir && !matches!(d, Dialect::Js | Dialect::Ecma) { if let Some(df) = first_diff(&want, &got, "") { return Err(("changed".into(), format!("{name}: {df}; printed {t1:?}"))); } }
        let t2 = match emit(&ast2) { Ok(Ok(t)) => t, other => return Err(("reprint".into(), format!("{name}: {other:?}"))) };
        if t2 != t1 && !(hir && name.starts_with("canonical")) { return Err(("unstable".into(), format!("{name}: {t1:?} then {t2:?}"))); }
        n += t1.len();
    }
    Ok(Some(n.max(1)))
}
fn binds_nothing(p: &Value) -> bool {
    match p["t"].as_str() {
        Some("ObjectPattern") => p["properties"].as_array().map_or(true, |l| l.iter().all(|x| binds_nothing(&x["value"]))),
        Some("ArrayPattern") => p["elements"].as_array().map_or(true, |l| l.iter().all(binds_nothing)),
        Some("RestElement") => binds_nothing(&p["argument"]),
        Some("AssignmentPattern") => binds_nothing(&p["left"]),
        None => p.is_null(),
        _ => false,
    }
}
fn g<'a>(m: &'a serde_json::Map<String, Value>, k: &str) -> &'a Value { m.get(k).unwrap_or(&Value::Null) }
/// Lexical choices the printer is free to make: empty statements, nesting of comma expressions,
/// the raw text of untagged templates, the spelling of property names.
fn canon_strip(v: Value) -> Value {
    match v {
        Value::Object(o) => {
            let t = o.get("t").and_then(|t| t.as_str()).unwrap_or("").to_string();
            let mut n: serde_json::Map<String, Value> = o.into_iter().filter(|(k, _)| k != "l").map(|(k, x)| (k, canon_strip(x))).collect();
            match t.as_str() {
                "TemplateLiteral" => if let Some(Value::Array(q)) = n.get_mut("quasis") { for x in q { if let Value::Array(p) = x { if p.len() > 1 { p.remove(0); } } } },
                "SequenceExpression" => if let Some(Value::Array(l)) = n.remove("expressions") {
                    let mut out = vec![];
                    for x in l { if x["t"] == "SequenceExpression" { if let Value::Array(y) = &x["expressions"] { out.extend(y.iter().cloned()); } } else { out.push(x); } }
                    n.insert("expressions".into(), Value::Array(out));
                },
                _ => {}
            }
            if n.get("computed") == Some(&json!(true)) && g(&n, "key")["t"] == "String" && !["constructor", "__proto__", "prototype"].iter().any(|x| g(&n, "key")["value"] == *x) {
                n.insert("computed".into(), json!(false));
                let k = g(&n, "key")["value"].clone();
                n.insert("key".into(), k);
            }
            // export of a declaration that binds nothing
            if t == "ExportNamedDeclaration" && g(&n, "declaration")["t"] == "VariableDeclaration" && g(&n, "declaration")["declarations"].as_array().map_or(false, |l| l.iter().all(|d| binds_nothing(&d["id"]))) { return g(&n, "declaration").clone(); }
            if t == "YieldExpression" && g(&n, "argument")["name"] == "undefined" { n.insert("argument".into(), Value::Null); }
            for k in ["body", "consequent"] { if let Some(Value::Array(l)) = n.get_mut(k) { l.retain(|x| x["t"] != "EmptyStatement"); } }
            // for(..){{..}}: the syntax tree has no block for the loop body
            if t.starts_with("For") { while g(&n, "body").as_array().map_or(false, |b| b.len() == 1 && b[0]["t"] == "BlockStatement") { let b = g(&n, "body")[0]["body"].clone(); n.insert("body".into(), b); } }
            Value::Object(n)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(canon_strip).collect()),
        v => v,
    }
}
fn entities(s: &str) -> String { s.replace("&quot;", "\"").replace("&#xA;", "\n").replace("&#34;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&lt;", "<").replace("&gt;", ">").replace("&#123;", "{").replace("&#125;", "}").replace("&amp;", "&") }
/// The same for the serialised syntax tree of the TypeScript and JSX dialects.
fn norm(v: Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut n: serde_json::Map<String, Value> = o.into_iter().map(|(k, x)| (k, norm(x))).collect();
            let t = n.get("$t").and_then(|t| t.as_str()).unwrap_or("").to_string();
            if t == "ParenthesizedType" { if let Some(x) = n.remove("type_expr") { return x; } }
            if t == "Binary" && *g(&n, "operator") == "Comma" {
                let mut out = vec![];
                for k in ["left", "right"] { let x = n.remove(k).unwrap_or(Value::Null); if x["$t"] == "Commas" { if let Value::Array(y) = &x["list"] { out.extend(y.iter().cloned()); } } else { out.push(x); } }
                return json!({"$t":"Commas","list":out});
            }
            if n.len() == 2 && n.contains_key("key") && n.contains_key("tt") { let private = *g(&n, "tt") == "PrivateMember"; n.insert("tt".into(), json!(private)); }
            if let Some(Value::Object(x)) = n.get_mut("Text") { if let Some(Value::String(y)) = x.get_mut("value") { *y = entities(y); } }
            // text around an empty expression container has no separator in the syntax tree
            if let Some(Value::Array(l)) = n.get_mut("children") {
                let mut out: Vec<Value> = vec![];
                for x in std::mem::take(l) {
                    if let (Some(y), Some(z)) = (x["Text"]["value"].as_str(), out.last().and_then(|o| o["Text"]["value"].as_str())) { let t = format!("{z}{y}"); out.pop(); out.push(json!({"Text":{"value":t}})); } else { out.push(x); }
                }
                *l = out;
            }
            // for(..){{..}}: the syntax tree has no block for the loop body
            if n.len() == 1 { while n.get("body").and_then(|b| b.as_array()).map_or(false, |b| b.len() == 1 && b[0]["$t"] == "Block") { let b = n["body"][0]["body"].clone(); n.insert("body".into(), b); } }
            Value::Object(n)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(norm).filter(|x| !(x["$t"] == "Empty" && x.as_object().map_or(false, |o| o.len() == 1))).collect()),
        v => v,
    }
}
fn canon_eq(a: &str, b: &str) -> Option<String> {
    let (x, y): (Value, Value) = (serde_json::from_str(a).unwrap_or(Value::Null), serde_json::from_str(b).unwrap_or(Value::Null));
    first_diff(&canon_strip(x), &canon_strip(y), "")
}
pub fn c06(ctx: &mut Ctx, i: u64, replay: Option<&Value>) { multi_case(ctx, i, replay, 0, &|src, d, m| roundtrip(src, d, m, false)) }
pub fn c06h(ctx: &mut Ctx, i: u64, replay: Option<&Value>) { multi_case(ctx, i, replay, 0, &|src, d, m| if matches!(d, Dialect::Js | Dialect::Ecma | Dialect::Jsx) { roundtrip(src, d, m, true) } else { Ok(None) }) }
#[allow(dead_code)]
pub fn text_of(t: Text) -> String { t.src }
