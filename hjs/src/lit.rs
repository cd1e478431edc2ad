//! C04: the decoded value of every literal spelling is the value V8 computes; the printed literal too.
use crate::estree;
use crate::syn::{opts, Ast};
use emit_js::{emit_top_level_diagnostic, EmitOptions, QuoteStyle};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node, Src, Value};
use parse_js::{parse_with_options, Dialect};

#[derive(Clone)]
struct Lit { text: String, form: u8, strict: bool }
impl Lit {
    fn src(&self) -> String {
        match self.form { 1 => format!("({{{}:0}})", self.text), 2 => format!("(t{})", self.text), 3 => format!("({{{}(){{}}}})", self.text), _ => format!("({})", self.text) }
    }
}
fn pick_str(s: &mut Src, n: usize, set: &[&str]) -> String { let k = s.below(n + 1); (0..k).map(|_| *s.pick(set)).collect() }

fn number(s: &mut Src) -> String {
    let dec = ["0", "1", "9", "5", "4", "7", "00", "_", "2", "8", "3", "6"];
    let digits = |s: &mut Src, n: usize| -> String { let k = 1 + s.below(n); (0..k).map(|i| if i > 0 && s.chance(1, 14) { "_".to_string() } else { char::from(b'0' + s.below(10) as u8).to_string() }).collect() };
    match s.below(16) {
        0 | 1 => { // near a rounding boundary: exact decimal expansion of a double or of a midpoint, last digits nudged
            let e = s.below(2046) as u64; let m = ((s.below(1 << 26) as u64) << 26) | s.below(1 << 26) as u64;
            let x = f64::from_bits(((if s.chance(1, 2) { 1000 + e % 60 } else { e }) << 52) | if s.chance(1, 3) { m & 3 } else { m });
            let y = f64::from_bits(x.to_bits() + 1);
            let exact = if x.abs() > 1e-30 && x.abs() < 1e30 { if s.chance(1, 2) { mid(x, y) } else { format!("{x:.80}") } } else { format!("{x:e}") };
            match s.below(3) { 0 => exact, 1 => { let mut b = exact.into_bytes(); if let Some(l) = b.iter_mut().rev().find(|c| c.is_ascii_digit()) { *l = b'0' + s.below(10) as u8; } String::from_utf8(b).unwrap() } _ => format!("{}1", exact.trim_end_matches('0')) }
        }
        2 => format!("0{}{}", s.pick(&["x", "X"]), { let k = 1 + s.below(24); (0..k).map(|_| *s.pick(&["0", "1", "8", "f", "F", "a", "9", "_", "c", "e", "7", "b"])).collect::<String>() }),
        3 => format!("0{}{}", s.pick(&["o", "O"]), { let k = 1 + s.below(30); (0..k).map(|_| *s.pick(&["0", "1", "7", "4", "_", "3", "5", "8"])).collect::<String>() }),
        4 => format!("0{}{}", s.pick(&["b", "B"]), { let k = 1 + s.below(80); (0..k).map(|_| *s.pick(&["0", "1", "1", "0", "_", "0", "1", "0", "1", "0", "2"])).collect::<String>() }),
        5 => format!("{}n", digits(s, 40)),
        6 => format!("0{}{}n", s.pick(&["x", "o", "b", "X", "B", "O", ""]), { let k = 1 + s.below(50); (0..k).map(|_| *s.pick(&["0", "1", "1", "0", "_", "7", "a"])).collect::<String>() }),
        7 => format!("0{}", { let k = 1 + s.below(24); (0..k).map(|_| char::from(b'0' + s.below(8) as u8)).collect::<String>() }),
        8 => format!("0{}{}", digits(s, 5), s.pick(&["", "8", "9", ".5", "8.5", "9e3", "n", "_1", "e1", "."])),
        9 => format!(".{}{}", digits(s, 24), s.pick(&["", "e5", "e-3", "E+10", "e", "_", "n", "e1_0", "e400", "e-400"])),
        10 => format!("{}.{}", digits(s, 20), s.pick(&["", "_1", "1_", "e5", "e_5", "0e-0", "5E+", "n", "0000000000000000000000000001"])),
        11 => format!("{}.{}e{}{}", digits(s, 18), digits(s, 18), s.pick(&["", "+", "-"]), s.below(345)),
        12 => format!("{}e{}{}", digits(s, 20), s.pick(&["", "+", "-"]), s.pick(&["0", "5", "21", "22", "23", "300", "308", "309", "323", "324", "325", "400", "99999999999", "0000001", "1_0", "00", ""])),
        13 => format!("{}{}", digits(s, 30), s.pick(&["", ".5", ".", "e0"])),
        14 => { let mut o = String::from(*s.pick(&["1", "0", ".", "9"])); o.push_str(&pick_str(s, 8, &["0", "1", "9", ".", "_", "e", "E", "e+", "e-", "n", "x", "b", "8", "7"])); o }
        _ => pick_str(s, 30, &dec),
    }
}
/// Exact decimal of the midpoint of two neighbouring doubles.
fn mid(x: f64, y: f64) -> String {
    // both expansions are exact with enough digits; add them as decimal strings and halve
    let (a, b) = (format!("{x:.100}"), format!("{y:.100}"));
    let (a, b): (Vec<u8>, Vec<u8>) = (a.bytes().filter(|c| *c != b'.').map(|c| c - b'0').collect(), b.bytes().filter(|c| *c != b'.').map(|c| c - b'0').collect());
    let n = a.len().max(b.len());
    let at = |v: &Vec<u8>, i: usize| -> u8 { if i + v.len() >= n { v[i + v.len() - n] } else { 0 } };
    let mut sum = vec![0u8; n + 1]; let mut c = 0;
    for i in (0..n).rev() { let t = at(&a, i) + at(&b, i) + c; sum[i + 1] = t % 10; c = t / 10; }
    sum[0] = c;
    let mut half = vec![]; let mut r = 0;
    for d in sum { let t = r * 10 + d; half.push(t / 2); r = t % 2; }
    let s: String = half.iter().map(|d| (b'0' + d) as char).collect();
    let k = s.len() - 100;
    let i = s[..k].trim_start_matches('0');
    format!("{}.{}{}", if i.is_empty() { "0" } else { i }, &s[k..], if r == 1 { "5" } else { "" })
}
const ESC: &[&str] = &["\\n", "\\r", "\\t", "\\b", "\\v", "\\f", "\\0", "\\'", "\\\"", "\\`", "\\\\", "\\$", "\\a", "\\é", "\\/", "\\\n", "\\\r\n", "\\\r", "\\\u{2028}", "\\\u{2029}", "\\8", "\\9", "\\00", "\\01", "\\7", "\\08", "\\018", "\\377", "\\400", "\\777", "\\37", "\\4", "\\47", "\\x", "\\x4", "\\xg1", "\\u", "\\u12", "\\u{", "\\u{}", "\\u{110000}", "\\u{10FFFF}", "\\u{00000000061}", "\\u{d800}", "\\u{dc00}", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\uD83D\\u{de00}", "\\u{1f600}", "\\ud83dx", "\\c", "\\u{6_1}", "\\1", "\\u0061"];
const RAW: &[&str] = &["a", "b", "0", "1", "7", "8", " ", "$", "{", "}", "é", "😀", "變", "\u{2028}", "\u{2029}", "\u{a0}", "\u{feff}", "\t", "\u{0}", "\u{7f}", "\u{1}", "\u{b}", "</script>", "<!--", "//", "/*", "\u{85}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "e\u{301}", "n", "x", "u", "'", "\"", "\u{d7ff}", "\u{e000}"];
fn string(s: &mut Src) -> String {
    let q = *s.pick(&["'", "\""]);
    let mut o = String::from(q);
    for _ in 0..s.below(7) {
        let e = match s.below(8) {
            0 => format!("\\x{:02x}", s.below(256)),
            1 => format!("\\u{:04x}", s.below(0x10000)),
            2 => format!("\\u{{{:x}}}", s.below(0x110000)),
            3 => format!("\\{:o}", s.below(512)),
            4 | 5 => s.pick(ESC).to_string(),
            6 if s.chance(1, 30) => s.pick(&["\n", "\r", "\r\n"]).to_string(),
            _ => s.pick(RAW).to_string(),
        };
        o.push_str(&if e == q { format!("\\{e}") } else { e });
    }
    o.push_str(q);
    o
}
fn template(s: &mut Src) -> String {
    let mut o = String::from("`");
    for _ in 0..s.below(8) {
        match s.below(10) {
            0 => o.push_str("${0}"),
            1 => o.push_str(&format!("\\u{:04x}", s.below(0x10000))),
            2 => o.push_str(&format!("\\x{:02x}", s.below(256))),
            3 | 4 => o.push_str(*s.pick(ESC)),
            5 => o.push_str(*s.pick(&["\n", "\r", "\r\n", "$", "$$", "{", "\\${", "\n\r", "\r\r\n", "\\\r\n", "${'`'}", "${`x${1}`}"])),
            _ => o.push_str(*s.pick(RAW)),
        }
    }
    // `$` followed by a raw `{` opens a substitution: keep it balanced
    let o = o.replace("${", "\u{1}").replace("$\u{1}", "$$\u{1}");
    let mut r = o.replace('\u{1}', "${");
    r.push('`');
    r
}
fn regex(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..1 + s.below(5) { o.push_str(*s.pick(&["a", "[/]", "\\/", "[^\\]/]", "(?:x)", "(?<n>y)", "\\d", "=", "\\u0061", "\\cA", "[\\\\/]", "\\[", "\\\\", ".", "é", "😀", "[a-z]", "|", "b+", "\\x41", "\\0", "[*/]", " ", "//".trim_start_matches('/').trim(), "`", "'", "\"", "\\`", "$", "\u{a0}", "<", "</script>".trim_start_matches("</"), "{1,2}"])); }
    if o.is_empty() || o.starts_with('*') || o.starts_with('/') { o = format!("a{o}"); }
    format!("/{o}/{}", s.pick(&["", "g", "i", "m", "s", "u", "y", "d", "v", "gi", "gimsuyd", "ug", "gg", "uv", "x", "\\u0067", "gimsvyd"]))
}
fn gen(s: &mut Src) -> Lit {
    let strict = s.chance(1, 3);
    let (text, form) = match s.below(12) {
        0..=3 => (number(s), if s.chance(1, 4) { if s.chance(1, 3) { 3 } else { 1 } } else { 0 }),
        4..=7 => (string(s), if s.chance(1, 4) { if s.chance(1, 3) { 3 } else { 1 } } else { 0 }),
        8..=10 => (template(s), if s.chance(1, 2) { 2 } else { 0 }),
        _ => (regex(s), 0),
    };
    Lit { text, form, strict }
}
fn units(v: &Value) -> Value { match v { Value::String(x) => json!(x.encode_utf16().collect::<Vec<u16>>()), v => v.clone() } }
/// The value on the tree, in the oracle's notation.
fn on_tree(a: &Ast, form: u8) -> Option<Value> {
    let v = estree::program(a);
    let mut e = &v["body"][v["body"].as_array()?.len() - 1]["expression"];
    if v["body"].as_array()?.len() > 2 { return None; }
    while e["t"] == "ParenthesizedExpression" { e = &e["expression"]; }
    Some(match (form, e["t"].as_str()?) {
        (0, "Number") => json!({"n": e["value"]}),
        (0, "BigInt") => json!({"i": e["value"]}),
        (0, "String") => json!({"s": units(&e["value"])}),
        (0, "RegExp") => {
            let t = e["value"].as_str()?;
            let k = t.rfind('/')?;
            let mut f: Vec<char> = t.get(k + 1..)?.chars().collect();
            f.sort();
            json!({"r": t.get(1..k)?.encode_utf16().collect::<Vec<u16>>(), "f": f.into_iter().collect::<String>()})
        }
        (0, "TemplateLiteral") => {
            let q = e["quasis"].as_array()?;
            if q.len() != 1 { return None; }
            json!({"s": units(&q[0][1])})
        }
        (2, "TaggedTemplateExpression") => {
            let q = e["quasis"].as_array()?;
            json!({"cooked": q.iter().map(|x| units(&x[1])).collect::<Vec<_>>(), "raw": q.iter().map(|x| units(&x[0])).collect::<Vec<_>>()})
        }
        (1 | 3, "ObjectExpression") => {
            let p = e["properties"].as_array()?;
            if p.len() != 1 || p[0]["computed"] == true || p[0]["shorthand"] == true { return None; }
            if p[0]["key"].is_object() { return None; }
            json!({"k": [units(&p[0]["key"])]})
        }
        _ => return None,
    })
}
pub struct C04 { node: Node }
const BATCH: usize = 60;
type Verdict = Result<Option<&'static str>, (String, String)>;
impl C04 {
    pub fn new() -> Self { C04 { node: Node::new("main.mjs") } }
    fn judge(&mut self, ls: &[Lit]) -> Vec<Verdict> {
        let mut cases = vec![];
        let mut refs = vec![];
        for (i, l) in ls.iter().enumerate() {
            cases.push(json!({"src": l.src(), "strict": l.strict}));
            refs.push((i, None::<String>));
        }
        let mut parsed = vec![];
        for (i, l) in ls.iter().enumerate() {
            let text = format!("{}{}", if l.strict { "'use strict';" } else { "" }, l.src());
            let p: Vec<(Dialect, Result<Result<Ast, String>, String>)> = [Dialect::Ecma, Dialect::Js, Dialect::Ts].into_iter().map(|d| (d, catch(|| parse_with_options(&text, opts(d, false)).map_err(|e| format!("{:?} at {:?}", e.typ, e.loc))))).collect();
            if let Ok(Ok(a)) = &p[0].1 {
                for (name, o) in [("minified", EmitOptions::minified()), ("canonical", EmitOptions::canonical()), ("single", EmitOptions::minified().with_quote_style(QuoteStyle::Single)), ("double", EmitOptions::canonical().with_quote_style(QuoteStyle::Double))] {
                    if let Ok(Ok(t)) = catch(|| emit_top_level_diagnostic(diagnostics::FileId(0), a, o)) {
                        cases.push(json!({"src": t, "strict": false}));
                        refs.push((i, Some(format!("{name} {t:?}"))));
                    }
                }
            }
            parsed.push(p);
        }
        let mut res: Vec<Verdict> = ls.iter().map(|_| Ok(None)).collect();
        let Some(r) = self.node.ask(&json!({"op":"lit","cases":cases})) else { return res };
        for (k, (i, emitted)) in refs.iter().enumerate() {
            let got = &r["results"][k];
            if let Some(name) = emitted {
                if res[*i].is_ok() && r["results"][*i].get("rejected").is_none() && *got != r["results"][*i] { res[*i] = Err(("printed".into(), format!("{name}: {got} instead of {}", r["results"][*i]))); }
                continue;
            }
            let l = &ls[*i];
            let want = got;
            if want.get("thrown").is_some() || want.get("u").is_some() { continue; }
            for (d, p) in &parsed[*i] {
                let v: Verdict = match (p, want.get("rejected").and_then(|m| m.as_str())) {
                    (Err(m), _) => Err(("panic".into(), format!("{d:?}: {m}"))),
                    (_, Some(m)) if m.contains("Invalid regular expression:") => Ok(None),
                    (Ok(Err(_)), Some(_)) => Ok(Some("rejected")),
                    (Ok(Ok(_)), Some(m)) if *d == Dialect::Ecma => Err(("accepts-invalid".into(), m.to_string())),
                    (Ok(Ok(_)), Some(_)) => Ok(None),
                    (Ok(Err(e)), None) => Err(("rejects-valid".into(), format!("{d:?}: {e}"))),
                    (Ok(Ok(a)), None) => match on_tree(a, l.form) {
                        None => Ok(None),
                        Some(v) if v == *want => Ok(Some("agreed")),
                        Some(v) => {
                            // V8's source of a regex escapes / and line terminators
                            let sorted = |x: &Value| { let mut f: Vec<char> = x.as_str().unwrap_or("").chars().collect(); f.sort(); f };
                            let eq = want.get("r").is_some() && sorted(&v["f"]) == sorted(&want["f"]) && v["r"] == want["r"];
                            if eq { Ok(Some("agreed")) } else { Err(("value".into(), format!("{d:?}: tree has {v}, V8 {want}"))) }
                        }
                    },
                };
                if res[*i].is_ok() && (v.is_err() || v != Ok(None)) { res[*i] = v; }
            }
        }
        res
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut recs = vec![];
        let ls: Vec<Lit> = match replay {
            Some(v) => vec![Lit { text: v["text"].as_str().unwrap_or("").into(), form: v["form"].as_u64().unwrap_or(0) as u8, strict: v["strict"] == true }],
            None => (0..BATCH as u64).map(|k| { let mut s = ctx.src(i * BATCH as u64 + k); let l = gen(&mut s); recs.push(s.rec); l }).collect(),
        };
        ctx.current(&json!({"text": ls[0].text, "form": ls[0].form, "strict": ls[0].strict}));
        for (k, v) in self.judge(&ls).into_iter().enumerate() {
            let l = &ls[k];
            ctx.observed(l.src().as_bytes(), matches!(v, Ok(Some(_))));
            match v {
                Ok(Some(w)) => { ctx.count(w); ctx.sample(|| json!({"literal": l.src(), "strict": l.strict, "verdict": w})); }
                Ok(None) => ctx.count("skip"),
                Err((kind, msg)) => {
                    let (mut best, mut m) = (l.clone(), msg);
                    if let Some(rec) = recs.get(k) {
                        let small = shrink(rec.clone(), 300, |r| { let t = gen(&mut Src::replay(r.to_vec())); matches!(self.judge(&[t]).pop(), Some(Err((k2, _))) if k2 == kind) });
                        let t = gen(&mut Src::replay(small));
                        if let Some(Err((_, m2))) = self.judge(&[t.clone()]).pop() { best = t; m = m2; }
                    }
                    ctx.violation(&kind, &format!("{} : {m}", best.src()), json!({"text": best.text, "form": best.form, "strict": best.strict}));
                }
            }
        }
    }
}
