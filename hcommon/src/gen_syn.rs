//! Grammar-driven generator of ECMAScript source text with free layout. Programs are usually valid;
//! validity is always decided by the reference parsers, never assumed.
use crate::src::Src;

#[derive(Clone, Copy, Default)]
struct Cx { asy: bool, gen: bool, func: bool, loop_: bool, switch: bool, class: bool, strict: bool, ctor: bool, method: bool, no_in: bool, depth: u32 }

pub struct Syn<'a> {
    s: &'a mut Src,
    t: Vec<String>,
    pub module: bool,
    fuel: i32,
    c: Cx,
    labels: Vec<(String, bool)>,
    privs: Vec<String>,
    n: u32,
    wild: bool,
    /// leave constructs out that the code under test is known not to support
    pub no_using: bool,
}

const IDENTS: &[&str] = &["a", "b", "c", "x", "y", "foo", "$", "_", "$1", "Abc", "undefined", "NaN"];
const CONTEXTUAL: &[&str] = &["async", "of", "get", "set", "from", "as", "type", "target", "meta", "accessor", "using", "declare", "namespace", "module", "abstract", "readonly", "constructor", "global", "is", "keyof", "infer", "unique", "satisfies", "asserts", "override", "out", "any", "string", "number", "require", "defer", "source", "prototype", "eval2"];
const SLOPPY: &[&str] = &["let", "static", "yield", "await", "implements", "interface", "package", "private", "protected", "public"];
const UNI: &[&str] = &["é", "π", "ℵ", "变量", "𠮷", "\\u0061b", "\\u{62}", "ab\u{200d}c", "ꭥ"];
const KEYWORDS: &[&str] = &["if", "else", "for", "while", "do", "break", "continue", "return", "throw", "try", "catch", "finally", "switch", "case", "default", "var", "const", "function", "class", "extends", "super", "new", "delete", "typeof", "void", "in", "instanceof", "this", "null", "true", "false", "import", "export", "with", "debugger", "enum"];

impl<'a> Syn<'a> {
    pub fn new(s: &'a mut Src, module: bool) -> Self {
        Syn { s, t: vec![], module, fuel: 0, c: Cx::default(), labels: vec![], privs: vec![], n: 0, wild: false, no_using: false }
    }
    fn p(&mut self, x: &str) { self.t.push(x.to_string()); }
    fn ps(&mut self, x: &[&str]) { for y in x { self.p(y); } }
    fn ch(&mut self, a: usize, b: usize) -> bool { self.s.chance(a, b) }
    fn strict(&self) -> bool { self.module || self.c.strict || self.c.class }

    fn fresh(&mut self) -> String { self.n += 1; format!("v{}", self.n) }
    fn ident_ref(&mut self) -> String {
        match self.s.below(30) {
            0 | 1 => self.s.pick(CONTEXTUAL).to_string(),
            2 if !self.strict() => { let w = *self.s.pick(SLOPPY); if (w == "yield" && self.c.gen) || (w == "await" && self.c.asy) || w == "let" { "x".into() } else { w.into() } }
            3 => self.s.pick(UNI).to_string(),
            4 if self.c.func => "arguments".into(),
            _ => self.s.pick(IDENTS).to_string(),
        }
    }
    fn binding(&mut self) -> String {
        match self.s.below(24) {
            0 => format!("{}{}", self.s.pick(CONTEXTUAL), { self.n += 1; self.n }),
            1 => { self.n += 1; format!("{}{}", self.s.pick(&["é", "π", "𠮷", "\\u0061"]), self.n) }
            2 if self.wild => self.s.pick(KEYWORDS).to_string(),
            3 => self.s.pick(CONTEXTUAL).to_string(),
            _ => self.fresh(),
        }
    }
    fn ident_name(&mut self) -> String {
        match self.s.below(6) { 0 => self.s.pick(KEYWORDS).to_string(), 1 => self.s.pick(CONTEXTUAL).to_string(), 2 => self.s.pick(SLOPPY).to_string(), _ => self.ident_ref() }
    }

    // ---------------------------------------------------------------- literals
    pub fn number(&mut self) -> String {
        let d = |s: &mut Src, n: usize, set: &str| -> String {
            let k = 1 + s.below(n);
            let cs: Vec<char> = set.chars().collect();
            let mut o = String::new();
            for i in 0..k { if i > 0 && s.chance(1, 8) { o.push('_'); } o.push(*s.pick(&cs)); }
            o
        };
        let dec = "0123456789";
        match self.s.below(14) {
            0 => format!("0{}{}", self.s.pick(&["x", "X"]), d(self.s, 16, "0123456789abcdefABCDEF")),
            1 => format!("0{}{}", self.s.pick(&["o", "O"]), d(self.s, 12, "01234567")),
            2 => format!("0{}{}", self.s.pick(&["b", "B"]), d(self.s, 60, "01")),
            3 => format!("{}n", { let x = d(self.s, 25, dec); let y = x.trim_start_matches(['0', '_']).to_string(); if y.is_empty() { "0".into() } else { y } }),
            4 => format!("0{}{}n", self.s.pick(&["x", "o", "b"]), d(self.s, 20, "01")),
            5 if !self.strict() => format!("0{}", d(self.s, 6, "01234567").replace('_', "")),
            6 if !self.strict() => format!("0{}{}", d(self.s, 4, "0123456789").replace('_', ""), self.s.pick(&["", "8", "9", "8.5", "9e3"])),
            7 => format!(".{}", d(self.s, 20, dec)),
            8 => format!("{}.", self.s.below(1000)),
            9 => format!("{}.{}", self.s.below(100000), d(self.s, 22, dec)),
            10 => format!("{}{}{}{}", self.s.below(1000), self.s.pick(&["", ".5", ".25", "."]), self.s.pick(&["e", "E", "e+", "e-", "E-"]), { let n = self.s.below(400); n }),
            11 => self.s.pick(&["1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "9007199254740993", "9007199254740992.5", "0.1", "1e21", "123456789012345680000", "0x1fffffffffffff8", "0x20000000000001", "4.35", "2.2250738585072011e-308", "0b1" , "0e0", "0.0", "1_0.0_1e1_0"]).to_string(),
            12 => { let x = d(self.s, 30, dec); let y = x.trim_start_matches(['0', '_']).to_string(); if y.is_empty() { "0".into() } else { y } }
            _ => self.s.below(100).to_string(),
        }
    }
    fn esc(&mut self, tpl: bool) -> String {
        match self.s.below(24) {
            0 => format!("\\x{:02x}", self.s.below(256)),
            1 => format!("\\u{:04X}", self.s.below(0x10000)),
            2 => format!("\\u{{{:x}}}", self.s.below(0x110000)),
            3 => format!("\\u{{0000{:X}}}", self.s.below(0x300)),
            4 => "\\\n".into(),
            5 => "\\\r\n".into(),
            6 => "\\\u{2028}".into(),
            7 => if self.strict() && self.s.chance(1, 3) { "\\x008".into() } else { "\\0".into() },
            8 if !self.strict() && !tpl => format!("\\{:o}", self.s.below(256)),
            9 if !self.strict() && !tpl => self.s.pick(&["\\8", "\\9", "\\08", "\\400", "\\777", "\\00"]).to_string(),
            10 => self.s.pick(&["\\n", "\\r", "\\t", "\\b", "\\v", "\\f", "\\'", "\\\"", "\\`", "\\\\", "\\$", "\\{", "\\a", "\\é", "\\-", "\\/"]).to_string(),
            11 => "\\ud83d\\ude00".into(),
            12 => self.s.pick(&["\\ud83d", "\\udc00", "\\uDFFF\\uD800"]).to_string(),
            13 => self.s.pick(&["é", "變", "😀", "\u{2028}", "\u{2029}", "\u{a0}", "\u{feff}", "\t", "\u{0}", "\u{7f}"]).to_string(),
            14 if tpl => self.s.pick(&["\n", "\r\n", "\r", "$", "{", "$$", "}", "\\${"]).to_string(),
            _ => self.s.pick(&["a", "b", "0", "8", "9", " ", "use", "</script>", "/*", "//", "#", "Z9", "\"", "'"]).to_string(),
        }
    }
    pub fn string(&mut self) -> String {
        let q = *self.s.pick(&["'", "\""]);
        let mut o = String::from(q);
        for _ in 0..self.s.below(5) {
            let mut e = self.esc(false);
            if e == q { e = format!("\\{e}"); }
            // a digit after \0 or an octal escape changes the escape: keep that possible
            o.push_str(&e);
        }
        o.push_str(q);
        o
    }
    pub fn regex(&mut self) -> String {
        let body = *self.s.pick(&["a", "[/]", "a|b", "(?:x)+", "(?<n>y)\\k<n>", "\\/", "[^\\]]*", "\\d{1,3}", "^$", "a*?", "(?=x)", "(?<=x)y", "[a-z0-9_]", "\\u0061", "=", "[[]", "\\p{L}", ".", "\\b\\B", "(a)\\1", "é", "\\cA", "[\\b]", "x{2,}", "(?!q)z", "\\x41", "[=/]"]);
        let flags = *self.s.pick(&["", "g", "i", "gi", "m", "s", "u", "y", "d", "v", "gimsuyd"]);
        let flags = if body.contains("\\p") { "u" } else if flags == "v" && (body.contains("[[]") || body.contains("/]")) { "" } else { flags };
        format!("/{body}/{flags}")
    }
    fn template(&mut self, tagged: bool) {
        // a template is one token up to its substitutions, so text parts are pushed glued
        let mut o = String::from("`");
        for _ in 0..self.s.below(4) { o.push_str(&self.tpl_part(tagged)); }
        for _ in 0..self.s.below(3) {
            o.push_str("${");
            let save = std::mem::take(&mut self.t);
            let no_in = std::mem::replace(&mut self.c.no_in, false);
            self.expr(0);
            self.c.no_in = no_in;
            let toks = std::mem::replace(&mut self.t, save);
            o.push_str(&self.layout_inline(&toks));
            o.push('}');
            for _ in 0..self.s.below(3) { o.push_str(&self.tpl_part(tagged)); }
        }
        o.push('`');
        self.t.push(o);
    }
    fn tpl_part(&mut self, tagged: bool) -> String {
        if tagged && self.ch(1, 5) { return self.s.pick(&["\\u", "\\x1", "\\u{", "\\1", "\\u{110000}", "\\8", "\\xg", "\\u00"]).to_string(); }
        let e = self.esc(true);
        if e == "$" { "\\$".into() } else { e }
    }
    fn layout_inline(&mut self, toks: &[String]) -> String {
        let mut o = String::new();
        for t in toks { if !o.is_empty() { o.push_str(if self.s.chance(1, 10) { "\n" } else { " " }); } o.push_str(t); }
        o
    }

    // ---------------------------------------------------------------- expressions
    /// min: 0 comma, 1 assignment, 3 coalesce/or .. 14 unary, 16 postfix, 17 new/call, 18 member, 19 primary
    fn paren(&mut self, f: impl FnOnce(&mut Self)) { self.p("("); let no_in = std::mem::replace(&mut self.c.no_in, false); f(self); self.c.no_in = no_in; self.p(")"); }
    pub fn expr(&mut self, min: u32) {
        self.fuel -= 1;
        self.c.depth += 1;
        if self.fuel <= 0 || self.c.depth > 12 { self.primary_leaf(); self.c.depth -= 1; return; }
        self.expr_(min);
        self.c.depth -= 1;
    }
    fn at(&mut self, level: u32, min: u32, f: impl FnOnce(&mut Self)) {
        if level < min && !(self.wild && self.ch(1, 3)) { self.paren(f) } else { f(self) }
    }
    fn expr_(&mut self, min: u32) {
        match self.s.below(40) {
            0..=5 => self.primary_leaf(),
            6 => self.at(0, min, |g| { g.expr(1); g.p(","); g.expr(1); if g.ch(1, 3) { g.p(","); g.expr(1); } }),
            7 | 8 => self.at(1, min, |g| { g.assign_target(); let o = *g.s.pick(&["=", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="]); if o == "=" || !g.t.last().is_some_and(|t| t == "]" || t == "}") { g.p(o); } else { g.p("="); } g.expr(1); }),
            9 => self.at(1, min, |g| { g.expr(3); g.p("?"); let n = std::mem::replace(&mut g.c.no_in, false); g.expr(1); g.c.no_in = n; g.p(":"); g.expr(1); }),
            10 | 11 => self.at(1, min, |g| g.arrow()),
            12 if self.c.gen => self.at(1, min, |g| { g.p("yield"); match g.s.below(3) { 0 => {} 1 => { g.p("*"); g.expr(1) } _ => { g.p("\u{1}"); g.expr(1) } } }),
            13 => { let l = *self.s.pick(&[3, 4, 5]); self.at(3, min, |g| match l { 3 => { g.expr(4); g.p("||"); g.expr(4); } 4 => { g.expr(5); g.p("&&"); g.expr(6); } _ => { g.expr(6); g.p("??"); g.expr(6); if g.ch(1, 2) { g.p("??"); g.expr(6); } } }) }
            14..=19 => {
                let (l, ops): (u32, &[&str]) = match self.s.below(8) { 0 => (6, &["|"]), 1 => (7, &["^"]), 2 => (8, &["&"]), 3 => (9, &["==", "!=", "===", "!=="]), 4 => (10, &["<", ">", "<=", ">=", "instanceof", "in"]), 5 => (11, &["<<", ">>", ">>>"]), 6 => (12, &["+", "-"]), _ => (13, &["*", "/", "%"]) };
                let mut o = *self.s.pick(ops);
                if o == "in" && self.c.no_in { o = "<"; }
                if o == "in" && !self.privs.is_empty() && self.ch(1, 3) { let k = self.s.pick(&self.privs.clone()).clone(); return self.at(10, min, |g| { g.p(&k); g.p("in"); g.expr(11); }); }
                self.at(l, min, |g| { g.expr(l); g.p(o); g.expr(l + 1); })
            }
            20 => self.at(14, min.max(if min > 14 { 99 } else { 0 }), |g| { g.expr(16); g.p("**"); g.expr(14); }),
            21 | 22 => { let o = *self.s.pick(&["!", "~", "-", "+", "typeof", "void", "delete"]); self.at(14, min, |g| { g.p(o); if o == "delete" { g.expr(18); g.p("."); g.p("q"); } else { g.expr(14); } }) }
            23 if self.c.asy => self.at(14, min, |g| { g.p("await"); g.expr(14); }),
            24 => { let o = *self.s.pick(&["++", "--"]); if self.ch(1, 2) { self.at(14, min, |g| { g.p(o); g.simple_target(); }) } else { self.at(16, min, |g| { g.simple_target(); g.p("\u{1}"); g.p(o); }) } }
            25..=28 => self.at(17, min, |g| { g.callee(); let tail = g.s.below(3); g.args(); for _ in 0..tail { g.tail(); } }),
            29 => self.at(17, min, |g| { g.callee(); g.p("?."); match g.s.below(4) { 0 => g.args(), 1 => { g.p("["); g.in_br(); g.p("]"); } 2 if !g.privs.is_empty() => { let k = g.s.pick(&g.privs.clone()).clone(); g.p(&k); } _ => { let i = g.ident_name(); g.p(&i); } } for _ in 0..g.s.below(3) { g.tail(); } }),
            30 => self.at(18, min, |g| { g.p("new"); g.new_callee(); if g.ch(3, 4) { g.args(); } else if min >= 18 { g.args(); } }),
            31 | 32 => self.at(18, min, |g| { g.expr(18); g.member_tail(); }),
            33 => self.at(17, min, |g| { g.expr(18); g.template(true); }),
            34 => self.paren(|g| g.expr(0)),
            35 => match self.s.below(6) {
                0 => { self.at(17, min, |g| { g.ps(&["import", "("]); g.in_1(); if g.ch(1, 3) { g.p(","); g.in_1(); } g.p(")"); }) }
                1 if self.module => self.ps(&["import", ".", "meta"]),
                2 if self.c.func => self.ps(&["new", ".", "target"]),
                3 if self.c.method => { self.p("super"); self.member_tail(); }
                4 if self.c.ctor => { self.at(17, min, |g| { g.p("super"); g.args(); }) }
                _ => self.p("this"),
            },
            36 => self.func_expr(),
            37 => self.class_expr(),
            38 => self.array(),
            _ => self.object(),
        }
    }
    fn in_br(&mut self) { let n = std::mem::replace(&mut self.c.no_in, false); self.expr(0); self.c.no_in = n; }
    fn in_1(&mut self) { let n = std::mem::replace(&mut self.c.no_in, false); self.expr(1); self.c.no_in = n; }
    fn callee(&mut self) { if self.ch(1, 2) { let i = self.ident_ref(); self.p(&i); } else { self.expr(17); } }
    fn new_callee(&mut self) {
        match self.s.below(5) { 0 => { self.paren(|g| g.expr(0)); } 1 => { let i = self.ident_ref(); self.p(&i); self.p("."); let i = self.ident_name(); self.p(&i); } 2 => { self.p("new"); self.new_callee(); self.args(); } 3 => self.class_expr(), _ => { let i = self.ident_ref(); self.p(&i); } }
    }
    fn member_tail(&mut self) {
        match self.s.below(4) {
            0 => { self.p("["); self.in_br(); self.p("]"); }
            1 if !self.privs.is_empty() => { let k = self.s.pick(&self.privs.clone()).clone(); self.p("."); self.p(&k); if self.t.len() > 2 && self.t[self.t.len() - 3] == "super" { let n = self.t.len(); self.t[n - 1] = "z".into(); } }
            _ => { self.p("."); let i = self.ident_name(); self.p(&i); }
        }
    }
    fn tail(&mut self) { match self.s.below(4) { 0 => self.args(), 1 => { self.p("?."); let i = self.ident_name(); self.p(&i); } _ => self.member_tail() } }
    fn args(&mut self) {
        self.p("(");
        let n = self.s.below(4);
        for i in 0..n { if i > 0 { self.p(","); } if self.ch(1, 8) { self.p("..."); } self.in_1(); }
        if n > 0 && self.ch(1, 8) { self.p(","); }
        self.p(")");
    }
    fn primary_leaf(&mut self) {
        match self.s.below(14) {
            0 | 1 => { let x = self.number(); self.p(&x); }
            2 | 3 => { let x = self.string(); self.p(&x); }
            4 => { let x = self.regex(); self.p(&x); }
            5 => self.p("this"),
            6 => { let k = *self.s.pick(&["null", "true", "false"]); self.p(k); }
            7 if self.fuel > 0 => self.template(false),
            _ => { let i = self.ident_ref(); self.p(&i); }
        }
    }
    fn simple_target(&mut self) {
        match self.s.below(5) { 0 | 1 => { self.expr(18); self.member_tail(); } 2 => self.paren(|g| { let i = g.ident_target(); g.p(&i); }), _ => { let i = self.ident_target(); self.p(&i); } }
    }
    fn ident_target(&mut self) -> String { let i = self.ident_ref(); if i == "arguments" && self.strict() { "x".into() } else { i } }
    fn assign_target(&mut self) { if self.ch(1, 4) && self.fuel > 0 { self.assign_pattern(); } else { self.simple_target(); } }
    fn assign_pattern(&mut self) {
        self.fuel -= 2;
        if self.ch(1, 2) {
            self.p("[");
            let n = self.s.below(4);
            for i in 0..n { if i > 0 { self.p(","); } if self.ch(1, 6) { self.p(","); } self.pat_target(); if self.ch(1, 4) { self.p("="); self.in_1(); } }
            if self.ch(1, 5) { if n > 0 { self.p(","); } self.p("..."); self.pat_target(); }
            self.p("]");
        } else {
            self.p("{");
            let n = self.s.below(4);
            for i in 0..n {
                if i > 0 { self.p(","); }
                if self.ch(1, 2) { let k = self.ident_target(); self.p(&k); if self.ch(1, 4) { self.p("="); self.in_1(); } }
                else { self.prop_key(); self.p(":"); self.pat_target(); if self.ch(1, 4) { self.p("="); self.in_1(); } }
            }
            if self.ch(1, 6) { if n > 0 { self.p(","); } self.p("..."); self.simple_target(); }
            self.p("}");
        }
    }
    fn pat_target(&mut self) { if self.ch(1, 5) && self.fuel > 0 { self.assign_pattern(); } else { let n = std::mem::replace(&mut self.c.no_in, false); self.simple_target(); self.c.no_in = n; } }
    fn array(&mut self) {
        self.p("[");
        for i in 0..self.s.below(4) { if i > 0 { self.p(","); } match self.s.below(8) { 0 => {} 1 => { self.p("..."); self.in_1(); } _ => self.in_1() } }
        if self.ch(1, 6) { self.p(","); }
        self.p("]");
    }
    fn prop_key(&mut self) {
        match self.s.below(8) { 0 => { let x = self.string(); self.p(&x); } 1 => { let x = self.number(); self.p(&x); } 2 => { self.p("["); self.in_1(); self.p("]"); } 3 => { let k = self.s.pick(&["get", "set", "async", "static", "await", "yield", "constructor", "of", "new", "class", "accessor", "in", "let"]).to_string(); self.p(&k); } _ => { let i = self.ident_name(); self.p(&i); } }
    }
    fn object(&mut self) {
        self.p("{");
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.p(","); }
            match self.s.below(9) {
                0 => { let k = self.ident_target(); self.p(&k); }
                1 => { self.p("..."); self.in_1(); }
                2 => { let g = self.ch(1, 2); self.p(if g { "get" } else { "set" }); self.prop_key(); self.accessor(g, false); }
                3 | 4 => self.method(false),
                _ => { self.prop_key(); self.p(":"); self.in_1(); }
            }
        }
        if n > 0 && self.ch(1, 5) { self.p(","); }
        self.p("}");
    }
    fn with_fn(&mut self, asy: bool, gen: bool, arrow: bool, f: impl FnOnce(&mut Self)) {
        let save = self.c;
        let labels = std::mem::take(&mut self.labels);
        self.c.asy = asy; self.c.gen = gen; self.c.loop_ = false; self.c.switch = false; self.c.no_in = false;
        if arrow { self.c.asy = asy; self.c.gen = false; } else { self.c.func = true; self.c.ctor = false; self.c.method = false; }
        f(self);
        self.c = save;
        self.labels = labels;
    }
    fn accessor(&mut self, getter: bool, _class: bool) {
        self.with_fn(false, false, false, |g| { g.c.method = true; g.p("("); if !getter { g.binding_elem(false); } g.p(")"); g.body(); });
    }
    fn method(&mut self, class: bool) {
        let asy = self.ch(1, 4);
        let gen = self.ch(1, 4);
        if asy { self.ps(&["async", "\u{1}"]); }
        if gen { self.p("*"); }
        let k = self.t.len();
        self.prop_key();
        if class && self.t.len() == k + 1 && ["constructor", "'constructor'", "\"constructor\"", "prototype"].contains(&self.t[k].as_str()) { self.t[k] = "m".into(); }
        self.with_fn(asy, gen, false, |g| { g.c.method = true; g.params(); g.body(); });
    }
    fn params(&mut self) {
        self.p("(");
        let n = self.s.below(4);
        for i in 0..n { if i > 0 { self.p(","); } self.binding_elem(true); }
        if self.ch(1, 8) { if n > 0 { self.p(","); } self.p("..."); self.binding_pat(); } else if n > 0 && self.ch(1, 10) { self.p(","); }
        self.p(")");
    }
    fn binding_elem(&mut self, def: bool) { self.binding_pat(); if def && self.ch(1, 5) { self.p("="); let g = std::mem::replace(&mut self.c.gen, false); let a = std::mem::replace(&mut self.c.asy, false); self.in_1(); self.c.gen = g; self.c.asy = a; } }
    fn binding_pat(&mut self) {
        if self.fuel <= 0 || self.ch(3, 4) { let b = self.binding(); self.p(&b); return; }
        self.fuel -= 2;
        if self.ch(1, 2) {
            self.p("[");
            let n = self.s.below(4);
            for i in 0..n { if i > 0 { self.p(","); } if self.ch(1, 6) { self.p(","); } self.binding_pat(); if self.ch(1, 4) { self.p("="); self.in_1(); } }
            if self.ch(1, 5) { if n > 0 { self.p(","); } self.p("..."); self.binding_pat(); }
            self.p("]");
        } else {
            self.p("{");
            let n = self.s.below(4);
            for i in 0..n { if i > 0 { self.p(","); } if self.ch(1, 2) { let b = self.fresh(); self.p(&b); } else { self.prop_key(); self.p(":"); self.binding_pat(); } if self.ch(1, 4) { self.p("="); self.in_1(); } }
            if self.ch(1, 6) { if n > 0 { self.p(","); } self.p("..."); let b = self.fresh(); self.p(&b); }
            self.p("}");
        }
    }
    fn body(&mut self) {
        self.p("{");
        if self.ch(1, 25) { let d = *self.s.pick(&["'use strict'", "\"use strict\"", "'use asm'", "\"use\\x20strict\""]); self.p(d); self.p(";"); }
        let n = self.s.below(3);
        for _ in 0..n { if self.fuel > 0 { self.stmt(true); } }
        if self.ch(1, 2) { self.p("return"); if self.ch(2, 3) { self.p("\u{1}"); self.in_br(); } self.semi(); }
        self.p("}");
    }
    fn arrow(&mut self) {
        let asy = self.ch(1, 4);
        if asy { self.ps(&["async", "\u{1}"]); }
        let no_in = self.c.no_in;
        self.with_fn(asy, false, true, |g| {
            if g.ch(1, 2) { let b = g.fresh(); g.p(&b); } else { g.params(); }
            g.ps(&["\u{1}", "=>"]);
            if g.ch(1, 3) { g.body(); } else { g.c.no_in = no_in; let k = g.t.len(); g.expr(1); if g.t[k] == "{" { g.t.insert(k, "(".into()); g.p(")"); } }
        });
    }
    fn func_expr(&mut self) {
        let asy = self.ch(1, 4);
        let gen = self.ch(1, 4);
        if asy { self.ps(&["async", "\u{1}"]); }
        self.p("function");
        if gen { self.p("*"); }
        if self.ch(1, 2) { let b = self.fresh(); self.p(&b); }
        self.with_fn(asy, gen, false, |g| { g.params(); g.body(); });
    }
    fn class_expr(&mut self) { self.p("class"); if self.ch(1, 2) { let b = self.fresh(); self.p(&b); } self.class_tail(); }
    fn class_tail(&mut self) {
        let save = self.c;
        self.c.class = true;
        let ext = self.ch(1, 3);
        if ext { self.p("extends"); self.expr(17); }
        self.p("{");
        let np = self.privs.len();
        if self.ch(1, 3) { self.n += 1; let k = format!("#p{}", self.n); self.p(&k); if self.ch(1, 2) { self.p("="); self.field_init(); } self.p(";"); self.privs.push(k); }
        for _ in 0..self.s.below(4) {
            self.fuel -= 1;
            let st = self.ch(1, 4);
            match self.s.below(11) {
                10 => self.asi_fields(),
                0 => self.p(";"),
                1 => { self.ps(&["static", "{"]); self.with_fn(false, false, false, |g| { g.c.method = true; if g.fuel > 0 { g.stmt(true); } }); self.p("}"); }
                2 => { if st { self.p("static"); } let g = self.ch(1, 2); self.p(if g { "get" } else { "set" }); let k = self.t.len(); self.prop_key(); if self.t[k].contains("constructor") || self.t[k].contains("prototype") { self.t[k] = "m".into(); } self.accessor(g, true); }
                3 if ext && !st && self.ch(1, 2) => { self.p("constructor"); self.with_fn(false, false, false, |g| { g.c.method = true; g.c.ctor = true; g.params(); g.body(); }); let n = self.privs.len(); let _ = n; }
                4 | 5 => { if st { self.p("static"); } self.method(true); }
                6 => { if st { self.p("static"); } self.n += 1; let k = format!("#m{}", self.n); self.privs.push(k.clone()); self.p(&k); self.with_fn(false, false, false, |g| { g.c.method = true; g.params(); g.body(); }); }
                7 => { let k = self.s.pick(&["get", "set", "static", "async", "accessor"]).to_string(); self.p(&k); match self.s.below(3) { 0 => self.p(";"), 1 => { self.p("="); self.field_init(); self.p(";"); } _ => self.with_fn(false, false, false, |g| { g.params(); g.body(); }) } }
                _ => { if st { self.p("static"); } let k = self.t.len(); self.prop_key(); if self.t.len() == k + 1 && (self.t[k].contains("constructor") || self.t[k].contains("prototype")) { self.t[k] = "m".into(); } if self.ch(2, 3) { self.p("="); self.field_init(); } if self.ch(2, 3) { self.p(";"); } else { self.p("\n"); } }
            }
        }
        self.p("}");
        self.privs.truncate(np);
        // one constructor at most
        self.c = save;
    }
    fn field_init(&mut self) { let save = self.c; self.c.asy = false; self.c.gen = false; self.c.method = true; self.c.ctor = false; self.c.no_in = false; let f = self.c.func; self.c.func = false; self.expr(1); self.c = save; self.c.func = f; }

    // ---------------------------------------------------------------- statements
    fn semi(&mut self) { match self.s.below(8) { 0 => self.p("\n"), 1 => { if self.ch(1, 4) { self.p("\u{2}") } else { self.p(";") } } _ => self.p(";") } }
    fn expr_stmt(&mut self) {
        let k = self.t.len();
        self.expr(0);
        let first = self.t[k].clone();
        let second = self.t.get(k + 1).cloned().unwrap_or_default();
        if ["{", "function", "class"].contains(&first.as_str()) || (first == "let" && second == "[") || (first == "async" && self.t[k..].iter().take(3).any(|t| t == "function")) || first.contains("use ") || first.contains("use\\") { self.t.insert(k, "(".into()); self.p(")"); }
        self.semi();
    }
    fn sub(&mut self) { if self.fuel <= 0 { self.p(";"); } else if self.ch(1, 2) { self.block(); } else { self.stmt(false); } }
    fn block(&mut self) { self.p("{"); for _ in 0..self.s.below(3) { if self.fuel > 0 { self.stmt(true); } } self.p("}"); }
    fn var_decl(&mut self, kw: &str, init_in: bool) {
        self.p(kw);
        let n = 1 + self.s.below(2);
        for i in 0..n {
            if i > 0 { self.p(","); }
            let k = self.t.len();
            if kw == "using" { let b = self.fresh(); self.p(&b); } else { self.binding_pat(); }
            if kw == "let" || kw == "const" { if self.t[k] == "let" { self.t[k] = "lt".into(); } }
            let pat = self.t[k] == "{" || self.t[k] == "[";
            if pat || kw == "const" || kw == "using" || self.ch(1, 2) { self.p("="); let s = std::mem::replace(&mut self.c.no_in, !init_in); self.expr(1); self.c.no_in = s; }
        }
    }
    pub fn stmt(&mut self, decl: bool) {
        self.fuel -= 2;
        let save_depth = self.c.depth;
        self.stmt_(decl);
        self.c.depth = save_depth;
    }
    fn in_loop(&mut self) { let s = self.c; self.c.loop_ = true; self.sub(); self.c = s; }
    /// A statement whose end is decided by a line break, followed by a line that may continue it.
    fn asi_lines(&mut self, decl: bool) {
        match self.s.below(16) {
            0 | 1 if self.c.gen => { if self.ch(1, 2) { self.ps(&["x", "="]); } self.p("yield"); if self.ch(1, 3) { self.p("\u{1}"); self.expr(16); } }
            2 | 3 if self.c.func => { self.p("return"); if self.ch(1, 3) { self.p("\u{1}"); self.expr(16); } }
            4 if self.c.loop_ => { let k = *self.s.pick(&["break", "continue"]); self.p(k); }
            5 if self.c.asy => { self.p("await"); self.expr(17); }
            6 => { self.ps(&["throw", "\u{1}"]); self.expr(16); }
            7 => { let k = *self.s.pick(&["async", "of", "get", "type", "x", "let", "static", "using", "as", "declare", "abstract", "namespace", "module", "accessor", "interface", "await", "yield"]); self.p(if (self.strict() && SLOPPY.contains(&k)) || (k == "let" && !decl) { "x" } else { k }); }
            8 => { self.ps(&["do", ";", "while", "("]); self.in_br(); self.p(")"); }
            9 => { let k = if decl { *self.s.pick(&["var", "let"]) } else { "var" }; self.p(k); let b = self.fresh(); self.p(&b); if self.ch(1, 2) { self.p("="); self.expr(15); } }
            10 => { let i = self.ident_target(); self.p(&i); let o = *self.s.pick(&["++", "--"]); self.p(o); }
            11 => { let i = self.ident_target(); self.p(&i); self.p("="); let b = self.fresh(); self.p(&b); self.ps(&["=>", "{", "}"]); }
            12 => { self.ps(&["x", "=", "function", "(", ")", "{", "}"]); }
            13 => { self.ps(&["x", "=", "{", "}"]); }
            _ => self.expr_at(12),
        }
        self.p("\n");
        match self.s.below(22) {
            0 | 1 => { self.p("("); self.in_br(); self.p(")"); }
            2 => { self.p("["); self.in_br(); self.p("]"); }
            3 => { self.template(true); }
            4 => { let r = self.regex(); self.p(&r); self.ps(&[".", "test", "(", "x", ")"]); }
            5 => { self.p("/"); self.expr(17); self.p("/"); self.p("g"); }
            6 => { let o = *self.s.pick(&["+", "-", "++", "--", "*", "!", "~", "**", "%", "<", "&&", "??", "==", "=", ".", "?.", ",", "?"]); self.p(o); let i = self.ident_target(); self.p(&i); }
            7 | 8 => { let o = *self.s.pick(&["++", "--"]); self.p(o); let i = self.ident_target(); self.p(&i); }
            9 => { let o = *self.s.pick(&["in", "instanceof", "of", "as", "satisfies", "is", "from", "get"]); self.p(o); let i = self.ident_target(); self.p(&i); }
            10 => { self.p("=>"); self.ps(&["x"]); }
            11 => { self.p("function"); let b = self.fresh(); self.p(&b); self.with_fn(false, false, false, |g| { g.params(); g.body(); }); }
            12 => { let i = self.ident_target(); self.p(&i); self.p("=>"); self.p("x"); }
            13 => { self.ps(&["{", "}"]); }
            14 => { self.p("class"); let b = self.fresh(); self.p(&b); self.class_tail(); }
            15 => { let i = self.ident_target(); self.p(&i); self.ps(&[":", ";"]); }
            16 => { let q = self.string(); self.p(&q); }
            17 => { self.ps(&["async", "x", "=>", "x"]); }
            18 => { self.ps(&[if decl { "let" } else { "var" }, "z0", "=", "1"]); }
            _ => self.expr_at(14),
        }
        self.semi();
    }
    fn expr_at(&mut self, min: u32) {
        let k = self.t.len();
        self.expr(min);
        if ["{", "function", "class", "let", "async"].contains(&self.t[k].as_str()) { self.t.insert(k, "(".into()); self.p(")"); }
    }
    /// Class elements separated by line breaks only.
    fn asi_fields(&mut self) {
        for _ in 0..2 + self.s.below(2) {
            if self.ch(1, 5) { self.p("static"); if self.ch(1, 4) { self.p("\n"); } }
            match self.s.below(7) {
                0 | 1 => { let k = *self.s.pick(&["get", "set", "static", "async", "accessor", "x", "in", "declare", "readonly", "public", "abstract", "override"]); self.p(k); }
                2 => { self.p("x"); self.p("="); self.field_init(); }
                3 => { self.p("["); self.in_1(); self.p("]"); if self.ch(1, 2) { self.p("="); self.field_init(); } }
                4 => { if self.ch(1, 2) { self.p("*"); } self.p("m"); self.with_fn(false, false, false, |g| { g.c.method = true; g.params(); g.body(); }); }
                5 => { let q = self.string(); self.p(&q); if self.ch(1, 2) { self.p("="); self.field_init(); } }
                _ => { self.ps(&["get", "y", "(", ")", "{", "}"]); }
            }
            self.p("\n");
        }
        self.p(";");
    }
    fn stmt_(&mut self, decl: bool) {
        if self.ch(1, 24) { return self.asi_lines(decl); }
        match self.s.below(30) {
            0..=6 => self.expr_stmt(),
            7 => { self.var_decl("var", true); self.semi(); }
            8 | 9 if decl => { let k = *self.s.pick(&["let", "const", "let"]); self.var_decl(k, true); self.semi(); }
            10 if decl => { let asy = self.ch(1, 5); let gen = self.ch(1, 4); if asy { self.ps(&["async", "\u{1}"]); } self.p("function"); if gen { self.p("*"); } let b = self.fresh(); self.p(&b); self.with_fn(asy, gen, false, |g| { g.params(); g.body(); }); }
            11 if decl => { self.p("class"); let b = self.fresh(); self.p(&b); self.class_tail(); }
            12 => self.block(),
            13 | 14 => { self.ps(&["if", "("]); self.in_br(); self.p(")"); self.sub(); if self.ch(1, 2) { if self.t.last().is_some_and(|t| t == "\u{2}") { self.p(";"); } self.p("else"); self.sub(); } }
            15 => { self.ps(&["for", "("]); match self.s.below(4) { 0 => {} 1 => { let k = *self.s.pick(&["var", "let", "const"]); self.var_decl(k, false); } _ => { let s = std::mem::replace(&mut self.c.no_in, true); let k = self.t.len(); self.expr(0); if self.t[k] == "let" { self.t[k] = "x".into(); } self.c.no_in = s; } } self.p(";"); if self.ch(2, 3) { self.in_br(); } self.p(";"); if self.ch(2, 3) { self.in_br(); } self.p(")"); self.in_loop(); }
            16 | 17 => {
                let of = self.ch(1, 2);
                let aw = of && self.c.asy && self.ch(1, 3);
                self.p("for"); if aw { self.p("await"); } self.p("(");
                if self.ch(2, 3) { let k = *self.s.pick(&["var", "let", "const"]); self.p(k); let i = self.t.len(); self.binding_pat(); if self.t[i] == "let" || self.t[i] == "of" { self.t[i] = "q".into(); } }
                else { let i = self.t.len(); self.assign_target(); if ["let", "async"].contains(&self.t[i].as_str()) { self.t[i] = "q".into(); } }
                self.p(if of { "of" } else { "in" });
                if of { self.in_1() } else { self.in_br() }
                self.p(")"); self.in_loop();
            }
            18 => { self.ps(&["while", "("]); self.in_br(); self.p(")"); self.in_loop(); }
            19 => { self.p("do"); self.in_loop(); if self.t.last().is_some_and(|t| t == "\u{2}") { self.p(";"); } self.ps(&["while", "("]); self.in_br(); self.p(")"); if self.ch(1, 2) { self.p(";"); } }
            20 => { if self.c.loop_ { let k = *self.s.pick(&["break", "continue"]); self.p(k); self.label_ref(k == "continue"); self.semi(); } else if self.c.switch { self.p("break"); self.semi(); } else if self.c.func { self.p("return"); if self.ch(1, 2) { self.p("\u{1}"); self.in_br(); } self.semi(); } else { self.p(";"); } }
            21 => { self.ps(&["throw", "\u{1}"]); self.in_br(); self.semi(); }
            22 | 23 => { self.p("try"); self.block(); let c = self.ch(2, 3); if c { self.p("catch"); if self.ch(2, 3) { self.p("("); self.binding_pat(); self.p(")"); } self.block(); } if !c || self.ch(1, 3) { self.p("finally"); self.block(); } }
            24 => { self.ps(&["switch", "("]); self.in_br(); self.ps(&[")", "{"]); let s = self.c; self.c.switch = true; let n = self.s.below(4); let d = self.s.below(6); for i in 0..n { if i == d { self.p("default"); } else { self.p("case"); self.in_br(); } self.p(":"); for _ in 0..self.s.below(3) { if self.fuel > 0 { self.stmt(false); } } } self.c = s; self.p("}"); }
            25 => { self.n += 1; let l = format!("L{}", self.n); self.p(&l); self.p(":"); self.labels.push((l, false)); let k = self.t.len(); if self.ch(1, 2) { self.ps(&["while", "("]); self.in_br(); self.p(")"); self.labels.last_mut().unwrap().1 = true; self.in_loop(); } else { self.sub(); } let _ = k; self.labels.pop(); }
            26 => self.p(";"),
            27 => { self.p("debugger"); self.semi(); }
            28 if !self.strict() => { self.ps(&["with", "("]); self.in_br(); self.p(")"); self.sub(); }
            29 if !self.strict() && self.ch(1, 3) => { self.ps(&["if", "("]); self.in_br(); self.p(")"); self.p("function"); let b = self.fresh(); self.p(&b); self.with_fn(false, false, false, |g| { g.params(); g.body(); }); }
            _ => self.expr_stmt(),
        }
    }
    fn label_ref(&mut self, cont: bool) {
        let ls: Vec<String> = self.labels.iter().filter(|l| !cont || l.1).map(|l| l.0.clone()).collect();
        if !ls.is_empty() && self.ch(1, 2) { let l = self.s.pick(&ls).clone(); self.p("\u{1}"); self.p(&l); }
    }
    fn module_item(&mut self) {
        match self.s.below(14) {
            0 => { self.p("import"); let b = self.fresh(); self.p(&b); if self.ch(1, 3) { self.p(","); self.ns_or_named(); } self.from(); }
            1 | 2 => { self.p("import"); self.ns_or_named(); self.from(); }
            3 => { self.p("import"); self.mod_str(); self.attrs(); self.semi(); }
            4 => { self.ps(&["export", "*"]); if self.ch(1, 2) { self.p("as"); self.n += 1; let b = match self.s.below(3) { 0 => format!("\"s{}\"", self.n), _ => format!("e{}", self.n) }; self.p(&b); } self.from(); }
            5 => { self.ps(&["export", "{"]); let n = self.s.below(3); for i in 0..n { if i > 0 { self.p(","); } let k = if self.ch(1, 4) { self.string() } else { self.ident_name() }; self.p(&k); self.p("as"); self.n += 1; let b = if self.ch(1, 4) { format!("'x{}'", self.n) } else { format!("e{}", self.n) }; self.p(&b); } if n > 0 && self.ch(1, 4) { self.p(","); } self.p("}"); self.from(); }
            6 => { self.p("export"); let k = *self.s.pick(&["var", "let", "const"]); self.var_decl(k, true); self.semi(); }
            7 => { self.p("export"); if self.ch(1, 3) { self.ps(&["async", "\u{1}"]); } self.p("function"); let b = self.fresh(); self.p(&b); self.with_fn(false, false, false, |g| { g.params(); g.body(); }); }
            8 => { self.ps(&["export", "class"]); let b = self.fresh(); self.p(&b); self.class_tail(); }
            9 => { let b = self.fresh(); self.ps(&["let", &b, ";", "export", "{", &b]); if self.ch(1, 2) { self.p("as"); let x = format!("z{}", self.n); self.p(&x); } self.ps(&["}", ";"]); }
            10 => { self.c.asy = true; self.expr_stmt(); self.c.asy = false; }
            _ => self.stmt(true),
        }
    }
    fn mod_str(&mut self) { let m = *self.s.pick(&["'m'", "\"./x.js\"", "'a\\u0062'"]); self.p(m); }
    fn attrs(&mut self) { if self.ch(1, 6) { self.ps(&["with", "{"]); if self.ch(3, 4) { self.ps(&["type", ":", "'json'"]); if self.ch(1, 3) { self.ps(&[",", "\"k\"", ":", "\"v\""]); } } self.p("}"); } }
    fn from(&mut self) { self.p("from"); self.mod_str(); self.attrs(); self.semi(); }
    fn ns_or_named(&mut self) {
        if self.ch(1, 3) { self.ps(&["*", "as"]); let b = self.fresh(); self.p(&b); return; }
        self.p("{");
        let n = self.s.below(3);
        for i in 0..n { if i > 0 { self.p(","); } match self.s.below(4) { 0 => { let b = self.fresh(); self.p(&b); } 1 => { let x = self.string(); self.p(&x); self.p("as"); let b = self.fresh(); self.p(&b); } _ => { let k = self.ident_name(); self.p(&k); self.p("as"); let b = self.fresh(); self.p(&b); } } }
        self.p("}");
    }

    /// A program of about `size` units; returns its text.
    pub fn one_expr(&mut self, fuel: i32) -> Vec<String> { self.fuel = fuel; self.expr(1); std::mem::take(&mut self.t) }
    pub fn program(&mut self, size: i32) -> String {
        self.tokens(size);
        let toks = std::mem::take(&mut self.t);
        layout(self.s, &toks)
    }
    pub fn tokens(&mut self, size: i32) -> Vec<String> {
        self.fuel = size;
        self.wild = self.ch(1, 12);
        if !self.module && self.ch(1, 12) { self.p("'use strict'"); self.p(";"); self.c.strict = true; }
        let mut default = false;
        while self.fuel > 0 {
            let f = self.fuel;
            self.fuel = f.min(24);
            let b = self.fuel;
            if self.module && self.ch(1, 2) {
                if !default && self.ch(1, 8) {
                    default = true;
                    self.ps(&["export", "default"]);
                    match self.s.below(4) { 0 => { self.p("function"); if self.ch(1, 2) { let b = self.fresh(); self.p(&b); } self.with_fn(false, false, false, |g| { g.params(); g.body(); }); } 1 => { self.p("class"); self.class_tail(); } _ => { let k = self.t.len(); self.expr(1); if ["function", "class", "async"].contains(&self.t[k].as_str()) { self.t.insert(k, "(".into()); self.p(")"); } self.semi(); } }
                } else { self.module_item(); }
            } else { self.stmt(true); }
            self.fuel = f - (b - self.fuel).max(1);
        }
        self.t.clone()
    }
}

fn wordy(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '$' || c == '\\' || c == '#' || !c.is_ascii() }

/// Joins tokens with random white space, comments and line breaks. Markers: \u{1} no line break may
/// precede the next token; "\n" a line break; \u{2} a possibly missing separator.
pub fn layout(s: &mut Src, toks: &[String]) -> String {
    let style = s.below(4); // 0 compact, 1 spaced, 2 noisy, 3 lines
    let mut o = String::new();
    let mut no_nl = false;
    let mut force = false;
    for t in toks {
        if t == "\u{1}" { no_nl = true; continue; }
        if t == "\n" { force = true; continue; }
        if t == "\u{2}" || t == "\u{3}" { continue; }
        let mut sep = String::new();
        if force && !no_nl { sep.push_str(*s.pick(&["\n", "\n", "\r\n", "\u{2028}", "//c\n", "/*\n*/"])); }
        match style {
            0 => {}
            1 => sep.push(' '),
            2 => match s.below(12) { 0 if !no_nl => sep.push_str("\n"), 1 => sep.push_str("/* c */"), 2 if !no_nl => sep.push_str("// é }\n"), 3 => sep.push_str("\t"), 4 => sep.push_str("\u{a0}"), 5 if !no_nl => sep.push_str("\r\n"), 6 if !no_nl => sep.push_str("/*\n*/"), 7 => sep.push_str("\u{feff}"), 8 => sep.push_str("/**/"), _ => sep.push(' ') },
            _ => sep.push_str(if s.chance(1, 6) && !no_nl { "\n" } else if s.chance(1, 4) { "  " } else { " " }),
        }
        if sep.is_empty() {
            let (a, b) = (o.chars().last(), t.chars().next());
            if let (Some(a), Some(b)) = (a, b) {
                let clash = (wordy(a) && wordy(b)) || (a == b && "+-/&|<=*?.".contains(a)) || (a.is_ascii_digit() && b == '.') || (a == '.' && b.is_ascii_digit())
                    || (a == '/' && (b == '*' || wordy(b) || b == '=')) || (a == '?' && b == '.') || (a == '<' && b == '!') || (a == '-' && b == '>') || (a == '*' && b == '/') || (a == '=' && b == '>') || (a == '!' && b == '=') || (wordy(a) && b == '/') || (a == '*' && b == '=');
                if clash { sep.push(' '); }
            }
        }
        o.push_str(&sep);
        o.push_str(t);
        no_nl = false;
        force = false;
    }
    if s.chance(1, 10) { o.push_str(*s.pick(&["\n", "// end", "/* e */", " "])); }
    if s.chance(1, 30) { o = format!("{}{o}", s.pick(&["#!/usr/bin/env node\n", "\u{feff}", "<!-- x\n", "/* a\n*/"])); }
    o
}

/// Token-level mutation of a token list.
pub fn mutate(s: &mut Src, toks: &mut Vec<String>) {
    const POOL: &[&str] = &["(", ")", "{", "}", "[", "]", ";", ",", ".", "?.", "=", "=>", "...", ":", "?", "??", "+", "-", "++", "--", "*", "**", "/", "%", "<", ">", "&&", "||", "!", "~", "&", "|", "^", "+=", "&&=", "\n", "a", "1", "'s'", "`t`", "/r/", "1n", "#p", "0", "@", "\\"];
    for _ in 0..1 + s.below(2) {
        if toks.is_empty() { return; }
        let i = s.below(toks.len());
        let any = |s: &mut Src, toks: &[String]| -> String {
            match s.below(4) { 0 => s.pick(KEYWORDS).to_string(), 1 => s.pick(POOL).to_string(), 2 => (*s.pick(&["await", "yield", "async", "let", "static", "of", "get", "set", "super", "import", "export", "new.target", "import.meta", "arguments", "eval", "enum", "as", "interface", "type", "satisfies"])).to_string(), _ => s.pick(toks).clone() }
        };
        match s.below(6) {
            0 | 1 => { toks.remove(i); }
            2 => { let t = any(s, toks); toks.insert(i, t); }
            3 => { let t = any(s, toks); toks[i] = t; }
            4 => { let j = s.below(toks.len()); toks.swap(i, j); }
            _ => { let t = toks[i].clone(); toks.insert(i, t); }
        }
    }
}
