//! Generator of TypeScript source text (type syntax, declarations, classes, modules) as token lists.
use crate::gen_syn::Syn;
use crate::src::Src;

pub struct Ts<'a> {
    pub s: &'a mut Src,
    t: Vec<String>,
    pub fuel: i32,
    n: u32,
    pub module: bool,
    /// declaration file: no bodies, no initialisers
    pub dts: bool,
    pub jsx: bool,
}

impl<'a> Ts<'a> {
    pub fn new(s: &'a mut Src, module: bool, dts: bool) -> Self { Ts { s, t: vec![], fuel: 0, n: 0, module, dts, jsx: false } }
    fn p(&mut self, x: &str) { self.t.push(x.to_string()); }
    fn ps(&mut self, x: &[&str]) { for y in x { self.p(y); } }
    fn ch(&mut self, a: usize, b: usize) -> bool { self.s.chance(a, b) }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn name(&mut self, p: &str) { let n = self.fresh(p); self.p(&n); }

    fn js(&mut self, fuel: i32) {
        let v = { let mut g = Syn::new(self.s, self.module); g.one_expr(fuel) };
        // JSX-like and type-argument-like token sequences are left to the typed grammar
        if v.iter().any(|t| t.contains('<') || t.contains('>')) || v.iter().any(|t| t == "\n" || t == ":" ) { self.p("e"); let k = self.s.below(9); self.t.last_mut().unwrap().push_str(&k.to_string()); } else { self.t.extend(v); }
    }
    pub fn expr(&mut self) {
        self.fuel -= 1;
        match if self.fuel <= 0 { 0 } else { self.s.below(18) } {
            0 | 1 => { let k = self.s.pick(&["a", "1", "'s'", "true", "x.y", "null", "b", "`t`", "[1]", "({})", "2n", "/r/"]).to_string(); self.p(&k); }
            2 => { let f = 4 + self.s.below(6) as i32; self.p("("); self.js(f); self.p(")"); }
            3 => { self.p("("); self.expr(); self.p("as"); self.ty(1); self.p(")"); }
            4 => { self.p("("); self.expr(); self.p("satisfies"); self.ty(1); self.p(")"); }
            5 => { self.p("x"); self.p("!"); if self.ch(1, 2) { self.ps(&[".", "y"]); } }
            6 => { self.p("f"); self.targs(); self.ps(&["("]); if self.ch(1, 2) { self.expr(); } self.p(")"); }
            7 => { self.ps(&["new", "C"]); self.targs(); self.ps(&["(", ")"]); }
            8 => { self.p("("); self.p("("); self.params(); self.p(")"); if self.ch(1, 2) { self.ret(); } self.p("=>"); if self.ch(1, 2) { self.fbody(); } else { self.expr(); } self.p(")"); }
            9 => { self.p("("); self.p("function"); if self.ch(1, 2) { self.name("f"); } if self.ch(1, 3) { self.tparams(); } self.p("("); self.params(); self.p(")"); if self.ch(1, 2) { self.ret(); } self.fbody(); self.p(")"); }
            10 => { self.p("("); if self.ch(1, 3) { self.p("abstract_".trim_end_matches('_')); self.t.pop(); } self.p("class"); self.class_tail(false); self.p(")"); }
            11 => { self.ps(&["(", "{"]); for _ in 0..self.s.below(3) { self.obj_member(); self.p(","); } self.ps(&["}", ")"]); }
            12 => { self.p("["); for _ in 0..self.s.below(3) { self.expr(); self.p(","); } self.p("]"); }
            13 => { self.p("("); self.p("async"); if self.ch(1, 3) && !self.jsx { self.tparams(); } self.p("("); self.params(); self.p(")"); if self.ch(1, 2) { self.ret(); } self.p("=>"); self.fbody(); self.p(")"); }
            14 if !self.jsx => { self.p("("); self.p("<"); self.ty(1); self.p(">"); self.p("x"); self.p(")"); }
            15 => { self.p("("); self.expr(); self.p("?"); self.expr(); self.p(":"); self.expr(); self.p(")"); }
            16 => { self.p("a"); self.p("?."); self.p("b"); if self.ch(1, 2) { self.ps(&["!", ".", "c"]); } }
            _ => { self.p("("); self.expr(); let o = self.s.pick(&["+", "*", "&&", "||", "??", "===", "in", "instanceof", ",", "-"]).to_string(); let o = if o == "??" { "+".into() } else { o };
                // concise arrow bodies take the rest of a comma expression in this parser's TypeScript dialects
                let o = if o == "," && self.t.iter().any(|t| t == "=>") { "+".into() } else { o }; self.p(&o); self.expr(); self.p(")"); }
        }
    }
    fn obj_member(&mut self) {
        match self.s.below(5) {
            0 => { self.name("k"); self.p(":"); self.expr(); }
            1 => { self.name("m"); if self.ch(1, 3) { self.tparams(); } self.p("("); self.params(); self.p(")"); if self.ch(1, 2) { self.ret(); } self.fbody(); }
            2 => { self.p("get"); self.name("g"); self.ps(&["(", ")"]); if self.ch(1, 2) { self.p(":"); self.ty(1); } self.fbody(); }
            3 => { self.p("set"); self.name("g"); self.ps(&["(", "v"]); if self.ch(1, 2) { self.p(":"); self.ty(1); } self.p(")"); self.fbody(); }
            _ => { self.ps(&["...", "x"]); }
        }
    }
    fn fbody(&mut self) { self.p("{"); for _ in 0..self.s.below(2) { if self.fuel > 0 { self.inner_stmt(); } } if self.ch(1, 3) { self.p("return"); self.expr(); self.p(";"); } self.p("}"); }
    fn inner_stmt(&mut self) {
        match self.s.below(5) {
            0 => { let k = self.s.pick(&["let", "const", "var"]).to_string(); self.p(&k); self.name("v"); if self.ch(2, 3) { self.p(":"); self.ty(0); } self.p("="); self.expr(); self.p(";"); }
            1 => { self.ps(&["if", "("]); self.expr(); self.ps(&[")", "{", "}"]); }
            2 => { self.type_alias(); }
            3 => { self.ps(&["for", "(", "const"]); self.name("v"); self.p("of"); self.expr(); self.ps(&[")", "{", "}"]); }
            _ => { self.p("x"); if self.ch(1, 6) { self.ps(&["\u{1}", "!"]); } let o = self.s.pick(&["=", "=", "=", "+="]).to_string(); self.p(&o); self.expr(); self.p(";"); }
        }
    }

    // ------------------------------------------------------------------ types
    /// min: 0 any type, 1 no leading conditional, 2 no union/function, 3 postfix operand
    pub fn ty(&mut self, min: u32) {
        self.fuel -= 1;
        if self.fuel <= 0 { return self.ty_leaf(); }
        let k = self.s.below(30);
        match k {
            0 | 1 if min <= 1 => { if self.ch(1, 6) { self.p("|"); } self.ty(2); for _ in 0..1 + self.s.below(2) { self.p("|"); self.ty(2); } }
            2 if min <= 1 => { self.ty(2); for _ in 0..1 + self.s.below(2) { self.p("&"); self.ty(3); } }
            3 if min == 0 => { self.ty(2); self.p("extends"); if self.ch(1, 3) { self.ps(&["infer"]); self.name("U"); } else { self.ty(2); } self.p("?"); self.ty(0); self.p(":"); self.ty(0); }
            4 if min == 0 => { self.ty_fn(); }
            5 if min == 0 => { if self.ch(1, 4) { self.p("abstract"); } self.p("new"); self.ty_fn(); }
            6 => { self.ty(3); self.ps(&["\u{1}", "[", "]"]); }
            7 => { self.ty(3); self.ps(&["\u{1}", "["]); self.ty(0); self.p("]"); }
            8 => { if self.ch(1, 5) && min < 3 { self.p("readonly"); } self.tuple(); }
            9 | 10 => self.obj_ty(),
            11 => self.mapped(),
            12 if min < 3 => { self.p("keyof"); self.ty(3); }
            13 => { self.ps(&["typeof", "x"]); if self.ch(1, 2) { self.ps(&[".", "y"]); } }
            14 => { let mut o = String::from("`"); for _ in 0..1 + self.s.below(2) { o.push_str(*self.s.pick(&["a", "-", "", "é"])); let save = std::mem::take(&mut self.t); self.ty(1); let v = std::mem::replace(&mut self.t, save); o.push_str(&format!("${{{}}}", v.join(" "))); } o.push_str(*self.s.pick(&["", "z"])); o.push('`'); self.p(&o); }
            15 => { self.p("("); self.ty(0); self.p(")"); }
            16 => { self.ref_ty(); self.targs(); }
            17 => { self.ps(&["import", "(", "'m'", ")"]); if self.ch(1, 2) { self.ps(&[".", "T"]); if self.ch(1, 3) { self.targs(); } } }
            18 => { self.ps(&["A", ".", "B", ".", "C"]); if self.ch(1, 3) { self.targs(); } }
            19 if min < 3 => { self.p("readonly"); self.ty(3); self.ps(&["\u{1}", "[", "]"]); }
            20 => { self.ps(&["typeof", "f"]); }
            _ => self.ty_leaf(),
        }
    }
    fn ty_leaf(&mut self) {
        let k = self.s.pick(&["any", "unknown", "never", "void", "string", "number", "boolean", "bigint", "symbol", "object", "null", "undefined", "this", "'s'", "\"t\"", "1", "-1", "0x1F", "1n", "true", "false", "T", "Foo", "U", "`x`", "Date", "-5n", "type", "declare", "of"]).to_string();
        if let Some(r) = k.strip_prefix('-') { self.p("-"); self.p(r); } else { self.p(&k); }
    }
    fn ref_ty(&mut self) { let k = self.s.pick(&["Array", "Map", "Promise", "G", "Partial", "async", "get"]).to_string(); self.p(&k); }
    /// Type arguments; the first one does not start with a parenthesis.
    fn targs(&mut self) { self.p("<"); let at = self.t.len(); self.ty(0); if self.t.get(at).map_or(false, |x| x == "(") { self.t.insert(at, "any".into()); self.t.insert(at + 1, ",".into()); } for _ in 0..self.s.below(2) { self.p(","); self.ty(0); } self.p(">"); }
    pub fn tparams(&mut self) {
        self.p("<");
        for i in 0..1 + self.s.below(2) {
            if i > 0 { self.p(","); }
            self.name("T");
            if self.ch(1, 3) { self.p("extends"); self.ty(1); }
            if self.ch(1, 5) { self.p("="); self.ty(1); }
        }
        self.p(">");
    }
    fn tparams_decl(&mut self, variance: bool) {
        self.p("<");
        for i in 0..1 + self.s.below(3) {
            if i > 0 { self.p(","); }
            if variance && self.ch(1, 6) { let v = self.s.pick(&["in", "out"]).to_string(); self.p(&v); }
            self.name("T");
            if self.ch(1, 3) { self.p("extends"); self.ty(0); }
            if i > 0 || self.ch(1, 5) { self.p("="); self.ty(0); if i == 0 { break; } }
        }
        self.p(">");
    }
    fn ty_fn(&mut self) { if self.ch(1, 4) { self.tparams(); } self.p("("); self.ty_params(); self.p(")"); self.p("=>"); if self.ch(1, 6) { self.ps(&["a", "\u{1}", "is"]); self.ty(1); } else { self.ty(0); } }
    fn ty_params(&mut self) {
        let n = self.s.below(4);
        let mut opt = false;
        for i in 0..n {
            if i > 0 { self.p(","); }
            if i == 0 && self.ch(1, 10) { self.ps(&["this", ":"]); self.ty(1); continue; }
            if i + 1 == n && self.ch(1, 5) { self.p("..."); self.name("r"); self.p(":"); self.ty(3); self.ps(&["\u{1}", "[", "]"]); continue; }
            if i == 0 && self.ch(1, 3) { self.p("a"); } else { self.name("p"); }
            if opt || self.ch(1, 4) { self.p("?"); opt = true; }
            if self.ch(7, 8) { self.p(":"); self.ty(0); }
        }
    }
    fn tuple(&mut self) {
        self.p("[");
        let named = self.ch(1, 3);
        let n = self.s.below(4);
        let mut opt = false;
        for i in 0..n {
            if i > 0 { self.p(","); }
            let rest = i + 1 == n && self.ch(1, 5);
            if rest { self.p("..."); }
            if named { self.name("n"); if !rest && (opt || self.ch(1, 5)) { self.p("?"); opt = true; } self.p(":"); self.ty(0); }
            else if rest { self.ty(3); self.ps(&["\u{1}", "[", "]"]); }
            else { self.ty(3); if opt || self.ch(1, 6) { self.p("?"); opt = true; } }
        }
        self.p("]");
    }
    fn mapped(&mut self) {
        self.p("{");
        match self.s.below(5) { 0 => self.p("readonly"), 1 => { self.p("-"); self.p("readonly"); } 2 => { self.p("+"); self.p("readonly"); } _ => {} }
        self.ps(&["[", "K", "in"]);
        self.ty(1);
        if self.ch(1, 4) { self.p("as"); self.ty(0); }
        self.p("]");
        match self.s.below(5) { 0 => self.p("?"), 1 => { self.p("-"); self.p("?"); } 2 => { self.p("+"); self.p("?"); } _ => {} }
        self.p(":");
        self.ty(0);
        if self.ch(1, 2) { self.p(";"); }
        self.p("}");
    }
    fn obj_ty(&mut self) { self.p("{"); self.ty_members(); self.p("}"); }
    fn pname(&mut self) { match self.s.below(8) { 0 => self.p("'q s'"), 1 => self.p("1"), 2 => { let k = self.s.pick(&["get", "set", "new_", "static", "type", "async", "default", "in", "class", "of"]).to_string(); self.p(&k); } 3 => { self.ps(&["[", "Symbol", ".", "iterator", "]"]); } _ => self.name("p") } }
    fn ty_members(&mut self) {
        for _ in 0..self.s.below(4) {
            match self.s.below(9) {
                0 => { if self.ch(1, 3) { self.tparams(); } self.p("("); self.ty_params(); self.p(")"); if self.ch(3, 4) { self.ret(); } }
                1 => { self.p("new"); if self.ch(1, 3) { self.tparams(); } self.p("("); self.ty_params(); self.p(")"); self.p(":"); self.ty(0); }
                2 => { if self.ch(1, 3) { self.p("readonly"); } self.p("["); self.name("k"); self.p(":"); let k = self.s.pick(&["string", "number", "symbol"]).to_string(); self.p(&k); self.ps(&["]", ":"]); self.ty(0); }
                3 => { self.pname(); if self.ch(1, 4) { self.p("?"); } if self.ch(1, 4) { self.tparams(); } self.p("("); self.ty_params(); self.p(")"); if self.ch(3, 4) { self.ret(); } }
                4 => { self.p("get"); self.name("g"); self.ps(&["(", ")", ":"]); self.ty(0); }
                5 => { self.p("set"); self.name("g"); self.ps(&["(", "v", ":"]); self.ty(0); self.p(")"); }
                _ => { if self.ch(1, 4) { self.p("readonly"); } self.pname(); if self.ch(1, 3) { self.p("?"); } if self.ch(7, 8) { self.p(":"); self.ty(0); } }
            }
            if self.ch(1, 8) { self.p("\n"); self.p("\u{3}"); } else { let d = self.s.pick(&[";", ";", ","]).to_string(); self.p(&d); }
        }
    }
    fn ret(&mut self) { self.p(":"); match self.s.below(12) { 0 => { self.ps(&["a", "\u{1}", "is"]); self.ty(1); } 1 => { self.ps(&["asserts", "\u{1}", "a"]); if self.ch(1, 2) { self.ps(&["\u{1}", "is"]); self.ty(1); } } _ => self.ty(1) } }

    // ------------------------------------------------------------------ declarations
    fn params(&mut self) {
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.p(","); }
            if i == 0 && self.ch(1, 12) { self.ps(&["a"]); self.p(":"); self.ty(1); continue; }
            if i + 1 == n && self.ch(1, 6) { self.p("..."); self.name("r"); if self.ch(1, 2) { self.p(":"); self.ty(3); self.ps(&["\u{1}", "[", "]"]); } continue; }
            match self.s.below(6) { 0 => { self.p("{"); self.name("p"); if self.ch(1, 3) { self.p(":"); self.name("q"); } self.p("}"); } 1 => { self.p("["); self.name("p"); self.p("]"); } _ => self.name("p") }
            let last_ident = self.t.last().map_or(false, |t| t.starts_with('p'));
            let opt = last_ident && i + 1 == n && self.ch(1, 5);
            if opt { self.p("?"); }
            if self.ch(2, 3) { self.p(":"); self.ty(1); }
            if !opt && self.ch(1, 6) { self.p("="); self.expr(); }
        }
    }
    fn type_alias(&mut self) { self.p("type"); self.name("A"); if self.ch(1, 3) { self.tparams_decl(false); } self.p("="); self.ty(0); self.p(";"); }
    fn interface(&mut self) {
        self.p("interface"); self.name("I"); if self.ch(1, 3) { self.tparams_decl(true); }
        if self.ch(1, 3) { self.p("extends"); self.p("Foo"); if self.ch(1, 3) { self.targs(); } if self.ch(1, 3) { self.ps(&[",", "A", ".", "B"]); } }
        self.obj_ty();
    }
    fn enum_(&mut self) {
        if self.ch(1, 4) { self.p("const"); }
        self.p("enum"); self.name("E"); self.p("{");
        let mut need = false;
        for _ in 0..self.s.below(4) {
            let nm = self.fresh("M"); let nm = if self.ch(1, 8) { format!("'{nm} x'") } else { nm };
            self.p(&nm);
            match self.s.below(6) { 0 => { self.p("="); self.p("'s'"); need = true; } 1 => { self.ps(&["=", "1", "<<", "2"]); need = false; } 2 => { self.ps(&["=", "-", "3"]); need = false; } _ if need => { self.ps(&["=", "7"]); need = false; } _ => {} }
            self.p(",");
        }
        self.p("}");
    }
    fn class_tail(&mut self, abs: bool) {
        if self.ch(1, 2) { self.name("C"); if self.ch(1, 3) { self.tparams_decl(true); } }
        self.class_rest(abs, false);
    }
    fn class_rest(&mut self, abs: bool, ambient: bool) {
        let ext = self.ch(1, 3);
        if ext { self.ps(&["extends", "Base"]); if self.ch(1, 2) { self.targs(); } }
        if self.ch(1, 4) { self.ps(&["implements", "Foo"]); if self.ch(1, 3) { self.targs(); } if self.ch(1, 4) { self.ps(&[",", "Bar"]); } }
        self.p("{");
        if self.ch(1, 3) {
            if self.ch(1, 4) { let m = self.s.pick(&["private", "protected", "public"]).to_string(); self.p(&m); }
            self.ps(&["constructor", "("]);
            if !ambient && self.ch(1, 2) {
                for i in 0..1 + self.s.below(2) { if i > 0 { self.p(","); } let m = self.s.pick(&["private", "protected", "public", "readonly"]).to_string(); self.p(&m); if m != "readonly" && self.ch(1, 3) { self.p("readonly"); } self.name("pp"); if self.ch(2, 3) { self.p(":"); self.ty(1); } if self.ch(1, 5) { self.p("="); self.expr(); } }
            } else if !ambient { self.params(); } else { self.ty_params(); }
            self.p(")");
            if ambient { self.p(";"); } else { self.p("{"); if ext { self.ps(&["super", "(", ")", ";"]); } self.p("}"); }
        }
        for _ in 0..self.s.below(4) {
            if self.fuel <= 0 { break; }
            if self.ch(1, 3) { let m = self.s.pick(&["private", "protected", "public"]).to_string(); self.p(&m); }
            let abstr = abs && self.ch(1, 3);
            if abstr { self.p("abstract"); } else if self.ch(1, 4) { self.p("static"); }
            let nobody = ambient || abstr;
            match self.s.below(8) {
                0 => { self.name("m"); if self.ch(1, 3) { self.tparams(); } self.p("("); if nobody { self.ty_params() } else { self.params() }; self.p(")"); if self.ch(1, 2) { self.ret(); } if nobody { self.p(";"); } else { self.fbody(); } }
                1 if !nobody => { self.p("async"); self.name("m"); self.p("("); self.params(); self.p(")"); self.fbody(); }
                2 if !nobody => { self.p("*"); self.name("m"); self.p("("); self.params(); self.p(")"); self.fbody(); }
                3 => { self.p("get"); self.name("g"); self.ps(&["(", ")"]); if self.ch(1, 2) || nobody { self.p(":"); self.ty(1); } if nobody { self.p(";"); } else { self.fbody(); } }
                4 => { self.p("set"); self.name("g"); self.ps(&["(", "v"]); if self.ch(1, 2) || nobody { self.p(":"); self.ty(1); } self.p(")"); if nobody { self.p(";"); } else { self.fbody(); } }
                5 if !abstr => { let last = self.t.last().cloned().unwrap_or_default(); if ["private", "protected", "public"].contains(&last.as_str()) { self.t.pop(); } if self.ch(1, 3) { self.p("readonly"); } self.p("["); self.name("k"); self.ps(&[":", "string", "]", ":"]); self.ty(1); self.p(";"); }
                6 if !nobody => { self.name("o"); self.p("("); self.ty_params(); self.p(")"); self.p(":"); self.ty(1); self.p(";"); let nm = format!("o{}", self.n); let _ = nm; }
                _ => { if self.ch(1, 4) { self.p("readonly"); } self.pname(); if self.ch(1, 4) { self.p("?"); } else if self.ch(1, 8) && !nobody { self.p("!"); self.p(":"); self.ty(1); self.p(";"); continue; } if self.ch(2, 3) || nobody { self.p(":"); self.ty(0); } if !nobody && self.ch(1, 2) { self.p("="); self.expr(); } self.p(";"); }
            }
        }
        self.p("}");
    }
    pub fn item(&mut self, top: bool) {
        self.fuel -= 1;
        let amb = self.dts;
        let ns = !top;
        let exportable = (self.module && top) || ns;
        let k = self.s.below(18);
        if exportable && k < 11 && self.ch(1, 3) { self.p("export"); }
        let mut declared = amb;
        if k < 9 && (amb || (top && self.ch(1, 6))) { if k >= 2 { if !(amb && ns) { self.p("declare"); } declared = true; } }
        match k {
            0 => self.type_alias(),
            1 => self.interface(),
            2 => self.enum_(),
            3 | 4 => { let abs = self.ch(1, 3); if abs { self.p("abstract"); } self.p("class"); self.name("C"); if self.ch(1, 3) { self.tparams_decl(true); } self.class_rest(abs, declared); }
            5 | 6 => { if !declared && self.ch(1, 5) { self.p("async"); } self.p("function"); self.name("f"); if self.ch(1, 3) { self.tparams(); } self.p("("); if declared { self.ty_params() } else { self.params() }; self.p(")"); if declared || self.ch(1, 2) { self.ret(); } if declared { self.p(";"); } else { self.fbody(); } }
            7 => { let kw = self.s.pick(&["let", "const", "var"]).to_string(); self.p(&kw); self.name("v"); if declared || self.ch(2, 3) { self.p(":"); self.ty(0); } if !declared { self.p("="); self.expr(); } self.p(";"); }
            8 => { let kw = self.s.pick(&["namespace", "module"]).to_string(); self.p(&kw); self.name("N"); if self.ch(1, 4) { self.p("."); self.name("N"); } self.p("{"); let d = self.dts; self.dts = declared; for _ in 0..self.s.below(3) { if self.fuel > 0 { self.item(false); } } self.dts = d; self.p("}"); }
            9 if top && self.module => { self.p("import"); match self.s.below(5) { 0 => { self.p("type"); self.p("{"); self.name("i"); self.p("}"); } 1 => { self.p("{"); self.p("type"); self.name("i"); self.p(","); self.name("j"); self.p("}"); } 2 => { self.p("type"); self.name("D"); } 3 => { self.ps(&["*", "as"]); self.name("ns"); } _ => { self.name("D"); self.ps(&[",", "{"]); self.name("i"); self.p("as"); self.name("j"); self.p("}"); } } self.ps(&["from", "'m'", ";"]); }
            10 if top && self.module => { let l = self.t.last().cloned().unwrap_or_default(); if l == "export" { self.t.pop(); } match self.s.below(4) { 0 => { self.ps(&["export", "type", "{"]); self.ps(&["T", "}", ";"]); } 1 => { self.ps(&["export", "type", "*", "from", "'m'", ";"]); } 2 => { self.ps(&["import"]); self.name("r"); self.ps(&["=", "require", "(", "'m'", ")", ";"]); } _ => { self.ps(&["export", "{", "type", "T"]); self.ps(&["as"]); self.name("X"); self.ps(&["}", "from", "'m'", ";"]); } } }
            9 | 10 => { let l = self.t.last().cloned().unwrap_or_default(); if l == "export" { self.t.pop(); } self.type_alias(); }
            11 if top => { self.ps(&["declare", "module", "'mm'", "{"]); let d = self.dts; self.dts = true; for _ in 0..self.s.below(3) { if self.fuel > 0 { self.item(false); } } self.dts = d; self.p("}"); }
            12 if top && self.module => { self.ps(&["declare", "global", "{"]); let d = self.dts; self.dts = true; for _ in 0..self.s.below(2) { if self.fuel > 0 { self.item(false); } } self.dts = d; self.p("}"); }
            _ if amb => self.interface(),
            13 => { let n = self.fresh("ov"); for _ in 0..1 + self.s.below(2) { self.p("function"); self.p(&n); self.p("("); self.ty_params(); self.p(")"); self.p(":"); self.ty(1); self.p(";"); } self.p("function"); self.p(&n); self.ps(&["(", "...", "a", ":", "any", "[", "]", ")", ":", "any"]); self.fbody(); }
            14 => { self.p("x"); self.p("="); self.expr(); self.p(";"); }
            _ => self.inner_stmt(),
        }
    }
    pub fn tokens(&mut self, size: i32) -> Vec<String> {
        self.fuel = size;
        while self.fuel > 0 { let f = self.fuel; self.fuel = f.min(25); let b = self.fuel; self.item(true); self.fuel = f - (b - self.fuel).max(1); }
        std::mem::take(&mut self.t)
    }
}
