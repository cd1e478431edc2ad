//! Generator of executable, terminating JavaScript programs with observable traces.
//!
//! Programs report effects through `$(tag, value)`, which records its arguments and returns the last
//! one. Termination: loops are bounded, and functions only call functions whose bodies were complete
//! when the call was generated (plus bounded recursion through an explicit counter).
use crate::src::Src;

#[derive(Clone, Copy, Debug)]
pub struct Feats {
    pub module: bool,
    pub strict: bool,
    pub classes: bool,
    pub private: bool,
    pub fields: bool,
    pub generators: bool,
    pub async_: bool,
    pub destructuring: bool,
    pub spread: bool,
    pub rest: bool,
    pub defaults: bool,
    pub templates: bool,
    pub tagged: bool,
    pub regex: bool,
    pub bigint: bool,
    pub accessors: bool,
    pub with_: bool,
    pub eval: bool,
    pub labels: bool,
    pub switch: bool,
    pub try_: bool,
    pub throw_: bool,
    pub forin: bool,
    pub forof: bool,
    pub optional_chain: bool,
    pub logical_assign: bool,
    pub exponent: bool,
    pub delete_: bool,
    pub arguments: bool,
    pub new_target: bool,
    pub annex_b: bool,
    pub closures: bool,
    pub arrows: bool,
    pub sequence: bool,
    pub cond: bool,
    pub compound: bool,
    pub incdec: bool,
    pub nullish: bool,
    pub in_instanceof: bool,
    pub builtin_calls: bool,
    pub getset_literal: bool,
    pub symbols: bool,
    pub let_const: bool,
    pub loops: bool,
    pub funcs: bool,
    pub objects: bool,
    pub update_member: bool,
    pub this_: bool,
    pub typeof_undeclared: bool,
    pub num_edge: bool,
    pub uncaught: bool,
    pub tdz: bool,
    pub bait: bool,
    pub loose_eq: bool,
    pub shadow: bool,
    pub import_export: bool,
    pub lone_blocks: bool,
    pub void_: bool,
    pub func_in_loop: bool,
    pub float: bool,
    pub jsx: bool,
}

impl Feats {
    pub fn full() -> Self {
        Feats {
            module: false, strict: false, classes: true, private: true, fields: true, generators: true,
            async_: true, destructuring: true, spread: true, rest: true, defaults: true, templates: true,
            tagged: true, regex: true, bigint: true, accessors: true, with_: false, eval: false,
            labels: true, switch: true, try_: true, throw_: true, forin: true, forof: true,
            optional_chain: true, logical_assign: true, exponent: true, delete_: true, arguments: true,
            new_target: true, annex_b: false, closures: true, arrows: true, sequence: true, cond: true,
            compound: true, incdec: true, nullish: true, in_instanceof: true, builtin_calls: true,
            getset_literal: true, symbols: true, let_const: true, loops: true, funcs: true, objects: true,
            update_member: true, this_: true, typeof_undeclared: true, num_edge: true, uncaught: true,
            tdz: false, bait: true, loose_eq: true, shadow: true, import_export: true, lone_blocks: true,
            void_: true, func_in_loop: true, float: true, jsx: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Num, Str, Bool, Obj, Arr, Any, Fn, Class, Gen }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind { Var, Let, Const, Func, Class, Param, Catch }

#[derive(Clone, Debug)]
struct Var { name: String, kind: Kind, ty: Ty, arity: usize, done: bool, level: usize }

#[derive(Default, Clone)]
struct Scope {
    vars: Vec<Var>,
    /// names that cannot be redeclared lexically here
    lexical: Vec<String>,
    hoisted: Vec<String>,
    used: Vec<String>,
    func: bool,
}

type E = (String, u8);

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub f: Feats,
    scopes: Vec<Scope>,
    fuel: i64,
    depth: usize,
    in_func: usize,
    in_gen: bool,
    in_async: bool,
    in_method: bool,
    /// Inside a method/accessor body: the code under test treats those as strict code (known finding of C07).
    no_with: bool,
    in_ctor_ok: bool,
    loop_labels: Vec<String>,
    block_labels: Vec<String>,
    in_loop: usize,
    in_switch: usize,
    no_in: bool,
    tag: usize,
    fresh: usize,
    pub top_names: Vec<String>,
    private_names: Vec<Vec<(String, bool)>>,
    in_param: bool,
    loop_mult: u32,
    in_field: bool,
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "x", "y", "foo", "bar", "item", "value", "count", "result", "index", "list", "obj", "self_", "$a", "_b", "tmp"];
const PROPS: &[&str] = &["p", "q", "r", "key", "val", "length", "if", "a"];
const STRS: &[&str] = &["", "a", "b", "p", "q", "key", "0", "1", "10", " 5 ", "foo", "undefined", "0x10", "1e3", "-1", "a'b", "a\\\"b", "\\n", "\\u00e9", "\\u{1F600}", "\\ud83d", "${x}", "`", "</script>", "\\0", "use strict"];
const NUMS: &[&str] = &["0", "1", "2", "3", "4", "5", "7", "10", "16", "31", "32", "42", "100", "255", "256", "1000"];
const NUMS_EDGE: &[&str] = &["0.5", "1.5", "0.1", "1e3", "1e21", "1e-7", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991", "0x1f", "0b101", "0o17", "1_000", ".25", "5e-324", "1.7976931348623157e308", "123456789012345680000", "NaN", "Infinity"];

fn paren(e: E, min: u8) -> String { if e.1 < min { format!("({})", e.0) } else { e.0 } }

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, f: Feats) -> Self {
        Gen {
            s, f,
            scopes: vec![Scope { func: true, ..Default::default() }],
            fuel: 0, depth: 0, in_func: 0, in_gen: false, in_async: false, in_method: false, no_with: false, in_ctor_ok: false,
            loop_labels: vec![], block_labels: vec![], in_loop: 0, in_switch: 0, no_in: false, tag: 0, fresh: 0,
            top_names: vec![], private_names: vec![], in_param: false, loop_mult: 1, in_field: false,
        }
    }

    fn tag(&mut self) -> usize { self.tag += 1; self.tag }
    fn ch(&mut self, p: usize, q: usize) -> bool { self.s.chance(p, q) }

    // ------------------------------------------------------------ names
    fn can_lex(&self, n: &str) -> bool {
        let sc = self.scopes.last().unwrap();
        !sc.lexical.iter().any(|x| x == n) && !sc.hoisted.iter().any(|x| x == n)
            && (self.f.tdz || !sc.used.iter().any(|x| x == n))
    }
    fn can_var(&self, n: &str) -> bool {
        for sc in self.scopes.iter().rev() {
            if sc.lexical.iter().any(|x| x == n) { return false; }
            if !self.f.tdz && sc.used.iter().any(|x| x == n) && !sc.hoisted.iter().any(|x| x == n) { return false; }
            if sc.func { break; }
        }
        true
    }
    fn new_name(&mut self, lexical: bool) -> String {
        for _ in 0..4 {
            let n = if self.f.shadow { self.s.pick(NAMES).to_string() } else {
                self.fresh += 1; format!("{}{}", self.s.pick(NAMES), self.fresh)
            };
            if if lexical { self.can_lex(&n) } else { self.can_var(&n) } {
                if !self.f.shadow || !self.in_scope_shadow_fn(&n) { return n; }
            }
        }
        self.fresh += 1;
        format!("v{}", self.fresh)
    }
    fn in_scope_shadow_fn(&self, _n: &str) -> bool { false }
    fn declare(&mut self, name: &str, kind: Kind, ty: Ty, arity: usize, done: bool) {
        let level = self.in_func;
        let v = Var { name: name.into(), kind, ty, arity, done, level };
        match kind {
            Kind::Var => {
                let mut i = self.scopes.len() - 1;
                loop {
                    self.scopes[i].hoisted.push(name.into());
                    if self.scopes[i].func { break; }
                    i -= 1;
                }
                self.scopes[i].vars.retain(|x| x.name != name);
                self.scopes[i].vars.push(v);
            }
            _ => {
                let sc = self.scopes.last_mut().unwrap();
                if matches!(kind, Kind::Param) { sc.hoisted.push(name.into()); }
                sc.lexical.push(name.into());
                sc.vars.retain(|x| x.name != name);
                sc.vars.push(v);
            }
        }
        if self.scopes.len() == 1 && !self.top_names.iter().any(|x| x == name) { self.top_names.push(name.into()); }
    }
    fn push(&mut self, func: bool) { self.scopes.push(Scope { func, ..Default::default() }); }
    fn pop(&mut self) { self.scopes.pop(); }

    /// Visible variables (innermost binding per name).
    fn visible(&self, ok: impl Fn(&Var) -> bool) -> Vec<Var> {
        let mut seen: Vec<&str> = vec![];
        let mut out = vec![];
        for sc in self.scopes.iter().rev() {
            for v in sc.vars.iter().rev() {
                if seen.contains(&v.name.as_str()) { continue; }
                seen.push(&v.name);
                if ok(v) { out.push(v.clone()); }
            }
            for n in &sc.lexical { if !seen.contains(&n.as_str()) { seen.push(n); } }
        }
        out
    }
    fn pick_var(&mut self, ok: impl Fn(&Var) -> bool) -> Option<Var> {
        let vs = self.visible(ok);
        if vs.is_empty() { return None; }
        let v = self.s.pick(&vs).clone();
        self.mark_used(&v.name);
        Some(v)
    }
    fn mark_used(&mut self, n: &str) {
        for sc in self.scopes.iter_mut().rev() {
            if sc.vars.iter().any(|v| v.name == n) { break; }
            if !sc.used.iter().any(|x| x == n) { sc.used.push(n.into()); }
        }
    }

    // ------------------------------------------------------------ expressions
    fn any_ty(&mut self) -> Ty { *self.s.pick(&[Ty::Num, Ty::Str, Ty::Bool, Ty::Num, Ty::Any, Ty::Obj, Ty::Arr]) }

    pub fn expr(&mut self, ty: Ty) -> E {
        self.fuel -= 1;
        if self.depth > 4 || self.fuel < 0 { return self.atom(ty); }
        self.depth += 1;
        let e = self.expr_inner(ty);
        self.depth -= 1;
        e
    }
    fn ex(&mut self, ty: Ty, min: u8) -> String { let e = self.expr(ty); paren(e, min) }

    fn num_lit(&mut self) -> E {
        if self.f.num_edge && self.ch(1, 6) { (self.s.pick(NUMS_EDGE).to_string(), 19) } else { (self.s.pick(NUMS).to_string(), 19) }
    }
    fn str_lit(&mut self) -> E {
        let b = *self.s.pick(STRS);
        if self.ch(1, 3) && !b.contains('\'') { (format!("'{}'", b.replace("\\\"", "\"")), 20) } else { (format!("\"{b}\""), 20) }
    }
    fn atom(&mut self, ty: Ty) -> E {
        if self.ch(2, 3) {
            let want = ty;
            if let Some(v) = self.pick_var(|v| (v.ty == want || (want == Ty::Any && !matches!(v.ty, Ty::Fn | Ty::Class | Ty::Gen))) && v.done) {
                return (v.name, 20);
            }
        }
        match ty {
            Ty::Num => self.num_lit(),
            Ty::Str => self.str_lit(),
            Ty::Bool => (self.s.pick(&["true", "false"]).to_string(), 20),
            Ty::Obj => (if self.ch(1, 3) { "{}".into() } else { let p = *self.s.pick(PROPS); let n = self.num_lit(); format!("{{{p}:{}}}", n.0) }, 20),
            Ty::Arr => (self.s.pick(&["[]", "[1]", "[1,2]", "[3,1,2]", "[\"a\",\"b\"]"]).to_string(), 20),
            Ty::Fn => (self.s.pick(&["function(){return 1}", "function(a){return a}"]).to_string(), 20),
            Ty::Any | Ty::Class | Ty::Gen => {
                match self.s.below(8) {
                    0 => ("undefined".into(), 20),
                    1 => ("null".into(), 20),
                    2 => ("NaN".into(), 20),
                    3 if self.f.this_ && !self.in_ctor_ok => ("this".into(), 20),
                    4 => self.str_lit(),
                    5 => ("true".into(), 20),
                    _ => self.num_lit(),
                }
            }
        }
    }

    fn wrapped(&mut self, ty: Ty) -> E {
        // observation
        let t = self.tag();
        let e = self.ex(ty, 1);
        (format!("$({t},{e})"), 18)
    }

    fn expr_inner(&mut self, ty: Ty) -> E {
        if self.ch(1, 14) { return self.wrapped(ty); }
        // type independent forms
        match self.s.weighted(&[60, 4, 3, 4, 3, 3, 4, 2, 2]) {
            1 if self.f.cond => {
                let c = { let t = self.cond_ty(); self.ex(t, 3) };
                let (a, b) = (self.ex_in(ty, 1), self.ex_in(ty, 1));
                return (format!("{c}?{a}:{b}"), 2);
            }
            2 if self.f.sequence => {
                let a = self.ex(Ty::Any, 1);
                let b = self.ex(ty, 1);
                return (format!("({a},{b})"), 20);
            }
            3 => {
                let t = self.any_ty();
                let op = if self.f.nullish && self.ch(1, 3) { "??" } else if self.ch(1, 2) { "||" } else { "&&" };
                return self.logical(op, t, ty);
            }
            4 | 5 => if let Some(e) = self.assign_expr(ty) { return e; },
            6 => if let Some(e) = self.call_expr() { return e; },
            7 if self.in_gen && self.f.generators && !self.in_param && !self.in_field => {
                let a = self.ex(ty, 1);
                return (format!("yield {a}"), 1);
            }
            8 if self.in_async && !self.in_param && !self.in_field => {
                let a = self.ex(ty, 15);
                return (format!("await {a}"), 15);
            }
            _ => {}
        }
        match ty {
            Ty::Num => self.num_expr(),
            Ty::Str => self.str_expr(),
            Ty::Bool => self.bool_expr(),
            Ty::Obj => self.obj_expr(),
            Ty::Arr => self.arr_expr(),
            Ty::Fn => self.fn_expr(0),
            _ => self.any_expr(),
        }
    }
    fn cond_ty(&mut self) -> Ty { *self.s.pick(&[Ty::Bool, Ty::Bool, Ty::Any, Ty::Num, Ty::Str]) }
    fn ex_in(&mut self, ty: Ty, min: u8) -> String { self.ex(ty, min) }

    fn logical(&mut self, op: &str, t: Ty, ty: Ty) -> E {
        let (a, b) = (self.expr(t), self.expr(ty));
        let p = match op { "??" => 3, "||" => 4, _ => 5 };
        let fix = |e: E, min: u8| -> String {
            if op == "??" && (e.1 == 4 || e.1 == 5) { format!("({})", e.0) }
            else if op != "??" && e.1 == 3 { format!("({})", e.0) }
            else { paren(e, min) }
        };
        // `a || b ?? c` mixes are illegal at any depth of the same chain: always parenthesise ?? operands' logicals
        let l = fix(a, p);
        let r = fix(b, p + 1);
        (format!("{l}{op}{r}"), p)
    }

    fn bin(&mut self, op: &str, l: Ty, r: Ty, p: u8) -> E {
        let a = self.ex(l, p);
        let b = self.ex(r, p + 1);
        let word = op.chars().next().unwrap().is_alphabetic();
        let s = if word { format!("{a} {op} {b}") } else if (op == "+" || op == "-" ) && (b.starts_with(op) || a.ends_with(op)) { format!("{a} {op} {b}") }
            else if op == "/" || op == "<" || op == ">" || op == ">>" || op == ">>>" { format!("{a} {op} {b}") }
            else { format!("{a}{op}{b}") };
        (s, p)
    }

    fn num_expr(&mut self) -> E {
        match self.s.weighted(&[8, 6, 5, 4, 3, 3, 2, 3, 2, 3, 2, 2]) {
            0 => self.atom(Ty::Num),
            1 => { let op = *self.s.pick(&["+", "-"]); let t = if self.ch(1, 5) { Ty::Any } else { Ty::Num }; self.bin(op, Ty::Num, t, 12) }
            2 => { let op = *self.s.pick(&["*", "/", "%"]); let t = if self.ch(1, 5) { Ty::Any } else { Ty::Num }; self.bin(op, t, Ty::Num, 13) }
            3 => { let (op, p) = *self.s.pick(&[("&", 8u8), ("|", 6), ("^", 7)]); self.bin(op, Ty::Num, Ty::Num, p) }
            4 => { let op = *self.s.pick(&["<<", ">>", ">>>"]); self.bin(op, Ty::Num, Ty::Num, 11) }
            5 => {
                let op = *self.s.pick(&["-", "+", "~"]);
                let t = if self.ch(1, 4) { Ty::Any } else { Ty::Num };
                let e = self.ex(t, 15);
                if e.starts_with(op) { (format!("{op} {e}"), 15) } else { (format!("{op}{e}"), 15) }
            }
            6 if self.f.exponent => {
                // exact cases only: the result of ** is otherwise implementation-approximated
                let a = self.ex(Ty::Num, 16);
                let b = *self.s.pick(&["0", "1", "2", "-0", "!1", "!0"]);
                if self.ch(1, 3) { let n = self.s.below(9) as i64 - 4; let m = self.s.below(4); (if n < 0 { format!("({n})**{m}") } else { format!("{n}**{m}") }, 14) }
                else if b == "2" { (format!("({a}&1023)**2"), 14) } else { (format!("{a}**{b}"), 14) }
            }
            7 if self.f.incdec => {
                if let Some(v) = self.pick_var(|v| v.ty == Ty::Num && v.done && matches!(v.kind, Kind::Var | Kind::Let | Kind::Param)) {
                    match self.s.below(4) { 0 => (format!("{}++", v.name), 16), 1 => (format!("{}--", v.name), 16), 2 => (format!("++{}", v.name), 15), _ => (format!("--{}", v.name), 15) }
                } else { self.atom(Ty::Num) }
            }
            8 => { let a = { let t = *self.s.pick(&[Ty::Arr, Ty::Str]); self.ex(t, 18) }; (format!("{}.length", self.member_base(a)), 18) }
            9 if self.f.builtin_calls => match self.s.below(5) {
                0 => { let (a, b) = (self.ex(Ty::Num, 1), self.ex(Ty::Num, 1)); (format!("Math.max({a},{b})"), 18) }
                1 => { let a = self.ex(Ty::Num, 1); (format!("Math.floor({a})"), 18) }
                2 => { let a = self.ex(Ty::Str, 1); (format!("parseInt({a},10)"), 18) }
                3 => { let a = self.ex(Ty::Any, 1); (format!("Number({a})"), 18) }
                _ => { let a = self.ex(Ty::Num, 1); (format!("Math.abs({a})"), 18) }
            },
            10 if self.f.void_ => { let a = self.ex(Ty::Any, 15); (format!("void {a}"), 15) }
            _ => self.member_read(),
        }
    }
    fn member_base(&self, s: String) -> String {
        if s.starts_with(|c: char| c.is_ascii_digit() || c == '.') && !s.contains(['(', '[']) { format!("({s})") } else { s }
    }
    fn member_read(&mut self) -> E {
        let o = self.ex(Ty::Obj, 18);
        let o = if o.starts_with('{') || o.starts_with("function") || o.starts_with("class") { format!("({o})") } else { self.member_base(o) };
        self.member_of(o)
    }
    fn member_of(&mut self, o: String) -> E {
        let p = self.s.pick(PROPS).to_string();
        match self.s.below(6) {
            0 => (format!("{o}[\"{p}\"]"), 18),
            1 => { let k = self.ex(Ty::Str, 0); (format!("{o}[{k}]"), 18) }
            2 if self.f.optional_chain => {
                let q = self.s.pick(PROPS).to_string();
                match self.s.below(4) {
                    0 => (format!("{o}?.{p}"), 17),
                    1 => (format!("{o}?.{p}.{q}"), 17),
                    2 => (format!("{o}?.{p}?.[\"{q}\"]"), 17),
                    _ => (format!("{o}.{p}?.()"), 17),
                }
            }
            _ => (format!("{o}.{p}"), 18),
        }
    }
    fn str_expr(&mut self) -> E {
        match self.s.weighted(&[8, 5, 3, 3, 4, 2, 2]) {
            0 => self.atom(Ty::Str),
            1 => { let t = *self.s.pick(&[Ty::Str, Ty::Num, Ty::Any, Ty::Bool]); if self.ch(1, 2) { self.bin("+", Ty::Str, t, 12) } else { self.bin("+", t, Ty::Str, 12) } }
            2 => { let e = self.ex(Ty::Any, 15); (format!("typeof {e}"), 15) }
            3 if self.f.typeof_undeclared => (format!("typeof {}", self.s.pick(&["undeclared1", "Array", "globalThis"])), 15),
            4 if self.f.templates => {
                let n = self.s.below(3);
                let mut t = String::from("`");
                t.push_str(self.s.pick(&["", "x", "a b", "\\n", "${", "\\`", "é", "\\u0041", "\n"]).replace("${", "\\${").as_str());
                for _ in 0..n {
                    let ty = self.any_ty();
                    let e = self.ex(ty, 0);
                    t.push_str(&format!("${{{e}}}"));
                    t.push_str(*self.s.pick(&["", "-", "y"]));
                }
                t.push('`');
                if self.f.tagged && self.ch(1, 6) {
                    let g = self.tag();
                    return (format!("((s,...v)=>$({g},s.raw.join('|'),s.join('|'),v)){t}"), 18);
                }
                (t, 20)
            }
            5 if self.f.builtin_calls => {
                let a = self.ex(Ty::Str, 18);
                match self.s.below(5) {
                    0 => (format!("{a}.toUpperCase()"), 18),
                    1 => { let n = self.ex(Ty::Num, 1); (format!("{a}.slice({n})"), 18) }
                    2 => { let n = self.ex(Ty::Num, 1); (format!("{a}.charAt({n})"), 18) }
                    3 => { let n = self.ex(Ty::Any, 1); (format!("String({n})"), 18) }
                    _ => { let n = self.ex(Ty::Arr, 18); (format!("{n}.join('-')"), 18) }
                }
            }
            6 if self.f.regex => { let a = self.ex(Ty::Str, 18); let r = *self.s.pick(&["/a/g", "/[b/]/i", "/\\/x/", "/(?<n>o+)/u", "/^.$/s"]); (format!("{a}.replace({r},\"_\")"), 18) }
            _ => self.atom(Ty::Str),
        }
    }
    fn bool_expr(&mut self) -> E {
        match self.s.weighted(&[5, 6, 5, 4, 3, 2, 2, 2]) {
            0 => self.atom(Ty::Bool),
            1 => { let op = *self.s.pick(&["<", ">", "<=", ">="]); let t = *self.s.pick(&[Ty::Num, Ty::Num, Ty::Str, Ty::Any]); self.bin(op, Ty::Num, t, 10) }
            2 => {
                let op = if self.f.loose_eq { *self.s.pick(&["===", "!==", "==", "!="]) } else { *self.s.pick(&["===", "!=="]) };
                let (a, b) = (self.any_ty(), self.any_ty());
                self.bin(op, a, b, 9)
            }
            3 => { let t = self.cond_ty(); let e = self.ex(t, 15); (format!("!{e}"), 15) }
            4 => { let op = if self.ch(1, 2) { "||" } else { "&&" }; self.logical(op, Ty::Bool, Ty::Bool) }
            5 if self.f.in_instanceof && !self.no_in => { let p = self.s.pick(PROPS).to_string(); let o = self.ex(Ty::Obj, 11); (format!("\"{p}\" in {o}"), 10) }
            6 if self.f.in_instanceof => { let o = self.ex(Ty::Any, 11); let c = *self.s.pick(&["Object", "Array", "Function"]); (format!("{o} instanceof {c}"), 10) }
            7 if self.f.delete_ => { let o = self.ex(Ty::Obj, 18); let o = self.member_base(o); let p = self.s.pick(PROPS).to_string(); if self.ch(1, 2) { (format!("delete {o}.{p}"), 15) } else { (format!("delete {o}[\"{p}\"]"), 15) } }
            _ => self.atom(Ty::Bool),
        }
    }
    fn prop_key(&mut self) -> String {
        match self.s.below(8) {
            0 => format!("\"{}\"", self.s.pick(&["p", "q", "a-b", "0", "1", "x y", "constructor"])),
            1 => self.s.pick(&["0", "1", "1.5", "0x10"]).to_string(),
            2 => { let e = { let t = *self.s.pick(&[Ty::Str, Ty::Num]); self.ex(t, 1) }; format!("[{e}]") }
            _ => self.s.pick(PROPS).to_string(),
        }
    }
    fn obj_expr(&mut self) -> E {
        if !self.f.objects || self.ch(1, 3) { return self.atom(Ty::Obj); }
        let n = self.s.below(4);
        let mut ms = vec![];
        for _ in 0..n {
            let m = match self.s.weighted(&[8, 3, 3, 2, 2, 1]) {
                1 => match self.pick_var(|v| v.done && !matches!(v.ty, Ty::Class | Ty::Gen)) { Some(v) => v.name, None => "p:1".into() },
                2 if self.f.funcs && self.fuel > 10 => { let k = self.prop_key(); let (ps, b) = self.method_body(false, false); format!("{k}({ps}){{{b}}}") }
                3 if self.f.accessors && self.f.getset_literal && self.fuel > 10 => {
                    let k = self.prop_key();
                    if self.ch(1, 2) { let (_, b) = self.method_body(true, false); format!("get {k}(){{{b}}}") }
                    else { let b = self.setter_body(); format!("set {k}(v0){{{b}}}") }
                }
                4 if self.f.spread => { let t = *self.s.pick(&[Ty::Obj, Ty::Arr, Ty::Any]); let e = self.ex(t, 1); format!("...{e}") }
                5 if self.f.symbols && !self.f.with_ => { let e = self.with_fn(false, false, false, |g| g.ex(Ty::Num, 1)); let t = self.tag(); format!("[Symbol.toPrimitive](h){{return $({t},h,{e})}}") }
                _ => { let k = self.prop_key(); let t = self.any_ty(); let e = self.ex(t, 1); format!("{k}:{e}") }
            };
            ms.push(m);
        }
        (format!("{{{}}}", ms.join(",")), 20)
    }
    fn arr_expr(&mut self) -> E {
        match self.s.weighted(&[4, 6, 2]) {
            1 => {
                let n = self.s.below(4);
                let mut es = vec![];
                for _ in 0..n {
                    if self.f.spread && self.ch(1, 6) { let e = self.ex(Ty::Arr, 1); es.push(format!("...{e}")); }
                    else if self.ch(1, 15) { es.push(String::new()); }
                    else { let t = self.any_ty(); es.push(self.ex(t, 1)); }
                }
                if es.last().map_or(false, |e| e.is_empty()) { es.push("0".into()); }
                (format!("[{}]", es.join(",")), 20)
            }
            2 if self.f.builtin_calls && self.f.funcs && self.fuel > 10 => {
                let a = self.ex(Ty::Arr, 18);
                if self.loop_mult > 30 { return (a, 18); }
                match self.s.below(4) {
                    0 => { self.loop_mult *= 3; let f = self.fn_expr(1); self.loop_mult /= 3; (format!("{a}.map({})", paren(f, 1)), 18) }
                    1 => { self.loop_mult *= 3; let f = self.fn_expr(1); self.loop_mult /= 3; (format!("{a}.filter({})", paren(f, 1)), 18) }
                    2 => { let e = self.ex(Ty::Any, 1); (format!("{a}.concat({e})"), 18) }
                    _ => { let n = self.ex(Ty::Num, 1); (format!("{a}.slice({n})"), 18) }
                }
            }
            _ => self.atom(Ty::Arr),
        }
    }
    fn any_expr(&mut self) -> E {
        match self.s.weighted(&[5, 5, 4, 2, 2, 2, 2, 1]) {
            0 => self.atom(Ty::Any),
            1 => { let t = self.any_ty(); self.expr(t) }
            2 => self.member_read(),
            3 if self.f.bigint => { let (a, b) = (*self.s.pick(&["0n", "1n", "7n", "255n", "0x1fn", "123456789012345678901234567890n"]), *self.s.pick(&["1n", "2n", "3n"])); let op = *self.s.pick(&["+", "*", "-", "%"]); (format!("{a}{op}{b}"), if op == "*" || op == "%" { 13 } else { 12 }) }
            4 if self.f.arguments && self.in_func > 0 && !self.in_field => { if self.ch(1, 2) { ("arguments.length".into(), 18) } else { ("arguments[0]".into(), 18) } }
            5 if self.f.closures && self.f.funcs && self.fuel > 10 => {
                let f = self.fn_expr(0);
                (format!("({})()", f.0), 18)
            }
            6 if self.f.classes => match self.pick_var(|v| v.ty == Ty::Class && v.done) { Some(v) => { let e = self.ex(Ty::Any, 1); (format!("new {}({e})", v.name), 18) } None => self.atom(Ty::Any) },
            7 if self.f.regex => (self.s.pick(&["/a/g.test(\"a\")", "/=/.source", "/[/]/.flags"]).to_string(), 18),
            _ => self.atom(Ty::Any),
        }
    }
    fn call_expr(&mut self) -> Option<E> {
        if self.loop_mult > 200 { return None; }
        let lvl = self.in_func;
        let v = self.pick_var(|v| v.ty == Ty::Fn && v.done && v.level <= lvl)?;
        let n = self.s.below(4);
        let mut args = vec![];
        for _ in 0..n {
            if self.f.spread && self.ch(1, 10) { let e = self.ex(Ty::Arr, 1); args.push(format!("...{e}")); }
            else { let t = self.any_ty(); args.push(self.ex(t, 1)); }
        }
        let a = args.join(",");
        Some(match self.s.below(12) {
            0 if self.f.optional_chain => (format!("{}?.({a})", v.name), 17),
            1 if self.f.builtin_calls => (format!("{}.call({})", v.name, if a.is_empty() { "null".to_string() } else { format!("null,{a}") }), 18),
            2 if self.f.new_target => (format!("new {}({a})", v.name), 18),
            _ => (format!("{}({a})", v.name), 18),
        })
    }
    fn assign_expr(&mut self, ty: Ty) -> Option<E> {
        let no_const = !self.ch(1, 40);
        if self.f.objects && self.ch(1, 3) {
            let o = self.pick_var(|v| v.ty == Ty::Obj && v.done)?;
            let p = self.s.pick(PROPS).to_string();
            let target = if self.ch(1, 4) { format!("{}[\"{p}\"]", o.name) } else { format!("{}.{p}", o.name) };
            if self.f.update_member && self.f.incdec && ty == Ty::Num && self.ch(1, 3) {
                return Some(if self.ch(1, 2) { (format!("{target}++"), 16) } else { (format!("--{target}"), 15) });
            }
            let op = self.assign_op(ty);
            let e = self.ex(ty, 1);
            return Some((format!("{target}{op}{e}"), 1));
        }
        let v = self.pick_var(|v| v.done && v.ty == ty && (matches!(v.kind, Kind::Var | Kind::Let | Kind::Param | Kind::Catch) || (!no_const && v.kind == Kind::Const)) && !matches!(v.ty, Ty::Fn | Ty::Class | Ty::Gen))?;
        let op = self.assign_op(ty);
        let e = self.ex(ty, 1);
        Some((format!("{}{op}{e}", v.name), 1))
    }
    fn assign_op(&mut self, ty: Ty) -> &'static str {
        if !self.f.compound || self.ch(1, 2) { return "="; }
        match ty {
            Ty::Num => {
                if self.f.logical_assign && self.ch(1, 5) { return *self.s.pick(&["||=", "&&=", "??="]); }
                
                *self.s.pick(&["+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", ">>>="])
            }
            Ty::Str => if self.f.logical_assign && self.ch(1, 5) { *self.s.pick(&["||=", "&&=", "??="]) } else { "+=" },
            _ => if self.f.logical_assign { *self.s.pick(&["=", "||=", "&&=", "??="]) } else { "=" },
        }
    }

    // ------------------------------------------------------------ functions
    /// Saves and replaces the function context.
    fn with_fn<T>(&mut self, gen: bool, asy: bool, arrow: bool, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = (self.in_gen, self.in_async, std::mem::take(&mut self.loop_labels), std::mem::take(&mut self.block_labels), self.in_loop, self.in_switch, self.no_in, self.depth, self.in_param, self.in_ctor_ok, self.in_field, self.in_method, self.no_with);
        self.in_gen = gen; self.in_async = asy; self.in_loop = 0; self.in_switch = 0; self.no_in = false; self.in_param = false;
        if !arrow { self.in_ctor_ok = false; self.in_field = false; self.in_method = false; }
        if !arrow || self.in_func > 0 || true { self.in_func += 1; }
        let r = f(self);
        self.in_func -= 1;
        (self.in_gen, self.in_async, self.loop_labels, self.block_labels, self.in_loop, self.in_switch, self.no_in, self.depth, self.in_param, self.in_ctor_ok, self.in_field, self.in_method, self.no_with) = save;
        r
    }
    fn params(&mut self, max: usize) -> (String, usize) {
        let n = self.s.below(max + 1);
        let mut ps = vec![];
        let mut arity = 0;
        for i in 0..n {
            let name = self.new_name(true);
            if self.f.rest && i == n - 1 && self.ch(1, 6) {
                ps.push(format!("...{name}"));
                self.declare(&name, Kind::Param, Ty::Arr, 0, true);
                break;
            }
            if self.f.destructuring && self.ch(1, 7) {
                self.in_param = true;
                let (pat, names) = self.pattern(Kind::Param, 0);
                self.in_param = false;
                ps.push(if self.f.defaults { format!("{pat}={}", if pat.starts_with('[') { "[]" } else { "{}" }) } else { pat });
                let _ = names;
                continue;
            }
            if self.f.defaults && self.ch(1, 5) {
                // declared first: the default may not read its own parameter (certain TDZ error)
                self.declare(&name, Kind::Param, Ty::Num, 0, false);
                self.in_param = true;
                let e = self.ex(Ty::Num, 1);
                self.in_param = false;
                ps.push(format!("{name}={e}"));
            } else {
                ps.push(name.clone());
                arity += 1;
            }
            let t = *self.s.pick(&[Ty::Any, Ty::Num, Ty::Any]);
            self.declare(&name, Kind::Param, t, 0, true);
        }
        (ps.join(","), arity)
    }
    fn body(&mut self, max: usize) -> String {
        let mut b = String::new();
        let n = self.s.below(max + 1);
        for _ in 0..n { b.push_str(&self.stmt()); }
        if self.ch(3, 4) {
            let t = self.any_ty();
            b.push_str(&format!("return {};", self.ex(t, 0)));
            if self.f.bait && self.ch(1, 12) { let s = self.stmt(); b.push_str(&s); }
        }
        b
    }
    /// Parameters and body of a method/accessor.
    fn method_body(&mut self, getter: bool, ctor: bool) -> (String, String) {
        self.method_body_k(getter, ctor, false, false)
    }
    fn method_body_k(&mut self, getter: bool, ctor: bool, gen: bool, asy: bool) -> (String, String) {
        self.push(true);
        let r = self.with_fn(gen, asy, false, |g| {
            g.in_method = true;
            g.no_with = true;
            let ps = if getter { String::new() } else { g.params(2).0 };
            let b = if ctor { let mut b = String::new(); for _ in 0..g.s.below(3) { b.push_str(&g.stmt()); } b } else { g.body(2) };
            (ps, b)
        });
        self.pop();
        r
    }
    fn setter_body(&mut self) -> String {
        self.push(true);
        let b = self.with_fn(false, false, false, |g| {
            g.in_method = true;
            g.no_with = true;
            g.declare("v0", Kind::Param, Ty::Any, 0, true);
            let t = g.tag();
            format!("$({t},v0);{}", if g.ch(1, 3) { g.stmt() } else { String::new() })
        });
        self.pop();
        b
    }
    fn fn_expr(&mut self, arity: usize) -> E {
        if self.fuel < 5 { return if self.f.arrows { ("()=>1".into(), 1) } else { ("function(){return 1}".into(), 20) }; }
        self.push(true);
        let kind = self.s.below(6);
        let r = if kind < 3 && self.f.arrows {
            let asy = self.f.async_ && self.ch(1, 12);
            let expr_body = kind == 0;
            self.with_fn(false, asy, true, |g| {
                let ps = g.params(arity.max(1) + 1).0;
                let ps = if !ps.contains(['=', '.', ',', '{', '[']) && !ps.is_empty() && g.ch(1, 2) { ps } else { format!("({ps})") };
                let b = if expr_body {
                    let t = g.any_ty();
                    let e = g.ex(t, 1);
                    if e.starts_with('{') { format!("({e})") } else { e }
                } else { format!("{{{}}}", g.body(2)) };
                (format!("{}{ps}=>{b}", if asy { "async " } else { "" }), 1)
            })
        } else {
            let name = if self.ch(1, 4) { let n = self.new_name(true); Some(n) } else { None };
            self.with_fn(false, false, false, |g| {
                if let Some(n) = &name {
                    // the function's own name: readable, never called
                    g.scopes.last_mut().unwrap().vars.push(Var { name: n.clone(), kind: Kind::Func, ty: Ty::Any, arity: 0, done: false, level: g.in_func });
                }
                let ps = g.params(arity.max(1) + 1).0;
                let b = g.body(3);
                (format!("function{}({ps}){{{b}}}", name.as_ref().map(|n| format!(" {n}")).unwrap_or_default()), 20)
            })
        };
        self.pop();
        r
    }

    fn pattern(&mut self, kind: Kind, depth: usize) -> (String, Vec<String>) {
        let mut names = vec![];
        let lexical = kind != Kind::Var;
        let arr = self.ch(1, 2);
        let n = 1 + self.s.below(3);
        let mut parts = vec![];
        for i in 0..n {
            // generated (and evaluated) before the target is bound
            let key = if arr || self.ch(1, 3) { None } else { Some(self.prop_key()) };
            let (target, has) = if depth < 2 && self.ch(1, 7) {
                let (p, ns) = self.pattern(kind, depth + 1);
                names.extend(ns);
                (p, true)
            } else {
                let nm = self.new_name(lexical);
                self.declare(&nm, kind, Ty::Any, 0, false);
                names.push(nm.clone());
                (nm, false)
            };
            let nested = has;
            let last = i == n - 1;
            if arr {
                if last && !nested && self.f.rest && self.ch(1, 5) { parts.push(format!("...{target}")); continue; }
                if self.ch(1, 12) { parts.push(String::new()); }
                let d = self.pat_default(nested, &target);
                parts.push(format!("{target}{d}"));
            } else {
                if last && !nested && self.f.rest && self.ch(1, 6) { parts.push(format!("...{target}")); continue; }
                let d = self.pat_default(nested, &target);
                match key {
                    None if !nested => parts.push(format!("{target}{d}")),
                    k => parts.push(format!("{}:{target}{d}", k.unwrap_or_else(|| "p".into()))),
                }
            }
        }
        if depth == 0 || true {
            // names become usable once the pattern is complete
            let ns = names.clone();
            for sc in self.scopes.iter_mut() { for v in sc.vars.iter_mut() { if ns.contains(&v.name) && !matches!(v.ty, Ty::Fn | Ty::Class) { v.done = true; } } }
        }
        (if arr { format!("[{}]", parts.join(",")) } else { format!("{{{}}}", parts.join(",")) }, names)
    }
    fn pat_default(&mut self, nested: bool, target: &str) -> String {
        if nested { return format!("={}", if target.starts_with('[') { "[]" } else { "{}" }); }
        if self.f.defaults && self.ch(1, 3) { let e = self.ex(Ty::Num, 1); format!("={e}") } else { String::new() }
    }

    fn class_tail(&mut self, own: Option<&str>) -> String {
        let base = if self.ch(1, 3) { self.pick_var(|v| v.ty == Ty::Class && v.done).map(|v| v.name) } else { None };
        self.push(false);
        if let Some(o) = own { let l = self.in_func; self.scopes.last_mut().unwrap().vars.push(Var { name: o.into(), kind: Kind::Const, ty: Ty::Any, arity: 0, done: false, level: l }); }
        let mut privs: Vec<(String, bool)> = vec![];
        let mut ms: Vec<String> = vec![];
        if self.f.private && self.f.fields { for i in 0..self.s.below(3) { privs.push((["#p", "#q", "#r"][i].to_string(), false)); } }
        let mut static_privs = vec![];
        for p in privs.iter() {
            let st = self.ch(1, 4);
            if st { static_privs.push(p.0.clone()); }
            let init = if self.ch(3, 4) { let e = self.field_init(); format!("={e}") } else { String::new() };
            ms.push(format!("{}{}{init};", if st { "static " } else { "" }, p.0));
        }
        self.private_names.push(privs.clone());
        let n = self.s.below(4) + 1;
        let mut has_ctor = false;
        for _ in 0..n {
            let st = if self.ch(1, 4) { "static " } else { "" };
            let m = match self.s.weighted(&[5, 3, 3, 2, 2, 1, 2]) {
                0 => {
                    let k = self.class_key(!st.is_empty());
                    let gen = self.f.generators && self.ch(1, 10);
                    let asy = self.f.async_ && self.ch(1, 14);
                    let (ps, b) = self.method_body_k(false, false, gen, asy);
                    let extra = if let (Some((p, _)), true) = (privs.first().cloned(), self.ch(1, 2)) {
                        let t = self.tag();
                        if static_privs.contains(&p) { format!("$({t},#{} in this);", &p[1..]) } else { format!("$({t},this.{p});") }
                    } else { String::new() };
                    let sup = if base.is_some() && self.ch(1, 4) { let t = self.tag(); format!("$({t},super.m);") } else { String::new() };
                    format!("{st}{}{}{k}({ps}){{{extra}{sup}{b}}}", if asy { "async " } else { "" }, if gen { "*" } else { "" })
                }
                1 if !has_ctor => {
                    has_ctor = true;
                    let (ps, b) = self.method_body(false, true);
                    let sup = if base.is_some() { let t = self.tag(); format!("super($({t},1));") } else { String::new() };
                    let own = if let Some((p, _)) = privs.iter().find(|p| !static_privs.contains(&p.0)) { format!("this.{p}=5;") } else { String::new() };
                    format!("constructor({ps}){{{sup}{own}{b}}}")
                }
                2 if self.f.fields => { let k = self.class_key(!st.is_empty()); let e = self.field_init(); if self.ch(4, 5) { format!("{st}{k}={e};") } else { format!("{st}{k};") } }
                3 if self.f.accessors => { let k = self.class_key(!st.is_empty()); let (_, b) = self.method_body(true, false); format!("{st}get {k}(){{{b}}}") }
                4 if self.f.accessors => { let k = self.class_key(!st.is_empty()); let b = self.setter_body(); format!("{st}set {k}(v0){{{b}}}") }
                5 if self.f.fields => { let t = self.tag(); self.push(true); let e = self.field_init(); self.pop(); format!("static{{$({t},{e});this.sb={t}}}") }
                _ => { let t = self.tag(); format!("{st}m(z){{return $({t},z)}}") }
            };
            ms.push(m);
        }
        self.private_names.pop();
        self.pop();
        format!("{}{{{}}}", base.map(|b| format!(" extends {b}")).unwrap_or_default(), ms.join(""))
    }
    fn class_key(&mut self, st: bool) -> String {
        match self.s.below(8) {
            0 => "\"s t\"".into(),
            1 => "7".into(),
            2 => { let t = self.tag(); format!("[$({t},\"ck{t}\")]") }
            3 => self.s.pick(&["get", "set", "async", "of", "let"]).to_string(),
            4 if !st => "static".into(),
            _ => self.s.pick(&["m", "n", "p", "key"]).to_string(),
        }
    }
    fn field_init(&mut self) -> String {
        let save = (self.in_field, self.in_gen, self.in_async);
        self.in_field = true; self.in_gen = false; self.in_async = false;
        let t = self.any_ty();
        let e = self.ex(t, 1);
        (self.in_field, self.in_gen, self.in_async) = save;
        e
    }

    // ------------------------------------------------------------ statements
    fn block(&mut self, max: usize) -> String {
        self.push(false);
        let n = self.s.below(max) + 1;
        let mut b = String::new();
        for _ in 0..n { b.push_str(&self.stmt()); }
        self.pop();
        b
    }
    fn expr_stmt_text(e: String) -> String {
        if e.starts_with('{') || e.starts_with("function") || e.starts_with("class") || e.starts_with("let[") || e.starts_with("async function") { format!("({e});") } else { format!("{e};") }
    }
    /// A statement usable as the body of if/loops (no declarations).
    fn sub_stmt(&mut self) -> String {
        if self.ch(1, 3) {
            self.push(false);
            let t = self.any_ty();
            let e = match self.s.below(3) { 0 => self.wrapped(t), _ => self.assign_expr(t).unwrap_or(("0".into(), 20)) };
            self.pop();
            Self::expr_stmt_text(e.0)
        } else { format!("{{{}}}", self.block(2)) }
    }
    fn log_vars(&mut self) -> String {
        let t = self.tag();
        let mut vs = self.visible(|v| v.done && !matches!(v.ty, Ty::Fn | Ty::Class | Ty::Gen));
        while vs.len() > 3 { let i = self.s.below(vs.len()); vs.remove(i); }
        for v in &vs { self.mark_used(&v.name); }
        format!("$({t}{});", vs.iter().map(|v| format!(",{}", v.name)).collect::<String>())
    }
    pub fn stmt(&mut self) -> String {
        if self.fuel < 0 { return self.log_vars(); }
        self.fuel -= 2;
        let d = self.depth;
        self.depth = 0;
        let r = if self.scopes.len() > 9 { self.log_vars() } else { self.stmt_inner() };
        self.depth = d;
        r
    }
    fn decl_kw(&mut self) -> (&'static str, Kind) {
        if !self.f.let_const { return ("var", Kind::Var); }
        match self.s.below(5) { 0 | 1 => ("let", Kind::Let), 2 => ("const", Kind::Const), _ => ("var", Kind::Var) }
    }
    fn var_decl(&mut self) -> String {
        let (kw, kind) = self.decl_kw();
        let n = if self.ch(1, 5) { 2 } else { 1 };
        let mut ds = vec![];
        let mut pend = vec![];
        for _ in 0..n {
            if self.f.destructuring && self.ch(1, 6) {
                let init = { let t = *self.s.pick(&[Ty::Arr, Ty::Obj]); self.ex(t, 1) };
                let (pat, _) = self.pattern(kind, 0);
                let init = if pat.starts_with('[') && !init.starts_with('[') { "[1,2]".into() } else { init };
                ds.push(format!("{pat}={init}"));
                continue;
            }
            let ty = self.any_ty();
            let no_init = kind != Kind::Const && self.ch(1, 8);
            let init = if no_init { String::new() } else { format!("={}", self.ex(ty, 1)) };
            let name = self.new_name(kind != Kind::Var);
            self.declare(&name, kind, if no_init { Ty::Any } else { ty }, 0, false);
            pend.push(name.clone());
            ds.push(format!("{name}{init}"));
        }
        for sc in self.scopes.iter_mut() { for v in sc.vars.iter_mut() { if pend.contains(&v.name) { v.done = true; } } }
        format!("{kw} {};", ds.join(","))
    }
    fn func_decl(&mut self) -> String {
        let name = self.new_name(true);
        let gen = self.f.generators && self.ch(1, 8);
        let asy = self.f.async_ && self.ch(1, 8);
        self.declare(&name, Kind::Func, Ty::Fn, 1, false);
        self.push(true);
        let save_mult = self.loop_mult;
        let (ps, b) = self.with_fn(gen, asy, false, |g| { let ps = g.params(3).0; let b = g.body(4); (ps, b) });
        self.loop_mult = save_mult;
        self.pop();
        let ty = if gen && !asy { Ty::Gen } else { Ty::Fn };
        for sc in self.scopes.iter_mut().rev() { if let Some(v) = sc.vars.iter_mut().find(|v| v.name == name) { v.done = true; v.ty = ty; break; } }
        let star = if gen { "*" } else { "" };
        let a = if asy { "async " } else { "" };
        let directive = if self.ch(1, 15) && !ps.contains(['=', '.', '{', '[']) && !self.f.with_ && !b.contains("arguments") { "\"use strict\";" } else { "" };
        let _ = directive;
        let call = if gen && !asy && self.f.forof && self.f.spread {
            let t = self.tag();
            format!("$({t},[...{name}(1,2)]);")
        } else if asy && !gen {
            let (t, u) = (self.tag(), self.tag());
            format!("{name}(1).then(v=>$({t},v),e=>$({u},e));")
        } else { String::new() };
        format!("{a}function{star} {name}({ps}){{{b}}}{call}")
    }
    fn stmt_inner(&mut self) -> String {
        let blockish = self.scopes.last().map_or(false, |s| !s.func);
        let w = [
            14, 14, 8, 8, 6, 4, 4, 3, 4, 4, 3, 3, 2, 3, 4, 2, 2, 2, 3,
        ];
        match self.s.weighted(&w) {
            0 => { let ty = self.any_ty(); let e = self.wrapped(ty); format!("{};", e.0) }
            1 => self.var_decl(),
            2 => { let ty = self.any_ty(); match self.assign_expr(ty) { Some(e) => Self::expr_stmt_text(e.0), None => self.var_decl() } }
            3 => {
                let c = { let t = self.cond_ty(); self.ex(t, 0) };
                let a = self.sub_stmt();
                if self.ch(1, 2) {
                    let a = if a.starts_with('{') { a } else { format!("{{{a}}}") };
                    let b = if self.ch(1, 4) { let c2 = self.ex(Ty::Bool, 0); let s = self.sub_stmt(); format!("if({c2}){s}") } else { self.sub_stmt() };
                    format!("if({c}){a}else {b}")
                } else { format!("if({c}){a}") }
            }
            4 if self.f.funcs && (!blockish || self.f.strict || self.f.module || self.f.annex_b) && self.fuel > 10 && self.in_func < 3 => self.func_decl(),
            5 if self.f.loops && self.loop_mult < 30 => self.for_stmt(),
            6 if self.f.loops && self.loop_mult < 30 => self.while_stmt(),
            7 if self.f.switch => self.switch_stmt(),
            8 if self.f.try_ => self.try_stmt(),
            9 if self.f.forof && self.loop_mult < 30 => self.forof_stmt(),
            10 if self.f.labels && self.f.loops => {
                let l = format!("L{}", self.tag());
                self.block_labels.push(l.clone());
                let b = self.block(3);
                self.block_labels.pop();
                format!("{l}:{{{b}}}")
            }
            11 if self.f.classes && self.fuel > 15 => {
                let name = self.new_name(true);
                self.declare(&name, Kind::Class, Ty::Class, 0, false);
                let t = self.class_tail(Some(&name));
                for sc in self.scopes.iter_mut().rev() { if let Some(v) = sc.vars.iter_mut().find(|v| v.name == name) { v.done = true; break; } }
                let g = self.tag();
                let decl = if self.ch(1, 4) { format!("const {name}=class{t};") } else { format!("class {name}{t}") };
                format!("{decl}$({g},new {name}(1));")
            }
            12 => self.jump_stmt(),
            13 if self.f.lone_blocks => format!("{{{}}}", self.block(3)),
            14 if self.f.funcs && self.f.closures && self.fuel > 10 => {
                // function value in a variable (complete before use)
                let f = self.fn_expr(1);
                let name = self.new_name(true);
                let kw = if self.f.let_const { *self.s.pick(&["const", "let"]) } else { "var" };
                let k = if self.f.let_const { Kind::Const } else { Kind::Var };
                let name = if k == Kind::Var { self.new_name(false) } else { name };
                self.declare(&name, k, Ty::Fn, 1, true);
                format!("{kw} {name}={};", f.0)
            }
            15 if self.f.bait => self.bait(),
            16 if self.f.with_ && !self.no_with && !self.f.strict && !self.f.module => { let o = self.ex(Ty::Obj, 0); let b = self.block(2); format!("with({o}){{{b}}}") }
            17 if self.f.eval => {
                let t = self.tag();
                match self.pick_var(|v| v.done && !matches!(v.ty, Ty::Fn | Ty::Class | Ty::Gen)) {
                    Some(v) => if self.ch(1, 3) && matches!(v.kind, Kind::Var | Kind::Let) { format!("$({t},eval(\"{}=5\"),{});", v.name, v.name) } else { format!("$({t},eval(\"{}\"));", v.name) },
                    None => format!("$({t},eval(\"1+1\"));"),
                }
            }
            18 if self.f.destructuring && self.f.objects => {
                // destructuring assignment
                if let (Some(a), Some(b)) = (self.pick_var(|v| v.done && matches!(v.kind, Kind::Var | Kind::Let) && v.ty == Ty::Num), self.pick_var(|v| v.done && matches!(v.kind, Kind::Var | Kind::Let) && v.ty == Ty::Num)) {
                    let (x, y) = (self.ex(Ty::Num, 1), self.ex(Ty::Num, 1));
                    match self.s.below(3) {
                        0 => format!("[{},{}]=[{x},{y}];", a.name, b.name),
                        1 => format!("({{p:{},q:{}=3}}={{p:{x}}});", a.name, b.name),
                        _ => format!("[{},{}]=[{},{}];", a.name, b.name, b.name, a.name),
                    }
                } else { self.log_vars() }
            }
            _ => { let e = self.call_expr(); match e { Some(e) => { let t = self.tag(); format!("$({t},{});", paren(e, 1)) } None => self.log_vars() } }
        }
    }
    fn jump_stmt(&mut self) -> String {
        let t = self.cond_ty();
        let guard = if self.ch(3, 4) { format!("if({})", self.ex(t, 0)) } else { String::new() };
        let mut opts: Vec<String> = vec![];
        if self.in_loop > 0 { opts.push("break;".into()); opts.push("continue;".into()); }
        else if self.in_switch > 0 { opts.push("break;".into()); }
        for l in &self.loop_labels { opts.push(format!("break {l};")); opts.push(format!("continue {l};")); }
        for l in &self.block_labels { opts.push(format!("break {l};")); }
        if self.in_func > 0 && !self.in_field && self.scopes.len() > 1 { opts.push("return;".into()); opts.push("return 7;".into()); }
        if self.f.throw_ && (self.f.try_ || self.f.uncaught) { opts.push("throw 1;".into()); opts.push("throw new TypeError(\"t\");".into()); }
        if opts.is_empty() { return self.log_vars(); }
        let j = self.s.pick(&opts).clone();
        if j.starts_with("throw") && guard.is_empty() && !self.f.uncaught { return self.log_vars(); }
        format!("{guard}{j}")
    }
    fn bait(&mut self) -> String {
        let t = self.tag();
        match self.s.below(14) {
            0 => { let s = self.sub_stmt(); format!("if(false){s}") }
            1 => { let s = self.sub_stmt(); format!("if(0){{var dead{t}=1;{s}}}$({t},typeof dead{t});") }
            2 => { let e = self.ex(Ty::Any, 0); let n = self.new_name(true); if self.f.let_const { self.declare(&n, Kind::Let, Ty::Any, 0, false); format!("let {n}=$({t},{e});") } else { format!("$({t},({e}));") } }
            3 => format!("$({t},!0,!1,void 0,1/0,-0,\"a\"+1+2,1+2+\"a\");"),
            4 => { let e = self.ex(Ty::Any, 10); format!("$({t},{e}===undefined,{e}===null,{e}==null);") }
            5 => { let e = self.ex(Ty::Any, 3); format!("$({t},{e}?true:false);") }
            6 => { let (c, a, b) = (self.ex(Ty::Bool, 0), self.wrapped(Ty::Num).0, self.wrapped(Ty::Str).0); format!("if({c}){a};else {b};") }
            7 => { let c = self.ex(Ty::Bool, 3); let (a, b) = (self.wrapped(Ty::Num).0, self.wrapped(Ty::Num).0); format!("{c}?{a}:{b};") }
            8 => "debugger;".into(),
            9 => ";;".into(),
            10 if self.f.arrows => { let b = self.block(2); format!("(()=>{{{b}}})();") }
            11 => { let e = self.ex(Ty::Any, 3); format!("$({t},!!({e}),!({e}));") }
            12 => { let s = self.sub_stmt(); format!("while(false){s}") }
            _ => { let e = self.ex(Ty::Bool, 5); let f = self.wrapped(Ty::Num).0; format!("{e}&&{f};") }
        }
    }
    fn loop_body(&mut self, mult: u32) -> (String, String) {
        let label = if self.f.labels && self.ch(1, 5) { let l = format!("L{}", self.tag()); self.loop_labels.push(l.clone()); Some(l) } else { None };
        self.in_loop += 1;
        self.loop_mult *= mult;
        let b = if self.ch(1, 6) { self.sub_stmt() } else { format!("{{{}}}", self.block(3)) };
        self.loop_mult /= mult;
        self.in_loop -= 1;
        if label.is_some() { self.loop_labels.pop(); }
        (label.map(|l| format!("{l}:")).unwrap_or_default(), b)
    }
    fn for_stmt(&mut self) -> String {
        self.push(false);
        let i = { self.fresh += 1; format!("i{}", self.fresh) };
        let kw = if self.f.let_const && self.ch(2, 3) { "let" } else { "var" };
        self.no_in = true;
        let extra = if self.ch(1, 5) { let e = self.ex(Ty::Num, 1); let n = self.new_name(kw == "let"); self.declare(&n, if kw == "let" { Kind::Let } else { Kind::Var }, Ty::Num, 0, true); format!(",{n}={e}") } else { String::new() };
        self.no_in = false;
        let k = if kw == "let" { Kind::Const } else { Kind::Const };
        // the counter is readable but never assigned by the body
        self.scopes.last_mut().unwrap().vars.push(Var { name: i.clone(), kind: k, ty: Ty::Num, arity: 0, done: true, level: self.in_func });
        let n = 1 + self.s.below(3);
        let cond = if self.ch(1, 5) { let c = self.ex(Ty::Bool, 6); format!("{i}<{n}&&({c})") } else { format!("{i}<{n}") };
        let upd = if !self.f.incdec { format!("{i}={i}+1") } else if self.ch(1, 3) { format!("{i}+=1") } else if self.ch(1, 3) { let t = self.tag(); format!("$({t},{i}),{i}++") } else { format!("{i}++") };
        let (l, b) = self.loop_body(n as u32 + 1);
        self.pop();
        format!("{l}for({kw} {i}=0{extra};{cond};{upd}){b}")
    }
    fn while_stmt(&mut self) -> String {
        let i = { self.fresh += 1; format!("w{}", self.fresh) };
        let kw = if self.f.let_const && self.ch(2, 3) { "let" } else { "var" };
        self.scopes.last_mut().unwrap().vars.push(Var { name: i.clone(), kind: Kind::Const, ty: Ty::Num, arity: 0, done: true, level: self.in_func });
        let n = 1 + self.s.below(3);
        let dec = if self.f.incdec { format!("{i}-->0") } else { format!("({i}={i}-1)>=0") };
        let (l, b) = self.loop_body(n as u32 + 1);
        let b = if b.starts_with('{') { b } else { format!("{{{b}}}") };
        if self.ch(1, 3) { let d2 = if self.f.incdec { format!("{i}-->0") } else { dec }; format!("{kw} {i}={n};{l}do{b}while({d2});") }
        else { format!("{kw} {i}={n};{l}while({dec}){b}") }
    }
    fn forof_stmt(&mut self) -> String {
        self.push(false);
        let (kw, kind) = self.decl_kw();
        let forin = self.f.forin && self.ch(1, 3);
        let e = { let t = if forin { *self.s.pick(&[Ty::Obj, Ty::Arr]) } else { Ty::Arr }; self.ex(t, 1) };
        let target = if self.f.destructuring && !forin && self.ch(1, 6) {
            let (p, _) = self.pattern(kind, 1);
            p
        } else { let n = self.new_name(kind != Kind::Var); self.declare(&n, kind, if forin { Ty::Str } else { Ty::Any }, 0, true); n };
        let aw = self.in_async && !forin && self.ch(1, 3);
        let (l, b) = self.loop_body(4);
        self.pop();
        let op = if forin { "in" } else { "of" };
        let e = if !forin && target.starts_with(['[', '{']) { format!("[{e}]") } else { e };
        format!("{l}for{}({kw} {target} {op} {e}){b}", if aw { " await" } else { "" })
    }
    fn switch_stmt(&mut self) -> String {
        let t = *self.s.pick(&[Ty::Num, Ty::Str, Ty::Any]);
        let d = self.ex(t, 0);
        self.push(false);
        self.in_switch += 1;
        let n = 1 + self.s.below(3);
        let def = if self.ch(1, 2) { Some(self.s.below(n + 1)) } else { None };
        let mut cs = String::new();
        for i in 0..=n {
            if def == Some(i) { let t = self.tag(); cs.push_str(&format!("default:$({t});")); if self.ch(1, 2) { cs.push_str("break;"); } }
            if i == n { break; }
            let e = if self.ch(1, 2) { self.atom(t).0 } else { self.wrapped(t).0 };
            // lexical declarations of other branches may be in their dead zone: keep bodies in blocks
            let b = format!("{{{}}}", self.block(2));
            let br = if self.ch(2, 3) { "break;" } else { "" };
            cs.push_str(&format!("case {e}:{b}{br}"));
        }
        self.in_switch -= 1;
        self.pop();
        format!("switch({d}){{{cs}}}")
    }
    fn try_stmt(&mut self) -> String {
        let b = self.block(3);
        let t = self.tag();
        let fin = self.ch(1, 3);
        let catch = !fin || self.ch(1, 2);
        let mut s = format!("try{{{b}}}");
        if catch {
            self.push(false);
            if self.ch(1, 5) { let c = self.block(2); s.push_str(&format!("catch{{$({t});{c}}}")); }
            else {
                let n = self.new_name(true);
                self.declare(&n, Kind::Catch, Ty::Any, 0, true);
                let c = self.block(2);
                s.push_str(&format!("catch({n}){{$({t},{n});{c}}}"));
            }
            self.pop();
        }
        if fin { let f = self.block(2); let t = self.tag(); s.push_str(&format!("finally{{$({t});{f}}}")); }
        s
    }

    /// A whole program with about `size` units of work.
    pub fn program(&mut self, size: usize) -> String {
        let mut out = String::new();
        if self.f.strict && !self.f.module { out.push_str("\"use strict\";\n"); }
        if self.f.module && self.f.import_export && self.ch(1, 2) {
            match self.s.below(4) {
                0 => { out.push_str("import def0 from \"m\";\n"); self.declare("def0", Kind::Const, Ty::Num, 0, true); }
                1 => { out.push_str("import {x as impx, y} from \"m\";\n"); self.declare("impx", Kind::Const, Ty::Num, 0, true); self.declare("y", Kind::Const, Ty::Str, 0, true); }
                2 => { out.push_str("import * as ns from \"m\";\n$('ns',ns.x,ns.y);\n"); self.declare("ns", Kind::Const, Ty::Obj, 0, true); }
                _ => { out.push_str("import def1,{y as why} from 'm';\n"); self.declare("def1", Kind::Const, Ty::Num, 0, true); self.declare("why", Kind::Const, Ty::Str, 0, true); }
            }
        }
        let n = 2 + self.s.below(size.max(1));
        for _ in 0..n {
            self.fuel = 60;
            let st = if self.s.below(10) < 3 && self.f.module && self.f.import_export { self.export_stmt() } else { self.stmt() };
            let decl = ["var ", "let ", "const ", "function", "class", "async ", "export", "import"].iter().any(|p| st.starts_with(p));
            if self.f.try_ && !decl && self.ch(2, 3) {
                let t = self.tag();
                out.push_str(&format!("try{{{st}}}catch(E){{$({t},E)}}\n"));
            } else { out.push_str(&st); out.push('\n'); }
        }
        self.fuel = 0;
        out.push_str(&self.log_vars());
        out
    }
    fn export_stmt(&mut self) -> String {
        match self.s.below(6) {
            0 => { let d = self.var_decl(); if d.contains("=[") && d.starts_with("var [") { return d; } format!("export {d}") }
            1 if self.f.funcs => { let d = self.func_decl(); format!("export {d}") }
            2 => { let v = self.pick_var(|v| v.done && v.level == 0 && !v.name.starts_with("exp")); match v { Some(v) if self.scopes[0].vars.iter().any(|w| w.name == v.name) => { let t = self.tag(); format!("export {{{} as e{t}}};", v.name) } _ => self.var_decl() } }
            3 => { if self.top_names.iter().any(|n| n == "default") { self.var_decl() } else { self.top_names.push("default".into()); let t = self.any_ty(); let e = self.ex(t, 1); let e = if e.starts_with("function") || e.starts_with("class") || e.starts_with("async") { format!("({e})") } else { e }; format!("export default {e};") } }
            4 => { let t = self.tag(); format!("export {{x as re{t}}} from \"m\";") }
            _ => self.var_decl(),
        }
    }
}
