//! Programs that are all about scoping: few names, many binding forms, closures in every odd position.
use crate::src::Src;
use std::collections::HashSet;

struct Block { lex: HashSet<&'static str>, through: HashSet<&'static str>, used: HashSet<&'static str>, pending: Vec<&'static str>, func: bool, catch_simple: Option<&'static str> }
pub struct Scoper<'a> { s: &'a mut Src, out: String, blocks: Vec<Block>, budget: i32, strict: bool, module: bool, async_: Vec<bool>, gen: Vec<bool>, in_static: u32, dynamic: bool, tdz: bool }
const NAMES: &[&str] = &["a", "b", "c", "d", "e"];

impl<'a> Scoper<'a> {
    pub fn program(s: &'a mut Src, module: bool) -> String {
        let strict = module || s.chance(1, 3);
        let mut g = Scoper { s, out: String::new(), blocks: vec![], budget: 0, strict, module, async_: vec![module], gen: vec![false], in_static: 0, dynamic: false, tdz: false };
        g.tdz = g.s.chance(1, 3);
        g.dynamic = g.s.chance(1, 8);
        g.budget = g.s.range(10, 60) as i32;
        g.push(true);
        if strict && !module { g.w("\"use strict\";"); }
        let n = g.s.range(2, 7);
        for _ in 0..n { g.stmt(true); }
        g.out
    }
    fn w(&mut self, t: &str) { self.out.push_str(t) }
    fn push(&mut self, func: bool) { self.blocks.push(Block { lex: HashSet::new(), through: HashSet::new(), used: HashSet::new(), pending: vec![], func, catch_simple: None }) }
    fn pop(&mut self) { self.blocks.pop(); }
    fn name(&mut self) -> &'static str { *self.s.pick(NAMES) }
    fn lex(&mut self) -> Option<&'static str> {
        for _ in 0..4 {
            let n = self.name();
            let tdz = self.tdz;
            let b = self.blocks.last_mut().unwrap();
            if !b.lex.contains(n) && !b.through.contains(n) && (tdz || !b.used.contains(n)) { b.lex.insert(n); b.pending.push(n); return Some(n); }
        }
        None
    }
    fn var(&mut self) -> Option<&'static str> {
        for _ in 0..4 {
            let n = self.name();
            let mut ok = true;
            let mut k = self.blocks.len();
            let from = loop { k -= 1; if self.blocks[k].lex.contains(n) || self.blocks[k].catch_simple == Some(n) { ok = false; } if self.blocks[k].func || k == 0 { break k; } };
            if ok { for b in &mut self.blocks[from..] { b.through.insert(n); } return Some(n); }
        }
        None
    }
    fn small(&mut self) -> bool { self.budget -= 1; self.budget <= 0 }
    /// binding pattern; `d` declares a name
    fn pat(&mut self, d: &mut dyn FnMut(&mut Self) -> Option<&'static str>, depth: u32) {
        if depth > 0 && self.s.chance(1, 4) && self.budget > 0 {
            let n = self.s.range(1, 3);
            if self.s.chance(1, 2) {
                self.w("{");
                for i in 0..n {
                    if i > 0 { self.w(","); }
                    match self.s.below(4) {
                        0 => { self.w("["); self.expr(1); self.w("]:"); self.pat(d, depth - 1); }
                        1 => { let k = self.name(); self.w(k); self.w(":"); self.pat(d, depth - 1); }
                        _ => { match d(self) { Some(x) => self.w(x), None => self.w("p:[]") } }
                    }
                    if !self.out.ends_with(']') || self.s.chance(1, 2) { if self.s.chance(1, 2) { self.w("="); self.expr(2); } }
                }
                self.w("}");
            } else {
                self.w("[");
                for i in 0..n { if i > 0 { self.w(","); } self.pat(d, depth - 1); if self.s.chance(1, 2) { self.w("="); self.expr(2); } }
                self.w("]");
            }
            return;
        }
        match d(self) { Some(x) => self.w(x), None => self.w("[]") }
    }
    fn args(&mut self) { let n = self.s.below(3); self.w("("); for i in 0..n { if i > 0 { self.w(","); } self.expr(1); } self.w(")"); }
    /// A name to refer to: unless `tdz`, not one certainly in its dead zone here.
    fn target(&mut self) -> &'static str {
        let mut n = self.name();
        if !self.tdz {
            let from = self.blocks.iter().rposition(|b| b.func).unwrap_or(0);
            for _ in 0..6 {
                // the innermost block that declares it decides
                let d = self.blocks[from..].iter().rev().find(|b| b.lex.contains(n) || b.through.contains(n));
                if d.is_some_and(|b| b.pending.contains(&n)) { n = self.name(); } else { break; }
            }
            for b in &mut self.blocks[from..] { b.used.insert(n); }
        }
        n
    }
    fn settle(&mut self) { if let Some(b) = self.blocks.last_mut() { b.pending.clear(); } }
    fn reference(&mut self) { let n = if self.s.chance(1, 14) { *self.s.pick(&["free", "arguments", "undefined"]) } else { self.target() }; let n = if n == "arguments" && self.in_static > 0 { "free" } else { n }; self.w(n); }
    pub fn expr(&mut self, depth: u32) {
        if depth == 0 || self.small() { return self.reference(); }
        if self.dynamic && self.s.chance(1, 24) { self.w("eval("); self.reference(); return self.w(")"); }
        match self.s.below(16) {
            0..=4 => self.reference(),
            5 => { self.w("("); let n = self.target(); self.w(n); self.w("="); self.expr(depth - 1); self.w(")"); }
            6 => { self.w("("); self.expr(depth - 1); self.w(","); self.expr(depth - 1); self.w(")"); }
            7 => { self.reference(); self.args(); }
            8 => { // arrow
                self.w("(");
                let a = self.s.chance(1, 5);
                if a { self.w("async "); }
                self.async_.push(a); self.gen.push(false);
                self.push(true);
                self.params(true);
                self.w("=>");
                if self.s.chance(1, 2) { self.w("("); self.expr(depth); self.w(")"); } else { self.body(); }
                self.pop(); self.async_.pop(); self.gen.pop();
                self.w(")");
            }
            9 | 10 => { // function expression
                self.w("(");
                self.func(depth, 0);
                self.w(")");
            }
            11 => { self.w("("); self.class(true); self.w(")"); }
            12 => { // object
                self.w("({");
                let n = self.s.range(1, 3);
                for i in 0..n {
                    if i > 0 { self.w(","); }
                    match self.s.below(5) {
                        0 => { let x = self.target(); self.w(x); }
                        1 => { let x = self.name(); self.w(x); self.w(":"); self.expr(depth - 1); }
                        2 => { self.w("["); self.expr(depth - 1); self.w("]:"); self.expr(depth - 1); }
                        3 => { let x = self.name(); self.w(x); self.method(); }
                        _ => { self.w("..."); self.reference(); }
                    }
                }
                self.w("})");
            }
            13 => { // destructuring assignment
                let (x, y) = (self.target(), self.target());
                self.w("(["); self.w(x); self.w("="); self.expr(depth - 1); self.w(",{"); self.w(y); self.w("}]="); self.expr(depth - 1); self.w(")");
            }
            14 => { self.w("`${"); self.expr(depth - 1); self.w("}`"); }
            _ => { self.w("typeof "); self.reference(); }
        }
    }
    fn params(&mut self, unique: bool) {
        self.w("(");
        let n = self.s.below(4);
        for i in 0..n {
            if i > 0 { self.w(","); }
            let rest = i == n - 1 && self.s.chance(1, 6);
            if rest { self.w("..."); }
            self.pat(&mut |g: &mut Self| g.param(unique), 2);
            if !rest && self.s.chance(1, 2) { self.w("="); self.expr(3); }
            self.settle();
        }
        self.settle();
        self.w(")");
    }
    // parameters live in the function's block: `lex` blocks let/const, var may redeclare
    fn param(&mut self, _unique: bool) -> Option<&'static str> {
        for _ in 0..4 {
            let n = self.name();
            let tdz = self.tdz;
            let b = self.blocks.last_mut().unwrap();
            if (tdz || !b.used.contains(n)) && b.through.insert(n) { b.pending.push(n); return Some(n); }
        }
        None
    }
    fn body(&mut self) {
        self.w("{");
        let n = if self.budget <= 0 { 0 } else { self.s.below(4) };
        for _ in 0..n { self.stmt(true); }
        if self.s.chance(1, 2) { self.w("return "); self.expr(1); self.w(";"); }
        self.w("}");
    }
    fn method(&mut self) {
        let st = std::mem::replace(&mut self.in_static, 0);
        self.push(true); self.async_.push(false); self.gen.push(false);
        self.params(true); self.body();
        self.pop(); self.async_.pop(); self.gen.pop();
        self.in_static = st;
    }
    /// kind 0: expression, 1: declaration whose name is already written by the caller
    fn func(&mut self, _d: u32, kind: u32) {
        let (a, ge) = (self.s.chance(1, 6), self.s.chance(1, 6));
        if kind == 0 {
            if a { self.w("async "); }
            self.w("function");
            if ge { self.w("*"); }
            if self.s.chance(1, 2) { let n = self.name(); self.w(" "); self.w(n); }
            self.async_.push(a); self.gen.push(ge);
        } else { self.async_.push(false); self.gen.push(false); }
        let st = std::mem::replace(&mut self.in_static, 0);
        self.push(true);
        self.params(true);
        self.body();
        self.pop();
        self.in_static = st;
        self.async_.pop(); self.gen.pop();
    }
    fn class(&mut self, expr: bool) {
        self.w("class");
        if expr { if self.s.chance(1, 2) { let n = self.name(); self.w(" "); self.w(n); } }
        else { let n = self.lex().unwrap_or("zz"); self.w(" "); self.w(n); }
        let old = std::mem::replace(&mut self.strict, true);
        if self.s.chance(1, 3) { self.w(" extends "); self.reference(); }
        self.w("{");
        for _ in 0..self.s.below(4) {
            match self.s.below(6) {
                0 => { let x = self.name(); self.w(x); self.method(); }
                1 => { self.w("static "); let x = self.name(); self.w(x); self.w("="); self.field(); self.w(";"); }
                2 => { let x = self.name(); self.w(x); self.w("="); self.field(); self.w(";"); }
                3 => { self.w("["); self.expr(2); self.w("]"); self.method(); }
                4 => { self.w("["); self.expr(1); self.w("]="); self.field(); self.w(";"); }
                _ => {
                    self.w("static{");
                    self.in_static += 1; self.async_.push(false); self.gen.push(false);
                    self.push(true);
                    for _ in 0..self.s.range(1, 3) { self.stmt(true); }
                    self.pop();
                    self.in_static -= 1; self.async_.pop(); self.gen.pop();
                    self.w("}");
                }
            }
        }
        self.w("}");
        if !expr { self.settle(); }
        self.strict = old;
    }
    fn field(&mut self) { self.in_static += 1; self.async_.push(false); self.gen.push(false); self.push(true); self.expr(2); self.pop(); self.in_static -= 1; self.async_.pop(); self.gen.pop(); }
    fn block(&mut self) {
        self.w("{");
        for _ in 0..self.s.range(1, 3) { self.stmt(false); }
        self.w("}");
    }
    fn decl(&mut self, kw: &str, init: bool) {
        self.w(kw); self.w(" ");
        for i in 0..self.s.range(1, 2) {
            if i > 0 { self.w(","); }
            let before = self.out.len();
            if kw == "var" { self.pat(&mut |g: &mut Self| g.var(), 2) } else { self.pat(&mut |g: &mut Self| g.lex(), 2) }
            let pattern = self.out[before..].starts_with(['{', '[']);
            if init && (pattern || kw == "const" || self.s.chance(2, 3)) { self.w("="); self.expr(3); }
            if !init { break; }
            self.settle();
        }
    }
    fn top(&self) -> bool { self.blocks.len() == 1 }
    pub fn stmt(&mut self, fn_top: bool) {
        if self.small() { self.reference(); return self.w(";\n"); }
        if self.dynamic && !self.strict && self.s.chance(1, 16) { self.w("with("); self.expr(1); self.w(")"); self.push(false); self.block(); self.pop(); return self.w("\n"); }
        match self.s.below(20) {
            0..=2 => { if self.module && self.top() && self.s.chance(1, 4) { self.w("export "); } self.decl("var", true); self.w(";"); }
            3 => { if self.module && self.top() && self.s.chance(1, 4) { self.w("export "); } self.decl("let", true); self.w(";"); }
            4 => { self.decl("const", true); self.w(";"); }
            5 | 6 if fn_top || self.strict => { // function declaration
                let n = if fn_top && !(self.module && self.top()) { self.var() } else { self.lex() };
                let Some(n) = n else { return self.w(";") };
                if self.module && self.top() && self.s.chance(1, 4) { self.w("export "); }
                self.settle(); self.w("function "); self.w(n); self.func(2, 1);
            }
            7 => { if self.module && self.top() && self.s.chance(1, 4) { self.w("export "); } self.class(false); }
            8 => { self.push(false); self.block(); self.pop(); }
            9 => { self.w("if("); self.expr(1); self.w(")"); self.push(false); self.block(); self.pop(); }
            10 => { // for
                self.push(false);
                self.w("for(");
                let kw = *self.s.pick(&["let", "const", "var", "let"]);
                self.decl(kw, true);
                self.w(";"); self.expr(1); self.w(";"); self.expr(1); self.w(")");
                self.push(false); self.block(); self.pop();
                self.pop();
            }
            11 => { // for-in/of
                let kw = *self.s.pick(&["let", "const", "var"]);
                self.push(false);
                self.w("for(");
                self.decl(kw, false);
                let k = if self.s.chance(1, 2) { " of " } else { " in " };
                self.w(k);
                self.expr(2);
                self.settle();
                self.w(")");
                self.push(false); self.block(); self.pop();
                self.pop();
            }
            12 => { // try
                self.w("try"); self.push(false); self.block(); self.pop();
                self.push(false);
                self.w("catch");
                if self.s.chance(4, 5) {
                    self.w("(");
                    if self.s.chance(1, 2) { let n = self.name(); self.w(n); self.blocks.last_mut().unwrap().lex.insert(n); }
                    else { self.pat(&mut |g: &mut Self| g.lex(), 2); }
                    self.w(")");
                }
                self.settle();
                self.block();
                self.pop();
                if self.s.chance(1, 3) { self.w("finally"); self.push(false); self.block(); self.pop(); }
            }
            13 => { // switch
                self.w("switch("); self.expr(1); self.w("){");
                self.push(false);
                let n = self.s.range(1, 3);
                for _ in 0..n { if self.s.chance(1, 4) && !self.out.ends_with("default:") { self.w("case "); self.expr(1); self.w(":"); } else { self.w("case 0:"); } self.stmt(false); }
                self.pop();
                self.w("}");
            }
            14 => { let l = self.name(); self.w("L"); self.w(l); self.w(":"); self.push(false); self.block(); self.pop(); }
            15 if self.module && self.top() => {
                let Some(n) = self.lex() else { return };
                self.settle();
                match self.s.below(3) { 0 => { self.w("import "); self.w(n); self.w(" from 'm';"); } 1 => { self.w("import * as "); self.w(n); self.w(" from 'm';"); } _ => { let o = self.name(); self.w("import {"); self.w(o); self.w(" as "); self.w(n); self.w("} from 'm';"); } }
            }
            16 if self.module && self.top() => { self.w("export default "); self.expr(2); self.w(";"); }
            _ => { self.w(";"); self.expr(4); self.w(";"); }
        }
        self.w("\n");
    }
}
