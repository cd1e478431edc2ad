//! Executable TypeScript programs (C09): every construct with a runtime meaning or with something to erase, logging through `$`.
use crate::Src;

#[derive(Clone)]
struct Scope { vals: Vec<String>, muts: Vec<String>, enums: Vec<(String, Vec<String>, bool)>, classes: Vec<(String, usize)>, ns: Vec<(String, Vec<String>)> }

pub struct TsExec<'a> { pub s: &'a mut Src, n: usize, tag: usize, module: bool, define: bool, sc: Vec<Scope>, fuel: i32 }

const TYPES: &[&str] = &["number", "string", "any", "unknown", "number|string", "{a:number}", "Array<number>", "(x:number)=>void", "readonly string[]", "[a:number,b?:string]", "T0", "keyof any", "typeof globalThis", "`a${string}`", "I0<string>", "this extends never?1:2"];

impl<'a> TsExec<'a> {
    pub fn new(s: &'a mut Src, module: bool, define: bool) -> Self { TsExec { s, n: 0, tag: 0, module, define, sc: vec![Scope { vals: vec![], muts: vec![], enums: vec![], classes: vec![], ns: vec![] }], fuel: 60 } }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn ty(&mut self) -> String { let k = self.s.below(TYPES.len() - 1); TYPES[k].into() }
    fn ann(&mut self) -> String { if self.s.chance(1, 2) { format!(":{}", self.ty()) } else { String::new() } }
    fn all<T: Clone>(&self, f: impl Fn(&Scope) -> Vec<T>) -> Vec<T> { self.sc.iter().flat_map(|s| f(s)).collect() }
    fn num(&mut self) -> String { self.s.pick(&["0", "1", "2", "3", "7", "10", "-1", "1.5", "255"]).to_string() }
    fn log(&mut self, e: &str) -> String { self.tag += 1; format!("$({},{e});\n", self.tag) }
    fn expr(&mut self, d: u32) -> String {
        let vals = self.all(|s| s.vals.clone());
        let enums: Vec<_> = self.all(|s| s.enums.clone());
        let classes = self.all(|s| s.classes.clone());
        let ns = self.all(|s| s.ns.clone());
        let k = if d == 0 { self.s.below(5) } else { self.s.below(20) };
        match k {
            0 | 1 => self.num(),
            2 => format!("'{}'", self.s.pick(&["a", "b", "x y", "10"])),
            3 | 4 => if vals.is_empty() { self.num() } else { self.s.pick(&vals).clone() },
            5 => { let e = self.expr(d - 1); let t = self.ty(); format!("({e} as {t})") }
            6 => { let e = self.expr(d - 1); format!("({e})!") }
            7 => { let e = self.expr(d - 1); format!("({e} satisfies any)") }
            8 => { let e = self.expr(d - 1); let t = self.s.pick(&["any", "number", "unknown"]).to_string(); format!("(<{t}>{e})") }
            9 | 10 if !enums.is_empty() => {
                let (n, ms, konst) = self.s.pick(&enums).clone();
                if ms.is_empty() { return "4".into(); }
                let m = self.s.pick(&ms).clone();
                let acc = if m.starts_with('\'') { format!("{n}[{m}]") } else if self.s.chance(1, 3) { format!("{n}['{m}']") } else { format!("{n}.{m}") };
                if konst { acc } else if self.s.chance(1, 3) { format!("{n}[{acc} as any]") } else if self.s.chance(1, 4) { format!("Object.entries({n})") } else { acc }
            }
            11 if !classes.is_empty() => { let (c, ar) = self.s.pick(&classes).clone(); let a: Vec<String> = (0..ar).map(|_| self.expr(0)).collect(); let g = if self.s.chance(1, 3) { "<any>" } else { "" }; format!("new {c}{g}({})", a.join(",")) }
            12 if !ns.is_empty() => { let (n, ms) = self.s.pick(&ns).clone(); if ms.is_empty() { n } else { format!("{n}.{}", self.s.pick(&ms)) } }
            13 => { let a = self.expr(d - 1); let b = self.expr(d - 1); let o = *self.s.pick(&["+", "-", "*", "==", "===", "<", "??", ","]); format!("({a}{o}{b})") }
            14 => { let p = self.fresh("p"); let an = self.ann(); let e = self.expr(d - 1); let r = if self.s.chance(1, 3) { ":any" } else { "" }; let g = if self.s.chance(1, 4) { "<T,>" } else { "" }; self.tag += 1; let t = self.tag; format!("({g}({p}{an}){r}=>$({t},{p},{e}))({})", self.num()) }
            15 => { let a = self.expr(d - 1); let b = self.expr(d - 1); format!("[{a},{b} as any]") }
            16 => { let a = self.expr(d - 1); let b = self.expr(d - 1); format!("{{a:{a},['b']:{b} as number}}") }
            17 => { let a = self.expr(d - 1); format!("({a} as any)?.a!") }
            18 => { let p = self.fresh("q"); let an = self.ann(); let e = self.expr(d - 1); format!("(function<T>(this:any,{p}?{an}):any{{return {e} as T}}).call<any,any,any>(null,{})", self.num()) }
            _ => { let a = self.expr(d - 1); format!("typeof {a}") }
        }
    }
    fn enum_body(&mut self, konst: bool, outer: &[String]) -> (String, Vec<String>) {
        let k = 1 + self.s.below(5);
        let mut ms: Vec<String> = vec![];
        let mut nums: Vec<String> = outer.to_vec();
        let mut parts = vec![];
        let mut can_omit = true;
        for i in 0..k {
            let name = if self.s.chance(1, 8) { let q = self.fresh("m-"); format!("'{q}'") } else { self.fresh("M") };
            let init = match self.s.below(9) {
                0 | 1 if can_omit => String::new(),
                2 => { can_omit = true; format!("={}", self.num()) }
                3 => { can_omit = false; format!("='{}'", self.s.pick(&["s", "t", "", "M1"])) }
                4 if !nums.is_empty() => { can_omit = true; let a = self.s.pick(&nums).clone(); let o = *self.s.pick(&["+1", "<<2", "|8", "*3", "^1", "-5", "&3", "/2", ">>>1", "**2"]); format!("={a}{o}") }
                5 if !konst => { can_omit = false; format!("={}", self.s.pick(&["'abc'.length", "$(0,9)", "[1,2].length", "Math.max(3,4)"])) }
                6 => { can_omit = true; format!("={}", self.s.pick(&["1<<4", "(1+2)*3", "~5", "-(2)", "0x10", "+7", "1e3"])) }
                _ => { can_omit = true; format!("={}", i * 2) }
            };
            if init.starts_with("='") || !can_omit { } else if !name.starts_with('\'') { nums.push(name.clone()); }
            parts.push(format!("{name}{init}"));
            ms.push(name);
        }
        (parts.join(","), ms)
    }
    fn enum_decl(&mut self, export: &str) -> String {
        let konst = self.s.chance(1, 4);
        let n = self.fresh("E");
        let (b, ms) = self.enum_body(konst, &[]);
        let mut out = format!("{export}{}enum {n} {{{b}}}\n", if konst { "const " } else { "" });
        let mut all = ms.clone();
        if !konst && self.s.chance(1, 4) {
            let (b2, m2) = self.enum_body(false, &[]);
            // only one declaration may omit the first initializer
            let b2 = { let f = b2.split(',').next().unwrap().to_string(); if f.contains('=') { b2 } else { b2.replacen(&f, &format!("{f}=40"), 1) } };
            out += &format!("{export}enum {n} {{{b2}}}\n");
            all.extend(m2);
        }
        self.sc.last_mut().unwrap().enums.push((n.clone(), all, konst));
        if !konst { let e = format!("{n}"); out += &self.log(&e); }
        out
    }
    fn stmts(&mut self, k: usize, level: u32) -> String {
        let mut o = String::new();
        for _ in 0..k { if self.fuel <= 0 { break; } self.fuel -= 1; o += &self.stmt(level, false); }
        o
    }
    fn push(&mut self) { self.sc.push(Scope { vals: vec![], muts: vec![], enums: vec![], classes: vec![], ns: vec![] }); }
    fn class_decl(&mut self, export: &str) -> String {
        let n = self.fresh("C");
        let base = { let c: Vec<_> = self.all(|s| s.classes.clone()); if !c.is_empty() && self.s.chance(1, 2) { Some(self.s.pick(&c).clone()) } else { None } };
        let mut b = String::new();
        let mut arity = 0;
        let abstract_ = self.s.chance(1, 6);
        if self.s.chance(1, 4) { b += "[k:string]:any;\n"; }
        if self.s.chance(1, 3) { let f = self.fresh("f"); b += &format!("declare {f}:number;\n"); }
        if abstract_ { let f = self.fresh("f"); b += &format!("abstract {f}:number;\nabstract am():void;\n"); }
        let nf = self.s.below(4);
        let mut fields: Vec<String> = vec![];
        for _ in 0..nf {
            let f = self.fresh("f");
            let m = *self.s.pick(&["", "public ", "private ", "protected ", "readonly ", "static ", "private static readonly ", "override "]);
            let st = m.contains("static");
            match self.s.below(5) {
                0 => { b += &format!("{m}{f}!:string;\n"); }
                1 => { b += &format!("{m}{f}?:number;\n"); }
                2 if !fields.is_empty() && !st => { let g = self.s.pick(&fields).clone(); b += &format!("{m}{f}=$({},this.{g});\n", self.tag); fields.push(f); }
                _ => { let e = self.expr(1); self.tag += 1; let t = self.tag; let an = self.ann(); b += &format!("{m}{f}{an}=$({t},{e});\n"); if !st { fields.push(f); } }
            }
        }
        if self.s.chance(2, 3) {
            let np = self.s.below(4);
            arity = np;
            if self.s.chance(1, 4) { b += "constructor(...a:any[]);\n"; }
            let mut ps = vec![]; let mut names = vec![];
            for _ in 0..np {
                let p = self.fresh("p");
                // a class with both fields and parameter properties differs in order (known finding)
                let m = if nf > 0 && self.define { "" } else { *self.s.pick(&["", "public ", "private ", "protected readonly ", "readonly ", ""]) };
                let d = if self.s.chance(1, 4) { format!("={}", self.num()) } else { String::new() };
                let an = self.ann();
                ps.push(format!("{m}{p}{}{d}", if an.is_empty() && d.is_empty() { "?:any".into() } else { an }));
                names.push(p);
            }
            b += &format!("constructor({}){{\n", ps.join(","));
            self.push();
            self.sc.last_mut().unwrap().vals.extend(names.clone());
            if self.s.chance(1, 6) { b += "'use strict';\n"; }
            if let Some((_, ar)) = &base { let a: Vec<String> = (0..*ar).map(|_| self.expr(0)).collect(); b += &format!("super({});\n", a.join(",")); }
            let e = format!("{{...this}}"); b += &self.log(&e);
            let body = { let k = self.s.below(2); self.stmts(k, 2) }; b += &body;
            self.sc.pop();
            b += "}\n";
        } else if let Some((_, ar)) = &base { arity = *ar; }
        for _ in 0..self.s.below(3) {
            let m = self.fresh("m");
            if self.s.chance(1, 4) { b += &format!("{m}(a:number):void;\n{m}(a:string):void;\n"); }
            let kind = *self.s.pick(&["", "async ", "*", "static ", "get ", "private "]);
            let p = if kind == "get " { String::new() } else { "this:any,a?:any".to_string() };
            let p = if kind == "*" || kind == "async " { "a?:any".to_string() } else { p };
            let e = self.expr(1);
            let t = if kind == "static " || kind == "get " || kind == "*" { "" } else { "<T>" };
            let r = if self.s.chance(1, 2) { ":any" } else { "" };
            b += &format!("{kind}{m}{}({p}){r}{{return {e}}}\n", if kind == "get " { "" } else { t });
        }
        if self.s.chance(1, 4) { let e = self.expr(1); let l = self.log(&e); b += &format!("static{{{l}}}\n"); }
        let gen = if self.s.chance(1, 3) { "<T=any>" } else { "" };
        let ext = base.map_or(String::new(), |(c, _)| format!(" extends {c}{}", if self.s.chance(1, 3) { "<any>" } else { "" }));
        let imp = if self.s.chance(1, 3) { " implements I0<string>,T0" } else { "" };
        let mut out = format!("{export}{}class {n}{gen}{ext}{imp}{{\n{b}}}\n", if abstract_ { "abstract " } else { "" });
        if !abstract_ { self.sc.last_mut().unwrap().classes.push((n.clone(), arity)); }
        let a: Vec<String> = (0..arity).map(|i| i.to_string()).collect();
        let e = format!("new ({n} as any)({})", a.join(",")); out += &self.log(&e);
        if self.s.chance(1, 3) { let e = format!("Object.getOwnPropertyNames({n}.prototype)"); out += &self.log(&e); }
        out
    }
    fn ns_decl(&mut self, export: &str, level: u32) -> String {
        let n = self.fresh("N");
        let mut members = vec![];
        let mut out = String::new();
        let dotted = self.s.chance(1, 5);
        let inner = if dotted { Some(self.fresh("N")) } else { None };
        for round in 0..1 + self.s.below(2) {
            self.push();
            // (members exported by an earlier block are not used unqualified: known finding)
            let mut b = String::new();
            for _ in 0..1 + self.s.below(4) {
                if self.fuel <= 0 { break; }
                self.fuel -= 1;
                match self.s.below(10) {
                    0 | 1 => { let v = self.fresh("v"); let kw = *self.s.pick(&["let", "const", "var"]); let an = self.ann(); let e = self.expr(2); b += &format!("export {kw} {v}{an}={e} as any;\n"); self.sc.last_mut().unwrap().vals.push(v.clone()); members.push(v.clone()); b += &self.log(&v); }
                    2 => { let f = self.fresh("g"); let e = self.expr(1); b += &format!("export function {f}(a?:any):any{{return {e}}}\n"); self.sc.last_mut().unwrap().vals.push(format!("{f}()")); members.push(format!("{f}()")); }
                    3 => { b += &self.class_decl("export "); let c = self.sc.last().unwrap().classes.last().cloned(); if let Some((c, _)) = c { members.push(c); } }
                    4 => { b += &self.enum_decl("export "); let (e, ms, k) = self.sc.last().unwrap().enums.last().cloned().unwrap(); if !k { if let Some(m) = ms.first() { if !m.starts_with('\'') { members.push(format!("{e}.{m}")); } } } }
                    5 => { let a = self.fresh("v"); let c = self.fresh("v"); let e = self.expr(0); b += &format!("export const {{a:{a},b:[{c}]}}={{a:{e},b:[2]}};\n"); for x in [a, c] { self.sc.last_mut().unwrap().vals.push(x.clone()); members.push(x); } }
                    6 => { b += &format!("export interface J{} {{}}\nexport type U{}=number;\n", self.n, self.n); }
                    7 if level < 2 => { b += &self.ns_decl("export ", level + 1); let x = self.sc.last().unwrap().ns.last().cloned(); if let Some((x, ms)) = x { for m in ms { members.push(format!("{x}.{m}")); } } }
                    _ => { b += &self.stmt(level + 2, false); }
                }
            }
            // a namespace without values is not emitted by tsc (known finding): keep every one instantiated
            if self.s.chance(1, 8) || !b.contains("export let ") && !b.contains("export const {") && !b.contains("export function ") && !b.contains("$(") {
                let v = self.fresh("v"); b += &format!("export const {v}={};\n", self.num()); members.push(v);
            }
            self.sc.pop();
            let _ = round;
            match &inner { Some(i) => out += &format!("{export}namespace {n}.{i} {{\n{b}}}\n"), None => out += &format!("{export}{} {n} {{\n{b}}}\n", if self.s.chance(1, 8) { "module" } else { "namespace" }) }
        }
        if let Some(i) = inner { members = members.into_iter().map(|m| format!("{i}.{m}")).collect(); }
        // namespaces without values do not exist at run time
        if out.contains('=') && !members.is_empty() { out += &self.log(&n.clone()); self.sc.last_mut().unwrap().ns.push((n, members)); }
        out
    }
    fn stmt(&mut self, level: u32, top: bool) -> String {
        let ex = if top && self.module && self.s.chance(1, 3) { "export " } else { "" };
        match self.s.below(22) {
            0 | 1 => { let v = self.fresh("v"); let an = self.ann(); let e = self.expr(2); let kw = *self.s.pick(&["let", "const", "var"]); self.sc.last_mut().unwrap().vals.push(v.clone()); if kw != "const" { self.sc.last_mut().unwrap().muts.push(v.clone()); } format!("{ex}{kw} {v}{an}={e};\n") }
            2 | 3 => { let e = self.expr(3); self.log(&e) }
            4 | 5 if level < 3 => self.enum_decl(ex),
            6 | 7 if level < 3 => self.class_decl(ex),
            8 | 9 if top => self.ns_decl(ex, 0),
            10 => { let i = self.fresh("I"); format!("{ex}interface {i}<T> extends I0<T> {{ a(): void; readonly [k:string]: any; new (x:T): {i}<T> }}\n") }
            11 => { let i = self.fresh("T"); format!("{ex}type {i}<K extends string=string>={{[P in K as `x${{P}}`]?:P}}|never;\n") }
            12 => { let d = self.fresh("d"); let e = if top && self.module && self.s.chance(1, 3) { "export " } else { "" }; match self.s.below(if top { 5 } else { 3 }) { 0 => format!("{e}declare const {d}:number;\n"), 1 => format!("{e}declare function {d}(a:number):void;\n"), 2 => format!("{e}declare class {d}{{a:number;m():void}}\n"), 3 => format!("{e}declare enum {d}{{A}}\n"), _ => format!("{e}declare namespace {d}{{const x:number}}\n") } }
            13 | 14 if level < 3 => {
                let f = self.fresh("g");
                let ov = if self.s.chance(1, 3) { format!("{ex}function {f}(a:number):void;\n{ex}function {f}(a:any,b?:string):any;\n") } else { String::new() };
                self.push();
                self.sc.last_mut().unwrap().vals.push("a".into());
                let b = { let k = self.s.below(3); self.stmts(k, level + 1) };
                let e = self.expr(1);
                self.sc.pop();
                self.sc.last_mut().unwrap().vals.push(format!("{f}(1)"));
                let th = if self.s.chance(1, 4) { "this:any," } else { "" };
                let pred = *self.s.pick(&["", ":any", ":a is string", ":asserts a"]);
                let pred = if e.is_empty() { "" } else { pred };
                format!("{ov}{ex}function {f}<T,U extends T=any>({th}a:any,b?:string,...r:any[]){pred}{{\n{b}return ({e}) as any;\n}}\n")
            }
            15 => { let m = self.all(|s| s.muts.clone()); if m.is_empty() { return String::new(); } let v = self.s.pick(&m).clone(); let e = self.expr(1); let l = match self.s.below(5) { 0 => format!("({v} as any)={e};\n"), 1 => format!("{v}!={e};\n").replace("!=", "=").to_string(), 2 => format!("({v})!++;\n"), 3 => format!("(<any>{v})+={e};\n"), _ => format!("[{v} as any]=[{e}];\n") }; let g = self.log(&v); format!("{l}{g}") }
            16 if level < 3 => { let e = self.expr(1); self.push(); let b = { let k = 1 + self.s.below(2); self.stmts(k, level + 1) }; self.sc.pop(); format!("if({e}){{\n{b}}}\n") }
            17 if level < 3 => { let v = self.fresh("v"); self.push(); self.sc.last_mut().unwrap().vals.push(v.clone()); let b = { let k = 1 + self.s.below(2); self.stmts(k, level + 1) }; self.sc.pop(); format!("for(const {v} of [1,2] as const){{\n{b}}}\n") }
            18 => { let e = self.expr(1); let v = self.fresh("x"); self.push(); self.sc.last_mut().unwrap().vals.push(v.clone()); let l = self.log(&v); self.sc.pop(); format!("try{{throw {e} as any}}catch({v}:unknown){{{l}}}\n") }
            19 if top => { let ns = self.all(|s| s.ns.clone()); if ns.is_empty() { return String::new(); } let (n, ms) = self.s.pick(&ns).clone(); let a = self.fresh("A"); let m = self.s.pick(&ms).clone(); let path = m.trim_end_matches("()"); let l = self.log(&if m.ends_with("()") { format!("{a}()") } else { a.clone() }); format!("{ex}import {a}={n}.{path};\n{l}") }
            20 => { let e = self.expr(1); let v = self.fresh("k"); self.sc.last_mut().unwrap().vals.push(v.clone()); format!("{ex}let {{a:{v}=3}}:any={{a:{e}}};\n") }
            _ => { let e = self.expr(2); format!("switch({e} as any){{case 1 as number:{} default:{}}}\n", { let l = self.expr(0); self.log(&l) }, { let l = self.expr(0); self.log(&l) }) }
        }
    }
    pub fn program(&mut self) -> String {
        let mut o = String::new();
        if self.module {
            let k = self.s.below(8);
            let import = match k { 0 => "import {x,type TX} from 'm';\n", 1 => "import type {TX} from 'm';\n", 2 => "import dd,{f} from 'm';\n", 3 => "import * as mm from 'm';\n", 4 => "import {x as xx,y} from 'm';\n", 5 => "import {TX,x} from 'm';\nlet tt:TX=x;\n", 6 => "import 'm';\n", _ => "" };
            o += import;
            let vs: &[&str] = match k { 0 | 5 => &["x"], 2 => &["dd", "f(3)"], 3 => &["mm.x"], 4 => &["xx", "y"], _ => &[] };
            for v in vs { if self.s.chance(2, 3) { o += &self.log(v); self.sc[0].vals.push(v.to_string()); } }
        }
        o += "interface I0<T>{}\ntype T0={};\n";
        let k = 2 + self.s.below(7);
        for _ in 0..k { if self.fuel <= 0 { break; } self.fuel -= 1; o += &self.stmt(0, true); }
        if self.module {
            match self.s.below(6) {
                0 => o += "export type {T0};\n",
                1 => { let v = self.sc[0].vals.clone(); let v: Vec<_> = v.into_iter().filter(|x| !x.contains('(') && !x.contains('.')).collect(); if !v.is_empty() { let x = self.s.pick(&v).clone(); o += &format!("export {{{x} as zz,type I0}};\n"); } }
                2 => { let e = self.expr(2); o += &format!("export default {e};\n"); }
                3 => o += "export {x as reX,type TX as reT} from 'm';\n",
                _ => {}
            }
        }
        o
    }
}
