//! C07: identifier resolution against eslint-scope's binding structure.
use crate::syn::{case_json, from_case, gen_text, parse, Text};
use derive_visitor::{DriveMut, VisitorMut};
use diagnostics::FileId;
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node as Oracle, Value};
use parse_js::ast::expr::pat::{ClassOrFuncName, IdPat};
use parse_js::ast::expr::IdExpr;
use parse_js::ast::import_export::ExportName;
use parse_js::ast::node::Node;
use parse_js::ast::stmt::ExportListStmt;
use parse_js::Dialect;
use semantic_js::assoc::js::{declared_symbol, resolved_symbol};
use semantic_js::js::{bind_js, TopLevelMode};

type IdExprNode = Node<IdExpr>;
type IdPatNode = Node<IdPat>;
type NameNode = Node<ClassOrFuncName>;
type ExportNameNode = Node<ExportName>;
type ExportListNode = Node<ExportListStmt>;
#[derive(VisitorMut, Default)]
#[visitor(IdExprNode(enter), IdPatNode(enter), NameNode(enter), ExportNameNode(enter, exit), ExportListNode(enter))]
struct Ids { out: Vec<(u32, String, Option<u64>)>, ignore: u32, exports: Vec<(u32, u32)> }
impl Ids {
    fn enter_id_expr_node(&mut self, n: &mut IdExprNode) { self.out.push((n.loc.start_u32(), n.stx.name.clone(), resolved_symbol(&n.assoc).map(|s| s.raw()))); }
    fn enter_id_pat_node(&mut self, n: &mut IdPatNode) {
        if self.ignore == 0 { self.out.push((n.loc.start_u32(), n.stx.name.clone(), declared_symbol(&n.assoc).or(resolved_symbol(&n.assoc)).map(|s| s.raw()))); }
    }
    fn enter_name_node(&mut self, n: &mut NameNode) { self.out.push((n.loc.start_u32(), n.stx.name.clone(), declared_symbol(&n.assoc).or(resolved_symbol(&n.assoc)).map(|s| s.raw()))); }
    fn enter_export_name_node(&mut self, _: &mut ExportNameNode) { self.ignore += 1; }
    fn exit_export_name_node(&mut self, _: &mut ExportNameNode) { self.ignore -= 1; }
    fn enter_export_list_node(&mut self, n: &mut ExportListNode) { self.exports.push((n.loc.start_u32(), n.loc.end_u32())); }
}
type Verdict = Result<Option<(u64, u64)>, (String, String)>;
pub fn gen(s: &mut hcommon::Src) -> Text {
    if s.chance(1, 3) { let module = s.chance(1, 3); return Text { src: hcommon::gen_scope::Scoper::program(s, module), module, kind: "scope" }; }
    if s.chance(1, 4) {
        let c = crate::c08::gen_case(s);
        return Text { module: c.mode == TopLevelMode::Module, src: c.src, kind: "exec" };
    }
    gen_text(s, 0)
}
pub struct C07 { node: Oracle, tdz: bool }
const BATCH: usize = 12;
impl C07 {
    pub fn new() -> Self { C07 { node: Oracle::new("main.mjs"), tdz: false } }
    fn judge(&mut self, ts: &[Text]) -> Vec<Verdict> {
        let mut res: Vec<Verdict> = ts.iter().map(|_| Ok(None)).collect();
        let mut cases = vec![];
        let mut idx = vec![];
        for (i, t) in ts.iter().enumerate() {
            for mode in if t.module { &[TopLevelMode::Module][..] } else { &[TopLevelMode::Script, TopLevelMode::Global][..] } {
                let d = Dialect::Ecma;
                let mut ast = match parse(&t.src, d, t.module) { Ok(Ok(a)) => a, _ => continue };
                let r = catch(|| { let (_sem, diags) = bind_js(&mut ast, *mode, FileId(7)); let mut v = Ids::default(); ast.drive_mut(&mut v); (v, diags.len()) });
                match r {
                    Err(p) => { res[i] = Err(("panic".into(), p)); }
                    Ok((v, _)) => {
                        let m = match mode { TopLevelMode::Global => "global", TopLevelMode::Script => "script", _ => "module" };
                        cases.push(json!({"src":t.src,"module":t.module,"mode":m,"tdz":self.tdz,"ids":v.out.iter().map(|(p, n, s)| json!([p, n, s.map(|x| x.to_string())])).collect::<Vec<_>>(),"exports":v.exports}));
                        idx.push((i, m));
                    }
                }
            }
        }
        let Some(r) = self.node.ask(&json!({"op":"scope","cases":cases})) else { return res };
        for (k, (i, m)) in idx.into_iter().enumerate() {
            let v = &r["results"][k];
            if res[i].is_err() || v.get("rejected").is_some() { continue; }
            match v["diff"].as_str() {
                Some(x) => { let kind: String = x.split(" at ").last().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect(); res[i] = Err((kind.trim().to_string(), format!("{m}: {x}"))); }
                None => res[i] = Ok(Some((v["n"].as_u64().unwrap_or(0), v["bound"].as_u64().unwrap_or(0)))),
            }
        }
        res
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut recs = vec![];
        self.tdz = replay.is_some_and(|v| v["tdz"] == true);
        let ts: Vec<Text> = match replay {
            Some(v) => vec![from_case(v), from_case(v)],
            None => (0..BATCH as u64).map(|k| { let mut s = ctx.src(i * BATCH as u64 + k); let t = gen(&mut s); recs.push(s.rec); t }).collect(),
        };
        ctx.current(&json!({"src": ts.iter().map(|t| t.src.as_str()).collect::<Vec<_>>().join("\n/*====*/\n"), "module": ts[0].module}));
        let rs = self.judge(&ts);
        for (k, r) in rs.into_iter().enumerate() {
            match r {
                Ok(None) => { ctx.add("programs the parser or acorn rejects", 1); }
                Ok(Some((n, b))) => { ctx.add("identifiers compared", n); ctx.add("identifiers bound", b); ctx.observed(ts[k].src.as_bytes(), n > 0); let t = &ts[k]; ctx.sample(|| json!({"src": t.src, "identifiers": n, "bound": b})); }
                Err((kind, m)) => {
                    let mut t = ts[k].clone();
                    let mut m = m;
                    if replay.is_none() {
                        let rec = shrink(recs[k].clone(), 400, |c| { let t = gen(&mut hcommon::Src::replay(c.to_vec())); self.judge(&[t.clone(), t]).iter().any(|r| matches!(r, Err((k2, _)) if *k2 == kind)) });
                        let t2 = gen(&mut hcommon::Src::replay(rec));
                        if let Some(Err((_, m2))) = self.judge(&[t2.clone(), t2.clone()]).into_iter().find(|r| r.is_err()) { t = t2; m = m2; }
                    }
                    ctx.violation(&kind, &format!("{m}\n{}", t.src), case_json(&t));
                    if replay.is_some() { return; }
                }
            }
        }
    }
}
