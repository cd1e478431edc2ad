//! C11: optimizer output behaves like its input (or the input is rejected with diagnostics).
//! C12: control-flow graphs and the analyses over them, against brute force; determinism across threads.
use crate::c08::{judge, mode_name, Verdict};
use hcommon::gen_exec::{Feats, Gen};
use hcommon::src::shrink;
use hcommon::{catch, json, Ctx, Node as Oracle, Src, Value};
use optimize_js::analysis::interference::calculate_interference_graph;
use optimize_js::analysis::liveness::calculate_live_ins;
use optimize_js::analysis::loop_info::LoopInfo;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph, Terminator};
use optimize_js::decompile::regalloc::compute_regalloc;
use optimize_js::dom::{Dom, PostDom};
use optimize_js::il::inst::{Arg, BinOp, Const, Inst, InstTyp};
use optimize_js::{compile_source, program_to_js, DecompileOptions, Program, ProgramFunction, TopLevelMode};
use std::collections::{BTreeMap, BTreeSet, HashSet};

type Fail = (String, String);
fn fail<T>(k: impl Into<String>, m: impl Into<String>) -> Result<T, Fail> { Err((k.into(), m.into())) }
type Loc = (u32, usize);

// ---------------------------------------------------------------- reference analyses
struct G { entry: u32, nodes: BTreeSet<u32>, succ: BTreeMap<u32, BTreeSet<u32>>, pred: BTreeMap<u32, BTreeSet<u32>> }
impl G {
    fn of(c: &Cfg) -> G {
        let nodes: BTreeSet<u32> = c.graph.labels().collect();
        let mut g = G { entry: c.entry, succ: nodes.iter().map(|n| (*n, BTreeSet::new())).collect(), pred: nodes.iter().map(|n| (*n, BTreeSet::new())).collect(), nodes };
        for n in g.nodes.clone() { for m in c.graph.children(n) { g.succ.get_mut(&n).unwrap().insert(m); g.pred.entry(m).or_default().insert(n); } }
        g
    }
    /// Nodes reachable from `from` without entering `avoid`.
    fn reach(&self, from: u32, avoid: Option<u32>, back: bool) -> BTreeSet<u32> {
        let e = if back { &self.pred } else { &self.succ };
        let mut seen = BTreeSet::new();
        if Some(from) == avoid { return seen; }
        let mut st = vec![from];
        while let Some(n) = st.pop() { if seen.insert(n) { for m in e.get(&n).into_iter().flatten() { if Some(*m) != avoid { st.push(*m); } } } }
        seen
    }
    fn dominators(&self) -> BTreeMap<u32, BTreeSet<u32>> {
        let all = self.reach(self.entry, None, false);
        let mut d: BTreeMap<u32, BTreeSet<u32>> = all.iter().map(|n| (*n, BTreeSet::from([*n]))).collect();
        for a in &all { let r = self.reach(self.entry, Some(*a), false); for b in &all { if !r.contains(b) { d.get_mut(b).unwrap().insert(*a); } } }
        d
    }
}
/// Live-in sets by a plain backward fixpoint over single instructions. `gone` instructions do not execute; `extra` uses happen at the given places.
fn live_ref(c: &Cfg, gone: &BTreeSet<Loc>, ignore: &BTreeSet<u32>, extra: &BTreeMap<Loc, BTreeSet<u32>>) -> BTreeMap<Loc, BTreeSet<u32>> {
    let g = G::of(c);
    let mut at: BTreeMap<Loc, BTreeSet<u32>> = BTreeMap::new();
    loop {
        let mut changed = false;
        for &l in g.nodes.iter().rev() {
            // the first live-in of a successor, through empty blocks
            let mut out = BTreeSet::new();
            for &s in &g.succ[&l] { out.extend(at.get(&(s, usize::MAX)).cloned().unwrap_or_default()); }
            let b = c.bblocks.get(l);
            for (i, inst) in b.iter().enumerate().rev() {
                if gone.contains(&(l, i)) { continue; }
                for t in &inst.tgts { out.remove(t); }
                for a in &inst.args { if let Arg::Var(v) = a { if !ignore.contains(v) { out.insert(*v); } } }
                out.extend(extra.get(&(l, i)).into_iter().flatten());
                if at.get(&(l, i)) != Some(&out) { at.insert((l, i), out.clone()); changed = true; }
            }
            if at.get(&(l, usize::MAX)) != Some(&out) { at.insert((l, usize::MAX), out); changed = true; }
        }
        if !changed { break; }
    }
    at.retain(|k, _| k.1 != usize::MAX);
    at
}
#[derive(Default)]
struct Facts { dom: u64, pdom: u64, loops: u64, live: u64, ssa: u64, steps: u64, funcs: u64, runs: u64, regs: u64, defined: u64 }

fn check_dom(c: &Cfg, f: &mut Facts) -> Result<(), Fail> {
    let g = G::of(c);
    let d = g.dominators();
    if d.len() != g.nodes.len() { return fail("unreachable block kept", format!("{:?}", g.nodes.iter().filter(|n| !d.contains_key(n)).collect::<Vec<_>>())); }
    let dom = Dom::<false>::calculate(c);
    let (by, of) = (dom.dominated_by_graph(), dom.dominates_graph());
    for (b, ds) in &d {
        for a in &g.nodes {
            f.dom += 1;
            if ds.contains(a) != of.dominates(*a, *b) { return fail("dominators", format!("does {a} dominate {b}? reference {}", ds.contains(a))); }
            if ds.contains(a) != by.dominated_by(*b, *a) { return fail("dominated-by", format!("is {b} dominated by {a}? reference {}", ds.contains(a))); }
        }
        let idom = ds.iter().filter(|a| *a != b).max_by_key(|a| d[a].len()).copied();
        if dom.idom_of(*b) != idom { return fail("immediate dominator", format!("of {b}: {:?}, reference {idom:?}", dom.idom_of(*b))); }
        let kids: Vec<u32> = dom.immediately_dominated_by(*b).collect();
        if kids.iter().any(|k| dom.idom_of(*k) != Some(*b)) { return fail("dominator tree", format!("children of {b}: {kids:?}")); }
    }
    for a in &g.nodes { for b in &g.nodes {
        let l = d[a].intersection(&d[b]).max_by_key(|x| d[x].len()).copied();
        if dom.lca(*a, *b) != l { return fail("common dominator", format!("of {a} and {b}: {:?}, reference {l:?}", dom.lca(*a, *b))); }
    } }
    if g.pred[&c.entry].is_empty() {
        let df = dom.dominance_frontiers(c);
        for a in &g.nodes {
            let want: BTreeSet<u32> = g.nodes.iter().filter(|b| g.pred[b].iter().any(|p| d[p].contains(a)) && !(d[b].contains(a) && a != *b)).copied().collect();
            let got: BTreeSet<u32> = df.get(a).into_iter().flatten().copied().collect();
            if want != got { return fail("dominance frontier", format!("of {a}: {got:?}, reference {want:?}")); }
        }
    }
    // post-dominance is judged where every block can leave the function
    let exits: Vec<u32> = g.nodes.iter().filter(|n| g.succ[n].is_empty()).copied().collect();
    let leaves = exits.iter().fold(BTreeSet::new(), |mut s, e| { s.extend(g.reach(*e, None, true)); s });
    let pd = PostDom::calculate(c);
    if leaves.len() == g.nodes.len() {
        let by = pd.dominated_by_graph();
        for a in &g.nodes {
            let ok = exits.iter().filter(|e| *e != a).fold(BTreeSet::new(), |mut s, e| { s.extend(g.reach(*e, Some(*a), true)); s });
            for b in &g.nodes { f.pdom += 1; let want = !ok.contains(b); if by.dominated_by(*b, *a) != want { return fail("post-dominators", format!("does {a} post-dominate {b}? reference {want}")); } }
        }
    }
    let info = LoopInfo::compute(c, &dom);
    let mut want: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for (t, hs) in &g.succ { for h in hs { if d[t].contains(h) { let l = want.entry(*h).or_default(); l.insert(*h); l.extend(g.reach(*t, Some(*h), true).into_iter().filter(|n| d[n].contains(h))); } } }
    let got: BTreeMap<u32, BTreeSet<u32>> = info.loops.iter().map(|l| (l.header, l.nodes.iter().copied().collect())).collect();
    if got != want || info.loops.len() != want.len() { return fail("natural loops", format!("{got:?}, reference {want:?}")); }
    for l in &info.loops {
        f.loops += 1;
        let n: BTreeSet<u32> = l.nodes.iter().copied().collect();
        let latches: Vec<u32> = g.pred[&l.header].iter().filter(|t| d[t].contains(&l.header)).copied().collect();
        if l.latches != latches { return fail("loop latches", format!("header {}: {:?}, reference {latches:?}", l.header, l.latches)); }
        let exits: Vec<(u32, u32)> = n.iter().flat_map(|a| g.succ[a].iter().filter(|b| !n.contains(b)).map(move |b| (*a, *b))).collect();
        if l.exits != exits { return fail("loop exits", format!("header {}: {:?}, reference {exits:?}", l.header, l.exits)); }
        let parent = want.iter().filter(|(h, m)| **h != l.header && m.len() > n.len() && n.is_subset(m)).map(|(h, m)| (m.len(), *h)).min();
        if l.parent.map(|p| info.loops[p.0 as usize].header) != parent.map(|p| p.1) { return fail("loop nesting", format!("header {}: {:?}, reference {parent:?}", l.header, l.parent)); }
    }
    Ok(())
}
fn check_live(c: &Cfg, f: &mut Facts) -> Result<(), Fail> {
    let got = calculate_live_ins(c, &Default::default(), &Default::default());
    let want = live_ref(c, &BTreeSet::new(), &BTreeSet::new(), &BTreeMap::new());
    let got2: BTreeMap<Loc, BTreeSet<u32>> = got.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect();
    f.live += want.len() as u64;
    if got2 != want { let k = want.keys().chain(got2.keys()).find(|k| want.get(k) != got2.get(k)).unwrap(); return fail("liveness", format!("at {k:?}: {:?}, reference {:?}\n{}", got2.get(k), want.get(k), show(c))); }
    if want.values().map(|s| s.len() * s.len()).sum::<usize>() > 40_000 { return Ok(()); } // all pairs of a few hundred dead phis are not worth the time
    let ig = calculate_interference_graph(&got);
    let mut seen = BTreeSet::new();
    let mut pairs: HashSet<(u32, u32)> = HashSet::new();
    for s in want.values() { if seen.insert(s) { for a in s { for b in s { if a != b { pairs.insert((*a, *b)); } } } } }
    for (a, b) in &pairs { if !ig.get(a).is_some_and(|x| x.contains(b)) { return fail("interference", format!("{a} and {b} are live together")); } }
    for (a, s) in &ig { for b in s { if !pairs.contains(&(*a, *b)) { return fail("interference", format!("{a} and {b} are never live together")); } } }
    Ok(())
}
/// Register allocation over single-assignment code: temps live together (once inlined instructions are moved to their use) never share a register.
fn check_regs(c: &Cfg, f: &mut Facts) -> Result<(), Fail> {
    let defs: BTreeSet<u32> = c.bblocks.all().flat_map(|(_, b)| b.iter().flat_map(|i| i.tgts.clone()).collect::<Vec<_>>()).collect();
    if c.bblocks.all().any(|(_, b)| b.iter().any(|i| i.args.iter().any(|a| matches!(a, Arg::Var(v) if !defs.contains(v))))) { return Ok(()); }
    let r = compute_regalloc(c);
    let gone: BTreeSet<Loc> = r.inlines.keys().copied().collect();
    let ignore: BTreeSet<u32> = r.inlined_temps.iter().copied().collect();
    let mut extra: BTreeMap<Loc, BTreeSet<u32>> = BTreeMap::new();
    for (src, dst) in &r.inlines {
        if src.0 != dst.0 || src.1 >= dst.1 { return fail("inlining", format!("{src:?} moved to {dst:?}")); }
        let mut d = *dst;
        while let Some(n) = r.inlines.get(&d) { d = *n; }
        for a in &c.bblocks.get(src.0)[src.1].args { if let Arg::Var(v) = a { if !ignore.contains(v) { extra.entry(d).or_default().insert(*v); } } }
    }
    let live = live_ref(c, &gone, &ignore, &extra);
    for (at, s) in &live {
        let mut used: BTreeMap<u32, u32> = BTreeMap::new();
        for t in s {
            f.regs += 1;
            let Some(reg) = r.temp_to_reg.get(t) else { return fail("register missing", format!("temp {t} at {at:?}")) };
            if let Some(o) = used.insert(*reg, *t) { return fail("register clobbered", format!("temps {o} and {t} share register {reg} and are both live at {at:?}")); }
        }
    }
    Ok(())
}
/// Shape shared by every stage: blocks and graph agree; a conditional jump's labels are the successors.
fn check_shape(c: &Cfg) -> Result<(), Fail> {
    let g = G::of(c);
    let blocks: BTreeSet<u32> = c.bblocks.all().map(|x| x.0).collect();
    if blocks.iter().any(|b| !g.nodes.contains(b)) && !(g.nodes.is_empty() && blocks.len() == 1) { return fail("graph misses a block", format!("{blocks:?} {:?}", g.nodes)); }
    if let Some(n) = g.nodes.iter().find(|n| !blocks.contains(n)) { return fail("graph node without block", format!("{n}")); }
    if !blocks.contains(&c.entry) { return fail("entry block missing", format!("{}", c.entry)); }
    for n in &g.nodes {
        for m in &g.succ[n] { if !c.graph.parents(*m).any(|p| p == *n) { return fail("edge without reverse edge", format!("{n}->{m}")); } }
        for m in c.graph.parents(*n) { if !g.succ.get(&m).is_some_and(|s| s.contains(n)) { return fail("reverse edge without edge", format!("{m}->{n}")); } }
        let b = c.bblocks.get(*n);
        for (i, inst) in b.iter().enumerate() {
            if matches!(inst.t, InstTyp::_Goto | InstTyp::_Label | InstTyp::_Dummy) { return fail("construction-only instruction left", format!("{inst:?}")); }
            if inst.t == InstTyp::CondGoto && i + 1 != b.len() { return fail("conditional jump inside a block", format!("block {n} inst {i}")); }
        }
        match c.terminator(*n) {
            Terminator::CondGoto { t, f, .. } => { if BTreeSet::from([t, f]) != g.succ[n] { return fail("jump targets differ from the graph", format!("block {n}: {t},{f} against {:?}", g.succ[n])); } }
            Terminator::Multi { targets } => return fail("block with several successors has no jump", format!("block {n}: {targets:?}")),
            _ => {}
        }
    }
    if g.reach(c.entry, None, false).len() != g.nodes.len().max(1) { return fail("unreachable block kept", format!("{:?}", g.nodes)); }
    Ok(())
}
fn copies(i: &Inst) -> bool { matches!(i.t, InstTyp::Phi | InstTyp::VarAssign) }
/// Phis are placed for every assigned temp, also where the value is dead (and may then be lowered to plain copies): only temps whose value reaches an
/// instruction other than a copy are judged.
fn used_values(c: &Cfg) -> BTreeSet<u32> {
    let mut used: BTreeSet<u32> = BTreeSet::new();
    for (_, b) in c.bblocks.all() { for i in b.iter().filter(|i| !copies(i)) { for a in &i.args { if let Arg::Var(v) = a { used.insert(*v); } } } }
    loop {
        let n = used.len();
        for (_, b) in c.bblocks.all() { for i in b.iter() { if !copies(i) || !i.tgts.iter().any(|t| used.contains(t)) { continue; } for a in &i.args { if let Arg::Var(v) = a { used.insert(*v); } } } }
        if used.len() == n { break; }
    }
    used
}
/// Single-assignment form: one definition per temp, every use dominated by it, one phi argument per predecessor at most.
fn check_ssa(c: &Cfg, params: bool, f: &mut Facts) -> Result<(), Fail> {
    let g = G::of(c);
    let d = g.dominators();
    let mut def: BTreeMap<u32, Loc> = BTreeMap::new();
    for (l, b) in c.bblocks.all() { for (i, inst) in b.iter().enumerate() { for t in &inst.tgts { if let Some(o) = def.insert(*t, (l, i)) { return fail("temp assigned twice in single-assignment form", format!("%{t} at {o:?} and {:?}", (l, i))); } } } }
    let used = used_values(c);
    for (l, b) in c.bblocks.all() {
        let mut body = false;
        for (i, inst) in b.iter().enumerate() {
            if inst.t == InstTyp::Phi {
                if body { return fail("phi after other instructions", format!("block {l}")); }
                if inst.labels.len() != inst.args.len() { return fail("phi labels and arguments differ in number", format!("block {l}")); }
                let ls: BTreeSet<u32> = inst.labels.iter().copied().collect();
                if ls.len() != inst.labels.len() || !ls.is_subset(&g.pred[&l]) { return fail("phi labels are not predecessors", format!("block {l}: {:?} against {:?}", inst.labels, g.pred[&l])); }
                if !inst.tgts.iter().any(|t| used.contains(t)) { continue; }
                for (p, a) in inst.labels.iter().zip(&inst.args) { if let Arg::Var(v) = a { f.ssa += 1; match def.get(v) { Some(x) if d[p].contains(&x.0) => {} None if params => {} x => return fail("phi argument not defined on its edge", format!("%{v} in block {l} from {p}: defined at {x:?}")) } } }
                continue;
            }
            body = true;
            if copies(inst) && !inst.tgts.iter().any(|t| used.contains(t)) { continue; }
            for a in &inst.args { if let Arg::Var(v) = a { f.ssa += 1; match def.get(v) {
                Some(x) if x.0 == l && x.1 < i => {}
                Some(x) if x.0 != l && d[&l].contains(&x.0) => {}
                None if params => {}
                x => return fail("use not dominated by its definition", format!("%{v} at {:?}: defined at {x:?}", (l, i))),
            } } }
        }
    }
    Ok(())
}
/// After phis are gone: along every path each temp is written before it is read.
fn check_defined(c: &Cfg, f: &mut Facts) -> Result<(), Fail> {
    let used = used_values(c);
    let g = G::of(c);
    let all: BTreeSet<u32> = c.bblocks.all().flat_map(|(_, b)| b.iter().flat_map(|i| i.tgts.iter().copied()).collect::<Vec<_>>()).collect();
    let mut inn: BTreeMap<u32, BTreeSet<u32>> = g.nodes.iter().map(|n| (*n, all.clone())).collect();
    inn.insert(c.entry, BTreeSet::new());
    loop {
        let mut changed = false;
        for (l, b) in c.bblocks.all() {
            let mut s = inn[&l].clone();
            for i in b { s.extend(&i.tgts); }
            for m in g.succ.get(&l).into_iter().flatten() { let n: BTreeSet<u32> = inn[m].intersection(&s).copied().collect(); if n != inn[m] { inn.insert(*m, n); changed = true; } }
        }
        if !changed { break; }
    }
    for (l, b) in c.bblocks.all() {
        let mut s = inn[&l].clone();
        for (i, inst) in b.iter().enumerate() {
            if inst.t == InstTyp::Phi { return fail("phi left after deconstruction", format!("block {l}")); }
            if copies(inst) && !inst.tgts.iter().any(|t| used.contains(t)) { s.extend(&inst.tgts); continue; }
            for a in &inst.args { if let Arg::Var(v) = a { f.defined += 1; if !s.contains(v) { return fail("temp read before it is written on some path", format!("%{v} in block {l} inst {i}: {inst:?}")); } } }
            s.extend(&inst.tgts);
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- random graphs
fn gen_cfg(s: &mut Src) -> Cfg {
    let n = s.range(1, 14) as u32;
    let vars = s.range(2, 8) as u32;
    let arg = |s: &mut Src| if s.chance(2, 3) { Arg::Var(s.below(vars as usize) as u32) } else { Arg::Const(Const::Bool(true)) };
    let mut g = CfgGraph::default();
    g.connect(0, 0); g.disconnect(0, 0);
    let mut blocks = CfgBBlocks::default();
    for l in 0..n {
        let mut b = vec![];
        for _ in 0..s.below(4) {
            let t = s.below(vars as usize) as u32;
            b.push(match s.below(4) { 0 => Inst::var_assign(t, arg(s)), 1 => { let (x, y) = (arg(s), arg(s)); Inst::bin(t, x, BinOp::Add, y) } 2 => { let (x, y) = (arg(s), arg(s)); let tt = if s.chance(1, 2) { Some(t) } else { None }; Inst::call(tt, x, y, vec![], vec![]) } _ => { let (x, y, z) = (arg(s), arg(s), arg(s)); Inst::prop_assign(x, y, z) } });
        }
        // successors: mostly forward, sometimes back (never to the entry), so that both reducible and irreducible graphs appear
        let to = |s: &mut Src| if n == 1 { None } else if l + 1 < n && s.chance(3, 4) { Some(l + 1 + s.below((n - l - 1).min(4) as usize) as u32) } else if s.chance(2, 3) { Some(1 + s.below(n as usize - 1) as u32) } else { None };
        match s.below(6) {
            0 => {}
            1 | 2 => { if let Some(t) = to(s) { g.connect(l, t); } }
            _ => { if let (Some(t), Some(f)) = (to(s), to(s)) { g.connect(l, t); if t != f { g.connect(l, f); b.push(Inst::cond_goto(arg(s), t, f)); } } else if l + 1 < n { g.connect(l, l + 1); } }
        }
        blocks.add(l, b);
    }
    for l in 0..n { if !g.contains(l) { g.connect(l, l); g.disconnect(l, l); } }
    let mut c = Cfg { graph: g, bblocks: blocks, entry: 0 };
    c.find_and_pop_unreachable();
    c
}
pub fn show(c: &Cfg) -> String {
    let mut o = format!("entry {}\n", c.entry);
    let ls: BTreeSet<u32> = c.bblocks.all().map(|x| x.0).collect();
    for l in ls { o += &format!("{l} -> {:?}: {:?}\n", c.graph.children_sorted(l), c.bblocks.get(l)); }
    o
}
/// A step's graph. Steps do not record the entry: it is block 0 or, once that has been merged away, the only block that reaches all others.
fn cfg_of_step(st: &optimize_js::util::debug::OptimizerDebugStep) -> Option<Cfg> {
    let mut g = CfgGraph::default();
    let mut b = CfgBBlocks::default();
    for l in st.bblocks.keys().chain(st.cfg_children.keys()) { if !g.contains(*l) { g.connect(*l, *l); g.disconnect(*l, *l); } }
    for (l, cs) in &st.cfg_children { for c in cs { g.connect(*l, *c); } }
    for (l, i) in &st.bblocks { b.add(*l, i.clone()); }
    let mut c = Cfg { graph: g, bblocks: b, entry: 0 };
    if !st.bblocks.contains_key(&0) {
        let g = G::of(&c);
        let all: Vec<u32> = g.nodes.iter().copied().filter(|n| g.reach(*n, None, false).len() == g.nodes.len()).collect();
        if all.len() != 1 { return None; }
        c.entry = all[0];
    }
    Some(c)
}
// ---------------------------------------------------------------- compiled programs
pub fn feats(s: &mut Src, funcs: bool) -> Feats {
    let mut f = Feats::full();
    f.classes = false; f.private = false; f.fields = false; f.generators = false; f.async_ = false; f.try_ = false; f.throw_ = false;
    f.rest = false; f.defaults = false; f.tagged = s.chance(1, 4); f.accessors = false; f.getset_literal = false; f.arguments = false; f.new_target = false; f.symbols = false;
    f.import_export = false; f.uncaught = false; f.this_ = false; f.bait = false; f.strict = s.chance(1, 2);
    if !funcs { f.funcs = false; f.arrows = false; f.closures = false; f.func_in_loop = false; f.loose_eq = false; f.bigint = false; }
    if s.chance(1, 2) { f.destructuring = false; f.spread = false; }
    if s.chance(1, 2) { f.regex = false; f.bigint = false; f.delete_ = false; f.optional_chain = false; }
    if s.chance(1, 3) { f.builtin_calls = false; f.in_instanceof = false; }
    if s.chance(1, 3) { f.forin = false; f.forof = false; f.switch = false; f.labels = false; }
    f
}
pub fn mode_of(s: &str) -> TopLevelMode { match s { "module" => TopLevelMode::Module, "script" => TopLevelMode::Script, _ => TopLevelMode::Global } }
fn gen_src(s: &mut Src, funcs: bool) -> (String, TopLevelMode) {
    let mode = *s.pick(&[TopLevelMode::Global, TopLevelMode::Module]);
    gen_src_in(s, funcs, mode)
}
fn gen_src_in(s: &mut Src, funcs: bool, mode: TopLevelMode) -> (String, TopLevelMode) {
    let mut f = feats(s, funcs);
    f.module = mode == TopLevelMode::Module;
    f.strict |= f.module;
    f.funcs = false; f.func_in_loop = false; // declarations are not compiled
    let size = s.range(1, 6) as usize;
    (Gen::new(s, f).program(size), mode)
}
fn dump(p: &Program) -> String {
    let mut o = show(&p.top_level.body);
    for f in &p.functions { o += "----\n"; o += &show(&f.body); }
    o
}
fn stages(name: &str, pf: &ProgramFunction, params: bool, f: &mut Facts) -> Result<(), Fail> {
    let wrap = |st: &str, r: Result<(), Fail>| r.map_err(|(k, m)| (k, format!("{name}, after {st}: {m}")));
    f.funcs += 1;
    if let Some(d) = &pf.debug {
        let mut seen = (String::new(), String::new());
        for st in d.steps() {
            f.steps += 1;
            let Some(c) = cfg_of_step(st) else { continue };
            wrap(&st.name, check_shape(&c))?;
            if st.bblocks.len() > 40 { continue; }
            // a stage that changed nothing (or only instructions) needs no second look at its (graph's) analyses
            let edges = c.graph.labels_sorted().iter().map(|l| format!("{l}>{:?}", c.graph.children_sorted(*l))).collect::<String>();
            if edges != seen.0 { wrap(&st.name, check_dom(&c, f))?; seen.0 = edges; }
            let text = show(&c);
            if text == seen.1 { continue; }
            seen.1 = text;
            if st.name.starts_with("opt") || st.name == "ssa_rename_targets" {
                wrap(&st.name, check_ssa(&c, params, f))?;
                wrap(&st.name, check_live(&c, f))?;
                if !params { wrap(&st.name, check_regs(&c, f))?; }
            }
        }
    }
    wrap("all", check_shape(&pf.body))?;
    if !params { wrap("all", check_defined(&pf.body, f))?; }
    wrap("all", check_live(&pf.body, f))
}
fn compile(src: &str, mode: TopLevelMode, debug: bool) -> Result<Result<Program, Vec<optimize_js::Diagnostic>>, String> { catch(|| compile_source(src, mode, debug)) }

#[derive(Clone)]
enum Case { Graph(Vec<u32>), Src(String, TopLevelMode) }
fn judge12(c: &Case, f: &mut Facts) -> Result<bool, Fail> {
    match c {
        Case::Graph(rec) => {
            let cfg = gen_cfg(&mut Src::replay(rec.clone()));
            let r = catch(|| { let mut f = Facts::default(); let r = check_shape(&cfg).and_then(|_| check_dom(&cfg, &mut f)).and_then(|_| check_live(&cfg, &mut f)); (r, f) });
            match r { Ok((r, g)) => { f.dom += g.dom; f.pdom += g.pdom; f.loops += g.loops; f.live += g.live; r.map_err(|(k, m)| (k, format!("{m}\n{}", show(&cfg))))? } Err(p) => return fail("panic", format!("{p}\n{}", show(&cfg))) }
            Ok(true)
        }
        Case::Src(src, mode) => {
            let p = match compile(src, *mode, true) { Err(e) => return fail("panic", e), Ok(Err(_)) => return Ok(false), Ok(Ok(p)) => p };
            if std::env::var("VERIF_DUMP").is_ok() { for st in p.top_level.debug.iter().flat_map(|d| d.steps()) { eprintln!("== {}\n{}", st.name, cfg_of_step(st).map(|c| show(&c)).unwrap_or_default()); } eprintln!("== final\n{want}", want = dump(&p)); }
            let r = catch(|| { let mut g = Facts::default(); let r = stages("top level", &p.top_level, false, &mut g).and_then(|_| p.functions.iter().enumerate().try_for_each(|(i, x)| stages(&format!("function {i}"), x, true, &mut g))); (r, g) });
            let (r, g) = r.map_err(|e| ("panic in an analysis".to_string(), e))?;
            f.dom += g.dom; f.pdom += g.pdom; f.loops += g.loops; f.live += g.live; f.ssa += g.ssa; f.steps += g.steps; f.funcs += g.funcs; f.regs += g.regs; f.defined += g.defined;
            r?;
            // the same program, on several threads at once
            let want = dump(&p);
            let outs: Vec<String> = std::thread::scope(|s| (0..3).map(|_| s.spawn(|| match compile(src, *mode, false) { Ok(Ok(p)) => dump(&p), other => format!("{:?}", other.map(|r| r.map(|_| ()))) })).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap_or_default()).collect());
            for o in outs { f.runs += 1; if o != want { let (a, b) = want.lines().zip(o.lines()).find(|(a, b)| a != b).unwrap_or(("", "")); return fail("another compilation of the same program differs", format!("{a}\n{b}")); } }
            Ok(true)
        }
    }
}
pub fn c12(ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
    let case = match replay {
        Some(v) => match v.get("src").and_then(|x| x.as_str()) { Some(s) => Case::Src(s.into(), mode_of(v["mode"].as_str().unwrap_or(""))), None => Case::Graph(v["rec"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()) },
        None => { let mut s = ctx.src(i); if (i / 8) % 4 == 0 { gen_cfg(&mut s); Case::Graph(s.rec) } else { let (t, m) = gen_src(&mut s, (i / 8) % 4 == 1); Case::Src(t, m) } }
    };
    ctx.current(&match &case { Case::Graph(r) => json!({"rec": r}), Case::Src(s, m) => json!({"src": s, "mode": mode_name(*m)}) });
    let mut f = Facts::default();
    match judge12(&case, &mut f) {
        Ok(false) => ctx.add("programs the optimizer rejects", 1),
        Ok(true) => {
            match &case { Case::Graph(r) => { ctx.add("random graphs", 1); ctx.observed(format!("{r:?}").as_bytes(), r.len() > 10) } Case::Src(s, _) => { ctx.add("programs compiled", 1); ctx.observed(s.as_bytes(), f.steps > 0) } }
            for (k, v) in [("dominance answers compared", f.dom), ("post-dominance answers compared", f.pdom), ("loops compared", f.loops), ("live-in sets compared", f.live), ("single-assignment uses checked", f.ssa), ("pipeline stages checked", f.steps), ("functions", f.funcs), ("concurrent compilations compared", f.runs), ("register assignments checked", f.regs), ("reads checked for definition on all paths", f.defined)] { if v > 0 { ctx.add(k, v); } }
            ctx.sample(|| json!({"case": match &case { Case::Graph(r) => show(&gen_cfg(&mut Src::replay(r.clone()))), Case::Src(s, _) => s.clone() }, "dominance": f.dom, "liveness": f.live}));
        }
        Err((kind, m)) => {
            let (case, m) = if replay.is_some() { (case, m) } else {
                let mut s = ctx.src(i);
                match &case {
                    Case::Graph(_) => { let _ = gen_cfg(&mut s); let rec = shrink(s.rec, 400, |r| matches!(judge12(&Case::Graph(r.to_vec()), &mut Facts::default()), Err((k, _)) if k == kind)); let c = Case::Graph(rec); let m = judge12(&c, &mut Facts::default()).err().map(|x| x.1).unwrap_or(m); (c, m) }
                    Case::Src(..) => { let fun = (i / 8) % 4 == 1; let _ = gen_src(&mut s, fun); let rec = shrink(s.rec, 300, |r| { let (t, mo) = gen_src(&mut Src::replay(r.to_vec()), fun); matches!(judge12(&Case::Src(t, mo), &mut Facts::default()), Err((k, _)) if k == kind) }); let (t, mo) = gen_src(&mut Src::replay(rec), fun); let c = Case::Src(t, mo); let m = judge12(&c, &mut Facts::default()).err().map(|x| x.1).unwrap_or(m); (c, m) }
                }
            };
            let (j, text) = match &case { Case::Graph(r) => (json!({"rec": r}), String::new()), Case::Src(s, m) => (json!({"src": s, "mode": mode_name(*m)}), s.clone()) };
            ctx.violation(&kind, &format!("{m}\n{text}"), j);
        }
    }
}
// ---------------------------------------------------------------- C11
/// Programs of the subset the optimizer and decompiler claim to handle: numbers, strings and booleans in local variables, calls, all structured
/// control flow, local arrays and objects. Expressions have no side effects, every value that is computed is defined.
struct P<'a> { s: &'a mut Src, out: String, vars: Vec<String>, n: usize, loops: Vec<(Option<String>, bool)>, id: usize, budget: i32, arrays: Vec<String>, objs: Vec<String> }
impl P<'_> {
    fn num(&mut self) -> String { (*self.s.pick(&["0", "1", "2", "3", "7", "0.5", "100", "4294967295", "2147483648", "1e21", "5e-7"])).into() }
    fn var(&mut self) -> Option<String> { if self.vars.is_empty() { None } else { let k = self.s.below(self.vars.len()); Some(self.vars[k].clone()) } }
    fn expr(&mut self, d: u32) -> String {
        if d == 0 || self.s.chance(1, 4) { return match self.s.below(8) { 0..=3 => self.var().unwrap_or_else(|| "1".into()), 4 => (*self.s.pick(&["\"a\"", "\"\"", "\"10\"", "\"b c\"", "\"\\n\"", "'\u{e9}'"])).into(), 5 => (*self.s.pick(&["true", "false", "null", "undefined"])).into(), _ => self.num() }; }
        match self.s.below(15) {
            0..=4 => { let (a, b) = (self.expr(d - 1), self.expr(d - 1)); let o = *self.s.pick(&["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", ">>>"]); if o == "**" { let (a, b) = (*self.s.pick(&["0", "1", "2", "3", "10", "-2", "\"a\"", "\"3\""]), *self.s.pick(&["0", "1", "2", "3", "\"2\"", "NaN", "Infinity", "-1"])); format!("(({a}){o}({b}))") } else { format!("(({a}){o} ({b}))") } }
            5 | 6 => { let (a, b) = (self.expr(d - 1), self.expr(d - 1)); let o = *self.s.pick(&["<", ">", "<=", ">=", "===", "!=="]); format!("(({a}){o}({b}))") }
            7 => { let (a, b) = (self.expr(d - 1), self.expr(d - 1)); let o = *self.s.pick(&["&&", "||", "??"]); format!("(({a}){o}({b}))") }
            8 => { let (a, b, c) = (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)); format!("({a}?{b}:{c})") }
            9 | 10 => { let a = self.expr(d - 1); let o = *self.s.pick(&["-", "+", "!", "~", "typeof ", "void "]); format!("({o}({a}))") }
            11 => { let a = self.expr(d - 1); format!("`<${{{a}}}>`") }
            12 if !self.arrays.is_empty() => { let k = self.s.below(self.arrays.len()); let a = self.arrays[k].clone(); let i = self.expr(d - 1); format!("{a}[{i}]") }
            13 if !self.objs.is_empty() => { let k = self.s.below(self.objs.len()); let a = self.objs[k].clone(); format!("{a}.{}", self.s.pick(&["p", "q", "r"])) }
            _ => { let a = self.expr(d - 1); let f = *self.s.pick(&["Math.floor", "String", "Number", "Boolean", "Math.max", "isNaN"]); format!("{f}({a})") }
        }
    }
    fn log(&mut self) { self.id += 1; let n = self.s.range(0, 3); let mut a = format!("$({}", self.id); for _ in 0..n { let e = self.expr(2); a += &format!(",{e}"); } self.out += &format!("{a});\n"); }
    fn name(&mut self) -> String { self.n += 1; format!("v{}", self.n) }
    fn block(&mut self, d: u32) {
        self.out += "{\n";
        let (v, a, o) = (self.vars.len(), self.arrays.len(), self.objs.len());
        for _ in 0..self.s.range(1, 4) { self.stmt(d); }
        self.vars.truncate(v); self.arrays.truncate(a); self.objs.truncate(o);
        self.out += "}\n";
    }
    fn stmt(&mut self, d: u32) {
        self.budget -= 1;
        if self.budget < 0 { return self.log(); }
        match self.s.below(if d == 0 { 6 } else { 14 }) {
            0 => { let e = self.expr(3); let n = self.name(); let k = if self.s.chance(1, 2) { "let" } else { "var" }; self.out += &format!("{k} {n}={e};\n"); self.vars.push(n); }
            1 | 2 => { if let Some(v) = self.var() { let e = self.expr(3); let o = *self.s.pick(&["=", "=", "=", "+=", "-=", "*=", "|=", "&&=", "||=", "??="]); if o == "=" || self.s.chance(1, 2) { self.out += &format!("{v}{o}{e};\n"); } else { self.log(); } } else { self.log(); } }
            3 => { let n = self.name(); if self.s.chance(1, 2) { let (a, b) = (self.expr(2), self.expr(2)); self.out += &format!("let {n}=[{a},{b}];\n"); self.arrays.push(n); } else { let (a, b) = (self.expr(2), self.expr(2)); self.out += &format!("let {n}={{p:{a},q:{b}}};\n"); self.objs.push(n); } }
            4 => { if self.objs.is_empty() { self.log() } else { let k = self.s.below(self.objs.len()); let o = self.objs[k].clone(); let e = self.expr(2); let p = *self.s.pick(&["p", "q", "r"]); self.out += &match self.s.below(6) { 0 => format!("{o}.{p}--;\n"), 1 => format!("--{o}[\"{p}\"];\n"), 2 => format!("{o}.{p}{}{e};\n", self.s.pick(&["+=", "*=", "||=", "??=", "&&="])), _ => format!("{o}.{p}={e};\n") }; } }
            5 => if self.s.chance(1, 12) { let e = self.expr(1); self.out += &format!("if({e}){{{};}}\n", self.s.pick(&["null.x", "throw 1", "undefined.p.q", "$.none.none"])); } else { self.log() },
            6..=8 => { let c = self.expr(3); self.out += &format!("if({c})"); self.block(d - 1); if self.s.chance(1, 2) { self.out += "else "; self.block(d - 1); } }
            9 | 10 => {
                let l = if self.s.chance(1, 3) { Some(format!("L{}", self.n)) } else { None };
                let n = self.name();
                let k = self.s.range(0, 4);
                if let Some(l) = &l { self.out += &format!("{l}:"); }
                match self.s.below(3) {
                    0 => { self.out += &format!("for(let {n}=0;{n}<{k};{n}={n}+1)"); self.loops.push((l, true)); self.block(d - 1); self.loops.pop(); }
                    1 => { self.out += &format!("for(let {n}=0;({n}={n}+1)<{k};)"); self.loops.push((l, true)); self.block(d - 1); self.loops.pop(); }
                    _ => { let e: Vec<String> = (0..k).map(|_| self.expr(1)).collect(); self.out += &format!("for(const {n} of [{}])", e.join(",")); self.loops.push((l, true)); self.block(d - 1); self.loops.pop(); }
                }
            }
            11 => { if let Some((l, _)) = self.loops.last().cloned() { let c = self.expr(2); let k = *self.s.pick(&["break", "continue"]); let outer = self.loops.iter().rev().find_map(|x| x.0.clone()); let t = if self.s.chance(1, 3) { outer } else { l.filter(|_| self.s.chance(1, 2)) }; self.out += &format!("if({c}){k}{};\n", t.map(|t| format!(" {t}")).unwrap_or_default()); } else { self.log() } }
            12 => { let c = self.expr(2); let n = self.s.range(1, 4); let def = self.s.below(5); self.out += &format!("switch({c}){{\n"); for k in 0..n { if def == k as usize { self.out += "default:\n"; } else { let e = self.expr(1); self.out += &format!("case {e}:\n"); } self.block(0); if self.s.chance(1, 2) { self.out += "break;\n"; } } self.out += "}\n"; }
            _ => self.block(d - 1),
        }
    }
}
fn gen11(s: &mut Src) -> (String, TopLevelMode) {
    let mode = *s.pick(&[TopLevelMode::Script, TopLevelMode::Module]);
    let budget = s.range(3, 26) as i32;
    let mut p = P { s, out: String::new(), vars: vec![], n: 0, loops: vec![], id: 0, budget, arrays: vec![], objs: vec![] };
    let n = p.s.range(1, 8);
    for _ in 0..n { p.stmt(3); }
    let vs = p.vars.clone();
    p.out += &format!("$(0{});\n", vs.iter().map(|v| format!(",{v}")).collect::<String>());
    (p.out, mode)
}
fn optimize(src: &str, mode: TopLevelMode) -> Result<Result<String, String>, String> {
    catch(|| match compile_source(src, mode, false) {
        Err(ds) => { for d in &ds { let r = d.primary.range; if r.start > r.end || r.end as usize > src.len() { panic!("diagnostic span {r:?} outside the source"); } } if ds.is_empty() { panic!("rejected without a diagnostic"); } Err(ds[0].message.split(" at ").next().unwrap_or("").chars().take(40).collect()) }
        Ok(p) => match program_to_js(&p, &DecompileOptions { declare_registers: true, ..Default::default() }, emit_js::EmitOptions::minified()) { Ok(b) => Ok(String::from_utf8(b).unwrap_or_else(|_| "<invalid utf8>".into())), Err(e) => Err(format!("decompile: {e:?}").chars().take(60).collect()) },
    })
}
pub struct C11 { node: Oracle }
impl C11 {
    pub fn new() -> Self { C11 { node: Oracle::new("main.mjs") } }
    fn bad(&mut self, src: &str, mode: TopLevelMode) -> Option<(&'static str, String, String)> {
        match optimize(src, mode) {
            Err(p) => Some(("panic", p, String::new())),
            Ok(Err(_)) => None,
            Ok(Ok(out)) => {
                let m = if mode == TopLevelMode::Module { "module" } else { "script" };
                let r = self.node.ask(&json!({"op":"exec","cases":[{"src":src,"mode":m},{"src":out,"mode":m}]}))?;
                match judge(&r["results"][0], &r["results"][1]) { Verdict::Bad(k, m) => Some((k, m, out)), _ => None }
            }
        }
    }
    pub fn case(&mut self, ctx: &mut Ctx, i: u64, replay: Option<&Value>) {
        let mut recs = vec![];
        let cases: Vec<(String, TopLevelMode)> = match replay {
            Some(v) => vec![(v["src"].as_str().unwrap_or("").into(), mode_of(v["mode"].as_str().unwrap_or("")))],
            None => (0..8).map(|k| { let mut s = ctx.src(i * 8 + k); let c = gen11(&mut s); recs.push(s.rec); c }).collect(),
        };
        ctx.current(&json!({"src": cases.iter().map(|c| c.0.as_str()).collect::<Vec<_>>().join("\n/*====*/\n")}));
        let mut todo = vec![];
        let mut fails = vec![];
        for (k, (src, mode)) in cases.iter().enumerate() {
            match optimize(src, *mode) {
                Err(p) => fails.push((k, "panic".to_string(), p)),
                Ok(Err(why)) => { ctx.add("programs rejected with diagnostics", 1); ctx.add(&format!("reject: {why}"), 1) }
                Ok(Ok(out)) => todo.push((k, out)),
            }
        }
        if !todo.is_empty() {
            let m = |k: usize| if cases[k].1 == TopLevelMode::Module { "module" } else { "script" };
            let mut list = vec![];
            for (k, out) in &todo { list.push(json!({"src": cases[*k].0, "mode": m(*k)})); list.push(json!({"src": out, "mode": m(*k)})); }
            let Some(r) = self.node.ask(&json!({"op":"exec","cases":list})) else { ctx.add("inconclusive batches", 1); return };
            for (n, (k, out)) in todo.iter().enumerate() {
                match judge(&r["results"][2 * n], &r["results"][2 * n + 1]) {
                    Verdict::Same(events) => { ctx.add("events compared", events as u64); ctx.observed(cases[*k].0.as_bytes(), events > 0); let s = &cases[*k].0; ctx.sample(|| json!({"src": s, "output": out, "events": events})); }
                    Verdict::Skip(w) => ctx.add(&format!("skip: {w}"), 1),
                    Verdict::Bad(kind, msg) => fails.push((*k, kind.to_string(), msg)),
                }
            }
        }
        for (k, kind, msg) in fails {
            let (mut src, mut mode, mut msg) = (cases[k].0.clone(), cases[k].1, msg);
            if replay.is_none() {
                let rec = shrink(recs[k].clone(), 200, |c| { let (t, m) = gen11(&mut Src::replay(c.to_vec())); self.bad(&t, m).is_some_and(|b| b.0 == kind) });
                let (t, m) = gen11(&mut Src::replay(rec));
                if let Some((_, mm, out)) = self.bad(&t, m) { src = t; mode = m; msg = format!("{mm}\noutput: {out}"); }
            } else if let Some((_, mm, out)) = self.bad(&src, mode) { msg = format!("{mm}\noutput: {out}"); }
            ctx.violation(&kind, &format!("{msg}\nsource: {src}"), json!({"src": src, "mode": mode_name(mode)}));
        }
    }
}
