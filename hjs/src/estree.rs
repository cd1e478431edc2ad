//! Converts a parse-js tree into the canonical ESTree form shared with the JavaScript oracles.
//! Every node becomes `{"t": type, "l": [start, end], fields...}` with byte offsets.
use hcommon::{json, Value};
use parse_js::ast::class_or_object::*;
use parse_js::ast::expr::lit::*;
use parse_js::ast::expr::pat::*;
use parse_js::ast::expr::*;
use parse_js::ast::func::*;
use parse_js::ast::import_export::*;
use parse_js::ast::node::*;
use parse_js::ast::stmt::decl::*;
use parse_js::ast::stmt::*;
use parse_js::ast::stx::TopLevel;
use parse_js::loc::Loc;
use parse_js::operator::OperatorName as O;
use serde_json::Map;

fn node(t: &str, l: Loc, fields: Value) -> Value {
    let mut m = Map::new();
    m.insert("t".into(), json!(t));
    m.insert("l".into(), json!([l.0, l.1]));
    if let Value::Object(f) = fields { for (k, v) in f { m.insert(k, v); } }
    Value::Object(m)
}
/// A string as text, or as UTF-16 code units when it has unpaired surrogates.
pub fn units(u: &[u16]) -> Value {
    match String::from_utf16(u) { Ok(s) => json!(s), Err(_) => json!(u) }
}
pub fn num_bits(v: f64) -> String { if v.is_nan() { "NaN".into() } else { format!("{:016x}", v.to_bits()) } }
fn is_paren(a: &NodeAssocData) -> bool { a.get::<ParenthesizedExpr>().is_some() }

pub fn program(t: &Node<TopLevel>) -> Value { json!({"t":"Program","l":[t.loc.0, t.loc.1],"body":stmts(&t.stx.body)}) }
fn stmts(b: &[Node<Stmt>]) -> Value { Value::Array(b.iter().map(stmt).collect()) }
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value { o.as_ref().map_or(Value::Null, f) }
fn block(l: Loc, b: &[Node<Stmt>]) -> Value { node("BlockStatement", l, json!({"body": stmts(b)})) }
// parse-js keeps exported aliases as they are spelled
fn decoded(name: &str) -> String {
    let mut out = String::new();
    let mut rest = name;
    while let Some(i) = rest.find("\\u") {
        out.push_str(&rest[..i]);
        let after = &rest[i + 2..];
        let (hex, tail) = match after.strip_prefix('{').and_then(|a| a.split_once('}')) {
            Some(x) => x,
            None if after.len() >= 4 && after.is_char_boundary(4) => after.split_at(4),
            None => return name.to_string(),
        };
        match u32::from_str_radix(hex, 16).ok().and_then(char::from_u32) { Some(c) => out.push(c), None => return name.to_string() }
        rest = tail;
    }
    out + rest
}
fn ident(name: &str, l: Loc) -> Value { node("Identifier", l, json!({"name": name})) }
fn str_lit(s: &str) -> Value { json!({"t":"String","value":s}) }
fn attributes(a: &Option<Node<Expr>>) -> Value {
    let Some(e) = a else { return json!([]) };
    match expr(e) {
        Value::Object(m) => {
            let list: Vec<Value> = m.get("properties").and_then(|p| p.as_array()).into_iter().flatten()
                .map(|p| json!([p["key"], p["value"]["value"]])).collect();
            json!(list)
        }
        v => v,
    }
}

pub fn stmt(n: &Node<Stmt>) -> Value {
    let l = n.loc;
    match n.stx.as_ref() {
        Stmt::Block(s) => block(l, &s.stx.body),
        Stmt::Break(s) => node("BreakStatement", l, json!({"label": s.stx.label})),
        Stmt::Continue(s) => node("ContinueStatement", l, json!({"label": s.stx.label})),
        Stmt::Debugger(_) => node("DebuggerStatement", l, json!({})),
        Stmt::DoWhile(s) => node("DoWhileStatement", l, json!({"body": stmt(&s.stx.body), "test": expr(&s.stx.condition)})),
        Stmt::Empty(_) => node("EmptyStatement", l, json!({})),
        Stmt::ExportDefaultExpr(s) => node("ExportDefaultDeclaration", l, json!({"declaration": expr(&s.stx.expression)})),
        Stmt::ExportList(s) => match &s.stx.names {
            ExportNames::All(a) => node("ExportAllDeclaration", l, json!({"exported": opt(a, |a| json!(decoded(&a.stx.name))), "source": s.stx.from, "attributes": attributes(&s.stx.attributes)})),
            ExportNames::Specific(v) => {
                let specs: Vec<Value> = v.iter().map(|e| json!([e.stx.exportable.as_str(), decoded(&e.stx.alias.stx.name)])).collect();
                node("ExportNamedDeclaration", l, json!({"declaration": null, "specifiers": specs, "source": s.stx.from, "attributes": attributes(&s.stx.attributes)}))
            }
        },
        Stmt::Expr(s) => node("ExpressionStatement", l, json!({"expression": expr(&s.stx.expr)})),
        Stmt::ForIn(s) => node("ForInStatement", l, json!({"left": for_lhs(&s.stx.lhs), "right": expr(&s.stx.rhs), "body": stmts(&s.stx.body.stx.body)})),
        Stmt::ForOf(s) => node("ForOfStatement", l, json!({"await": s.stx.await_, "left": for_lhs(&s.stx.lhs), "right": expr(&s.stx.rhs), "body": stmts(&s.stx.body.stx.body)})),
        Stmt::ForTriple(s) => {
            let init = match &s.stx.init {
                ForTripleStmtInit::None => Value::Null,
                ForTripleStmtInit::Expr(e) => expr(e),
                ForTripleStmtInit::Decl(d) => var_decl(d),
            };
            node("ForStatement", l, json!({"init": init, "test": opt(&s.stx.cond, expr), "update": opt(&s.stx.post, expr), "body": stmts(&s.stx.body.stx.body)}))
        }
        Stmt::If(s) => node("IfStatement", l, json!({"test": expr(&s.stx.test), "consequent": stmt(&s.stx.consequent), "alternate": opt(&s.stx.alternate, stmt)})),
        Stmt::Import(s) => {
            let mut specs = vec![];
            if let Some(d) = &s.stx.default { specs.push(json!(["default", pat_name(&d.stx.pat)])); }
            match &s.stx.names {
                None => {}
                Some(ImportNames::All(a)) => specs.push(json!(["*", pat_name(&a.stx.pat)])),
                Some(ImportNames::Specific(v)) => for i in v { specs.push(json!([i.stx.importable.as_str(), pat_name(&i.stx.alias.stx.pat)])); },
            }
            node("ImportDeclaration", l, json!({"specifiers": specs, "source": s.stx.module, "attributes": attributes(&s.stx.attributes)}))
        }
        Stmt::Label(s) => node("LabeledStatement", l, json!({"label": s.stx.name, "body": stmt(&s.stx.statement)})),
        Stmt::Return(s) => node("ReturnStatement", l, json!({"argument": opt(&s.stx.value, expr)})),
        Stmt::Switch(s) => node("SwitchStatement", l, json!({"discriminant": expr(&s.stx.test), "cases": s.stx.branches.iter().map(|b| node("SwitchCase", b.loc, json!({"test": opt(&b.stx.case, expr), "consequent": stmts(&b.stx.body)}))).collect::<Vec<_>>()})),
        Stmt::Throw(s) => node("ThrowStatement", l, json!({"argument": expr(&s.stx.value)})),
        Stmt::Try(s) => node("TryStatement", l, json!({
            "block": block(s.stx.wrapped.loc, &s.stx.wrapped.stx.body),
            "handler": opt(&s.stx.catch, |c| node("CatchClause", c.loc, json!({"param": opt(&c.stx.parameter, |p| pat(&p.stx.pat)), "body": stmts(&c.stx.body)}))),
            "finalizer": opt(&s.stx.finally, |b| block(b.loc, &b.stx.body)),
        })),
        Stmt::While(s) => node("WhileStatement", l, json!({"test": expr(&s.stx.condition), "body": stmt(&s.stx.body)})),
        Stmt::With(s) => node("WithStatement", l, json!({"object": expr(&s.stx.object), "body": stmt(&s.stx.body)})),
        Stmt::ClassDecl(s) => {
            let c = node("ClassDeclaration", l, class(s.stx.name.as_ref(), s.stx.extends.as_ref(), &s.stx.members));
            exported(l, c, s.stx.export, s.stx.export_default)
        }
        Stmt::FunctionDecl(s) => {
            let f = node("FunctionDeclaration", l, func(&s.stx.function, s.stx.name.as_ref()));
            exported(l, f, s.stx.export, s.stx.export_default)
        }
        Stmt::VarDecl(s) => exported(l, var_decl(s), s.stx.export, false),
        other => node("TypeScript", l, json!({"kind": format!("{other:?}").split('(').next()})),
    }
}
fn exported(l: Loc, inner: Value, export: bool, default: bool) -> Value {
    if default { node("ExportDefaultDeclaration", l, json!({"declaration": inner})) }
    else if export { node("ExportNamedDeclaration", l, json!({"declaration": inner, "specifiers": [], "source": null, "attributes": []})) }
    else { inner }
}
fn var_decl(s: &Node<VarDecl>) -> Value {
    let kind = match s.stx.mode { VarDeclMode::Const => "const", VarDeclMode::Let => "let", VarDeclMode::Var => "var", VarDeclMode::Using => "using", VarDeclMode::AwaitUsing => "await using" };
    let ds: Vec<Value> = s.stx.declarators.iter().map(|d| json!({"t": "VariableDeclarator", "id": pat(&d.pattern.stx.pat), "init": opt(&d.initializer, expr)})).collect();
    node("VariableDeclaration", s.loc, json!({"kind": kind, "declarations": ds}))
}
fn for_lhs(h: &ForInOfLhs) -> Value {
    match h {
        ForInOfLhs::Assign(p) => pat(p),
        ForInOfLhs::Decl((m, p)) => {
            let kind = match m { VarDeclMode::Const => "const", VarDeclMode::Let => "let", VarDeclMode::Var => "var", VarDeclMode::Using => "using", VarDeclMode::AwaitUsing => "await using" };
            json!({"t":"VariableDeclaration","kind":kind,"declarations":[{"t":"VariableDeclarator","id":pat(&p.stx.pat),"init":null}]})
        }
    }
}
fn pat_name(p: &Node<Pat>) -> Value { match p.stx.as_ref() { Pat::Id(i) => json!(i.stx.name), _ => json!("?") } }

fn class(name: Option<&Node<ClassOrFuncName>>, extends: Option<&Node<Expr>>, members: &[Node<ClassMember>]) -> Value {
    let body: Vec<Value> = members.iter().map(|m| {
        let l = m.loc;
        match &m.stx.val {
            ClassOrObjVal::StaticBlock(b) => node("StaticBlock", l, json!({"body": stmts(&b.stx.body)})),
            ClassOrObjVal::Prop(v) => node("PropertyDefinition", l, json!({"static": m.stx.static_, "computed": computed(&m.stx.key), "key": key(&m.stx.key), "value": opt(v, expr)})),
            ClassOrObjVal::IndexSignature(_) => node("TypeScript", l, json!({})),
            v => {
                let (kind, f) = method(v);
                node("MethodDefinition", l, json!({"static": m.stx.static_, "kind": kind, "computed": computed(&m.stx.key), "key": key(&m.stx.key), "value": f}))
            }
        }
    }).collect();
    json!({"id": name.map(|n| json!(n.stx.name)), "superClass": extends.map(expr), "body": body})
}
fn method(v: &ClassOrObjVal) -> (&'static str, Value) {
    match v {
        ClassOrObjVal::Getter(g) => ("get", node("FunctionExpression", g.stx.func.loc, func(&g.stx.func, None))),
        ClassOrObjVal::Setter(g) => ("set", node("FunctionExpression", g.stx.func.loc, func(&g.stx.func, None))),
        ClassOrObjVal::Method(g) => ("method", node("FunctionExpression", g.stx.func.loc, func(&g.stx.func, None))),
        _ => ("?", Value::Null),
    }
}
fn computed(k: &ClassOrObjKey) -> bool { matches!(k, ClassOrObjKey::Computed(_)) }
fn key(k: &ClassOrObjKey) -> Value {
    match k {
        ClassOrObjKey::Direct(d) => match literal_string_code_units(&d.assoc) { Some(u) => units(u), None => json!(d.stx.key) },
        ClassOrObjKey::Computed(e) => expr(e),
    }
}
fn func(f: &Node<Func>, name: Option<&Node<ClassOrFuncName>>) -> Value {
    let fx = &f.stx;
    let params: Vec<Value> = fx.parameters.iter().map(|p| {
        let t = pat(&p.stx.pattern.stx.pat);
        let t = match &p.stx.default_value { Some(d) => json!({"t":"AssignmentPattern","left":t,"right":expr(d)}), None => t };
        if p.stx.rest { json!({"t":"RestElement","argument":t}) } else { t }
    }).collect();
    let body = match &fx.body {
        None => Value::Null,
        Some(FuncBody::Block(b)) => stmts(b),
        Some(FuncBody::Expression(e)) => expr(e),
    };
    let mut v = json!({"async": fx.async_, "generator": fx.generator, "params": params, "body": body});
    if !fx.arrow { v["id"] = name.map_or(Value::Null, |n| json!(n.stx.name)); }
    v
}

pub fn pat(p: &Node<Pat>) -> Value {
    match p.stx.as_ref() {
        Pat::Arr(a) => arr_pat(p.loc, &a.stx),
        Pat::Id(i) => ident(&i.stx.name, p.loc),
        Pat::Obj(o) => obj_pat(p.loc, &o.stx),
        Pat::AssignTarget(e) => expr(e),
    }
}
fn with_default(t: Value, d: &Option<Node<Expr>>) -> Value {
    match d { Some(d) => json!({"t":"AssignmentPattern","left":t,"right":expr(d)}), None => t }
}
fn arr_pat(l: Loc, a: &ArrPat) -> Value {
    let mut els: Vec<Value> = a.elements.iter().map(|e| opt(e, |e| with_default(pat(&e.target), &e.default_value))).collect();
    if let Some(r) = &a.rest { els.push(json!({"t":"RestElement","argument":pat(r)})); }
    node("ArrayPattern", l, json!({"elements": els}))
}
fn obj_pat(l: Loc, o: &ObjPat) -> Value {
    let mut ps: Vec<Value> = o.properties.iter().map(|q| json!({"t":"Property","computed":computed(&q.stx.key),"shorthand":q.stx.shorthand,"kind":"init","method":false,"key":key(&q.stx.key),"value":with_default(pat(&q.stx.target), &q.stx.default_value)})).collect();
    if let Some(r) = &o.rest { ps.push(json!({"t":"RestElement","argument":pat(r)})); }
    node("ObjectPattern", l, json!({"properties": ps}))
}

fn args(v: &[Node<CallArg>]) -> Value {
    Value::Array(v.iter().map(|a| { let e = expr(&a.stx.value); if a.stx.spread { json!({"t":"SpreadElement","argument":e}) } else { e } }).collect())
}
fn chain_has_optional(e: &Node<Expr>) -> bool {
    let (own, next) = match e.stx.as_ref() {
        Expr::Call(c) => (c.stx.optional_chaining, &c.stx.callee),
        Expr::Member(m) => (m.stx.optional_chaining, &m.stx.left),
        Expr::ComputedMember(m) => (m.stx.optional_chaining, &m.stx.object),
        _ => return false,
    };
    own || (!is_paren(&next.assoc) && chain_has_optional(next))
}
pub fn expr(e: &Node<Expr>) -> Value {
    let v = expr_in_chain(e);
    if chain_has_optional(e) { node("ChainExpression", e.loc, json!({"expression": v})) } else { v }
}
fn object(e: &Node<Expr>) -> Value { if is_paren(&e.assoc) { expr(e) } else { expr_in_chain(e) } }

fn flatten_comma<'a>(e: &'a Node<Expr>, out: &mut Vec<&'a Node<Expr>>) {
    if let Expr::Binary(b) = e.stx.as_ref() {
        if b.stx.operator == O::Comma {
            if is_paren(&b.stx.left.assoc) { out.push(&b.stx.left); } else { flatten_comma(&b.stx.left, out); }
            out.push(&b.stx.right);
            return;
        }
    }
    out.push(e);
}
fn template(parts: &[LitTemplatePart], assoc: &NodeAssocData) -> (Value, Value) {
    let (mut strs, mut exprs, mut fallback) = (vec![], vec![], vec![]);
    for p in parts { match p { LitTemplatePart::Substitution(e) => exprs.push(expr(e)), LitTemplatePart::String(s) => fallback.push(s.clone()) } }
    match template_string_parts(assoc) {
        Some(t) => for (r, c) in t.raw.iter().zip(t.cooked.iter()) { strs.push(json!([units(r), c.as_ref().map_or(Value::Null, |c| units(c))])); },
        None => for f in fallback { strs.push(json!([null, f])); },
    }
    (json!(strs), json!(exprs))
}
fn expr_in_chain(e: &Node<Expr>) -> Value {
    let l = e.loc;
    match e.stx.as_ref() {
        Expr::ArrowFunc(f) => {
            let is_expr = matches!(f.stx.func.stx.body, Some(FuncBody::Expression(_)));
            let mut v = func(&f.stx.func, None);
            v["expression"] = json!(is_expr);
            node("ArrowFunctionExpression", l, v)
        }
        Expr::Binary(b) => {
            let op = b.stx.operator;
            if op == O::Comma {
                let mut v = vec![];
                flatten_comma(e, &mut v);
                return node("SequenceExpression", l, json!({"expressions": v.into_iter().map(expr).collect::<Vec<_>>()}));
            }
            let (t, s) = binop(op);
            node(t, l, json!({"operator": s, "left": expr(&b.stx.left), "right": expr(&b.stx.right)}))
        }
        Expr::Call(c) => node("CallExpression", l, json!({"optional": c.stx.optional_chaining, "callee": object(&c.stx.callee), "arguments": args(&c.stx.arguments)})),
        Expr::Class(c) => node("ClassExpression", l, class(c.stx.name.as_ref(), c.stx.extends.as_ref(), &c.stx.members)),
        Expr::ComputedMember(m) => node("MemberExpression", l, json!({"computed": true, "optional": m.stx.optional_chaining, "object": object(&m.stx.object), "property": expr(&m.stx.member)})),
        Expr::Cond(c) => node("ConditionalExpression", l, json!({"test": expr(&c.stx.test), "consequent": expr(&c.stx.consequent), "alternate": expr(&c.stx.alternate)})),
        Expr::Func(f) => node("FunctionExpression", l, func(&f.stx.func, f.stx.name.as_ref())),
        Expr::Id(i) => ident(&i.stx.name, l),
        Expr::Import(i) => node("ImportExpression", l, json!({"source": expr(&i.stx.module), "options": opt(&i.stx.attributes, expr)})),
        Expr::ImportMeta(_) => node("MetaProperty", l, json!({"name": "import.meta"})),
        Expr::Member(m) => node("MemberExpression", l, json!({"computed": false, "optional": m.stx.optional_chaining, "object": object(&m.stx.left), "property": m.stx.right})),
        Expr::NewTarget(_) => node("MetaProperty", l, json!({"name": "new.target"})),
        Expr::Super(_) => node("Super", l, json!({})),
        Expr::TaggedTemplate(t) => {
            let (q, x) = template(&t.stx.parts, &t.assoc);
            node("TaggedTemplateExpression", l, json!({"tag": expr(&t.stx.function), "quasis": q, "expressions": x}))
        }
        Expr::This(_) => node("ThisExpression", l, json!({})),
        Expr::Unary(u) => {
            let op = u.stx.operator;
            let a = &u.stx.argument;
            match op {
                O::New => match a.stx.as_ref() {
                    Expr::Call(c) if !is_paren(&a.assoc) && !c.stx.optional_chaining => node("NewExpression", l, json!({"callee": expr(&c.stx.callee), "arguments": args(&c.stx.arguments)})),
                    _ => node("NewExpression", l, json!({"callee": expr(a), "arguments": []})),
                },
                O::Await => node("AwaitExpression", l, json!({"argument": expr(a)})),
                O::Yield | O::YieldDelegated => {
                    // a bare `yield` is represented with an undefined argument of no width
                    let v = expr(a);
                    let bare = op == O::Yield && v["t"] == "Identifier" && v["name"] == "undefined" && a.loc.is_empty_or_outside(l);
                    node("YieldExpression", l, json!({"delegate": op == O::YieldDelegated, "argument": if bare { Value::Null } else { v }}))
                }
                O::PrefixIncrement => node("UpdateExpression", l, json!({"operator": "++", "prefix": true, "argument": expr(a)})),
                O::PrefixDecrement => node("UpdateExpression", l, json!({"operator": "--", "prefix": true, "argument": expr(a)})),
                _ => {
                    let s = match op { O::Delete => "delete", O::Void => "void", O::Typeof => "typeof", O::LogicalNot => "!", O::BitwiseNot => "~", O::UnaryNegation => "-", O::UnaryPlus => "+", _ => "?" };
                    node("UnaryExpression", l, json!({"operator": s, "argument": expr(a)}))
                }
            }
        }
        Expr::UnaryPostfix(u) => node("UpdateExpression", l, json!({"operator": if u.stx.operator == O::PostfixIncrement { "++" } else { "--" }, "prefix": false, "argument": expr(&u.stx.argument)})),
        Expr::LitArr(a) => node("ArrayExpression", l, json!({"elements": a.stx.elements.iter().map(|x| match x { LitArrElem::Single(e) => expr(e), LitArrElem::Rest(e) => json!({"t":"SpreadElement","argument":expr(e)}), LitArrElem::Empty => Value::Null }).collect::<Vec<_>>()})),
        Expr::LitBigInt(b) => node("BigInt", l, json!({"value": b.stx.value})),
        Expr::LitBool(b) => node("Boolean", l, json!({"value": b.stx.value})),
        Expr::LitNull(_) => node("Null", l, json!({})),
        Expr::LitNum(n) => node("Number", l, json!({"value": num_bits(n.stx.value.0)})),
        Expr::LitObj(o) => node("ObjectExpression", l, json!({"properties": o.stx.members.iter().map(obj_member).collect::<Vec<_>>()})),
        Expr::LitRegex(r) => node("RegExp", l, json!({"value": r.stx.value})),
        Expr::LitStr(s) => {
            let a = literal_string_code_units(&e.assoc).or_else(|| literal_string_code_units(&s.assoc));
            node("String", l, json!({"value": a.map_or(json!(s.stx.value), units)}))
        }
        Expr::LitTemplate(t) => {
            let (q, x) = template(&t.stx.parts, &t.assoc);
            node("TemplateLiteral", l, json!({"quasis": q, "expressions": x}))
        }
        Expr::ArrPat(a) => arr_pat(l, &a.stx),
        Expr::IdPat(i) => ident(&i.stx.name, l),
        Expr::ObjPat(o) => obj_pat(l, &o.stx),
        other => node("Other", l, json!({"kind": format!("{other:?}").split(['(', ' ']).next()})),
    }
}
trait LocExt { fn is_empty_or_outside(&self, outer: Loc) -> bool; }
impl LocExt for Loc { fn is_empty_or_outside(&self, outer: Loc) -> bool { self.1 <= self.0 || self.0 < outer.0 || self.1 > outer.1 || (self.0 == outer.0) } }

fn obj_member(m: &Node<ObjMember>) -> Value {
    let l = m.loc;
    match &m.stx.typ {
        ObjMemberType::Rest { val } => json!({"t":"SpreadElement","argument":expr(val)}),
        ObjMemberType::Shorthand { id } => node("Property", l, json!({"computed": false, "shorthand": true, "kind": "init", "method": false, "key": id.stx.name, "value": ident(&id.stx.name, id.loc)})),
        ObjMemberType::Valued { key: k, val } => match val {
            ClassOrObjVal::Prop(v) => node("Property", l, json!({"computed": computed(k), "shorthand": false, "kind": "init", "method": false, "key": key(k), "value": opt(v, expr)})),
            v => {
                let (kind, f) = method(v);
                node("Property", l, json!({"computed": computed(k), "shorthand": false, "kind": if kind == "method" { "init" } else { kind }, "method": kind == "method", "key": key(k), "value": f}))
            }
        },
    }
}
fn binop(op: O) -> (&'static str, &'static str) {
    use O::*;
    const B: &str = "BinaryExpression";
    const A: &str = "AssignmentExpression";
    const L: &str = "LogicalExpression";
    match op {
        Addition => (B, "+"), Subtraction => (B, "-"), Multiplication => (B, "*"), Division => (B, "/"), Remainder => (B, "%"), Exponentiation => (B, "**"),
        BitwiseAnd => (B, "&"), BitwiseOr => (B, "|"), BitwiseXor => (B, "^"), BitwiseLeftShift => (B, "<<"), BitwiseRightShift => (B, ">>"), BitwiseUnsignedRightShift => (B, ">>>"),
        Equality => (B, "=="), Inequality => (B, "!="), StrictEquality => (B, "==="), StrictInequality => (B, "!=="),
        LessThan => (B, "<"), LessThanOrEqual => (B, "<="), GreaterThan => (B, ">"), GreaterThanOrEqual => (B, ">="), In => (B, "in"), Instanceof => (B, "instanceof"),
        LogicalAnd => (L, "&&"), LogicalOr => (L, "||"), NullishCoalescing => (L, "??"),
        Assignment => (A, "="), AssignmentAddition => (A, "+="), AssignmentSubtraction => (A, "-="), AssignmentMultiplication => (A, "*="), AssignmentDivision => (A, "/="),
        AssignmentRemainder => (A, "%="), AssignmentExponentiation => (A, "**="), AssignmentBitwiseAnd => (A, "&="), AssignmentBitwiseOr => (A, "|="), AssignmentBitwiseXor => (A, "^="),
        AssignmentBitwiseLeftShift => (A, "<<="), AssignmentBitwiseRightShift => (A, ">>="), AssignmentBitwiseUnsignedRightShift => (A, ">>>="),
        AssignmentLogicalAnd => (A, "&&="), AssignmentLogicalOr => (A, "||="), AssignmentNullishCoalescing => (A, "??="),
        _ => ("?", "?"),
    }
}
