//! Control-flow analyses over the lowered syntax trees.  They only *propose*
//! contract clauses and loop invariants; Verus checks every one of them.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    N,
    MutN,
    RefN,
    V,
    MutV,
    RefV,
    O,
    B,
    U,
    Other,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Recv {
    None,
    SelfRef,
    SelfMut,
    Param(String, bool),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ret {
    pub result: bool,
    pub kind: Kind,
    pub unit: bool,
}
#[derive(Clone)]
pub struct FnInfo {
    pub name: String,
    pub owner: String, // "Parser", "" ...
    pub file: String,
    pub recv: Recv,
    pub params: Vec<(String, Kind, bool)>, // name, kind, declared mut
    pub ret: Ret,
    pub item: ItemFn, // signature + lowered body
    pub unsupported: Vec<String>,
    pub src_lines: (usize, usize),
}
impl FnInfo {
    pub fn pv(&self) -> Option<String> {
        match &self.recv {
            Recv::None => None,
            Recv::SelfRef | Recv::SelfMut => {
                if self.owner == "Parser" {
                    Some("self".into())
                } else {
                    None
                }
            }
            Recv::Param(p, _) => Some(p.clone()),
        }
    }
    pub fn mutating(&self) -> bool {
        matches!(self.recv, Recv::SelfMut | Recv::Param(_, true))
    }
}

pub fn kind_of_type(t: &Type) -> Kind {
    let s = t.to_token_stream().to_string().replace(' ', "");
    match s.as_str() {
        "Node" => Kind::N,
        "&mutNode" => Kind::MutN,
        "&Node" => Kind::RefN,
        "Vec<Node>" => Kind::V,
        "&mutVec<Node>" => Kind::MutV,
        "&Vec<Node>" | "&[Node]" => Kind::RefV,
        "Option<Node>" => Kind::O,
        "bool" => Kind::B,
        "usize" => Kind::U,
        _ => Kind::Other,
    }
}
pub fn ret_of(sig: &Signature) -> Ret {
    match &sig.output {
        ReturnType::Default => Ret { result: false, kind: Kind::Other, unit: true },
        ReturnType::Type(_, t) => {
            let s = t.to_token_stream().to_string().replace(' ', "");
            for pre in ["BQ2CSTResult<"] {
                if let Some(r) = s.strip_prefix(pre) {
                    let inner = &r[..r.len() - 1];
                    let it: Type = parse_str(inner).unwrap();
                    return Ret { result: true, kind: kind_of_type(&it), unit: inner == "()" };
                }
            }
            if s.starts_with("Result<") && s.ends_with(",BQ2CSTError>") {
                let inner = &s["Result<".len()..s.len() - ",BQ2CSTError>".len()];
                let it: Type = parse_str(inner).unwrap();
                return Ret { result: true, kind: kind_of_type(&it), unit: inner == "()" };
            }
            Ret { result: false, kind: kind_of_type(t), unit: s == "()" }
        }
    }
}

pub type Var = usize;
#[derive(Clone, Debug)]
pub enum Rv {
    Construct,
    Call(String, Vec<Arg>),
    Move(Var),
    Elem(Var), // element taken out of a vec
    Fresh,     // a childless node / empty vec
    Unknown,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Var(Var),
    Bool(bool),
    BoolParam(String),
    Other,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Guard {
    Param(String, bool),  // parameter has this value
    EntryTok(Vec<usize>), // the token at entry, uppercased, is one of these literals
    NotEntryTok(Vec<usize>),
}
#[derive(Clone, Debug)]
pub enum I {
    Nop,
    Use(Var),
    Assign(Var, Vec<Rv>),
    Push(Var, usize, Option<Var>), // node.push_node(key, ..)
    VecPush(Var, Option<Var>),
    Next,
    Construct,
    Call(String, Vec<Arg>),
    Loop(usize),
    Exit(bool, Vec<Rv>), // ok?
}
#[derive(Clone, Debug)]
pub struct Cn {
    pub i: I,
    pub succ: Vec<usize>,
    pub guards: Vec<Guard>,
}
pub struct VarInfo {
    pub name: String,
    pub kind: Kind,
    pub param: Option<usize>,
}
#[derive(Clone, Default)]
pub struct LoopInfo {
    pub has_break: bool,
    pub is_loop: bool,
    pub mutates_self: bool,
    pub counters: Vec<String>,
    pub while_pop: Option<String>,
    pub walk: Option<String>,
    pub idx: Option<(String, String)>, // lowered for loop: index, bound
    pub head: usize,
    pub after: Option<usize>,
    pub breaks: Vec<usize>,
}
pub struct Cfg {
    pub n: Vec<Cn>,
    pub vars: Vec<VarInfo>,
    pub loops: Vec<LoopInfo>,
    pub joins: BTreeMap<usize, usize>,
}

pub struct B<'a> {
    pub fns: &'a BTreeMap<String, FnInfo>,
    pub f: &'a FnInfo,
    pub pv: String,
    n: Vec<Cn>,
    vars: Vec<VarInfo>,
    scopes: Vec<BTreeMap<String, Var>>,
    cur: Option<usize>,
    guards: Vec<Guard>,
    loops: Vec<LoopInfo>,
    joins: BTreeMap<usize, usize>,
    lstack: Vec<(usize, Option<String>)>, // loop id, label
    advanced: bool,                       // some Next/call may have happened (syntactic order)
    ptrue: Vec<String>,
}

fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        Expr::Reference(r) => path_ident(&r.expr),
        _ => None,
    }
}
fn lit_id(e: &Expr) -> Option<usize> {
    if let Expr::Call(c) = e {
        let s = c.func.to_token_stream().to_string();
        if let Some(n) = s.strip_prefix("lit_") {
            return n.parse().ok();
        }
    }
    None
}

impl<'a> B<'a> {
    pub fn build(fns: &'a BTreeMap<String, FnInfo>, f: &'a FnInfo) -> Cfg {
        let mut b = B {
            fns,
            f,
            pv: f.pv().unwrap_or_default(),
            n: vec![],
            vars: vec![],
            scopes: vec![BTreeMap::new()],
            cur: None,
            guards: vec![],
            loops: vec![],
            joins: BTreeMap::new(),
            lstack: vec![],
            advanced: false,
            ptrue: vec![],
        };
        b.n.push(Cn { i: I::Nop, succ: vec![], guards: vec![] });
        b.cur = Some(0);
        for (k, (name, kind, _)) in f.params.iter().enumerate() {
            let v = b.vars.len();
            b.vars.push(VarInfo { name: name.clone(), kind: *kind, param: Some(k) });
            b.scopes[0].insert(name.clone(), v);
            if *kind == Kind::B {
                b.ptrue.push(name.clone());
            }
        }
        let body = &f.item.block;
        let r = b.block(body);
        if b.cur.is_some() {
            b.exit(r);
        }
        // nodeness of vec-kind variables whose initialiser did not tell
        Cfg { n: b.n, vars: b.vars, loops: b.loops, joins: b.joins }
    }
    fn emit(&mut self, i: I) -> usize {
        let id = self.n.len();
        self.n.push(Cn { i, succ: vec![], guards: self.guards.clone() });
        if let Some(c) = self.cur {
            self.n[c].succ.push(id);
        }
        // unreachable code is still represented (no predecessor)
        self.cur = Some(id);
        id
    }
    fn exit(&mut self, r: (Vec<Rv>, bool)) {
        self.emit(I::Exit(!r.1, r.0));
        self.cur = None;
    }
    fn lookup(&self, n: &str) -> Option<Var> {
        for s in self.scopes.iter().rev() {
            if let Some(v) = s.get(n) {
                return Some(*v);
            }
        }
        None
    }
    fn newvar(&mut self, n: &str, kind: Kind) -> Var {
        let v = self.vars.len();
        self.vars.push(VarInfo { name: n.to_string(), kind, param: None });
        self.scopes.last_mut().unwrap().insert(n.to_string(), v);
        v
    }
    fn kind_rv(&self, r: &[Rv]) -> Kind {
        for x in r {
            let k = match x {
                Rv::Construct => Kind::N,
                Rv::Call(f, _) => self.fns.get(f).map(|f| f.ret.kind).unwrap_or(Kind::Other),
                Rv::Move(v) => self.vars[*v].kind,
                Rv::Elem(v) => {
                    if self.vars[*v].kind == Kind::V {
                        Kind::N
                    } else {
                        Kind::Other
                    }
                }
                _ => Kind::Other,
            };
            if k != Kind::Other {
                return k;
            }
        }
        Kind::Other
    }
    fn block(&mut self, b: &Block) -> (Vec<Rv>, bool) {
        self.scopes.push(BTreeMap::new());
        let mut res = (vec![], false);
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => self.local(l),
                Stmt::Expr(e, semi) => {
                    let r = self.expr(e);
                    if k + 1 == n && semi.is_none() {
                        res = r;
                    }
                }
                Stmt::Macro(m) if m.mac.path.is_ident("__join") => {
                    let k: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                    if self.cur.is_some() {
                        let id = self.emit(I::Nop);
                        self.joins.insert(k, id);
                    }
                }
                _ => {}
            }
        }
        self.scopes.pop();
        res
    }
    fn local(&mut self, l: &Local) {
        let mut rv = (vec![], false);
        let has = l.init.is_some();
        if let Some(i) = &l.init {
            rv = self.expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                let save = self.cur;
                self.expr(d);
                self.cur = save;
            }
        }
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(kind_of_type(&t.ty))),
            p => (p, None),
        };
        self.bind(pat, ty, if has { Some(rv.0) } else { None });
    }
    fn bind(&mut self, pat: &Pat, ty: Option<Kind>, rv: Option<Vec<Rv>>) {
        match pat {
            Pat::Ident(i) => {
                if i.subpat.is_none() {
                    let k0 = match &rv {
                        Some(r) => self.kind_rv(r),
                        None => Kind::Other,
                    };
                    let k = match ty {
                        Some(t) if t != Kind::Other => t,
                        _ => k0,
                    };
                    let v = self.newvar(&i.ident.to_string(), k);
                    if let Some(r) = rv {
                        self.emit(I::Assign(v, r));
                    }
                }
            }
            Pat::TupleStruct(t) if t.elems.len() == 1 => self.bind(&t.elems[0], None, rv),
            Pat::Tuple(t) => {
                for e in &t.elems {
                    self.bind(e, None, Some(vec![]));
                }
            }
            Pat::TupleStruct(t) => {
                for e in &t.elems {
                    self.bind(e, None, Some(vec![]));
                }
            }
            Pat::Struct(t) => {
                for e in &t.fields {
                    self.bind(&e.pat, None, Some(vec![]));
                }
            }
            Pat::Reference(r) => self.bind(&r.pat, None, rv),
            Pat::Paren(r) => self.bind(&r.pat, None, rv),
            Pat::Or(o) => {
                if let Some(c) = o.cases.first() {
                    self.bind(c, None, rv)
                }
            }
            _ => {}
        }
    }
    fn assigned_kind(&mut self, v: Var, rv: &[Rv]) {
        if self.vars[v].kind == Kind::Other {
            let k = self.kind_rv(rv);
            if matches!(k, Kind::N | Kind::V | Kind::O) {
                self.vars[v].kind = k;
            }
        }
    }
    /// guards implied by cond being true / false
    fn cond_guards(&self, c: &Expr, out_t: &mut Vec<Guard>, out_f: &mut Vec<Guard>) {
        match c {
            Expr::Paren(p) => self.cond_guards(&p.expr, out_t, out_f),
            Expr::Path(_) => {
                if let Some(n) = path_ident(c) {
                    if self.is_bool_param(&n) {
                        out_t.push(Guard::Param(n.clone(), true));
                        out_f.push(Guard::Param(n, false));
                    }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.cond_guards(&u.expr, out_f, out_t),
            Expr::Binary(b) => match b.op {
                BinOp::And(_) => {
                    let mut ign = vec![];
                    self.cond_guards(&b.left, out_t, &mut ign);
                    self.cond_guards(&b.right, out_t, &mut ign);
                }
                BinOp::Or(_) => {
                    let mut ign = vec![];
                    self.cond_guards(&b.left, &mut ign, out_f);
                    self.cond_guards(&b.right, &mut ign, out_f);
                }
                _ => {}
            },
            Expr::MethodCall(m) if !self.advanced => {
                if self.is_entry_tok(&m.receiver) {
                    if m.method == "is" {
                        if let Some(id) = m.args.first().and_then(lit_id) {
                            out_t.push(Guard::EntryTok(vec![id]));
                            out_f.push(Guard::NotEntryTok(vec![id]));
                        }
                    }
                    if m.method == "in_" {
                        if let Some(ids) = m.args.first().and_then(vec_lits) {
                            out_t.push(Guard::EntryTok(ids.clone()));
                            out_f.push(Guard::NotEntryTok(ids));
                        }
                    }
                }
            }
            Expr::Call(c) if !self.advanced => {
                // str_eq(str_upper(tok.literal.as_str()).as_str(), lit)
                if c.func.to_token_stream().to_string() == "str_eq" && c.args.len() == 2 {
                    if let (true, Some(id)) = (self.is_entry_upper(&c.args[0]), lit_id(&c.args[1])) {
                        out_t.push(Guard::EntryTok(vec![id]));
                        out_f.push(Guard::NotEntryTok(vec![id]));
                    }
                }
            }
            _ => {}
        }
    }
    fn is_entry_tok(&self, e: &Expr) -> bool {
        let s = e.to_token_stream().to_string().replace(' ', "");
        s == format!("{}.get_token(0)?", self.pv)
    }
    fn is_entry_upper(&self, e: &Expr) -> bool {
        let s = e.to_token_stream().to_string().replace(' ', "");
        s == format!("str_upper({}.get_token(0)?.literal.as_str()).as_str()", self.pv)
    }
    fn is_bool_param(&self, n: &str) -> bool {
        match self.lookup(n) {
            Some(v) => {
                self.vars[v].kind == Kind::B
                    && self.vars[v].param.map(|p| !self.f.params[p].2).unwrap_or(false)
            }
            None => false,
        }
    }
    fn use_path(&mut self, e: &Expr) {
        if let Some(n) = path_ident(e) {
            if let Some(v) = self.lookup(&n) {
                self.emit(I::Use(v));
            }
        }
    }
    fn arg(&mut self, e: &Expr) -> Arg {
        if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = e {
            return Arg::Bool(b.value);
        }
        if let Some(n) = path_ident(e) {
            if self.is_bool_param(&n) {
                self.use_path(e);
                return Arg::BoolParam(n);
            }
            if let Some(v) = self.lookup(&n) {
                self.emit(I::Use(v));
                return Arg::Var(v);
            }
            return Arg::Other;
        }
        let r = self.expr(e);
        if self.kind_rv(&r.0) != Kind::Other {
            let v = self.vars.len();
            let k = self.kind_rv(&r.0);
            self.vars.push(VarInfo { name: String::new(), kind: k, param: None });
            self.emit(I::Assign(v, r.0));
            self.emit(I::Use(v));
            return Arg::Var(v);
        }
        Arg::Other
    }
    fn call(&mut self, name: &str, args: Vec<&Expr>) -> (Vec<Rv>, bool) {
        let a: Vec<Arg> = args.iter().map(|e| self.arg(e)).collect();
        let f = self.fns.get(name).cloned();
        if name == "next_token" {
            self.emit(I::Next);
            self.advanced = true;
            return (vec![], false);
        }
        if name == "construct_node" {
            self.emit(I::Construct);
            return (vec![Rv::Construct], false);
        }
        if let Some(f) = f {
            if f.mutating() {
                self.advanced = true;
            }
        }
        self.emit(I::Call(name.to_string(), a.clone()));
        // `&mut Node` arguments are modified in place
        if let Some(f) = self.fns.get(name).cloned() {
            for (k, (_, kind, _)) in f.params.iter().enumerate() {
                if matches!(kind, Kind::MutN | Kind::MutV) {
                    if let Some(Arg::Var(v)) = a.get(k) {
                        let v = *v;
                        self.emit(I::Assign(v, vec![Rv::Move(v), Rv::Call(name.to_string(), a.clone())]));
                    }
                }
            }
        }
        (vec![Rv::Call(name.to_string(), a)], false)
    }
    fn expr(&mut self, e: &Expr) -> (Vec<Rv>, bool) {
        let none = (vec![], false);
        match e {
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Path(_) => {
                if let Some(n) = path_ident(e) {
                    if let Some(v) = self.lookup(&n) {
                        self.emit(I::Use(v));
                        return (vec![Rv::Move(v)], false);
                    }
                }
                none
            }
            Expr::Lit(_) => none,
            Expr::Reference(r) => {
                self.expr(&r.expr);
                none
            }
            Expr::Try(t) => {
                let r = self.expr(&t.expr);
                (r.0, false)
            }
            Expr::Field(f) => {
                self.expr(&f.base);
                none
            }
            Expr::Index(i) => {
                self.expr(&i.expr);
                self.expr(&i.index);
                none
            }
            Expr::Unary(u) => {
                self.expr(&u.expr);
                none
            }
            Expr::Cast(u) => {
                self.expr(&u.expr);
                none
            }
            Expr::Tuple(t) => {
                for x in &t.elems {
                    self.expr(x);
                }
                none
            }
            Expr::Array(t) => {
                for x in &t.elems {
                    self.expr(x);
                }
                none
            }
            Expr::Struct(s) => {
                for x in &s.fields {
                    self.expr(&x.expr);
                }
                none
            }
            Expr::Range(r) => {
                if let Some(x) = &r.start {
                    self.expr(x);
                }
                if let Some(x) = &r.end {
                    self.expr(x);
                }
                none
            }
            Expr::Binary(b) => {
                let lazy = matches!(b.op, BinOp::And(_) | BinOp::Or(_));
                if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) {
                    if let Some(n) = path_ident(&b.left) {
                        for (l, _) in self.lstack.clone() {
                            if matches!(b.op, BinOp::AddAssign(_)) && !n.starts_with("__i") {
                                self.loops[l].counters.push(n.clone());
                            }
                        }
                    }
                }
                self.expr(&b.left);
                if lazy {
                    let before = self.cur;
                    self.expr(&b.right);
                    let j = self.emit(I::Nop);
                    if let Some(x) = before {
                        self.n[x].succ.push(j);
                    }
                } else {
                    self.expr(&b.right);
                }
                none
            }
            Expr::Assign(a) => {
                let r = self.expr(&a.right);
                match &*a.left {
                    Expr::Path(_) => {
                        if let Some(v) = path_ident(&a.left).and_then(|n| self.lookup(&n)) {
                            self.assigned_kind(v, &r.0);
                            self.emit(I::Assign(v, r.0));
                            // a walk `first = n` along a tree
                            if let Some(n) = path_ident(&a.left) {
                                if let Some((l, _)) = self.lstack.last().cloned() {
                                    if self.loops[l].walk.as_deref() == Some("?") {
                                        self.loops[l].walk = Some(n);
                                    }
                                }
                            }
                        }
                    }
                    Expr::Field(f) => {
                        self.expr(&f.base);
                    }
                    l => {
                        self.expr(l);
                    }
                }
                none
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::If(i) => {
                let (mut gt, mut gf) = (vec![], vec![]);
                self.scopes.push(BTreeMap::new());
                if let Expr::Let(l) = &*i.cond {
                    let r = self.expr(&l.expr);
                    self.bind(&l.pat, None, Some(r.0));
                } else {
                    self.expr(&i.cond);
                    self.cond_guards(&i.cond, &mut gt, &mut gf);
                }
                let adv0 = self.advanced;
                let br = self.emit(I::Nop);
                let g0 = self.guards.clone();
                self.guards.extend(gt);
                self.emit(I::Nop);
                let r1 = self.block(&i.then_branch);
                let end1 = self.cur;
                let adv1 = self.advanced;
                self.scopes.pop();
                self.guards = g0.clone();
                self.guards.extend(gf);
                self.advanced = adv0;
                self.cur = Some(br);
                self.emit(I::Nop);
                let r2 = if let Some((_, e)) = &i.else_branch {
                    self.expr(e)
                } else {
                    (vec![], false)
                };
                self.advanced |= adv1;
                self.guards = g0;
                let end2 = self.cur;
                self.cur = None;
                let j = self.emit(I::Nop);
                for x in [end1, end2].into_iter().flatten() {
                    self.n[x].succ.push(j);
                }
                if end1.is_none() && end2.is_none() {
                    self.cur = None;
                }
                let mut rs = vec![];
                if end1.is_some() {
                    rs.extend(r1.0);
                }
                if end2.is_some() {
                    rs.extend(r2.0);
                }
                (rs, false)
            }
            Expr::Match(m) => {
                let r = self.expr(&m.expr);
                let ss = m.expr.to_token_stream().to_string().replace(' ', "");
                let entry_match = !self.advanced
                    && (ss
                        == format!(
                            "str_id(str_upper({}.get_token(0)?.literal.as_str()).as_str())",
                            self.pv
                        ));
                if ss.contains("children.get(") {
                    if let Some((l, _)) = self.lstack.last().cloned() {
                        self.loops[l].walk = Some("?".into());
                    }
                }
                let br = self.emit(I::Nop);
                let adv0 = self.advanced;
                let mut advs = adv0;
                let mut ends = vec![];
                let mut rs = vec![];
                let g0 = self.guards.clone();
                let mut seen: Vec<usize> = vec![];
                for a in &m.arms {
                    self.scopes.push(BTreeMap::new());
                    self.cur = Some(br);
                    self.advanced = adv0;
                    self.guards = g0.clone();
                    if entry_match {
                        let ids = pat_ids(&a.pat);
                        if ids.is_empty() {
                            self.guards.push(Guard::NotEntryTok(seen.clone()));
                        } else {
                            seen.extend(ids.iter());
                            self.guards.push(Guard::EntryTok(ids));
                        }
                    }
                    self.emit(I::Nop);
                    self.bind(&a.pat, None, Some(r.0.clone()));
                    if let Some((_, g)) = &a.guard {
                        self.expr(g);
                    }
                    let x = self.expr(&a.body);
                    advs |= self.advanced;
                    if let Some(c) = self.cur {
                        ends.push(c);
                        rs.extend(x.0);
                    }
                    self.scopes.pop();
                }
                self.guards = g0;
                self.advanced = advs;
                self.cur = None;
                let j = self.emit(I::Nop);
                for x in &ends {
                    self.n[*x].succ.push(j);
                }
                if ends.is_empty() {
                    self.cur = None;
                }
                (rs, false)
            }
            Expr::While(w) => {
                let id = self.loops.len();
                self.loops.push(LoopInfo::default());
                let head = self.emit(I::Loop(id));
                self.loops[id].head = head;
                self.lstack.push((id, w.label.as_ref().map(|l| l.name.to_string())));
                self.scopes.push(BTreeMap::new());
                let (mut gt, mut gf) = (vec![], vec![]);
                self.advanced = true; // conservative: guards inside loops are dropped
                if let Expr::Let(l) = &*w.cond {
                    if let Expr::MethodCall(mc) = &*l.expr {
                        if mc.method == "pop" {
                            self.loops[id].while_pop = path_ident(&mc.receiver);
                        }
                    }
                    let r = self.expr(&l.expr);
                    let c = self.emit(I::Nop);
                    self.bind(&l.pat, None, Some(r.0));
                    self.finish_loop(id, head, c, &w.body, vec![]);
                } else {
                    self.expr(&w.cond);
                    self.cond_guards(&w.cond, &mut gt, &mut gf);
                    if let Expr::Binary(b) = &*w.cond {
                        if matches!(b.op, BinOp::Lt(_)) {
                            if let Some(n) = path_ident(&b.left) {
                                // a lowered `for`, or a counter stepped by one at the end of the body
                                let step = match w.body.stmts.last() {
                                    Some(Stmt::Expr(Expr::Binary(s), _)) => {
                                        matches!(s.op, BinOp::AddAssign(_)) && path_ident(&s.left).as_deref() == Some(&n) && s.right.to_token_stream().to_string() == "1"
                                    }
                                    _ => false,
                                };
                                if n.starts_with("__i") || step {
                                    let r = b.right.to_token_stream().to_string();
                                    self.loops[id].idx = Some((n, r));
                                }
                            }
                        }
                    }
                    let c = self.emit(I::Nop);
                    gt.retain(|g| matches!(g, Guard::Param(..)));
                    self.finish_loop(id, head, c, &w.body, gt);
                }
                none
            }
            Expr::Loop(w) => {
                let id = self.loops.len();
                self.loops.push(LoopInfo { is_loop: true, ..Default::default() });
                let head = self.emit(I::Loop(id));
                self.loops[id].head = head;
                self.advanced = true;
                self.lstack.push((id, w.label.as_ref().map(|l| l.name.to_string())));
                self.scopes.push(BTreeMap::new());
                self.block(&w.body);
                if let Some(c) = self.cur {
                    self.n[c].succ.push(head);
                }
                self.scopes.pop();
                self.lstack.pop();
                self.cur = None;
                let after = self.emit(I::Nop);
                self.loops[id].after = Some(after);
                for b in self.loops[id].breaks.clone() {
                    self.n[b].succ.push(after);
                }
                if self.loops[id].breaks.is_empty() {
                    self.cur = None;
                }
                none
            }
            Expr::Break(b) => {
                let id = match &b.label {
                    Some(l) => {
                        let n = l.to_string();
                        self.lstack.iter().rev().find(|x| x.1.as_deref() == Some(&n)).map(|x| x.0)
                    }
                    None => self.lstack.last().map(|x| x.0),
                };
                let n = self.emit(I::Nop);
                if let Some(id) = id {
                    self.loops[id].has_break = true;
                    self.loops[id].breaks.push(n);
                }
                self.cur = None;
                none
            }
            Expr::Continue(c) => {
                let id = match &c.label {
                    Some(l) => {
                        let n = l.to_string();
                        self.lstack.iter().rev().find(|x| x.1.as_deref() == Some(&n)).map(|x| x.0)
                    }
                    None => self.lstack.last().map(|x| x.0),
                };
                let n = self.emit(I::Nop);
                if let Some(id) = id {
                    let h = self.loops[id].head;
                    self.n[n].succ.push(h);
                }
                self.cur = None;
                none
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => self.expr(e),
                    None => none,
                };
                self.exit(v);
                (vec![], false)
            }
            Expr::Let(l) => {
                let r = self.expr(&l.expr);
                self.bind(&l.pat, None, Some(r.0));
                none
            }
            Expr::Call(c) => {
                let name = c.func.to_token_stream().to_string().replace(' ', "");
                if name == "Ok" || name == "Some" {
                    let r = self.expr(&c.args[0]);
                    return (r.0, false);
                }
                if name == "Err" {
                    for a in &c.args {
                        self.expr(a);
                    }
                    return (vec![], true);
                }
                if name == "Node::empty" || name == "Node::new" {
                    for a in &c.args {
                        self.expr(a);
                    }
                    return (vec![Rv::Construct, Rv::Fresh], false);
                }
                if name == "Vec::new" || name == "Vec::<Node>::new" {
                    return (vec![Rv::Fresh], false);
                }
                let base = name.strip_prefix("Self::").or(name.strip_prefix("Parser::")).unwrap_or(&name).to_string();
                if let Some(f) = self.fns.get(&base).cloned() {
                    let mut args: Vec<&Expr> = c.args.iter().collect();
                    match &f.recv {
                        Recv::Param(..) => {
                            // drop the parser argument
                            let pvn = self.pv.clone();
                            args.retain(|a| path_ident(a).as_deref() != Some(pvn.as_str()));
                        }
                        Recv::SelfMut | Recv::SelfRef if name != base => {
                            args.remove(0);
                        }
                        _ => {}
                    }
                    return self.call(&base, args);
                }
                for a in &c.args {
                    self.expr(a);
                }
                none
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let rn = path_ident(&m.receiver);
                if rn.as_deref() == Some(self.pv.as_str()) && !self.pv.is_empty() {
                    if self.fns.contains_key(&name) {
                        return self.call(&name, m.args.iter().collect());
                    }
                }
                if name == "push_node" || name == "push_node_vec" {
                    if let Some(v) = rn.as_ref().and_then(|n| self.lookup(n)) {
                        let key = m.args.first().and_then(lit_id);
                        let a = m.args.iter().nth(1).map(|e| self.arg(e));
                        let av = match a {
                            Some(Arg::Var(x)) => Some(x),
                            _ => None,
                        };
                        if let Some(x) = av {
                            if self.vars[x].kind == Kind::Other {
                                self.vars[x].kind =
                                    if name == "push_node" { Kind::N } else { Kind::V };
                            }
                        }
                        self.emit(I::Push(v, key.unwrap_or(usize::MAX), av));
                        if self.vars[v].kind == Kind::Other {
                            self.vars[v].kind = Kind::N;
                        }
                        return none;
                    }
                }
                if name == "push" && m.args.len() == 1 {
                    if let Some(v) = rn.as_ref().and_then(|n| self.lookup(n)) {
                        let a = self.arg(&m.args[0]);
                        let av = match a {
                            Arg::Var(x) => Some(x),
                            _ => None,
                        };
                        if let Some(x) = av {
                            if self.vars[x].kind == Kind::N && self.vars[v].kind == Kind::Other {
                                self.vars[v].kind = Kind::V;
                            }
                        }
                        self.emit(I::VecPush(v, av));
                        return none;
                    }
                }
                if name == "pop" || name == "remove" {
                    if let Some(v) = rn.as_ref().and_then(|n| self.lookup(n)) {
                        self.emit(I::Use(v));
                        return (vec![Rv::Elem(v)], false);
                    }
                }
                let r = self.expr(&m.receiver);
                for a in &m.args {
                    self.expr(a);
                }
                if name == "unwrap" || name == "expect" {
                    return (r.0, false);
                }
                none
            }
            _ => none,
        }
    }
    fn finish_loop(&mut self, id: usize, head: usize, c: usize, body: &Block, gt: Vec<Guard>) {
        let g0 = self.guards.clone();
        self.guards.extend(gt);
        self.block(body);
        self.guards = g0;
        if let Some(x) = self.cur {
            self.n[x].succ.push(head);
        }
        self.scopes.pop();
        self.lstack.pop();
        self.cur = Some(c);
        let after = self.emit(I::Nop);
        self.loops[id].after = Some(after);
        for b in self.loops[id].breaks.clone() {
            self.n[b].succ.push(after);
        }
    }
}
fn vec_lits(e: &Expr) -> Option<Vec<usize>> {
    match e {
        Expr::Reference(r) => vec_lits(&r.expr),
        Expr::Paren(r) => vec_lits(&r.expr),
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string();
            let k: usize = s.strip_prefix("vlits_")?.parse().ok()?;
            VLITS.with(|v| v.borrow().get(k).cloned())
        }
        _ => None,
    }
}
thread_local! { pub static VLITS: std::cell::RefCell<Vec<Vec<usize>>> = Default::default(); }
fn pat_ids(p: &Pat) -> Vec<usize> {
    match p {
        Pat::Lit(l) => {
            if let Lit::Int(i) = &l.lit {
                vec![i.base10_parse().unwrap()]
            } else {
                vec![]
            }
        }
        Pat::Or(o) => o.cases.iter().flat_map(pat_ids).collect(),
        Pat::Paren(p) => pat_ids(&p.pat),
        _ => vec![],
    }
}

// ---------------------------------------------------------------- dataflow
impl Cfg {
    pub fn liveness(&self) -> Vec<BTreeSet<Var>> {
        let n = self.n.len();
        let mut li: Vec<BTreeSet<Var>> = vec![BTreeSet::new(); n];
        loop {
            let mut ch = false;
            for k in (0..n).rev() {
                let mut s: BTreeSet<Var> = BTreeSet::new();
                for x in &self.n[k].succ {
                    s.extend(li[*x].iter());
                }
                match &self.n[k].i {
                    I::Assign(v, r) => {
                        let selfref = r.iter().any(|x| matches!(x, Rv::Move(u) if u == v));
                        if !selfref {
                            s.remove(v);
                        }
                    }
                    I::Use(v) => {
                        s.insert(*v);
                    }
                    I::Push(v, _, a) | I::VecPush(v, a) => {
                        s.insert(*v);
                        if let Some(a) = a {
                            s.insert(*a);
                        }
                    }
                    _ => {}
                }
                if s != li[k] {
                    li[k] = s;
                    ch = true;
                }
            }
            if !ch {
                return li;
            }
        }
    }
    /// keys that may still be pushed on `v` after node `at`
    /// keys that may still be pushed on each variable, per program point
    /// (backward, flow-sensitive)
    pub fn wants(&self, sums: &BTreeMap<String, Summary>, demand: &BTreeSet<usize>) -> Vec<BTreeMap<Var, BTreeSet<usize>>> {
        let n = self.n.len();
        let mut w: Vec<BTreeMap<Var, BTreeSet<usize>>> = vec![BTreeMap::new(); n];
        let flow = |m: &mut BTreeMap<Var, BTreeSet<usize>>, r: &Rv, ks: &BTreeSet<usize>| {
            let mut add = |x: &Var| {
                if !ks.is_empty() {
                    m.entry(*x).or_default().extend(ks.iter());
                }
            };
            match r {
                Rv::Move(x) | Rv::Elem(x) => add(x),
                Rv::Call(c, args) => {
                    for (i, a) in args.iter().enumerate() {
                        if let Arg::Var(x) = a {
                            if sums.get(c).map(|s| s.from_params.contains(&i)).unwrap_or(true) {
                                add(x);
                            }
                        }
                    }
                }
                _ => {}
            }
        };
        loop {
            let mut ch = false;
            for k in (0..n).rev() {
                let mut m: BTreeMap<Var, BTreeSet<usize>> = BTreeMap::new();
                for t in &self.n[k].succ {
                    for (v, ks) in &w[*t] {
                        m.entry(*v).or_default().extend(ks.iter());
                    }
                }
                match &self.n[k].i {
                    I::Push(u, key, _) if *key != usize::MAX => {
                        m.entry(*u).or_default().insert(*key);
                    }
                    I::Call(c, args) => {
                        if let Some(s) = sums.get(c) {
                            for (p, ks) in &s.req_absent {
                                if let Some(Arg::Var(x)) = args.get(*p) {
                                    m.entry(*x).or_default().extend(ks.iter().filter(|k| **k != usize::MAX));
                                }
                            }
                        }
                    }
                    I::Assign(u, rs) => {
                        let ks = m.remove(u).unwrap_or_default();
                        for r in rs {
                            flow(&mut m, r, &ks);
                        }
                    }
                    I::VecPush(u, Some(x)) => {
                        let ks = m.get(u).cloned().unwrap_or_default();
                        m.entry(*x).or_default().extend(ks);
                    }
                    I::Exit(true, rs) => {
                        for r in rs {
                            flow(&mut m, r, demand);
                        }
                        for (vi, v) in self.vars.iter().enumerate() {
                            if v.param.is_some() && matches!(v.kind, Kind::N | Kind::V) {
                                m.entry(vi).or_default().extend(demand.iter());
                            }
                        }
                    }
                    _ => {}
                }
                if m != w[k] {
                    w[k] = m;
                    ch = true;
                }
            }
            if !ch {
                return w;
            }
        }
    }
    fn preds(&self) -> Vec<Vec<usize>> {
        let mut p = vec![vec![]; self.n.len()];
        for (k, c) in self.n.iter().enumerate() {
            for s in &c.succ {
                p[*s].push(k);
            }
        }
        p
    }
}

pub const MU: u8 = 1; // current token unconsumed
pub const MC: u8 = 2; // current token consumed
pub const ME: u8 = 4; // same as at entry

#[derive(Clone, Debug, PartialEq)]
pub struct Summary {
    pub entry: u8,
    pub exit: u8,
    pub must_adv: bool,
    /// key -> list of guard alternatives under which it may be present in the result (empty guard = always)
    pub keys: BTreeMap<usize, BTreeSet<Option<Guard>>>,
    pub from_params: BTreeSet<usize>,
    pub req_absent: BTreeMap<usize, BTreeSet<usize>>, // param index -> keys that must be absent
    pub rank: usize,
    /// callees whose result may flow into ours
    pub origins: BTreeSet<String>,
    /// keys pushed (here or by a callee) on a result of that callee
    pub demands: BTreeMap<String, BTreeSet<usize>>,
}
impl Summary {
    pub fn new() -> Self {
        Summary {
            entry: MU,
            exit: MC,
            must_adv: true,
            keys: BTreeMap::new(),
            from_params: BTreeSet::new(),
            req_absent: BTreeMap::new(),
            rank: 0,
            origins: BTreeSet::new(),
            demands: BTreeMap::new(),
        }
    }
}

pub struct FnAnalysis {
    pub cfg: Cfg,
    pub live: Vec<BTreeSet<Var>>,
    pub modes: Vec<u8>,  // mode before node
    pub adv: Vec<bool>,  // must have advanced before node
    pub keys: Vec<BTreeMap<Var, KeySt>>,
    pub calls_noadv: BTreeSet<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct KeySt {
    pub keys: BTreeMap<usize, BTreeSet<Option<Guard>>>,
    pub params: BTreeSet<usize>,
    pub foreign: bool,
    pub origins: BTreeSet<String>,
}
impl KeySt {
    fn join(&mut self, o: &KeySt) -> bool {
        let mut ch = false;
        for (k, g) in &o.keys {
            let e = self.keys.entry(*k).or_default();
            for x in g {
                ch |= e.insert(x.clone());
            }
        }
        for p in &o.params {
            ch |= self.params.insert(*p);
        }
        for p in &o.origins {
            ch |= self.origins.insert(p.clone());
        }
        if o.foreign && !self.foreign {
            self.foreign = true;
            ch = true;
        }
        ch
    }
}

pub fn analyze_all(
    fns: &BTreeMap<String, FnInfo>,
    fixed: &BTreeMap<String, Summary>,
) -> (BTreeMap<String, FnAnalysis>, BTreeMap<String, Summary>, BTreeMap<String, BTreeSet<usize>>) {
    let mut sums: BTreeMap<String, Summary> = BTreeMap::new();
    for n in fns.keys() {
        sums.insert(n.clone(), fixed.get(n).cloned().unwrap_or_else(Summary::new));
    }
    let mut out: BTreeMap<String, FnAnalysis> = BTreeMap::new();
    let mut foreign_keys: BTreeSet<usize> = BTreeSet::new();
    for _round in 0..40 {
        let old = sums.clone();
        out.clear();
        foreign_keys.clear();
        for (n, f) in fns {
            let (a, s, fk) = analyze(fns, f, &sums);
            foreign_keys.extend(fk);
            if !fixed.contains_key(n) {
                sums.insert(n.clone(), s);
            }
            out.insert(n.clone(), a);
        }
        if old == sums {
            break;
        }
    }
    // ranks: longest path in the no-advance call graph
    let mut rank: BTreeMap<String, usize> = fns.keys().map(|k| (k.clone(), 0)).collect();
    let bound = fns.len() + 2;
    for _ in 0..bound {
        let mut ch = false;
        for (n, a) in &out {
            for c in &a.calls_noadv {
                if c != n && rank.contains_key(c) && rank[n] <= rank[c] && rank[c] < bound {
                    let r = rank[c] + 1;
                    rank.insert(n.clone(), r);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    for (n, r) in rank {
        sums.get_mut(&n).unwrap().rank = r;
    }
    // demand: keys that some caller (transitively) may push on the result
    let mut demand: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    for s in sums.values() {
        for (f, ks) in &s.demands {
            demand.entry(f.clone()).or_default().extend(ks.iter().filter(|k| **k != usize::MAX));
        }
    }
    loop {
        let mut ch = false;
        for (n, s) in &sums {
            let d = demand.get(n).cloned().unwrap_or_default();
            for og in &s.origins {
                let e = demand.entry(og.clone()).or_default();
                for k in &d {
                    ch |= e.insert(*k);
                }
            }
        }
        if !ch {
            break;
        }
    }
    let _ = foreign_keys;
    (out, sums, demand)
}

impl FnAnalysis {
    /// for nodes inside the loop: has the cursor certainly advanced since the loop head?
    pub fn adv_since(&self, l: &LoopInfo, sums: &BTreeMap<String, Summary>, fns: &BTreeMap<String, FnInfo>) -> Vec<Option<bool>> {
        let n = self.cfg.n.len();
        let mut adv: Vec<Option<bool>> = vec![None; n];
        adv[l.head] = Some(false);
        let mut work = vec![l.head];
        while let Some(k) = work.pop() {
            let mut a = adv[k].unwrap();
            match &self.cfg.n[k].i {
                I::Next => a = true,
                I::Call(c, _) => {
                    if let (Some(s), Some(cf)) = (sums.get(c), fns.get(c)) {
                        if s.must_adv && cf.mutating() {
                            a = true;
                        }
                    }
                }
                _ => {}
            }
            for &s in &self.cfg.n[k].succ {
                if Some(s) == l.after || s == l.head {
                    continue;
                }
                let na = adv[s].map(|x| x && a).unwrap_or(a);
                if Some(na) != adv[s] {
                    adv[s] = Some(na);
                    work.push(s);
                }
            }
        }
        adv
    }
}

fn pick_guard(gs: &[Guard]) -> Option<Guard> {
    for g in gs {
        if let Guard::Param(..) = g {
            return Some(g.clone());
        }
    }
    for g in gs {
        if let Guard::EntryTok(_) = g {
            return Some(g.clone());
        }
    }
    for g in gs {
        if let Guard::NotEntryTok(_) = g {
            return Some(g.clone());
        }
    }
    None
}

fn analyze(
    fns: &BTreeMap<String, FnInfo>,
    f: &FnInfo,
    sums: &BTreeMap<String, Summary>,
) -> (FnAnalysis, Summary, BTreeSet<usize>) {
    let cfg = B::build(fns, f);
    let live = cfg.liveness();
    let n = cfg.n.len();
    let _preds = cfg.preds();
    // --- modes & advance (forward)
    let mut modes = vec![0u8; n];
    let mut adv: Vec<Option<bool>> = vec![None; n];
    modes[0] = ME;
    adv[0] = Some(false);
    let mut entry: u8 = 0;
    let mut calls_noadv = BTreeSet::new();
    let mut work = vec![0usize];
    while let Some(k) = work.pop() {
        let mut m = modes[k];
        let mut a = adv[k].unwrap();
        let touch = |need: u8, m: u8, entry: &mut u8| {
            if m & ME != 0 {
                *entry |= need;
            }
        };
        match &cfg.n[k].i {
            I::Next => {
                touch(MC, m, &mut entry);
                m = MU;
                a = true;
            }
            I::Construct => {
                touch(MU, m, &mut entry);
                m = MC;
            }
            I::Call(c, _) => {
                if let (Some(s), Some(cf)) = (sums.get(c), fns.get(c)) {
                    if cf.pv().is_some() {
                        if !a && cf.mutating() {
                            calls_noadv.insert(c.clone());
                        }
                        if s.entry != 0 {
                            touch(s.entry, m, &mut entry);
                        }
                        if s.exit & ME == 0 && s.exit != 0 {
                            m = s.exit;
                        } else if s.exit & !ME != 0 {
                            m |= s.exit & !ME;
                        }
                        if s.must_adv && cf.mutating() {
                            a = true;
                        }
                    }
                }
            }
            _ => {}
        }
        for &s in &cfg.n[k].succ {
            let nm = modes[s] | m;
            let na = adv[s].map(|x| x && a).unwrap_or(a);
            if nm != modes[s] || Some(na) != adv[s] {
                modes[s] = nm;
                adv[s] = Some(na);
                work.push(s);
            }
        }
    }
    // recompute calls_noadv with final adv
    calls_noadv.clear();
    let mut exit = 0u8;
    let mut must = true;
    let mut any_ok = false;
    for k in 0..n {
        if let (I::Call(c, _), Some(a)) = (&cfg.n[k].i, adv[k]) {
            if let Some(cf) = fns.get(c) {
                if !a && cf.pv().is_some() {
                    calls_noadv.insert(c.clone());
                }
            }
        }
        if let (I::Exit(true, _), Some(a)) = (&cfg.n[k].i, adv[k]) {
            exit |= modes[k];
            must &= a;
            any_ok = true;
        }
    }
    let mut s = Summary::new();
    s.entry = if entry & MU != 0 {
        MU
    } else if entry & MC != 0 {
        MC
    } else {
        0
    };
    s.exit = if exit & MC != 0 && exit & MU == 0 {
        if exit & ME != 0 && s.entry == MU {
            MC | ME
        } else {
            MC
        }
    } else if exit & MU != 0 && exit & MC == 0 {
        MU
    } else if exit == ME {
        ME
    } else {
        MC
    };
    s.must_adv = must && any_ok && f.mutating();
    if let Some(o) = sums.get(&f.name) {
        s.must_adv &= o.must_adv;
        s.rank = o.rank;
    }
    // --- keys (forward, flow sensitive on node variables)
    let mut ks: Vec<BTreeMap<Var, KeySt>> = vec![BTreeMap::new(); n];
    let mut inited = vec![false; n];
    for (v, vi) in cfg.vars.iter().enumerate() {
        if let Some(p) = vi.param {
            if matches!(vi.kind, Kind::N | Kind::MutN | Kind::V | Kind::MutV | Kind::O) {
                ks[0].insert(
                    v,
                    KeySt { params: [p].into_iter().collect(), foreign: true, ..Default::default() },
                );
            }
        }
    }
    inited[0] = true;
    let mut work: std::collections::VecDeque<usize> = [0usize].into_iter().collect();
    let mut result = KeySt::default();
    let mut req: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut fkeys = BTreeSet::new();
    let mut dem: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    let eval = |r: &Rv, st: &BTreeMap<Var, KeySt>| -> KeySt {
        match r {
            Rv::Move(v) | Rv::Elem(v) => st.get(v).cloned().unwrap_or_default(),
            Rv::Call(c, args) => {
                let mut o = KeySt { foreign: true, ..Default::default() };
                o.origins.insert(c.clone());
                if let (Some(s), Some(cf)) = (sums.get(c), fns.get(c)) {
                    for (k, gs) in &s.keys {
                        for g in gs {
                            let ng: Option<Option<Guard>> = match g {
                                None => Some(None),
                                Some(Guard::Param(p, val)) => {
                                    let idx = cf.params.iter().position(|x| &x.0 == p);
                                    match idx.and_then(|i| args.get(i)) {
                                        Some(Arg::Bool(b)) => {
                                            if b == val {
                                                Some(None)
                                            } else {
                                                None
                                            }
                                        }
                                        Some(Arg::BoolParam(q)) => {
                                            Some(Some(Guard::Param(q.clone(), *val)))
                                        }
                                        _ => Some(None),
                                    }
                                }
                                Some(_) => Some(None),
                            };
                            if let Some(ng) = ng {
                                o.keys.entry(*k).or_default().insert(ng);
                            }
                        }
                    }
                    for p in &s.from_params {
                        if let Some(Arg::Var(v)) = args.get(*p) {
                            if let Some(x) = st.get(v) {
                                o.join(x);
                            }
                        }
                    }
                }
                o
            }
            _ => KeySt::default(),
        }
    };
    while let Some(k) = work.pop_front() {
        let mut st = ks[k].clone();
        match &cfg.n[k].i {
            I::Assign(v, rs) => {
                let mut o = KeySt::default();
                for r in rs {
                    o.join(&eval(r, &st));
                }
                st.insert(*v, o);
            }
            I::Push(v, key, _) => {
                let e = st.entry(*v).or_default();
                if e.foreign {
                    fkeys.insert(*key);
                }
                for og in &e.origins {
                    dem.entry(og.clone()).or_default().insert(*key);
                }
                for p in e.params.clone() {
                    req.entry(p).or_default().insert(*key);
                }
                let g = pick_guard(&cfg.n[k].guards);
                e.keys.entry(*key).or_default().insert(g);
            }
            I::VecPush(v, Some(a)) => {
                let x = st.get(a).cloned().unwrap_or_default();
                st.entry(*v).or_default().join(&x);
            }
            I::Call(c, args) => {
                if let Some(s) = sums.get(c) {
                    for (p, keys) in &s.req_absent {
                        if let Some(Arg::Var(v)) = args.get(*p) {
                            if let Some(x) = st.get(v) {
                                for q in x.params.clone() {
                                    req.entry(q).or_default().extend(keys.iter());
                                }
                                if x.foreign {
                                    fkeys.extend(keys.iter());
                                }
                                for og in &x.origins {
                                    dem.entry(og.clone()).or_default().extend(keys.iter());
                                }
                            }
                        }
                    }
                }
            }
            I::Exit(true, rs) => {
                for r in rs {
                    let x = eval(r, &st);
                    result.join(&x);
                }
            }
            _ => {}
        }
        for &s in &cfg.n[k].succ {
            let mut ch = !inited[s];
            inited[s] = true;
            for (v, x) in &st {
                ch |= match ks[s].get_mut(v) {
                    Some(e) => e.join(x),
                    None => {
                        ks[s].insert(*v, x.clone());
                        true
                    }
                };
            }
            if ch {
                work.push_back(s);
            }
        }
    }
    // `&mut Node` params: what they may hold at exit
    for k in 0..n {
        if let I::Exit(true, _) = &cfg.n[k].i {
            for (v, vi) in cfg.vars.iter().enumerate() {
                if vi.param.is_some() && matches!(vi.kind, Kind::MutN | Kind::MutV) {
                    if let Some(x) = ks[k].get(&v) {
                        result.join(&x.clone());
                    }
                }
            }
        }
    }
    s.origins = result.origins.clone();
    s.demands = dem;
    s.keys = result.keys;
    s.from_params = result.params;
    s.req_absent = req;
    (
        FnAnalysis {
            cfg,
            live,
            modes,
            adv: adv.into_iter().map(|x| x.unwrap_or(false)).collect(),
            keys: ks,
            calls_noadv,
        },
        s,
        fkeys,
    )
}
