use crate::analyze::*;
use crate::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};

#[derive(Clone, Debug)]
pub struct Clause {
    pub kind: String, // requires / ensures / invariant / invariant_except_break / decreases
    pub text: String,
    pub tag: String,
    pub desc: String,
}
#[derive(Clone, Debug, Default)]
pub struct SpecEntry {
    pub kind: String, // fn / extern / drop / also
    pub needs: Vec<String>,
    pub locals: Vec<String>,
    pub clauses: Vec<Clause>,
    pub loops: BTreeMap<usize, Vec<Clause>>,
    pub before: BTreeMap<usize, String>,
    pub inside: BTreeMap<usize, String>,
    pub after: BTreeMap<usize, String>,
    pub top: String,
    pub anchors: Vec<(String, String)>,
    /// (callee, proof text, tag, description) placed before calls
    pub oncall: Vec<(String, String, String, String)>,
}
pub fn parse_spec(text: &str) -> BTreeMap<String, SpecEntry> {
    let mut m: BTreeMap<String, SpecEntry> = BTreeMap::new();
    let mut cur: Option<(String, SpecEntry)> = None;
    for line in text.lines() {
        let l = line.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (body, tagpart) = match l.find("//@") {
            Some(p) => (l[..p].trim(), l[p + 3..].trim()),
            None => (l, ""),
        };
        let (tag, desc) = match tagpart.find(' ') {
            Some(p) => (tagpart[..p].to_string(), tagpart[p + 1..].to_string()),
            None => (tagpart.to_string(), String::new()),
        };
        let (w, rest) = match body.find(' ') {
            Some(p) => (&body[..p], body[p + 1..].trim()),
            None => (body, ""),
        };
        let norm = |s: &str| {
            s.strip_prefix("Parser::").or(s.strip_prefix("Lexer::")).unwrap_or(s).to_string()
        };
        match w {
            "fn" | "extern" | "also" => {
                cur = Some((norm(rest), SpecEntry { kind: w.into(), ..Default::default() }));
            }
            "drop" => {
                m.insert(norm(rest), SpecEntry { kind: "drop".into(), ..Default::default() });
            }
            "end" => {
                let (n, e) = cur.take().unwrap();
                m.insert(n, e);
            }
            "needs" => cur.as_mut().unwrap().1.needs = rest.split_whitespace().map(|s| s.to_string()).collect(),
            "locals" => cur.as_mut().unwrap().1.locals = rest.split_whitespace().map(|s| s.to_string()).collect(),
            "oncall" => {
                let (a, b) = rest.split_once(' ').unwrap();
                cur.as_mut().unwrap().1.oncall.push((a.into(), b.into(), tag, desc));
            }
            "anchor" => {
                let (a, b) = rest.split_once(' ').unwrap();
                cur.as_mut().unwrap().1.anchors.push((a.into(), b.into()));
            }
            "top" => {
                let c = &mut cur.as_mut().unwrap().1;
                c.top.push_str(rest);
                c.top.push('\n');
            }
            "before" | "inside" | "after" => {
                let p = rest.find(' ').unwrap();
                let n: usize = rest[..p].parse().unwrap();
                let e = &mut cur.as_mut().unwrap().1;
                let mm = match w { "before" => &mut e.before, "inside" => &mut e.inside, _ => &mut e.after };
                mm.entry(n).or_default().push_str(&rest[p + 1..]);
            }
            "requires" | "ensures" | "decreases" => cur.as_mut().unwrap().1.clauses.push(Clause {
                kind: w.into(),
                text: rest.into(),
                tag,
                desc,
            }),
            "loop" => {
                let p = rest.find(' ').unwrap();
                let n: usize = rest[..p].parse().unwrap();
                let r2 = rest[p + 1..].trim();
                let p2 = r2.find(' ').unwrap();
                cur.as_mut().unwrap().1.loops.entry(n).or_default().push(Clause {
                    kind: r2[..p2].into(),
                    text: r2[p2 + 1..].trim().into(),
                    tag,
                    desc,
                });
            }
            _ => panic!("bad spec line: {}", l),
        }
    }
    m
}

pub struct Out {
    pub s: String,
    pub line: usize,
    pub tags: BTreeMap<usize, (String, String, String)>, // line -> tag, desc, fn
    pub src: BTreeMap<usize, usize>,
    pub indent: usize,
    pub bol: bool,
}
impl Out {
    pub fn new() -> Out {
        Out { s: String::new(), line: 1, tags: BTreeMap::new(), src: BTreeMap::new(), indent: 0, bol: true }
    }
    pub fn nl(&mut self) {
        self.s.push('\n');
        self.line += 1;
        self.bol = true;
    }
    pub fn raw(&mut self, t: &str) {
        for c in t.chars() {
            if c == '\n' {
                self.nl();
            } else {
                self.s.push(c);
                self.bol = false;
            }
        }
    }
    pub fn ln(&mut self, t: &str) {
        self.raw(t);
        self.nl();
    }
    fn tok(&mut self, t: &str, line: usize, glue: bool) {
        if self.bol {
            for _ in 0..self.indent {
                self.s.push_str("  ");
            }
            self.bol = false;
        }
        if line > 1 {
            self.src.entry(self.line).or_insert(line);
        }
        self.s.push_str(t);
        if !glue {
            self.s.push(' ');
        }
    }
    pub fn tokens(&mut self, ts: TokenStream, inv: &BTreeMap<usize, Vec<Clause>>, fname: &str) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let l = g.span_open().start().line;
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut skip = 0;
                            if inner.len() >= 4 {
                                if let TokenTree::Ident(id) = &inner[0] {
                                    if id == "__inv" {
                                        if let TokenTree::Group(n) = &inner[2] {
                                            let k: usize = n.stream().to_string().trim().parse().unwrap();
                                            skip = 4;
                                            self.nl();
                                            if k >= CUT {
                                                let (p, q) = ((k - CUT) / 1000, (k - CUT) % 1000);
                                                let mut cs = vec![];
                                                for c in inv.get(&(JOIN + p)).unwrap() {
                                                    cs.push(Clause { kind: "invariant_except_break".into(), ..c.clone() });
                                                }
                                                for c in inv.get(&(JOIN + q)).unwrap() {
                                                    cs.push(Clause { kind: "ensures".into(), ..c.clone() });
                                                }
                                                cs.push(Clause { kind: "decreases".into(), text: "0int".into(), tag: "B".into(), desc: "single pass".into() });
                                                self.clauses(&cs, fname);
                                            } else {
                                                self.clauses(inv.get(&k).map(|x| &x[..]).unwrap_or(&[]), fname);
                                            }
                                        }
                                    }
                                }
                            }
                            self.tok("{", l, false);
                            self.indent += 1;
                            self.nl();
                            let rest: TokenStream = inner.into_iter().skip(skip).collect();
                            self.tokens(rest, inv, fname);
                            self.indent -= 1;
                            if !self.bol {
                                self.nl();
                            }
                            self.tok("}", g.span_close().start().line, false);
                            // newline after a block unless followed by punctuation/else
                            let nextp = v.get(i + 1);
                            match nextp {
                                Some(TokenTree::Punct(_)) => {}
                                Some(TokenTree::Ident(id)) if id == "else" => {}
                                _ => self.nl(),
                            }
                        }
                        d => {
                            let (a, b) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            self.tok(a, l, true);
                            self.tokens(g.stream(), inv, fname);
                            self.tok(b, g.span_close().start().line, false);
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let glue = p.spacing() == Spacing::Joint || p.as_char() == '\'' || p.as_char() == '.';
                    self.tok(&p.as_char().to_string(), p.span().start().line, glue);
                    if p.as_char() == ';' || p.as_char() == ',' && false {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => {
                    if id == "__join" {
                        if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                            let k: usize = g.stream().to_string().trim().parse().unwrap();
                            if !self.bol {
                                self.nl();
                            }
                            for c in inv.get(&(JOIN + k)).map(|x| &x[..]).unwrap_or(&[]) {
                                self.tags.insert(self.line, (c.tag.clone(), c.desc.clone(), fname.to_string()));
                                self.ln(&format!("assert({});", c.text));
                            }
                            i += 4;
                            continue;
                        }
                    }
                    if id == "__raw" {
                        // __raw ! ("text") ;
                        if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                            let t: LitStr = parse2(g.stream()).unwrap();
                            if !self.bol {
                                self.nl();
                            }
                            let v = t.value();
                            if let Some(r) = v.strip_prefix("\u{1}") {
                                // \u{1}tag\u{1}desc\u{1}text
                                let p: Vec<&str> = r.splitn(3, '\u{1}').collect();
                                self.tags.insert(self.line, (p[0].into(), p[1].into(), fname.to_string()));
                                self.ln(p[2]);
                                i += 4;
                                continue;
                            }
                            self.ln(&t.value());
                            i += 4;
                            continue;
                        }
                    }
                    self.tok(&id.to_string(), id.span().start().line, false)
                }
                TokenTree::Literal(l) => self.tok(&l.to_string(), l.span().start().line, false),
            }
            i += 1;
        }
    }
    pub fn clauses(&mut self, cs: &[Clause], fname: &str) {
        for kind in [
            "requires",
            "invariant_except_break",
            "invariant",
            "ensures",
            "decreases",
        ] {
            let sel: Vec<&Clause> = cs.iter().filter(|c| c.kind == kind).collect();
            if sel.is_empty() {
                continue;
            }
            self.ln(&format!("    {}", kind));
            for c in sel {
                self.tags.insert(self.line, (c.tag.clone(), c.desc.clone(), fname.to_string()));
                self.ln(&format!("        {},", c.text));
            }
        }
    }
}

pub const JOIN: usize = 1_000_000;
const CUT: usize = 1_000_000_000;
/// number the points after statement-level branches (proof hints go there)
struct Joins(usize);
const BIG_FN: usize = 3000;
const BIG_STMT: usize = 1500;
/// does the statement leave an enclosing loop?
struct Stray(usize, bool);
impl<'a> syn::visit::Visit<'a> for Stray {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                self.0 += 1;
                syn::visit::visit_expr(self, e);
                self.0 -= 1;
            }
            Expr::Break(b) if self.0 == 0 || b.label.is_some() => self.1 = true,
            Expr::Continue(b) if self.0 == 0 || b.label.is_some() => self.1 = true,
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
fn chunkable(s: &Stmt) -> bool {
    if is_join(s).is_some() {
        return true;
    }
    if !matches!(s, Stmt::Expr(..)) {
        return false;
    }
    let mut v = Stray(0, false);
    syn::visit::Visit::visit_stmt(&mut v, s);
    !v.1
}
fn is_join(s: &Stmt) -> Option<usize> {
    match s {
        Stmt::Macro(m) if m.mac.path.is_ident("__join") => m.mac.tokens.to_string().trim().parse().ok(),
        _ => None,
    }
}
impl Joins {
    fn mark(&mut self) -> Stmt {
        let k = proc_macro2::Literal::usize_unsuffixed(self.0);
        self.0 += 1;
        parse_quote!(__join!(#k);)
    }
    fn top(&mut self, b: &mut Block) {
        if b.to_token_stream().to_string().len() < BIG_FN {
            return;
        }
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        let mut i = 0;
        while i < n {
            // a chunk: statements that declare nothing and leave no loop
            let mut j = i;
            let mut size = 0;
            while j + 1 < n && size < BIG_STMT && chunkable(&old[j]) {
                size += old[j].to_token_stream().to_string().len();
                j += 1;
            }
            if size >= BIG_STMT / 2 {
                if !b.stmts.last().map(|p| is_join(p).is_some()).unwrap_or(false) {
                    let m = self.mark();
                    b.stmts.push(m);
                }
                b.stmts.push(parse_quote!(__chunk!(begin);));
                let mut last = None;
                for s in &old[i..j] {
                    b.stmts.push(s.clone());
                    last = Some(s);
                }
                if last.map(|s| is_join(s).is_some()).unwrap_or(false) {
                    let jn = b.stmts.pop().unwrap();
                    b.stmts.push(parse_quote!(__chunk!(end);));
                    b.stmts.push(jn);
                } else {
                    b.stmts.push(parse_quote!(__chunk!(end);));
                    if is_join(&old[j]).is_none() {
                        let m = self.mark();
                        b.stmts.push(m);
                    }
                }
                i = j;
            } else {
                b.stmts.push(old[i].clone());
                i += 1;
            }
        }
    }
}
impl VisitMut for Joins {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, s) in old.into_iter().enumerate() {
            let br = matches!(&s, Stmt::Expr(Expr::If(_) | Expr::Match(_), _));
            b.stmts.push(s);
            if br && i + 1 < n {
                let m = self.mark();
                b.stmts.push(m);
            }
        }
    }
}
/// proof structuring: a run of statements S between two numbered points becomes
/// `loop { S break; }` with the facts of the two points as its contract, so
/// that the verifier checks it as a query of its own
fn cut_big(b: &mut Block, joins: &BTreeMap<usize, Vec<Clause>>, groups_use: &str) -> bool {
    let old = std::mem::take(&mut b.stmts);
    let mark = |s: &Stmt, w: &str| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__chunk") && m.mac.tokens.to_string().trim() == w);
    let mut i = 0;
    let mut cut = false;
    while i < old.len() {
        if mark(&old[i], "begin") {
            let j = (i..old.len()).find(|j| mark(&old[*j], "end")).unwrap();
            let run = &old[i + 1..j];
            let pre = is_join(&old[i - 1]);
            let post = old.get(j + 1).and_then(is_join);
            match (pre, post) {
                (Some(p), Some(q)) if joins.contains_key(&(JOIN + p)) && joins.contains_key(&(JOIN + q)) => {
                    let k = proc_macro2::Literal::usize_unsuffixed(CUT + p * 1000 + q);
                    b.stmts.push(parse_quote!(__raw!("#[verifier::loop_isolation(true)]");));
                    b.stmts.push(parse_quote!(loop { __inv!(#k); __raw!(#groups_use); #(#run)* break; }));
                    cut = true;
                }
                _ => b.stmts.extend(run.iter().cloned()),
            }
            i = j + 1;
        } else {
            b.stmts.push(old[i].clone());
            i += 1;
        }
    }
    cut
}
struct Mark {
    n: usize,
    before: BTreeMap<usize, String>,
    inside: BTreeMap<usize, String>,
    after: BTreeMap<usize, String>,
}
impl VisitMut for Mark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = self.n;
                self.n += 1;
                visit_mut::visit_expr_while_mut(self, w);
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                if let Some(t) = self.inside.get(&k) {
                    w.body.stmts.insert(0, parse_quote!(__raw!(#t);));
                }
                w.body.stmts.insert(0, parse_quote!(__inv!(#kk);));
            }
            Expr::Loop(w) => {
                let k = self.n;
                self.n += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                if let Some(t) = self.inside.get(&k) {
                    w.body.stmts.insert(0, parse_quote!(__raw!(#t);));
                }
                w.body.stmts.insert(0, parse_quote!(__inv!(#kk);));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // proof text before loop k goes right before the statement that is loop k
        let mut i = 0;
        while i < b.stmts.len() {
            let n0 = self.n;
            let is_loop = matches!(&b.stmts[i], Stmt::Expr(Expr::While(_) | Expr::Loop(_), _));
            self.visit_stmt_mut(&mut b.stmts[i]);
            if is_loop {
                if let Some(t) = self.before.get(&n0) {
                    b.stmts.insert(i, parse_quote!(__raw!(#t);));
                    i += 1;
                }
                if let Some(t) = self.after.get(&n0) {
                    b.stmts.insert(i + 1, parse_quote!(__raw!(#t);));
                    i += 1;
                }
            }
            i += 1;
        }
    }
}
/// L12: `e?` is printed as the match it stands for (the error type never changes)
struct TryMatch;
impl VisitMut for TryMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(__e) }));
        }
    }
}
/// L13: `tok?.literal.as_str()` -> `tlit(tok?)`, L14: `n.node_type = t` -> `n.set_node_type(t)`
struct Access(BTreeSet<String>);
impl VisitMut for Access {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            let t = init.expr.to_token_stream().to_string();
            if t.contains("get_token (") && !t.contains("clone") && !t.contains("literal") && !t.contains(". is") {
                self.0.insert(i.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = &*e {
            if m.method == "as_str" && m.args.is_empty() {
                if let Expr::Field(f) = &*m.receiver {
                    if matches!(&f.member, Member::Named(n) if n == "literal") && (matches!(&*f.base, Expr::Try(_)) || matches!(&*f.base, Expr::Path(p) if p.path.get_ident().map(|i| self.0.contains(&i.to_string())).unwrap_or(false))) {
                        let b = &f.base;
                        new = Some(parse_quote!(tlit(#b)));
                    }
                }
            }
        }
        if let Expr::Assign(a) = &*e {
            if let Expr::Field(f) = &*a.left {
                if matches!(&f.member, Member::Named(n) if n == "node_type") {
                    let (b, r) = (&f.base, &a.right);
                    new = Some(parse_quote!(#b.set_node_type(#r)));
                }
            }
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}
struct CountLoops(usize);
impl<'ast> syn::visit::Visit<'ast> for CountLoops {
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.0 += 1;
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.0 += 1;
        syn::visit::visit_expr_loop(self, e);
    }
}

pub fn sub_lits(t: &str, int: &mut Interner) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("lit!(\"") {
        out.push_str(&rest[..p]);
        let r = &rest[p + 6..];
        let q = r.find("\")").unwrap();
        out.push_str(&format!("{}int", int.id(&r[..q])));
        rest = &r[q + 2..];
    }
    out.push_str(rest);
    out
}

fn term(name: &str, k: Kind) -> Option<String> {
    Some(match k {
        Kind::N => format!("q_ncnt({})", name),
        Kind::MutN => format!("q_ncnt(*{})", name),
        Kind::V => format!("q_scnt({}@)", name),
        Kind::MutV => format!("q_scnt({}@)", name),
        Kind::O => format!("q_ocnt({})", name),
        _ => return None,
    })
}
fn okterm(name: &str, k: Kind, ts: &str) -> Option<String> {
    Some(match k {
        Kind::N => format!("q_okt({}, {})", name, ts),
        Kind::MutN => format!("q_okt(*{}, {})", name, ts),
        Kind::V | Kind::MutV => format!("q_okv({}@, {})", name, ts),
        Kind::O => format!("q_oko({}, {})", name, ts),
        _ => return None,
    })
}
fn sum(v: Vec<String>) -> String {
    if v.is_empty() {
        "0int".into()
    } else {
        v.join(" + ")
    }
}
fn c(kind: &str, text: String, tag: &str, desc: &str) -> Clause {
    Clause { kind: kind.into(), text, tag: tag.into(), desc: desc.into() }
}


/// C11: facts about operator levels that the tool tries for every function (a
/// candidate the verifier refutes is dropped and the lens runs again)
pub struct Cand<'a> {
    pub fname: &'a str,
    pub drops: &'a BTreeSet<String>,
}
impl<'a> Cand<'a> {
    fn add(&self, v: &mut Vec<Clause>, kind: &str, loc: &str, text: String) {
        let id = format!("{}|{}|{}", self.fname, loc, text);
        if !self.drops.contains(&id) && !v.iter().any(|c| c.tag == "H" && c.text == text) {
            v.push(Clause { kind: kind.into(), text, tag: "H".into(), desc: id });
        }
    }
}
pub fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}
fn with_flags(t: &str, flags: &[String]) -> Vec<String> {
    let mut v = vec![t.to_string()];
    for f in flags {
        v.push(format!("{} || {}", t, f));
    }
    v
}
/// C11: what may hold an operator node (every other node gets the clause q_plain)
#[derive(Default)]
pub struct MayOp {
    fns: BTreeSet<String>,
    params: BTreeSet<(String, usize)>,
    vars: BTreeSet<(String, String)>,
    f: String,
    pnames: BTreeMap<String, Vec<String>>,
    grew: bool,
}
const OPS: [&str; 9] = ["BinaryOperator", "InOperator", "BetweenOperator", "IsDistinctFromOperator", "CallingFunction", "AccessOperator", "DotOperator", "FunctionChain", "UnaryOperator"];
fn args_of(f: &FnInfo) -> Vec<String> {
    f.item.sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string().replace("mut ", "")),
        _ => None,
    }).collect()
}
impl MayOp {
    pub fn of(fns: &BTreeMap<String, FnInfo>) -> MayOp {
        let mut m = MayOp::default();
        for (k, f) in fns {
            m.pnames.insert(k.clone(), args_of(f));
        }
        loop {
            m.grew = false;
            for (k, f) in fns {
                m.f = k.clone();
                syn::visit::Visit::visit_block(&mut m, &f.item.block);
                if m.tail(&f.item.block) && m.fns.insert(k.clone()) {
                    m.grew = true;
                }
            }
            if !m.grew {
                return m;
            }
        }
    }
    fn var(&mut self, n: &str) {
        if self.vars.insert((self.f.clone(), n.to_string())) {
            self.grew = true;
        }
    }
    pub fn is_var(&self, f: &str, n: &str) -> bool {
        self.vars.contains(&(f.to_string(), n.to_string()))
            || self.pnames.get(f).and_then(|v| v.iter().position(|x| x == n)).map(|i| self.params.contains(&(f.to_string(), i))).unwrap_or(false)
    }
    fn tail(&self, b: &Block) -> bool {
        match b.stmts.iter().rev().find(|s| is_join(s).is_none()) {
            Some(Stmt::Expr(e, None)) => self.op(e),
            _ => false,
        }
    }
    fn typ(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.segments.last().map(|s| OPS.contains(&s.ident.to_string().as_str())).unwrap_or(true),
            _ => true,
        }
    }
    fn call(&self, name: &str, args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> bool {
        match name {
            "construct_node" => Self::typ(&args[0]),
            "new" | "empty" if !args.is_empty() => args.iter().all(Self::typ),
            _ if self.pnames.contains_key(name) => self.fns.contains(name),
            _ => true,
        }
    }
    fn op(&self, e: &Expr) -> bool {
        match e {
            Expr::Try(t) => self.op(&t.expr),
            Expr::Paren(p) => self.op(&p.expr),
            Expr::Group(p) => self.op(&p.expr),
            Expr::Reference(r) => self.op(&r.expr),
            Expr::Block(b) => self.tail(&b.block),
            Expr::If(i) => self.tail(&i.then_branch) || i.else_branch.as_ref().map(|x| self.op(&x.1)).unwrap_or(false),
            Expr::Match(m) => m.arms.iter().any(|a| self.op(&a.body)),
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Macro(_) => false,
            Expr::MethodCall(m) if m.method == "clone" => self.op(&m.receiver),
            Expr::MethodCall(m) => self.call(&m.method.to_string(), &m.args),
            Expr::Call(c) => {
                let n = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => return true,
                };
                match n.as_str() {
                    "Ok" | "Some" => self.op(&c.args[0]),
                    "Err" | "panic_here" => false,
                    _ => self.call(&n, &c.args),
                }
            }
            Expr::Path(p) => p.path.get_ident().map(|i| self.is_var(&self.f, &i.to_string())).unwrap_or(true),
            _ => true,
        }
    }
    fn flow(&mut self, name: &str, args: &syn::punctuated::Punctuated<Expr, Token![,]>) {
        if !self.pnames.contains_key(name) {
            return;
        }
        // a lifted function takes the parser as its first argument
        for (i, a) in args.iter().enumerate() {
            if self.op(a) && self.params.insert((name.to_string(), i)) {
                self.grew = true;
            }
            if let (Expr::Reference(r), true) = (a, self.is_var(name, &self.pnames[name].get(i).cloned().unwrap_or_default())) {
                if let (true, Expr::Path(p)) = (r.mutability.is_some(), &*r.expr) {
                    if let Some(i) = p.path.get_ident() {
                        let n = i.to_string();
                        self.var(&n);
                    }
                }
            }
        }
    }
}
impl<'a> syn::visit::Visit<'a> for MayOp {
    fn visit_local(&mut self, l: &'a Local) {
        let pat = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        match pat {
            Pat::Ident(i) => {
                if let Some(init) = &l.init {
                    if self.op(&init.expr) {
                        self.var(&i.ident.to_string());
                    }
                }
            }
            p => self.visit_pat(p),
        }
        if let Some(init) = &l.init {
            self.visit_expr(&init.expr);
        }
    }
    fn visit_pat(&mut self, p: &'a Pat) {
        if let Pat::Ident(i) = p {
            self.var(&i.ident.to_string());
        }
        syn::visit::visit_pat(self, p);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Assign(a) => match &*a.left {
                Expr::Path(p) => {
                    if let (Some(i), true) = (p.path.get_ident(), self.op(&a.right)) {
                        self.var(&i.to_string());
                    }
                }
                Expr::Field(f) => {
                    if let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) {
                        if n == "node_type" && Self::typ(&a.right) {
                            if let Some(i) = p.path.get_ident() {
                                self.var(&i.to_string());
                            }
                        }
                    }
                }
                _ => {}
            },
            Expr::MethodCall(m) => self.flow(&m.method.to_string(), &m.args),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    self.flow(&n, &c.args);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if self.op(x) && self.fns.insert(self.f.clone()) {
                        self.grew = true;
                    }
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

pub fn run(lens: &str, src: &str, specdir: &str, out_rs: &str, out_json: &str, ext: &[String], drops: &[String]) {
    let keep: &[&str] = match lens {
        "tot" => &["B", "C05", "R0"],
        "pos" => &["B", "C09", "R0"],
        "cas" => &["B", "C10", "R0"],
        "con" => &["B", "C06", "R1"],
        "top" => &["B", "C05", "C06", "C08", "R1"],
        "cmt" => &["B", "OK", "C07", "R1", "R2"],
        "prc" => &["B", "OK", "C11", "H", "R0"],
        _ => &["B", "C05", "C06", "C07", "C08", "C09", "R0", "R1", "R2"],
    };
    match lens {
        "lex" => lex::lexer_lens(src, specdir, out_rs, out_json, ext, &["token.rs", "error.rs", "lexer.rs"], "lexer.spec", "lexer_prelude.rs", &["B", "S", "C01", "C02", "C03", "C04", "C07", "C09"]),
        "tok" => lex::lexer_lens(src, specdir, out_rs, out_json, ext, &["constants.rs", "token.rs", "error.rs", "lexer.rs"], "token.spec", "lexer_prelude.rs+token_prelude.rs", &["B", "K", "C10"]),
        "tot" | "pos" | "con" | "cmt" | "top" | "cas" | "prc" | "all" => parser_lens(src, specdir, out_rs, out_json, ext, keep, lens == "top", drops),
        _ => panic!("unknown lens"),
    }
}

pub fn strip_vis_struct(it: &mut Item) {
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = Visibility::Inherited;
            }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = Visibility::Inherited;
            for v in e.variants.iter_mut() {
                v.attrs.clear();
            }
        }
        _ => {}
    }
}

fn guard_neg(g: &Guard, p_old: &str, int: &mut Interner) -> String {
    let tok = format!("q_tup(q_tk(*{}, 0))", p_old);
    match g {
        Guard::Param(p, true) => format!("!{}", p),
        Guard::Param(p, false) => p.clone(),
        Guard::EntryTok(ids) => {
            let v: Vec<String> = ids
                .iter()
                .map(|i| {
                    let t = int.texts[*i].to_uppercase();
                    format!("{} != {}", tok, int.id(&t))
                })
                .collect();
            format!("({})", v.join(" && "))
        }
        Guard::NotEntryTok(ids) => {
            let v: Vec<String> = ids
                .iter()
                .map(|i| {
                    let t = int.texts[*i].to_uppercase();
                    format!("{} == {}", tok, int.id(&t))
                })
                .collect();
            if v.is_empty() {
                "false".into()
            } else {
                format!("({})", v.join(" || "))
            }
        }
    }
}

/// condition under which key k is certainly absent; None = cannot say
fn absent_cond(
    keys: &BTreeMap<usize, BTreeSet<Option<Guard>>>,
    params: &BTreeSet<usize>,
    k: usize,
    f: &FnInfo,
    p_old: &str,
    ghost: bool,
    int: &mut Interner,
) -> Option<Vec<String>> {
    let mut conds = vec![];
    if let Some(gs) = keys.get(&k) {
        for g in gs {
            match g {
                None => return None,
                Some(g) => conds.push(guard_neg(g, p_old, int)),
            }
        }
    }
    if keys.contains_key(&usize::MAX) {
        return None;
    }
    for p in params {
        let (n, kind, _) = &f.params[*p];
        let nm = if ghost { format!("g_{}", n) } else { n.clone() };
        conds.push(match kind {
            Kind::N => format!("!q_nhas({}, {})", nm, k),
            Kind::MutN => {
                if ghost {
                    format!("!q_nhas(*old({}), {})", n, k)
                } else {
                    format!("!q_nhas(*old({}), {})", n, k)
                }
            }
            _ => return None,
        });
    }
    Some(conds)
}

/// names called in a body (methods on self, associated functions)
struct Called(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Called {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::MethodCall(m) => {
                self.0.insert(m.method.to_string());
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.0.insert(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
/// L20: a helper the pinned tree does not have, called from a function with a
/// written contract, is inlined there
fn inline_core(x: &mut Extracted, spec: &BTreeMap<String, SpecEntry>, specdir: &str, prc: bool) {
    let base: BTreeSet<String> = fs::read_to_string(format!("{}/baseline_fns.txt", specdir)).unwrap_or_default().lines().map(|l| l.trim().to_string()).collect();
    let called = |f: &FnInfo| {
        let mut c = Called(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut c, &f.item.block);
        c.0
    };
    let core: Vec<String> = x.order.iter().filter(|k| spec.get(*k).map(|s| s.kind == "fn" || (prc && s.clauses.iter().any(|c| c.tag == "C11"))).unwrap_or(false)).cloned().collect();
    let fresh: BTreeSet<String> = x.order.iter().filter(|k| !spec.contains_key(*k) && !base.contains(*k)).cloned().collect();
    if fresh.is_empty() {
        return;
    }
    let fns = x.fns.clone();
    let mut done: BTreeSet<String> = BTreeSet::new();
    for k in &core {
        let hs: BTreeSet<String> = called(&fns[k]).intersection(&fresh).cloned().collect();
        if hs.is_empty() {
            continue;
        }
        let mut f = fns[k].clone();
        let mut inl = crate::lex::Inline { fns: &fns, helpers: &fresh, bad: vec![], done: 0, depth: 0 };
        inl.tail_block(&mut f.item.block);
        inl.visit_block_mut(&mut f.item.block);
        if !inl.bad.is_empty() {
            f.unsupported.push(format!("calls `{}`, which has no contract and cannot be inlined", inl.bad[0]));
        }
        *x.rules.entry("L20-inlined-helper".into()).or_insert(0) += inl.done;
        x.fns.insert(k.clone(), f);
        done.extend(hs);
    }
    // helpers that nothing calls any more
    loop {
        let used: BTreeSet<String> = x.order.iter().flat_map(|k| called(&x.fns[k])).collect();
        let dead: Vec<String> = x.order.iter().filter(|k| fresh.contains(*k) && !used.contains(*k)).cloned().collect();
        if dead.is_empty() {
            break;
        }
        for d in dead {
            x.order.retain(|k| k != &d);
            x.fns.remove(&d);
        }
    }
    let _ = done;
}
/// locals bound by `let` in a body, in order
struct Lets(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Lets {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with("__") && n.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
            self.0.push(n);
        }
    }
}
/// per loop: the vector its body pushes to
struct Pushed(Vec<Option<String>>, Vec<usize>);
impl<'a> syn::visit::Visit<'a> for Pushed {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) => {
                self.1.push(self.0.len());
                self.0.push(None);
                syn::visit::visit_expr(self, e);
                self.1.pop();
            }
            Expr::MethodCall(m) if m.method == "push" => {
                if let (Expr::Path(p), Some(k)) = (&*m.receiver, self.1.last()) {
                    self.0[*k] = p.path.get_ident().map(|i| i.to_string());
                }
                syn::visit::visit_expr(self, e);
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
fn rename_words(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            // fields keep their names
            if !w.is_empty() {
                let field = out.ends_with('.') && !out.ends_with("..");
                out.push_str(if field { &w } else { m.get(&w).unwrap_or(&w) });
                w.clear();
            }
            out.push(c);
        }
    }
    out.pop();
    out
}

fn parser_lens(src: &str, specdir: &str, out_rs: &str, out_json: &str, ext: &[String], keep: &[&str], top_only: bool, drops: &[String]) {
    let kept = |t: &str| t.is_empty() || keep.contains(&t);
    let mut groups_use = String::new();
    if kept("C06") {
        groups_use.push_str("broadcast use group_cnt;");
    }
    if kept("OK") {
        groups_use.push_str("broadcast use group_cmt;");
    }
    if kept("C08") {
        groups_use.push_str("broadcast use group_cover;");
    }
    let mut x = extract(src, &["token.rs", "error.rs", "cst.rs", "parser.rs"], false);
    let spec = parse_spec(&fs::read_to_string(format!("{}/parser.spec", specdir)).unwrap());
    let prelude = fs::read_to_string(format!("{}/parser_prelude.rs", specdir)).unwrap();

    let mut fixed: BTreeMap<String, Summary> = BTreeMap::new();
    for n in ["construct_node", "get_token", "get_offset_index", "is_eof", "get_precedence", "new"] {
        let mut s = Summary::new();
        s.entry = 0;
        s.exit = ME;
        s.must_adv = false;
        fixed.insert(n.into(), s);
    }
    VLITS.with(|v| *v.borrow_mut() = x.vlits.clone());
    inline_core(&mut x, &spec, specdir, keep.contains(&"H"));
    for f in x.fns.values_mut() {
        if keep.contains(&"C10") {
            crate::lower::CharIs.visit_block_mut(&mut f.item.block);
        }
        let mut j = Joins(0);
        j.visit_block_mut(&mut f.item.block);
        j.top(&mut f.item.block);
    }
    let (ana, sums, demand) = analyze_all(&x.fns, &fixed);

    let mut o = Out::new();
    o.ln("#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_labels)]");
    o.ln("use vstd::prelude::*;");
    o.ln("verus! {");
    o.ln("type BQ2CSTResult<T> = Result<T, BQ2CSTError>;");
    let types = x.types.clone();
    for (name, it) in &types {
        let mut it = it.clone();
        strip_vis_struct(&mut it);
        let mut t = it.to_token_stream().to_string();
        t = t.replace("HashMap < String , ContentType >", "Children");
        if name == "NodeType" {
            o.ln("#[derive(PartialEq, Eq, Structural, Clone, Copy)]");
        }
        o.ln(&t);
        if name == "Token" || name == "Parser" {
            o.ln(&format!("impl {0} {{ #[verifier::external_body] fn clone(&self) -> (r: {0}) ensures r == *self {{ unimplemented!() }} }}", name));
        }
    }
    // prelude with tags
    for l in prelude.lines() {
        let l = sub_lits(l, &mut x.int);
        if let Some(p) = l.find("//@") {
            let t = l[p + 3..].trim();
            let (a, b) = t.split_once(' ').unwrap_or((t, ""));
            if !kept(a) {
                continue;
            }
            o.tags.insert(o.line, (a.into(), b.into(), "prelude".into()));
        }
        o.ln(&l);
    }
    let mayop = if kept("H") { MayOp::of(&x.fns) } else { MayOp::default() };
    let late: BTreeSet<String> = drops.iter().cloned().collect();
    let mut fmeta = vec![];
    // one module per group of functions: the verifier works module-parallel
    let mut order: Vec<String> = x.order.clone();
    let size = |k: &String| x.fns[k].item.block.to_token_stream().to_string().len();
    order.sort_by_key(|k| std::cmp::Reverse(size(k)));
    let mut groups: Vec<(usize, Vec<String>)> = vec![];
    for k in order {
        let z = size(&k);
        match groups.last_mut() {
            Some((t, g)) if *t + z < 6000 => {
                *t += z;
                g.push(k);
            }
            _ => groups.push((z, vec![k])),
        }
    }
    for gi in 0..groups.len() {
        o.ln(&format!("use m{}::*;", gi));
    }
    for (gi, (_, group)) in groups.iter().enumerate() {
    o.ln(&format!("mod m{} {{", gi));
    o.ln("use super::*;");
    for key in group {
        let f = x.fns[key].clone();
        let sp = spec.get(key);
        if sp.map(|s| s.kind == "drop").unwrap_or(false) {
            continue;
        }
        let start = o.line;
        let is_ext_spec = sp.map(|s| s.kind == "extern").unwrap_or(false);
        let mut why: Vec<String> = f.unsupported.clone();
        if ext.contains(key) {
            why.push("rejected by the verifier front end".into());
        }
        let mut nl = CountLoops(0);
        syn::visit::Visit::visit_block(&mut nl, &f.item.block);
        let body_text = f.item.block.to_token_stream().to_string();
        let mut renames: BTreeMap<String, String> = BTreeMap::new();
        let mut lets = Lets(vec![]);
        syn::visit::Visit::visit_block(&mut lets, &f.item.block);
        let mut pushed = Pushed(vec![], vec![]);
        syn::visit::Visit::visit_block(&mut pushed, &f.item.block);
        if let Some(s) = sp {
            if s.kind == "fn" {
                let lost = s.needs.iter().any(|n| !lets.0.contains(n));
                if lost && lets.0.len() == s.locals.len() {
                    for (a, b) in s.locals.iter().zip(&lets.0) {
                        renames.insert(a.clone(), b.clone());
                    }
                }
                for n in &s.needs {
                    let n = renames.get(n).unwrap_or(n);
                    if !body_text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == n) {
                        why.push(format!("anchor lost: local `{}`", n));
                    }
                }
                let want = s.loops.keys().max().map(|m| m + 1).unwrap_or(0);
                if want != nl.0 {
                    why.push(format!("anchor lost: {} loops expected, {} found", want, nl.0));
                }
            }
        }
        let mut cl: Vec<Clause> = vec![];
        let mut loops: BTreeMap<usize, Vec<Clause>> = BTreeMap::new();
        let mut top = String::new();
        let mut complex = false;
        let (mut before, mut inside, mut after) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        let generic = sp.is_none() || sp.unwrap().kind == "also";
        let hash = fnv(&format!("{} {}", f.item.sig.to_token_stream(), body_text));
        let args = args_of(&f);
        let cand = Cand { fname: key, drops: &late };
        let opfn = kept("H") && body_text.split(|c: char| !c.is_alphanumeric()).any(|w| OPS.contains(&w));
        let opinfix = body_text.split(|c: char| !c.is_alphanumeric()).any(|w| OPS[..4].contains(&w));
        let a = ana.get(key);
        if let (true, Some(pv)) = (generic, f.pv()) {
            let s = &sums[key];
            let a = a.unwrap();
            let mutp = f.mutating();
            let (po, pf) = if mutp {
                (format!("old({})", pv), format!("final({})", pv))
            } else {
                (pv.clone(), pv.clone())
            };
            cl.push(c("requires", format!("q_wf(*{})", po), "B", "cursor state"));
            for (p, keys) in &s.req_absent {
                let (n, k, _) = &f.params[*p];
                for key in keys {
                    if *key == usize::MAX {
                        continue;
                    }
                    match k {
                        Kind::N => cl.push(c("requires", format!("!q_nhas({}, {})", n, key), "C06", &format!("child `{}` already present", x.int.texts[*key]))),
                        Kind::MutN => cl.push(c("requires", format!("!q_nhas(*old({}), {})", n, key), "C06", &format!("child `{}` already present", x.int.texts[*key]))),
                        _ => {}
                    }
                }
            }
            let okp = if f.ret.result { "r is Ok ==> ".to_string() } else { String::new() };
            if mutp {
                cl.push(c("ensures", format!("q_toks(*{}) == q_toks(*{})", pf, po), "B", "token list unchanged"));
                cl.push(c("ensures", format!("{}q_wf(*{})", okp, pf), "B", "cursor state"));
                cl.push(c(
                    "ensures",
                    format!("{}q_left(*{}) {} q_left(*{})", okp, pf, if s.must_adv { "<" } else { "<=" }, po),
                    "C05",
                    "progress",
                ));
            }
            // conservation
            let (mut ins, mut outs) = (vec![], vec![]);
            for (n, k, _) in &f.params {
                match k {
                    Kind::N | Kind::V | Kind::O => ins.push(term(n, *k).unwrap()),
                    Kind::MutN | Kind::MutV => {
                        ins.push(term(&format!("old({})", n), *k).unwrap());
                        outs.push(term(&format!("final({})", n), *k).unwrap());
                    }
                    _ => {}
                }
            }
            let ts_old = format!("q_toks(*{})", po);
            for (n, k, _) in &f.params {
                let nm = if matches!(k, Kind::MutN | Kind::MutV) { format!("old({})", n) } else { n.clone() };
                if let Some(t) = okterm(&nm, *k, &ts_old) {
                    cl.push(c("requires", t, "OK", "the nodes below have the property"));
                }
                if matches!(k, Kind::MutN | Kind::MutV) {
                    let t = okterm(&format!("final({})", n), *k, &ts_old).unwrap();
                    cl.push(c("ensures", format!("{}{}", okp, t), "OK", "the nodes below have the property"));
                }
            }
            if let Some(t) = okterm(if f.ret.result { "v" } else { "r" }, f.ret.kind, &ts_old) {
                let pre = if f.ret.result { "r matches Ok(v) ==> " } else { "" };
                cl.push(c("ensures", format!("{}{}", pre, t), "OK", "every node below has the property"));
            }
            let rk = f.ret.kind;
            let rterm = if f.ret.result { "v" } else { "r" };
            if let Some(t) = term(rterm, rk) {
                outs.push(t);
            }
            let x_fin = match s.exit {
                e if e & MU != 0 => format!("q_st(*{})", pf),
                e if e == ME => {
                    if s.entry == MC {
                        format!("q_en(*{})", pf)
                    } else {
                        format!("q_st(*{})", pf)
                    }
                }
                _ => format!("q_en(*{})", pf),
            };
            let y_old = if s.entry == MC { format!("q_en(*{})", po) } else { format!("q_st(*{})", po) };
            if !outs.is_empty() || mutp {
                let eqn = format!(
                    "{} == {} + q_occ(q_toks(*{}), {}) - q_occ(q_toks(*{}), {})",
                    sum(outs), sum(ins.clone()), po, x_fin, po, y_old
                );
                let text = if f.ret.result {
                    format!("r matches Ok(v) ==> {}", eqn)
                } else {
                    eqn
                };
                cl.push(c("ensures", text, "C06", "every token of the parsed region is in the result exactly once"));
            }
            // keys
            let robj = match (rk, f.ret.result) {
                (Kind::N, true) => Some(("r matches Ok(v) ==> ", "v")),
                (Kind::N, false) => Some(("", "r")),
                _ => None,
            };
            if let Some((pre, ro)) = robj {
                for k in &demand.get(key).cloned().unwrap_or_default() {
                    if let Some(conds) = absent_cond(&s.keys, &s.from_params, *k, &f, &po, false, &mut x.int) {
                        let cond = if conds.is_empty() { String::new() } else { format!("{} ==> ", conds.join(" && ")) };
                        cl.push(c("ensures", format!("{}({}!q_nhas({}, {}))", pre, cond, ro, k), "C06", &format!("child `{}` not yet present", x.int.texts[*k])));
                    }
                }
            }
            if f.ret.result {
                cl.push(c("ensures", format!("r matches Err(e) ==> q_epos(q_toks(*{}), e)", po), "C09", "error points at a token"));
            }
            if mutp {
                cl.push(c("decreases", format!("q_left(*{}), {}int", po, s.rank), "C05", "recursion terminates"));
            }
            // operator levels
            let typed = |want: &str| -> Vec<String> {
                f.item.sig.inputs.iter().filter_map(|a| match a {
                    FnArg::Typed(t) if t.ty.to_token_stream().to_string() == want => match &*t.pat {
                        Pat::Ident(i) if i.mutability.is_none() => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                }).collect()
            };
            let (pars, flags) = (typed("usize"), typed("bool"));
            let named = kept("H") && sp.map(|s| s.clauses.iter().any(|c| c.tag == "C11")).unwrap_or(false);
            // only flags the written contract mentions
            let flags: Vec<String> = flags.into_iter().filter(|n| !named || sp.map(|s| {
                let k = args.iter().position(|a| a == n).unwrap_or(99);
                s.clauses.iter().any(|c| c.text.contains(&format!("$a{}", k)))
            }).unwrap_or(false)).collect();
            if kept("H") {
                if f.ret.kind == Kind::N && !mayop.fns.contains(key) {
                    let (pre, ro) = if f.ret.result { ("r matches Ok(v) ==> ", "v") } else { ("", "r") };
                    cl.push(c("ensures", format!("{}q_plain({})", pre, ro), "C11", "not an operator"));
                }
                for (n, k, _) in &f.params {
                    if matches!(k, Kind::N | Kind::MutN) && !mayop.is_var(key, n) {
                        let nm = if *k == Kind::MutN { format!("*old({})", n) } else { n.clone() };
                        cl.push(c("requires", format!("q_plain({})", nm), "C11", "not an operator"));
                        if *k == Kind::MutN {
                            cl.push(c("ensures", format!("{}q_plain(*final({}))", okp, n), "C11", "not an operator"));
                        }
                    }
                }
            }
            // ghost copies of consumed arguments
            let mut gin = vec![];
            for (n, k, _) in &f.params {
                match k {
                    Kind::N | Kind::V | Kind::O => {
                        top.push_str(&format!("let ghost g_{0} = {0};\n", n));
                        gin.push(term(&format!("g_{}", n), *k).unwrap());
                    }
                    Kind::MutN | Kind::MutV => gin.push(term(&format!("old({})", n), *k).unwrap()),
                    _ => {}
                }
            }
            // loops and joins
            let cur = format!("*{}", pv);
            let empty = BTreeSet::new();
            let dem = demand.get(key).unwrap_or(&empty);
            let wants = a.cfg.wants(&sums, dem);
            let mk = |node: usize, kind: &str, v: &mut Vec<Clause>, int: &mut Interner, lp: Option<&LoopInfo>| {
                {
                    if mutp {
                        v.push(c(kind, format!("q_wf({})", cur), "B", "cursor state"));
                        v.push(c(kind, format!("q_toks(*{}) == q_toks(*{})", pv, po), "B", "token list unchanged"));
                        v.push(c(
                            kind,
                            format!("q_left(*{}) {} q_left(*{})", pv, if a.adv[node] { "<" } else { "<=" }, po),
                            "C05",
                            "progress",
                        ));
                    }
                    let mut m = a.modes[node];
                    if m & ME != 0 {
                        m = (m & !ME) | if s.entry == 0 { MU } else { s.entry };
                    }
                    let live = &a.live[node];
                    let mut t = vec![];
                    for (vi, info) in a.cfg.vars.iter().enumerate() {
                        if info.name.is_empty() {
                            continue;
                        }
                        let inout = info.param.is_some() && matches!(info.kind, Kind::MutN | Kind::MutV);
                        if live.contains(&vi) || inout {
                            if let Some(x) = term(&info.name, info.kind) {
                                t.push(x);
                            }
                        }
                    }
                    for (vi, info) in a.cfg.vars.iter().enumerate() {
                        if info.name.is_empty() {
                            continue;
                        }
                        let inout = info.param.is_some() && matches!(info.kind, Kind::MutN | Kind::MutV);
                        if live.contains(&vi) || inout {
                            if let Some(x) = okterm(&info.name, info.kind, &ts_old) {
                                v.push(c(kind, x, "OK", "the nodes below have the property"));
                            }
                        }
                    }
                    let pos = if m & MC != 0 { format!("q_en({})", cur) } else { format!("q_st({})", cur) };
                    let mixed = m & MC != 0 && m & MU != 0 && lp.is_none();
                    if (mutp || !t.is_empty()) && !mixed {
                        v.push(c(
                            kind,
                            format!("{} == {} + q_occ(q_toks(*{}), {}) - q_occ(q_toks(*{}), {})", sum(t), sum(gin.clone()), po, pos, po, y_old),
                            "C06",
                            "every token consumed so far is in a live node exactly once",
                        ));
                    }
                    for (vi, info) in a.cfg.vars.iter().enumerate() {
                        if !live.contains(&vi) || info.name.is_empty() || !matches!(info.kind, Kind::N | Kind::V) {
                            continue;
                        }
                        let d = KeySt::default();
                        let ks = a.keys[node].get(&vi).unwrap_or(&d);
                        if let Some(l) = lp {
                            if !modified_in_loop(a, l, vi) {
                                continue;
                            }
                        }
                        // keys that may still be pushed on this variable
                        let none = BTreeSet::new();
                        let want = wants[node].get(&vi).unwrap_or(&none);
                        for k in want {
                            if let Some(conds) = absent_cond(&ks.keys, &ks.params, *k, &f, &po, true, int) {
                                let cond = if conds.is_empty() { String::new() } else { format!("{} ==> ", conds.join(" && ")) };
                                let what = if info.kind == Kind::V { format!("q_vabs({}@, {})", info.name, k) } else { format!("!q_nhas({}, {})", info.name, k) };
                                v.push(c(kind, format!("{}{}", cond, what), "C06", &format!("child `{}` not yet present", int.texts[*k])));
                            }
                        }
                    }
                }
            };
            let topj: BTreeSet<usize> = f.item.block.stmts.iter().filter_map(is_join).collect();
            // the statement that climbs the operators, and what comes after it
            let climb = f.item.block.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _)) && s.to_token_stream().to_string().contains("get_precedence"));
            let climb_loop = climb.map(|p| f.item.block.stmts[..p].iter().map(|s| {
                let mut n = CountLoops(0);
                syn::visit::Visit::visit_stmt(&mut n, s);
                n.0
            }).sum::<usize>());
            let late_j: BTreeSet<usize> = match climb {
                Some(p) => f.item.block.stmts[p..].iter().filter_map(is_join).collect(),
                None => BTreeSet::new(),
            };
            let hk = |node: usize, kind: &str, jk: Option<usize>, li: Option<usize>, v: &mut Vec<Clause>| {
                let loc = jk.map(|j| format!("J{}", j)).unwrap_or_default();
                for (vi, info) in a.cfg.vars.iter().enumerate() {
                    if info.name.is_empty() || !matches!(info.kind, Kind::N | Kind::MutN) {
                        continue;
                    }
                    if !a.live[node].contains(&vi) && info.kind != Kind::MutN {
                        continue;
                    }
                    let nm = if info.kind == Kind::MutN { format!("(*{})", info.name) } else { info.name.clone() };
                    if !mayop.is_var(key, &info.name) {
                        v.push(c(kind, format!("q_plain({})", nm), "C11", "not an operator"));
                        continue;
                    }
                    if !named {
                        continue;
                    }
                    if pars.is_empty() {
                        if !opinfix {
                            v.push(c(kind, format!("q_lvl({}) <= 101 && q_ilvl({}) <= 102", nm, nm), "C11", "level of a name"));
                        }
                        continue;
                    }
                    if mutp && unmoved(a, node, &x.fns) {
                        v.push(c(kind, format!("q_bare({}) && q_plain({}) && {}.token == Some(q_tk(*{}, 0))", nm, nm, nm, po), "C11", "nothing read yet"));
                        continue;
                    }
                    v.push(c(kind, format!("q_ilvl({}) < {} || q_ilvl({}) <= 102", nm, pars[0], nm), "C11", "no operator above the level asked for"));
                    if jk.map(|j| !late_j.contains(&j)).unwrap_or(li == climb_loop) {
                        v.push(c(kind, format!("q_lvl({}) <= q_prec(*{}, 1) || q_sw(q_tk(*{}, 0))", nm, pv, pv), "C11", "the operand is complete"));
                    }
                }
                if named && !pars.is_empty() && jk.map(|j| late_j.contains(&j)).unwrap_or(false) {
                    let first = f.item.block.stmts[climb.unwrap()..].iter().find_map(is_join) == jk;
                    for t in with_flags(&format!("q_prec(*{}, 1) >= {} || q_sw(q_tk(*{}, 0))", pv, pars[0], pv), &flags) {
                        if first || flags.is_empty() || flags.iter().any(|f| t.ends_with(&format!("|| {}", f))) {
                            cand.add(v, kind, &loc, t);
                        }
                    }
                }
            };
            for (jk, node) in &a.cfg.joins {
                if a.modes[*node] == 0 {
                    continue;
                }
                let mut v = vec![];
                mk(*node, "assert", &mut v, &mut x.int, None);
                if kept("H") && topj.contains(jk) {
                    hk(*node, "assert", Some(*jk), None, &mut v);
                }
                if mutp && unmoved(a, *node, &x.fns) {
                    v.push(c("assert", format!("*{} == *{}", pv, po), "B", "cursor not moved yet"));
                }
                loops.insert(JOIN + *jk, v);
            }
            let mut ghosts: BTreeSet<usize> = BTreeSet::new();
            for (li, l) in a.cfg.loops.iter().enumerate() {
                let mut v = vec![];
                mk(l.head, "invariant", &mut v, &mut x.int, Some(l));
                let hinv = if kept("H") {
                    let mut h = vec![];
                    hk(l.head, "invariant", None, Some(li), &mut h);
                    h
                } else {
                    vec![]
                };
                if l.has_break {
                    if let Some(af) = l.after {
                        let mut v2 = vec![];
                        mk(af, "invariant", &mut v2, &mut x.int, Some(l));
                        let t = |v: &Vec<Clause>| v.iter().map(|c| c.text.clone()).collect::<BTreeSet<_>>();
                        if t(&v) != t(&v2) {
                            complex = true;
                            for c in v.iter_mut() {
                                c.kind = "invariant_except_break".into();
                            }
                            for mut c in v2 {
                                c.kind = "ensures".into();
                                v.push(c);
                            }
                        }
                    }
                }
                for mut h in hinv {
                    if complex {
                        h.kind = "invariant_except_break".into();
                    }
                    v.push(h);
                }
                for (oi, ol) in a.cfg.loops.iter().enumerate() {
                    if oi == li || !mutp {
                        continue;
                    }
                    let since = a.adv_since(ol, &sums, &x.fns);
                    if let Some(adv) = since[l.head] {
                        let kind = if complex { "invariant_except_break" } else { "invariant" };
                        v.push(c(kind, format!("q_left(*{}) {} __l{}", pv, if adv { "<" } else { "<=" }, oi), "C05", "progress of the enclosing loop"));
                        ghosts.insert(oi);
                    }
                }
                if let Some((i, e)) = &l.idx {
                    v.push(c("decreases", format!("{} - {}", e.replace(" . len ()", "@.len()"), i), "C05", "loop terminates"));
                } else if let Some(p) = &l.while_pop {
                    v.push(c("decreases", format!("{}@.len()", p), "C05", "loop terminates"));
                } else if let Some(w) = l.walk.clone().filter(|w| w != "?") {
                    v.push(c("decreases", format!("q_nheight(*{})", w), "C05", "loop terminates"));
                } else {
                    // does the loop move the cursor?
                    let moves = loop_moves(a, l, &x.fns);
                    if !moves && !l.counters.is_empty() {
                        for ct in &l.counters {
                            let kind = if complex { "invariant_except_break" } else { "invariant" };
                            v.push(c(kind, format!("{} <= q_left(*{})", ct, pv), "B", "look-ahead bounded"));
                        }
                        v.push(c("decreases", format!("q_left(*{}) - {}", pv, l.counters[0]), "C05", "loop terminates"));
                    } else {
                        v.push(c("decreases", format!("q_left(*{})", pv), "C05", "loop terminates"));
                    }
                }
                loops.insert(li, v);
            }
            for g in ghosts {
                inside.insert(g, format!("let ghost __l{} = q_left(*{});", g, pv));
            }
        }
        if let Some(s) = sp {
            for c0 in &s.clauses {
                let mut c1 = c0.clone();
                c1.text = sub_lits(&c1.text, &mut x.int);
                if c1.text.contains("$a") {
                    for (i, n) in args.iter().enumerate() {
                        c1.text = c1.text.replace(&format!("$a{}", i), n);
                    }
                    if c1.text.contains("$a") {
                        why.push("anchor lost: parameter".into());
                        continue;
                    }
                }
                cl.push(c1);
            }
            for (k, v) in &s.loops {
                let info = a.and_then(|a| a.cfg.loops.get(*k));
                for c0 in v {
                    let mut c1 = c0.clone();
                    c1.text = sub_lits(&c1.text, &mut x.int);
                    if let Some((i, e)) = info.and_then(|i| i.idx.clone()) {
                        c1.text = c1.text.replace("$i", &i);
                        let vv = e.replace(" . len ()", "");
                        c1.text = c1.text.replace("$v", &vv).replace("$e", &e);
                    }
                    if let Some(Some(p)) = pushed.0.get(*k) {
                        c1.text = c1.text.replace("$p", p);
                    }
                    c1.text = rename_words(&c1.text, &renames);
                    loops.entry(*k).or_default().push(c1);
                }
            }
            top.push_str(&s.top);
            let rn = |m: &BTreeMap<usize, String>| m.iter().map(|(k, t)| (*k, rename_words(t, &renames))).collect::<BTreeMap<_, _>>();
            before = rn(&s.before);
            inside.extend(rn(&s.inside));
            after = rn(&s.after);
        }
        // lens top: the grammar functions are used through their contracts only
        let elsewhere = top_only && generic && f.pv().is_some() && key != "parse_code";
        let external = is_ext_spec || elsewhere || !why.is_empty();
        cl.retain(|c| kept(&c.tag));
        for v in loops.values_mut() {
            v.retain(|c| kept(&c.tag));
        }
        let groups_fn = if opfn { format!("{} proof {{ reveal(q_lvl); reveal(q_ilvl); }}", groups_use) } else { groups_use.clone() };
        emit_fn(&mut o, &f, &cl, &loops, &top, before, inside, after, external, complex, &groups_fn, kept("C05"));
        fmeta.push(json!({
            "key": key, "file": f.file, "src": [f.src_lines.0, f.src_lines.1],
            "out": [start, o.line], "loops": nl.0, "locals": lets.0,
            "status": if is_ext_spec { "extern" } else if elsewhere { "elsewhere" } else if why.is_empty() { "verified" } else { "unsupported" },
            "why": why, "hash": hash, "clauses": cl.len(), "module": format!("m{}", gi),
        }));
    }
    o.ln("}");
    }
    literals(&mut o, &mut x, false);
    let nol: Vec<String> = x.int.texts.iter().enumerate().filter(|(_, t)| !t.chars().any(|c| c.is_alphabetic())).map(|(i, _)| format!("i == {}", i)).collect();
    o.ln(&format!("spec fn q_nol(i: int) -> bool {{ {} }}", if nol.is_empty() { "false".into() } else { nol.join(" || ") }));
    o.ln(&format!("spec fn q_const(i: int) -> bool {{ 0 <= i < {} }}", x.int.texts.len()));
    o.ln("} // verus!");
    o.ln("fn main() {}");
    fs::write(out_rs, &o.s).unwrap();
    let tags: serde_json::Map<String, serde_json::Value> =
        o.tags.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1, v.2]))).collect();
    let srcm: serde_json::Map<String, serde_json::Value> =
        o.src.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    fs::write(
        out_json,
        serde_json::to_string(&json!({"tags": tags, "src": srcm, "fns": fmeta, "rules": x.rules, "keys": demand.iter().map(|(f, ks)| (f.clone(), ks.iter().map(|k| x.int.texts[*k].clone()).collect::<Vec<_>>())).collect::<BTreeMap<_,_>>()})).unwrap(),
    )
    .unwrap();
}

pub fn literals(o: &mut Out, x: &mut Extracted, chars: bool) {
    for (i, t) in x.int.texts.clone().iter().enumerate() {
        let u = x.int.id(&t.to_uppercase());
        let seq = if chars { format!(", r@ =~= seq![{}]", t.chars().map(|c| format!("{:?}", c)).collect::<Vec<_>>().join(", ")) } else { String::new() };
        let seq = if chars && t.is_empty() { ", r@.len() == 0".to_string() } else { seq };
        o.ln(&format!("#[verifier::external_body] fn lit_{}() -> (r: &'static str) ensures q_sid(r@) == {}, q_up({}) == {}{} {{ {:?} }}", i, i, i, u, seq, t));
    }
    for (k, ids) in x.vlits.iter().enumerate() {
        let ups: Vec<String> = ids
            .iter()
            .map(|i| {
                let t = x.int.texts[*i].to_uppercase();
                format!("y == {}", x.int.ids[&t])
            })
            .collect();
        let cond = if ups.is_empty() { "false".to_string() } else { ups.join(" || ") };
        let upper = chars && ids.iter().all(|i| x.int.texts[*i].to_uppercase() == x.int.texts[*i]);
        let up = if upper { ", forall|i: int| 0 <= i < r@.len() ==> q_up(q_sid(#[trigger] r@[i]@)) == q_sid(r@[i]@)" } else { "" };
        // a long constant table: its contents are read off by the extractor (trusted)
        let long = ids.len() > 24;
        if long {
            o.ln("#[verifier::external_body]");
        }
        o.ln(&format!("fn vlits_{}() -> (r: Vec<&'static str>) ensures forall|y: int| #![trigger q_inset(y, r@)] q_inset(y, r@) == ({}){} {{", k, cond, up));
        o.ln("    let mut v = Vec::new();");
        for i in ids {
            o.ln(&format!("    v.push(lit_{}());", i));
        }
        if long {
            o.ln("    v }");
            continue;
        }
        o.ln("    proof { reveal(q_inset);");
        for i in 0..ids.len() {
            o.ln(&format!("      assert(q_up(q_sid(v@[{0}]@)) == q_up({1}));", i, ids[i]));
        }
        o.ln("    } v }");
    }
}

fn modified_in_loop(a: &FnAnalysis, l: &LoopInfo, v: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut w = vec![l.head];
    while let Some(k) = w.pop() {
        if Some(k) == l.after || !seen.insert(k) {
            continue;
        }
        match &a.cfg.n[k].i {
            I::Assign(x, _) | I::Push(x, _, _) | I::VecPush(x, _) if *x == v => return true,
            I::Assign(_, rs) if rs.iter().any(|r| matches!(r, Rv::Elem(x) if *x == v)) => return true,
            _ => {}
        }
        w.extend(a.cfg.n[k].succ.iter());
    }
    false
}
/// no path from the entry to node k moves the cursor
fn unmoved(a: &FnAnalysis, k: usize, fns: &BTreeMap<String, FnInfo>) -> bool {
    let mut back = BTreeSet::new();
    let mut w = vec![k];
    while let Some(k) = w.pop() {
        if !back.insert(k) {
            continue;
        }
        match &a.cfg.n[k].i {
            I::Next => return false,
            I::Call(c, _) if fns.get(c).map(|f| f.mutating()).unwrap_or(false) => return false,
            _ => {}
        }
        for (j, n) in a.cfg.n.iter().enumerate() {
            if n.succ.contains(&k) {
                w.push(j);
            }
        }
    }
    true
}
fn loop_moves(a: &FnAnalysis, l: &LoopInfo, fns: &BTreeMap<String, FnInfo>) -> bool {
    // nodes on a cycle through head: reachable from head without passing
    // `after`, and from which head is reachable again
    let mut back = BTreeSet::new();
    let mut w = vec![l.head];
    while let Some(k) = w.pop() {
        if !back.insert(k) {
            continue;
        }
        for (j, n) in a.cfg.n.iter().enumerate() {
            if n.succ.contains(&k) {
                w.push(j);
            }
        }
    }
    let mut seen = BTreeSet::new();
    let mut w = vec![l.head];
    while let Some(k) = w.pop() {
        if Some(k) == l.after || !back.contains(&k) || !seen.insert(k) {
            continue;
        }
        match &a.cfg.n[k].i {
            I::Next => return true,
            I::Call(c, _) => {
                if fns.get(c).map(|f| f.mutating()).unwrap_or(false) {
                    return true;
                }
            }
            _ => {}
        }
        w.extend(a.cfg.n[k].succ.iter());
    }
    false
}

#[allow(clippy::too_many_arguments)]
pub fn emit_fn(
    o: &mut Out,
    f: &FnInfo,
    cl: &[Clause],
    loops: &BTreeMap<usize, Vec<Clause>>,
    top: &str,
    before: BTreeMap<usize, String>,
    inside: BTreeMap<usize, String>,
    after: BTreeMap<usize, String>,
    external: bool,
    complex: bool,
    groups_use: &str,
    total: bool,
) {
    let mut sig = f.item.sig.clone();
    let mut body = (*f.item.block).clone();
    let needs_complex = complex || loops.values().flatten().any(|c| c.kind == "ensures" || c.kind == "invariant_except_break");
    let mut shadow: Vec<Stmt> = vec![];
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.is_some() {
                    i.mutability = None;
                    let id = &i.ident;
                    shadow.push(parse_quote!(let mut #id = #id;));
                }
            }
        }
    }
    if !f.owner.is_empty() {
        o.ln(&format!("impl {} {{", f.owner));
    }
    if external {
        o.ln("#[verifier::external_body]");
    } else {
        o.ln("#[verifier::loop_isolation(false)]");
        if needs_complex {
            o.ln("#[verifier::allow_complex_invariants]");
        }
        o.ln("#[verifier::rlimit(400)]");
        if !total {
            o.ln("#[verifier::exec_allows_no_decreases_clause]");
        }
    }
    let out = std::mem::replace(&mut sig.output, ReturnType::Default);
    o.raw("pub(crate) ");
    o.tokens(sig.to_token_stream(), &BTreeMap::new(), &f.name);
    if let ReturnType::Type(_, t) = &out {
        let t = t.to_token_stream().to_string();
        let t = if t == "Self" { f.owner.clone() } else { t };
        o.raw(&format!(" -> (r: {})", t));
    }
    o.nl();
    o.clauses(cl, &f.name);
    if external {
        o.ln("{ unimplemented!() }");
    } else {
        let mut m = Mark { n: 0, before, inside, after };
        m.visit_block_mut(&mut body);
        let none = BTreeMap::new();
        cut_big(&mut body, if needs_complex { &none } else { loops }, groups_use);
        if f.owner != "Node" && f.owner != "Token" {
            Access(BTreeSet::new()).visit_block_mut(&mut body);
        }
        TryMatch.visit_block_mut(&mut body);
        let mut stmts: Vec<Stmt> = vec![parse_quote!(__raw!(#groups_use);)];
        if !top.is_empty() {
            stmts.push(parse_quote!(__raw!(#top);));
        }
        stmts.extend(shadow);
        stmts.extend(body.stmts);
        body.stmts = stmts;
        o.tokens(body.to_token_stream(), loops, &f.name);
    }
    if !f.owner.is_empty() {
        o.ln("}");
    }
}
