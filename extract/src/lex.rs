//! The tokenizer lens: contracts from specs/lexer.spec on the functions of
//! lexer.rs and token.rs; helpers without a contract are inlined (L20).
use crate::emit::*;
use crate::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};

/// `def NAME .. enddef` / `apply NAME args` of the spec file
pub fn preprocess(text: &str) -> String {
    let mut defs: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut out = String::new();
    let mut cur: Option<(String, Vec<String>)> = None;
    fn put(l: &str, defs: &BTreeMap<String, Vec<String>>, out: &mut String) {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("apply ") {
            let (n, a) = r.split_once(' ').unwrap_or((r, ""));
            for d in defs.get(n).unwrap_or_else(|| panic!("no def {}", n)) {
                put(&d.replace("$1", a), defs, out);
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    for l in text.lines() {
        let t = l.trim();
        if let Some(n) = t.strip_prefix("def ") {
            cur = Some((n.to_string(), vec![]));
        } else if t == "enddef" {
            let (n, v) = cur.take().unwrap();
            defs.insert(n, v);
        } else if let Some((_, v)) = cur.as_mut() {
            v.push(l.to_string());
        } else {
            put(l, &defs, &mut out);
        }
    }
    out
}

// ---------------------------------------------------------------- inlining
pub struct Inline<'a> {
    pub fns: &'a BTreeMap<String, FnInfo>,
    pub helpers: &'a BTreeSet<String>,
    pub bad: Vec<String>,
    pub done: usize,
    pub depth: usize,
}
struct Flow {
    tries: bool,
    ret_err: bool,
    ret_other: bool,
}
impl<'a> Visit<'a> for Flow {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Try(_) => self.tries = true,
            Expr::Return(r) => match r.expr.as_deref() {
                Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => self.ret_err = true,
                _ => self.ret_other = true,
            },
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
/// tail `Ok(e)` -> `e` through ifs, matches and blocks
fn unok(b: &mut Block) -> bool {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => unok_expr(e),
        Some(Stmt::Expr(Expr::Return(_), Some(_))) => true,
        _ => false,
    }
}
fn unok_expr(e: &mut Expr) -> bool {
    match e {
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 => {
            let x = c.args[0].clone();
            *e = x;
            true
        }
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => {
            let x = e.clone();
            *e = parse_quote!(return #x);
            true
        }
        Expr::Return(r) => matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err"))),
        Expr::If(i) => i.else_branch.is_some() && unok(&mut i.then_branch) && unok_expr(&mut i.else_branch.as_mut().unwrap().1),
        Expr::Block(b) => unok(&mut b.block),
        Expr::Match(m) => m.arms.iter_mut().all(|a| unok_expr(&mut a.body)),
        // another Result: propagate it
        Expr::MethodCall(_) | Expr::Macro(_) => {
            let x = e.clone();
            *e = parse_quote!(#x?);
            true
        }
        _ => false,
    }
}
impl<'a> Inline<'a> {
    fn callee(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                let n = m.method.to_string();
                if self.helpers.contains(&n) {
                    return Some((n, m.args.iter().cloned().collect()));
                }
                None
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let own = p.path.segments.len() == 1 || matches!(p.path.segments[0].ident.to_string().as_str(), "Self" | "Lexer" | "Parser");
                    if own && self.helpers.contains(&n) {
                        return Some((n, c.args.iter().cloned().collect()));
                    }
                    None
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn expand(&mut self, n: &str, args: Vec<Expr>, mode: u8) -> Option<Expr> {
        // mode 0: value, 1: under `?`, 2: tail of the function
        let f = &self.fns[n];
        if !f.unsupported.is_empty() || self.depth > 6 || !f.item.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return None;
        }
        let mut fl = Flow { tries: false, ret_err: false, ret_other: false };
        fl.visit_block(&f.item.block);
        let mut b = (*f.item.block).clone();
        match mode {
            0 => {
                if fl.tries || fl.ret_err || fl.ret_other {
                    return None;
                }
            }
            1 => {
                if fl.ret_other || !unok(&mut b) {
                    return None;
                }
            }
            _ => {}
        }
        let params: Vec<(Pat, Type)> = f
            .item
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        self.depth += 1;
        self.done += 1;
        let k = self.done;
        if mode == 2 {
            self.tail_block(&mut b);
        }
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        let mut st: Vec<Stmt> = vec![];
        for (i, a) in args.iter().enumerate() {
            let id = Ident::new(&format!("__a{}_{}", k, i), proc_macro2::Span::call_site());
            st.push(parse_quote!(let #id = #a;));
        }
        for (i, (p, t)) in params.iter().enumerate() {
            let id = Ident::new(&format!("__a{}_{}", k, i), proc_macro2::Span::call_site());
            st.push(parse_quote!(let #p: #t = #id;));
        }
        st.extend(b.stmts);
        Some(parse_quote!({ #(#st)* }))
    }
    pub fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        if let Some((n, a)) = self.callee(e) {
            match self.expand(&n, a, 2) {
                Some(x) => *e = x,
                None => self.bad.push(n),
            }
            return;
        }
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = i.else_branch.as_mut() {
                    self.tail(x);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            _ => {}
        }
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = r.expr.as_mut() {
                self.tail(x);
            }
        }
        if let Expr::Try(t) = e {
            if let Some((n, a)) = self.callee(&t.expr) {
                match self.expand(&n, a, 1) {
                    Some(x) => {
                        *e = x;
                        return;
                    }
                    None => self.bad.push(n),
                }
                return;
            }
        }
        if let Some((n, a)) = self.callee(e) {
            match self.expand(&n, a, 0) {
                Some(x) => {
                    *e = x;
                    return;
                }
                None => self.bad.push(n),
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// a loop statement gets a `;` where a block follows (the verifier's parser needs it)
struct Semi;
impl VisitMut for Semi {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for i in 0..b.stmts.len().saturating_sub(1) {
            let next = matches!(&b.stmts[i + 1], Stmt::Expr(Expr::Block(_), _));
            if let Stmt::Expr(Expr::While(_) | Expr::Loop(_), semi @ None) = &mut b.stmts[i] {
                if next {
                    *semi = Some(Default::default());
                }
            }
        }
    }
}
/// L21: a returned `&Token` is returned by value (the reference is only read)
struct OwnTok;
impl VisitMut for OwnTok {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if r.mutability.is_none() && r.elem.to_token_stream().to_string() == "Token" {
                *t = parse_quote!(Token);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
/// proof text before calls
struct OnCall<'a>(&'a [(String, String, String, String)], usize);
impl<'a> VisitMut for OnCall<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if self.0.iter().any(|(a, ..)| *a == n) {
                self.1 += 1;
                let k = self.1;
                let mut st: Vec<Stmt> = vec![];
                let mut ids = vec![];
                for (i, a) in m.args.iter().enumerate() {
                    let id = Ident::new(&format!("__c{}_{}", k, i + 1), proc_macro2::Span::call_site());
                    st.push(parse_quote!(let #id = #a;));
                    ids.push(id);
                }
                for (a, t, tag, desc) in self.0 {
                    if *a == n {
                        let mut t = t.clone();
                        for (i, id) in ids.iter().enumerate() {
                            t = t.replace(&format!("${}", i + 1), &id.to_string());
                        }
                        let t = format!("\u{1}{}\u{1}{}\u{1}{}", tag, desc, t);
                        st.push(parse_quote!(__raw!(#t);));
                    }
                }
                let r = &m.receiver;
                let f = &m.method;
                *e = parse_quote!({ #(#st)* #r.#f(#(#ids),*) });
            }
        }
    }
}
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == "self" {
            *i = Ident::new("self__", i.span());
        }
    }
}
struct Anchors(Vec<(String, String)>);
impl<'a> Visit<'a> for Anchors {
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            self.0.push((i.ident.to_string(), init.expr.to_token_stream().to_string().replace(' ', "")));
        }
        if let (Pat::Type(t), Some(init)) = (&l.pat, &l.init) {
            if let Pat::Ident(i) = &*t.pat {
                self.0.push((i.ident.to_string(), init.expr.to_token_stream().to_string().replace(' ', "")));
            }
        }
        syn::visit::visit_local(self, l);
    }
}
/// per loop: index variable and bound of a lowered for loop
#[derive(Default)]
struct Loops(Vec<Option<(String, String)>>);
impl<'a> Visit<'a> for Loops {
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        let mut r = None;
        if let Expr::Binary(b) = &*w.cond {
            let l = b.left.to_token_stream().to_string();
            if l.starts_with("__i") && matches!(b.op, BinOp::Lt(_)) {
                r = Some((l, b.right.to_token_stream().to_string()));
            }
        }
        self.0.push(r);
        syn::visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
        self.0.push(None);
        syn::visit::visit_expr_loop(self, w);
    }
}

pub fn lexer_lens(src: &str, specdir: &str, out_rs: &str, out_json: &str, ext: &[String], files: &[&str], specfile: &str, preludefile: &str, keep: &[&str]) {
    let kept = |t: &str| t.is_empty() || keep.contains(&t);
    let groups_use = "broadcast use group_lex;".to_string();
    let mut x = extract(src, files, true);
    let spec = parse_spec(&preprocess(&fs::read_to_string(format!("{}/{}", specdir, specfile)).unwrap()));
    let prelude = preludefile.split('+').map(|p| fs::read_to_string(format!("{}/{}", specdir, p)).unwrap()).collect::<Vec<_>>().join("\n");
    let helpers: BTreeSet<String> = x.order.iter().filter(|k| !spec.contains_key(*k) && !k.contains("::")).cloned().collect();
    let mut o = Out::new();
    o.ln("#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_labels)]");
    o.ln("use vstd::prelude::*;");
    o.ln("verus! {");
    o.ln("type BQ2CSTResult<T> = Result<T, BQ2CSTError>;");
    for (name, it) in x.types.clone().iter() {
        let mut it = it.clone();
        strip_vis_struct(&mut it);
        o.ln(&it.to_token_stream().to_string());
        if name == "Token" {
            o.ln("impl Token { #[verifier::external_body] fn clone(&self) -> (r: Token) ensures r == *self { unimplemented!() } }");
        }
    }
    for l in prelude.lines() {
        let l = sub_lits(l, &mut x.int);
        if let Some(p) = l.find("//@") {
            let t = l[p + 3..].trim();
            let (a, b) = t.split_once(' ').unwrap_or((t, ""));
            if !kept(a) {
                continue;
            }
            o.tags.insert(o.line, (a.into(), b.into(), "prelude".into()));
        }
        o.ln(&l);
    }
    let order: Vec<String> = x.order.iter().filter(|k| spec.get(*k).map(|s| s.kind != "drop").unwrap_or(false)).cloned().collect();
    for gi in 0..order.len() {
        o.ln(&format!("use m{}::*;", gi));
    }
    let mut fmeta = vec![];
    let fns = x.fns.clone();
    for (gi, key) in order.iter().enumerate() {
        o.ln(&format!("mod m{} {{", gi));
        o.ln("use super::*;");
        let mut f = fns[key].clone();
        let s = &spec[key];
        let start = o.line;
        let mut why: Vec<String> = f.unsupported.clone();
        if ext.contains(key) {
            why.push("rejected by the verifier front end".into());
        }
        let mut inl = Inline { fns: &fns, helpers: &helpers, bad: vec![], done: 0, depth: 0 };
        inl.tail_block(&mut f.item.block);
        inl.visit_block_mut(&mut f.item.block);
        for b in inl.bad {
            why.push(format!("calls `{}`, which has no contract and cannot be inlined", b));
        }
        *x.rules.entry("L20-inlined-helper".into()).or_insert(0) += inl.done;
        Semi.visit_block_mut(&mut f.item.block);
        if let ReturnType::Type(_, t) = &mut f.item.sig.output {
            let was = t.to_token_stream().to_string().replace(' ', "");
            OwnTok.visit_type_mut(t);
            if was == "&Token" {
                if let Some(Stmt::Expr(e, None)) = f.item.block.stmts.last_mut() {
                    *e = parse_quote!(Token::clone(#e));
                }
            }
            if was.contains("&Token") {
                *x.rules.entry("L21-returned-ref".into()).or_insert(0) += 1;
            }
        }
        let mut an = Anchors(vec![]);
        an.visit_block(&f.item.block);
        let mut subst: Vec<(String, String)> = vec![];
        for (n, init) in &s.anchors {
            match an.0.iter().find(|(_, t)| t == &init.replace(' ', "")) {
                Some((v, _)) => subst.push((format!("${}", n), v.clone())),
                None => why.push(format!("anchor lost: no local initialised with `{}`", init)),
            }
        }
        let byval = matches!(f.item.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some());
        if byval {
            if let Some(FnArg::Receiver(r)) = f.item.sig.inputs.first_mut() {
                r.mutability = None;
            }
            RenameSelf.visit_block_mut(&mut f.item.block);
            f.item.block.stmts.insert(0, parse_quote!(let mut self__ = self;));
            subst.push(("$self".into(), "self__".into()));
        } else {
            subst.push(("$self".into(), "(*self)".into()));
        }
        let mut lp = Loops::default();
        lp.visit_block(&f.item.block);
        let want = s.loops.keys().max().map(|m| m + 1).unwrap_or(0);
        if want != lp.0.len() && s.kind == "fn" {
            why.push(format!("anchor lost: {} loops expected, {} found", want, lp.0.len()));
        }
        let mut fill = |t: &str, k: Option<usize>, int: &mut Interner| {
            let mut t = sub_lits(t, int);
            for (a, b) in &subst {
                t = t.replace(a.as_str(), b);
            }
            if let Some(Some((i, e))) = k.and_then(|k| lp.0.get(k)) {
                t = t.replace("$v", &e.replace(" . len ()", "")).replace("$e", e);
                t = t.replace("$i ", &format!("{} ", i)).replace("$i,", &format!("{},", i)).replace("$i)", &format!("{})", i)).replace("$i]", &format!("{}]", i));
                if t.ends_with("$i") {
                    t = format!("{}{}", &t[..t.len() - 2], i);
                }
            }
            t
        };
        let mut cl: Vec<Clause> = vec![];
        for c0 in &s.clauses {
            let mut c = c0.clone();
            c.text = fill(&c.text, None, &mut x.int);
            cl.push(c);
        }
        let mut loops: BTreeMap<usize, Vec<Clause>> = BTreeMap::new();
        for (k, v) in &s.loops {
            for c0 in v {
                let mut c = c0.clone();
                c.text = fill(&c.text, Some(*k), &mut x.int);
                loops.entry(*k).or_default().push(c);
            }
        }
        let mut hint = |m: &BTreeMap<usize, String>| m.iter().map(|(k, t)| (*k, fill(t, Some(*k), &mut x.int))).collect::<BTreeMap<_, _>>();
        let (before, inside, after) = (hint(&s.before), hint(&s.inside), hint(&s.after));
        let top = fill(&s.top, None, &mut x.int);
        let is_ext = s.kind == "extern";
        let oc: Vec<_> = s.oncall.iter().filter(|c| kept(&c.2)).map(|c| (c.0.clone(), fill(&c.1, None, &mut x.int), c.2.clone(), c.3.clone())).collect();
        OnCall(&oc, 0).visit_block_mut(&mut f.item.block);
        cl.retain(|c| kept(&c.tag));
        for v in loops.values_mut() {
            v.retain(|c| kept(&c.tag));
        }
        emit_fn(&mut o, &f, &cl, &loops, &top, before, inside, after, is_ext || !why.is_empty(), false, &groups_use, true);
        fmeta.push(json!({
            "key": key, "file": f.file, "src": [f.src_lines.0, f.src_lines.1],
            "out": [start, o.line], "loops": lp.0.len(),
            "status": if is_ext { "extern" } else if why.is_empty() { "verified" } else { "unsupported" },
            "why": why, "clauses": cl.len() + loops.values().map(|v| v.len()).sum::<usize>(), "module": format!("m{}", gi),
        }));
        o.ln("}");
    }
    literals(&mut o, &mut x, true);
    o.ln("} // verus!");
    o.ln("fn main() {}");
    fs::write(out_rs, &o.s).unwrap();
    let tags: serde_json::Map<String, serde_json::Value> = o.tags.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1, v.2]))).collect();
    let srcm: serde_json::Map<String, serde_json::Value> = o.src.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    fs::write(out_json, serde_json::to_string(&json!({"tags": tags, "src": srcm, "fns": fmeta, "rules": x.rules, "keys": {}})).unwrap()).unwrap();
}
