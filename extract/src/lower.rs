//! Mechanical lowering of Rust constructs Verus does not accept into
//! equivalent ones it does.  Every rule is listed in DESIGN.md (L1..Ln).
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Interner {
    pub ids: BTreeMap<String, usize>,
    pub texts: Vec<String>,
}
impl Interner {
    pub fn id(&mut self, s: &str) -> usize {
        if let Some(i) = self.ids.get(s) {
            return *i;
        }
        // 0 is reserved for the empty string
        if self.texts.is_empty() && !s.is_empty() {
            self.id("");
        }
        let i = self.texts.len();
        self.texts.push(s.to_string());
        self.ids.insert(s.to_string(), i);
        i
    }
}

pub struct Lower<'a> {
    pub int: &'a mut Interner,
    pub unsupported: Vec<String>,
    pub rules: BTreeMap<String, usize>,
    pub counter: usize,
    /// names of locals known to be char iterators
    pub chariters: Vec<String>,
    /// names of by-reference Vec/array params or consts iterable by reference
    pub refvecs: Vec<String>,
    pub lexer: bool,
    pub vlits: &'a mut Vec<Vec<usize>>,
    /// constant tables of strings
    pub tables: &'a BTreeMap<String, usize>,
    /// locals holding an owned String
    pub owned: Vec<String>,
    /// locals holding an Option<char>
    pub optchars: Vec<String>,
}

/// string patterns without any letter: comparing with them does not look at letter case
fn letterless(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => !s.value().chars().any(|c| c.is_alphabetic()),
        Pat::Or(o) => o.cases.iter().all(letterless),
        Pat::Paren(x) => letterless(&x.pat),
        Pat::Wild(_) => true,
        _ => false,
    }
}
/// L22 (lens cas): first or last character compared with a character that is no letter
pub struct CharIs;
impl VisitMut for CharIs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        let ne = matches!(b.op, BinOp::Ne(_));
        if !ne && !matches!(b.op, BinOp::Eq(_)) {
            return;
        }
        fn ch(e: &Expr) -> Option<LitChar> {
            match strip(e) {
                Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) if !c.value().is_alphabetic() => Some(c.clone()),
                Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => ch(&c.args[0]),
                _ => None,
            }
        }
        fn src(e: &Expr) -> Option<(Ident, Expr)> {
            match strip(e) {
                Expr::MethodCall(m) if m.method == "unwrap" => src(&m.receiver),
                Expr::Call(c) if c.args.len() == 1 => match &*c.func {
                    Expr::Path(p) if p.path.is_ident("str_first") => Some((Ident::new("str_first_is", Span::call_site()), c.args[0].clone())),
                    Expr::Path(p) if p.path.is_ident("str_last") => Some((Ident::new("str_last_is", Span::call_site()), c.args[0].clone())),
                    _ => None,
                },
                _ => None,
            }
        }
        let r = match (src(&b.left), ch(&b.right), src(&b.right), ch(&b.left)) {
            (Some(x), Some(c), _, _) => (x, c),
            (_, _, Some(x), Some(c)) => (x, c),
            _ => return,
        };
        let ((f, a), c) = r;
        *e = if ne { parse_quote!((!#f(#a, #c))) } else { parse_quote!(#f(#a, #c)) };
    }
}

fn is_str_lit(e: &Expr) -> Option<String> {
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
        Some(s.value())
    } else {
        None
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Sk {
    Str,
    Owned,
    No,
}
fn stringy(e: &Expr) -> Sk {
    let e = strip(e);
    if is_str_lit(e).is_some() {
        return Sk::Str;
    }
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "to_uppercase" | "to_lowercase" | "to_string" | "to_owned" | "to_ascii_uppercase"
            | "to_ascii_lowercase" => Sk::Owned,
            "as_str" | "trim" | "trim_end" | "trim_start" => Sk::Str,
            "clone" => stringy(&m.receiver),
            _ => Sk::No,
        },
        Expr::Field(f) => {
            if let Member::Named(n) = &f.member {
                if n == "literal" {
                    return Sk::Owned;
                }
            }
            Sk::No
        }
        Expr::Reference(r) => {
            let s = stringy(&r.expr);
            if s == Sk::No {
                Sk::No
            } else {
                Sk::Str
            }
        }
        _ => Sk::No,
    }
}
fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        Pat::Paren(p) => pat_has_str(&p.pat),
        _ => false,
    }
}

impl<'a> Lower<'a> {
    fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
    fn lit(&mut self, s: &str) -> Expr {
        let id = self.int.id(s);
        let f = Ident::new(&format!("lit_{}", id), Span::call_site());
        self.rule("L1-string-literal");
        parse_quote!(#f())
    }
    fn pat(&mut self, p: &mut Pat) {
        match p {
            Pat::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    let id = self.int.id(&s.value());
                    let up = self.int.id(&s.value().to_uppercase());
                    let _ = up;
                    let li = LitInt::new(&format!("{}usize", id), s.span());
                    l.lit = Lit::Int(li);
                }
            }
            Pat::Or(o) => {
                for c in o.cases.iter_mut() {
                    self.pat(c)
                }
            }
            Pat::Paren(p) => self.pat(&mut p.pat),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                // binding of the whole string in a string match
                self.unsupported.push("binding pattern in string match".into());
            }
            _ => {}
        }
    }
    fn asref(&mut self, e: &Expr) -> Expr {
        if let Expr::Path(p) = strip(e) {
            if self.owned.contains(&p.path.to_token_stream().to_string()) {
                return parse_quote!(#e.as_str());
            }
        }
        match stringy(e) {
            Sk::Owned => parse_quote!(#e.as_str()),
            _ => e.clone(),
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.counter += 1;
        Ident::new(&format!("__{}{}", p, self.counter), Span::call_site())
    }
    fn lower_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        type Args = Punctuated<Expr, Token![,]>;
        match name.as_str() {
            "vec" => {
                if let Ok(args) = mac.parse_body_with(Args::parse_terminated) {
                    self.rule("L5-vec-macro");
                    if args.is_empty() {
                        return Some(parse_quote!(Vec::new()));
                    }
                    if args.iter().all(|a| is_str_lit(strip(a)).is_some()) {
                        let ids: Vec<usize> = args
                            .iter()
                            .map(|a| {
                                let t = is_str_lit(strip(a)).unwrap();
                                self.int.id(&t.to_uppercase());
                                self.int.id(&t)
                            })
                            .collect();
                        let k = match self.vlits.iter().position(|v| *v == ids) {
                            Some(k) => k,
                            None => {
                                self.vlits.push(ids);
                                self.vlits.len() - 1
                            }
                        };
                        let f = Ident::new(&format!("vlits_{}", k), Span::call_site());
                        return Some(parse_quote!(#f()));
                    }
                    let v = self.fresh("v");
                    let pushes = args.iter();
                    return Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#pushes);)* #v }));
                }
                None
            }
            "format" => {
                if let Ok(args) = mac.parse_body_with(Args::parse_terminated) {
                    self.rule("L4-format-macro");
                    let rest: Vec<&Expr> = args.iter().skip(1).collect();
                    let ids: Vec<Ident> = rest.iter().map(|_| self.fresh("f")).collect();
                    return Some(parse_quote!({ #(let #ids = #rest;)* fmt_opaque() }));
                }
                None
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rule("L6-panic");
                Some(parse_quote!(panic_here()))
            }
            "assert" => {
                if let Ok(args) = mac.parse_body_with(Args::parse_terminated) {
                    let c = args.first()?;
                    self.rule("L6-panic");
                    return Some(parse_quote!({ if !(#c) { panic_here() } }));
                }
                None
            }
            "matches" => {
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl syn::parse::Parse for M {
                    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
                        let e = input.parse()?;
                        input.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(Token![if]) {
                            input.parse::<Token![if]>()?;
                            Some(input.parse()?)
                        } else {
                            None
                        };
                        let _ = input.parse::<Option<Token![,]>>()?;
                        Ok(M { e, p, g })
                    }
                }
                let m: M = mac.parse_body().ok()?;
                self.rule("L7-matches-macro");
                let (e, p) = (m.e, m.p);
                Some(match m.g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            _ => None,
        }
    }
    fn lower_for(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let label = &f.label;
        let pat = &f.pat;
        let body = &f.body.stmts;
        let mut iter = strip(&f.expr).clone();
        let i = self.fresh("i");
        self.rule("L8-for-loop");
        if let Expr::Range(r) = &iter {
            let a = r.start.as_ref()?;
            let b = r.end.as_ref()?;
            let e = self.fresh("e");
            let bind: TokenStream = match &**pat {
                Pat::Wild(_) => quote!(),
                p => quote!(let #p = #i;),
            };
            let cond: Expr = match r.limits {
                RangeLimits::HalfOpen(_) => parse_quote!(#i < #e),
                RangeLimits::Closed(_) => return None,
            };
            return Some(parse_quote!({
                let mut #i = #a; let #e = #b;
                #label while #cond { #bind #i += 1; #(#body)* }
            }));
        }
        let mut byref = false;
        if let Expr::MethodCall(m) = &iter {
            if m.method == "iter" && m.args.is_empty() {
                byref = true;
                let r = &*m.receiver;
                iter = parse_quote!(&#r);
            }
        }
        if let Expr::Reference(r) = &iter {
            if r.mutability.is_none() {
                byref = true;
            }
        }
        if let Expr::Path(p) = &iter {
            let n = p.path.to_token_stream().to_string();
            if self.refvecs.contains(&n) {
                byref = true;
            }
            if self.chariters.contains(&n) {
                return Some(parse_quote!(
                    #label loop { match #iter.next() { Some(#pat) => { #(#body)* }, None => break } }
                ));
            }
        }
        if byref {
            let v = self.fresh("r");
            return Some(parse_quote!({
                let #v = #iter; let mut #i: usize = 0;
                #label while #i < #v.len() { let #pat = &#v[#i]; #i += 1; #(#body)* }
            }));
        }
        None
    }
    /// `loop { if C { break; } S }` with no other break -> `while !C { S }`
    fn lower_loop(&mut self, l: &ExprLoop) -> Option<Expr> {
        let (first, rest) = l.body.stmts.split_first()?;
        let i = match first {
            Stmt::Expr(Expr::If(i), _) => i,
            _ => return None,
        };
        let only_break = |b: &Block| b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(k), _) if k.expr.is_none() && (k.label.is_none() || k.label == l.label.as_ref().map(|x| x.name.clone())));
        if !only_break(&i.then_branch) || matches!(&*i.cond, Expr::Let(_)) {
            return None;
        }
        struct B(usize, bool);
        impl<'a> syn::visit::Visit<'a> for B {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                        self.0 += 1;
                        syn::visit::visit_expr(self, e);
                        self.0 -= 1;
                    }
                    Expr::Break(k) if self.0 == 0 || k.label.is_some() => self.1 = true,
                    _ => syn::visit::visit_expr(self, e),
                }
            }
        }
        let mut v = B(0, false);
        for s in rest {
            syn::visit::Visit::visit_stmt(&mut v, s);
        }
        let mut body: Vec<Stmt> = vec![];
        if let Some((_, e)) = &i.else_branch {
            syn::visit::Visit::visit_expr(&mut v, e);
            match &**e {
                Expr::Block(b) => body.extend(b.block.stmts.iter().cloned()),
                e => body.push(Stmt::Expr(e.clone(), None)),
            }
        }
        if v.1 {
            return None;
        }
        body.extend(rest.iter().cloned());
        self.rule("L19-loop-break");
        let (c, lab) = (&i.cond, &l.label);
        Some(parse_quote!(#lab while !(#c) { #(#body)* }))
    }
    /// `X.children.keys().any(|k| k == "a" || ...)`
    fn lower_keys_any(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "any" || m.args.len() != 1 {
            return None;
        }
        let keys = match strip(&m.receiver) {
            Expr::MethodCall(k) if k.method == "keys" => k,
            _ => return None,
        };
        let map = &*keys.receiver;
        let cl = match strip(&m.args[0]) {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let kname = match &cl.inputs[0] {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => return None,
            },
            _ => return None,
        };
        fn disj(e: &Expr, k: &str, map: &Expr) -> Option<Expr> {
            match strip(e) {
                Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                    Stmt::Expr(e, None) => disj(e, k, map),
                    _ => None,
                },
                Expr::Binary(b) => match b.op {
                    BinOp::Or(_) => {
                        let l = disj(&b.left, k, map)?;
                        let r = disj(&b.right, k, map)?;
                        Some(parse_quote!((#l || #r)))
                    }
                    BinOp::Eq(_) => {
                        let (a, c) = (strip(&b.left), strip(&b.right));
                        fn base(e: &Expr) -> &Expr {
                            match strip(e) {
                                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => base(&u.expr),
                                Expr::MethodCall(m) if m.method == "as_str" => base(&m.receiver),
                                e => e,
                            }
                        }
                        let isk = |e: &Expr| base(e).to_token_stream().to_string() == k;
                        let lit = if isk(a) {
                            c
                        } else if isk(c) {
                            a
                        } else {
                            return None;
                        };
                        is_str_lit(base(lit))?;
                        let lit = base(lit);
                        if let Expr::Field(f) = strip(map) {
                            if f.member.to_token_stream().to_string() == "children" {
                                let b = &f.base;
                                return Some(parse_quote!(#b.has_child(#lit)));
                            }
                        }
                        Some(parse_quote!(#map.contains_key(#lit)))
                    }
                    _ => None,
                },
                _ => None,
            }
        }
        let r = disj(&cl.body, &kname, map)?;
        self.rule("L10-keys-any");
        Some(r)
    }
    /// lexer lens: std calls on characters, slices and options
    fn lex_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = strip(&m.receiver);
        const CH: [&str; 13] = ["len_utf8", "len_utf16", "is_ascii", "is_ascii_whitespace", "is_control", "is_digit", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_whitespace", "is_alphabetic", "is_numeric", "is_alphanumeric"];
        let args = &m.args;
        let on_token = name == "is_numeric" && matches!(recv, Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("token"));
        if CH.contains(&name.as_str()) && (args.is_empty() || name == "is_digit") && !on_token {
            self.rule("L16-char-class");
            let f = Ident::new(&format!("x_{}", name), Span::call_site());
            return Some(parse_quote!(#recv.#f(#args)));
        }
        if name == "to_string" && args.is_empty() {
            self.rule("L16-to-string");
            return Some(parse_quote!(#recv.x_to_string()));
        }
        if name == "trim_end" && args.is_empty() {
            self.rule("L16-trim");
            return Some(parse_quote!(str_trim_end(#recv.as_str())));
        }
        if name == "collect" && args.is_empty() {
            if let Expr::MethodCall(c) = recv {
                if c.method == "chars" {
                    let r = strip(&c.receiver);
                    self.rule("L16-collect");
                    return Some(parse_quote!(str_to_chars(#r.as_str())));
                }
                let mut b = c;
                loop {
                    match b.method.to_string().as_str() {
                        "copied" | "cloned" => match strip(&b.receiver) {
                            Expr::MethodCall(x) => b = x,
                            _ => return None,
                        },
                        _ => break,
                    }
                }
                if b.method == "into_iter" || b.method == "iter" {
                    let mut r = strip(&b.receiver);
                    if let Expr::Reference(x) = r {
                        r = strip(&x.expr);
                    }
                    if let Expr::Index(ix) = r {
                        if let Expr::Range(rg) = strip(&ix.index) {
                            if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                                let v = &ix.expr;
                                let a: Expr = match &rg.start { Some(a) => *a.clone(), None => parse_quote!(0) };
                                let e: Expr = match &rg.end { Some(e) => *e.clone(), None => parse_quote!(#v.len()) };
                                self.rule("L16-collect");
                                return Some(parse_quote!(slice_str(&#v, #a, #e)));
                            }
                        }
                    }
                }
            }
        }
        // opt.is_some_and(|t| E) / opt.map_or(false, |t| E)
        let (cl, dflt): (Option<&Expr>, bool) = match name.as_str() {
            "is_some_and" if args.len() == 1 => (Some(&args[0]), false),
            "is_none_or" if args.len() == 1 => (Some(&args[0]), true),
            "map_or" if args.len() == 2 => match strip(&args[0]) {
                Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => (Some(&args[1]), b.value),
                _ => (None, false),
            },
            _ => (None, false),
        };
        if let Some(Expr::Closure(c)) = cl.map(strip) {
            if c.inputs.len() == 1 {
                let p = &c.inputs[0];
                let b = &c.body;
                self.rule("L17-option-closure");
                return Some(parse_quote!((match #recv { Some(#p) => #b, None => #dflt })));
            }
        }
        None
    }
    /// is this an Option<char>?
    fn optchar(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Reference(r) => self.optchar(&r.expr),
            Expr::Call(c) => {
                matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some"))
                    && c.args.len() == 1
                    && matches!(strip(&c.args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))
            }
            Expr::MethodCall(m) => m.method == "get_char",
            Expr::Path(p) => p.path.is_ident("None") || p.path.get_ident().map(|i| self.optchars.contains(&i.to_string())).unwrap_or(false),
            _ => false,
        }
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if self.lexer {
            if let Some(e) = self.lex_method(m) {
                return Some(e);
            }
        }
        if let Some(e) = self.lower_keys_any(m) {
            return Some(e);
        }
        if m.method == "contains_key" && m.args.len() == 1 {
            if let Expr::Field(f) = strip(&m.receiver) {
                if f.member.to_token_stream().to_string() == "children" {
                    self.rule("L15-has-child");
                    let b = &f.base;
                    let k = &m.args[0];
                    return Some(parse_quote!(#b.has_child(#k)));
                }
            }
        }
        let name = m.method.to_string();
        let recv = strip(&m.receiver);
        if m.args.is_empty() {
            if let Expr::MethodCall(c) = recv {
                if c.method == "chars" && c.args.is_empty() {
                    let s = self.asref(&c.receiver);
                    let f = match name.as_str() {
                        "next" => "str_first",
                        "last" => "str_last",
                        "count" => "str_count",
                        _ => "",
                    };
                    if !f.is_empty() {
                        self.rule("L9-chars");
                        let f = Ident::new(f, Span::call_site());
                        return Some(parse_quote!(#f(#s)));
                    }
                }
            }
            if name == "chars" {
                self.rule("L9-chars");
                let s = self.asref(recv);
                return Some(parse_quote!(str_chars(#s)));
            }
            if name == "to_uppercase" || name == "to_lowercase" {
                self.rule("L3-case");
                let s = self.asref(recv);
                let f = Ident::new(
                    if name == "to_uppercase" { "str_upper" } else { "str_lower" },
                    Span::call_site(),
                );
                return Some(parse_quote!(#f(#s)));
            }
            if name == "len" {
                if let Expr::Field(f) = recv {
                    if let Member::Named(n) = &f.member {
                        if n == "literal" {
                            self.rule("L9-chars");
                            return Some(parse_quote!(str_byte_len(#recv.as_str())));
                        }
                    }
                }
            }
        }
        None
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewriting to fixpoint at this node
        loop {
            let new: Option<Expr> = match &*e {
                Expr::Macro(m) => {
                    let n = self.lower_macro(&m.mac);
                    if n.is_none() {
                        self.unsupported
                            .push(format!("macro {}!", m.mac.path.to_token_stream()));
                    }
                    n
                }
                Expr::ForLoop(f) => {
                    let n = self.lower_for(f);
                    if n.is_none() {
                        self.unsupported.push("for loop over unsupported iterator".into());
                    }
                    n
                }
                Expr::Loop(l) if self.lexer => self.lower_loop(l),
                Expr::MethodCall(m) => self.method(m),
                Expr::Binary(b) => {
                    let eq = matches!(b.op, BinOp::Eq(_));
                    let ne = matches!(b.op, BinOp::Ne(_));
                    if self.lexer && (eq || ne) && (self.optchar(&b.left) || self.optchar(&b.right)) {
                        self.rule("L18-option-eq");
                        fn noref(e: &Expr) -> &Expr {
                            match strip(e) {
                                Expr::Reference(r) => noref(&r.expr),
                                x => x,
                            }
                        }
                        let (l, r) = (noref(&b.left), noref(&b.right));
                        Some(if eq { parse_quote!(opt_eq(#l, #r)) } else { parse_quote!((!opt_eq(#l, #r))) })
                    } else
                    if (eq || ne) && (stringy(&b.left) != Sk::No || stringy(&b.right) != Sk::No) {
                        self.rule("L3-string-eq");
                        let l = self.asref(&b.left);
                        let r = self.asref(&b.right);
                        Some(if eq {
                            parse_quote!(str_eq(#l, #r))
                        } else {
                            parse_quote!((!str_eq(#l, #r)))
                        })
                    } else {
                        None
                    }
                }
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                    let v = s.value();
                    Some(self.lit(&v))
                }
                Expr::Path(p) if p.path.segments.len() <= 3 && self.tables.contains_key(&p.path.segments.last().unwrap().ident.to_string()) => {
                    self.rule("L23-table");
                    let f = Ident::new(&format!("vlits_{}", self.tables[&p.path.segments.last().unwrap().ident.to_string()]), Span::call_site());
                    Some(parse_quote!(#f()))
                }
                Expr::Closure(_) => {
                    self.unsupported.push("closure".into());
                    None
                }
                Expr::Async(_) | Expr::Await(_) | Expr::Unsafe(_) => {
                    self.unsupported.push("async/unsafe".into());
                    None
                }
                _ => None,
            };
            match new {
                Some(n) => {
                    *e = n;
                    if matches!(e, Expr::MethodCall(_) | Expr::Macro(_) | Expr::ForLoop(_)) {
                        continue;
                    }
                }
                None => {}
            }
            break;
        }
        match e {
            Expr::Match(m) => {
                if m.arms.iter().any(|a| pat_has_str(&a.pat)) {
                    self.rule("L2-string-match");
                    let s = m.expr.clone();
                    *m.expr = if m.arms.iter().all(|a| letterless(&a.pat)) { parse_quote!(str_id_sym(#s)) } else { parse_quote!(str_id(#s)) };
                    for a in m.arms.iter_mut() {
                        self.pat(&mut a.pat);
                    }
                }
            }
            Expr::Let(l) => {
                if pat_has_str(&l.pat) {
                    self.rule("L2-string-match");
                    let s = l.expr.clone();
                    *l.expr = if letterless(&l.pat) { parse_quote!(str_id_sym(#s)) } else { parse_quote!(str_id(#s)) };
                    self.pat(&mut l.pat);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.lower_macro(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token.or_else(|| Some(Default::default())));
            } else {
                self.unsupported
                    .push(format!("macro {}!", m.mac.path.to_token_stream()));
            }
        }
        if let Stmt::Local(l) = s {
            if let Some(init) = &l.init {
                if stringy(&init.expr) == Sk::Owned {
                    if let Pat::Ident(i) = &l.pat {
                        self.owned.push(i.ident.to_string());
                    }
                }
                if self.optchar(&init.expr) {
                    if let Pat::Ident(i) = &l.pat {
                        self.optchars.push(i.ident.to_string());
                    }
                }
                if let Expr::MethodCall(m) = strip(&init.expr) {
                    if m.method == "chars" {
                        if let Pat::Ident(i) = &l.pat {
                            self.chariters.push(i.ident.to_string());
                        }
                    }
                }
                if init.diverge.is_some() {
                    // let-else is supported by verus
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        const KW: [&str; 24] = [ "assert", "assume", "invariant", "decreases", "recommends", "broadcast", "global", "calc",
            "when", "by", "via", "proof", "spec", "exec", "ghost", "tracked", "choose", "forall",
            "exists", "implies", "open", "closed", "ensures", "requires",
        ];
        if *i == "HashMap" {
            *i = Ident::new("Children", i.span());
        }
        if KW.contains(&i.to_string().as_str()) {
            *i = Ident::new(&format!("{}__", i), i.span());
        }
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {
        // nested items were hoisted before lowering
        self.unsupported.push("nested item".into());
    }
}
