mod analyze;
mod emit;
mod lex;
mod lower;
use analyze::*;
use lower::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fs;
use syn::visit_mut::VisitMut;
use syn::*;

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && (s.contains("test") || s.contains("bq2cst_verif"))
    })
}
pub struct Extracted {
    pub fns: BTreeMap<String, FnInfo>, // key: name (Parser fns & free fns) or Owner::name
    pub order: Vec<String>,
    pub types: Vec<(String, Item)>,
    pub consts: Vec<ItemConst>,
    pub int: Interner,
    pub rules: BTreeMap<String, usize>,
    pub vlits: Vec<Vec<usize>>,
    pub tables: BTreeMap<String, usize>,
}
pub fn line_of<T: syn::spanned::Spanned>(t: &T) -> (usize, usize) {
    let s = t.span();
    (s.start().line, s.end().line)
}

fn mk_fn(
    x: &mut Extracted,
    file: &str,
    owner: &str,
    sig: &Signature,
    block: &Block,
    lines: (usize, usize),
    lexer: bool,
) {
    let mut block = block.clone();
    // hoist nested fns
    let mut nested = vec![];
    block.stmts.retain(|s| {
        if let Stmt::Item(Item::Fn(f)) = s {
            nested.push(f.clone());
            false
        } else {
            true
        }
    });
    for n in nested {
        *x.rules.entry("L11-nested-fn".into()).or_insert(0) += 1;
        let l = line_of(&n);
        mk_fn(x, file, "", &n.sig, &n.block, l, lexer);
    }
    let mut recv = Recv::None;
    let mut params = vec![];
    let mut refvecs = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                recv = if r.reference.is_some() {
                    if r.mutability.is_some() {
                        Recv::SelfMut
                    } else {
                        Recv::SelfRef
                    }
                } else {
                    Recv::None
                };
            }
            FnArg::Typed(t) => {
                let (name, m) = match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    _ => ("_".into(), false),
                };
                let ty = t.ty.to_token_stream().to_string().replace(' ', "");
                if ty == "&mutParser" && !matches!(recv, Recv::SelfMut | Recv::SelfRef) {
                    recv = Recv::Param(name.clone(), true);
                    continue;
                }
                if ty == "&Parser" && !matches!(recv, Recv::SelfMut | Recv::SelfRef) {
                    recv = Recv::Param(name.clone(), false);
                    continue;
                }
                if ty.starts_with("&Vec<") || ty.starts_with("&[") {
                    refvecs.push(name.clone());
                }
                params.push((name, kind_of_type(&t.ty), m));
            }
        }
    }
    let mut lo = Lower {
        int: &mut x.int,
        unsupported: vec![],
        rules: BTreeMap::new(),
        counter: 0,
        chariters: vec![],
        refvecs,
        lexer,
        vlits: &mut x.vlits,
        tables: &x.tables,
        owned: vec![],
        optchars: vec![],
    };
    lo.visit_block_mut(&mut block);
    let unsupported = std::mem::take(&mut lo.unsupported);
    let rules = std::mem::take(&mut lo.rules);
    for (k, v) in rules {
        *x.rules.entry(k).or_insert(0) += v;
    }
    let item = ItemFn {
        attrs: vec![],
        vis: Visibility::Inherited,
        sig: sig.clone(),
        block: Box::new(block),
    };
    let ret = ret_of(sig);
    let name = sig.ident.to_string();
    let key = if owner == "Parser" || owner.is_empty() || owner == "Lexer" {
        name.clone()
    } else {
        format!("{}::{}", owner, name)
    };
    x.order.push(key.clone());
    x.fns.insert(
        key,
        FnInfo {
            name,
            owner: owner.into(),
            file: file.into(),
            recv,
            params,
            ret,
            item,
            unsupported,
            src_lines: lines,
        },
    );
}

/// a constant table of strings (L23)
fn table(x: &mut Extracted, name: &Ident, e: &Expr) {
    let mut e = e;
    while let Expr::Reference(r) = e {
        e = &r.expr;
    }
    let Expr::Array(a) = e else { return };
    let mut ids = vec![];
    for i in &a.elems {
        let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = i else { return };
        x.int.id(&s.value().to_uppercase());
        ids.push(x.int.id(&s.value()));
    }
    let k = match x.vlits.iter().position(|v| *v == ids) {
        Some(k) => k,
        None => {
            x.vlits.push(ids);
            x.vlits.len() - 1
        }
    };
    x.tables.insert(name.to_string(), k);
}
pub fn extract(src: &str, files: &[&str], lexer: bool) -> Extracted {
    let mut x = Extracted {
        fns: BTreeMap::new(),
        order: vec![],
        types: vec![],
        consts: vec![],
        int: Interner::default(),
        rules: BTreeMap::new(),
        vlits: vec![],
        tables: BTreeMap::new(),
    };
    x.int.id("");
    for f in files {
        let text = fs::read_to_string(format!("{}/{}", src, f)).expect("read source");
        let ast = match parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                eprintln!("cannot parse {}: {}", f, e);
                std::process::exit(3);
            }
        };
        for it in ast.items {
            match it {
                Item::Impl(im) => {
                    if is_test(&im.attrs) || im.trait_.is_some() {
                        continue;
                    }
                    let owner = im.self_ty.to_token_stream().to_string();
                    for ii in &im.items {
                        if let ImplItem::Fn(m) = ii {
                            if is_test(&m.attrs) {
                                continue;
                            }
                            let l = line_of(m);
                            mk_fn(&mut x, f, &owner, &m.sig, &m.block, l, lexer);
                        }
                    }
                }
                Item::Fn(m) => {
                    if !is_test(&m.attrs) {
                        let l = line_of(&m);
                        mk_fn(&mut x, f, "", &m.sig, &m.block, l, lexer);
                    }
                }
                Item::Struct(s) => {
                    if !is_test(&s.attrs) {
                        x.types.push((s.ident.to_string(), Item::Struct(s)))
                    }
                }
                Item::Enum(s) => {
                    if !is_test(&s.attrs) {
                        x.types.push((s.ident.to_string(), Item::Enum(s)))
                    }
                }
                Item::Const(c) => {
                    table(&mut x, &c.ident, &c.expr);
                    x.consts.push(c)
                }
                Item::Static(c) => table(&mut x, &c.ident, &c.expr),
                _ => {}
            }
        }
    }
    x
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: bqx LENS REPO_SRC SPECDIR OUT.rs OUT.json [--external f,g]");
        std::process::exit(2);
    }
    let mut ext: Vec<String> = vec![];
    let mut drops: Vec<String> = vec![];
    let mut k = 6;
    while k < args.len() {
        if args[k] == "--external" {
            ext = args[k + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            k += 1;
        } else if args[k] == "--drop" {
            drops = serde_json::from_str(&fs::read_to_string(&args[k + 1]).unwrap()).unwrap();
            k += 1;
        }
        k += 1;
    }
    emit::run(&args[1], &args[2], &args[3], &args[4], &args[5], &ext, &drops);
}
