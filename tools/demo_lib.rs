#![allow(dead_code)]
use bq2cst::verif_hooks::*;
fn lex(s: &str) -> Result<Vec<Token>, BQ2CSTError> {
    Lexer::new(s.to_string()).tokenize_code()
}
fn parse(s: &str) -> Result<Vec<Node>, BQ2CSTError> {
    Parser::new(lex(s)?).parse_code()
}
fn walk<'a>(n: &'a Node, f: &mut dyn FnMut(&'a Node)) {
    f(n);
    for v in n.children.values() {
        match v {
            ContentType::Node(m) => walk(m, f),
            ContentType::NodeVec(ms) => ms.iter().for_each(|m| walk(m, f)),
        }
    }
}
/// literals of all tokens in the tree, sorted by position
fn tree_tokens(v: &[Node]) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    for n in v {
        walk(n, &mut |n| {
            if let Some(t) = &n.token {
                out.push((t.line, t.column, t.literal.clone()));
            }
        });
    }
    out.sort();
    out
}
fn stream_tokens(s: &str) -> Vec<(usize, usize, String)> {
    let mut t: Vec<_> = lex(s).ok().expect("tokens").into_iter().map(|t| (t.line, t.column, t.literal)).collect();
    t.pop();
    t.sort();
    t
}
fn conserved(s: &str) {
    let v = parse(s).ok().expect("parses");
    assert_eq!(tree_tokens(&v), stream_tokens(s), "{}", s);
}
fn find<'a>(v: &'a [Node], lit: &str) -> &'a Node {
    let mut r = None;
    for n in v {
        walk(n, &mut |n| {
            if n.token.as_ref().map_or(false, |t| t.literal == lit) {
                r = Some(n)
            }
        });
    }
    r.expect("node")
}
fn comments(n: &Node, key: &str) -> Vec<String> {
    match n.children.get(key) {
        Some(ContentType::NodeVec(v)) => v.iter().map(|c| c.token.as_ref().unwrap().literal.clone()).collect(),
        _ => vec![],
    }
}
