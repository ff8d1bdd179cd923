//! The observable statements of the properties, evaluated on one input.
use crate::reflex;
use bq2cst::verif_hooks::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn dump(sql: &str) {
    match Lexer::new(sql.to_string()).tokenize_code() {
        Err(e) => println!("LEXERR {:?}", e),
        Ok(t) => {
            for x in &t {
                print!("{:?}@{}:{} ", x.literal, x.line, x.column as isize);
            }
            println!();
            match Parser::new(t).parse_code() {
                Ok(v) => println!("{}", serde_json::to_string(&v).unwrap()),
                Err(e) => println!("ERR {:?}", e),
            }
        }
    }
}
pub fn is_comment(l: &str) -> bool {
    l.starts_with('#') || l.starts_with("--") || l.starts_with("/*")
}
type Lexed = Result<Vec<Token>, (usize, usize)>;
fn run_lexer(s: &str) -> Result<Lexed, String> {
    let s = s.to_string();
    catch_unwind(AssertUnwindSafe(move || Lexer::new(s).tokenize_code().map_err(|e| (e.line, e.column))))
        .map_err(|_| "panic".to_string())
}
type Parsed = Result<Vec<Node>, (usize, usize)>;
fn run_parser(t: Vec<Token>) -> Result<Parsed, String> {
    catch_unwind(AssertUnwindSafe(move || {
        let mut p = Parser::new(t);
        p.parse_code().map_err(|e| (e.line, e.column))
    }))
    .map_err(|_| "panic".to_string())
}
/// None: the property held (or the input is outside its scope)
pub fn judge(prop: &str, input: &str, salt: u64) -> Option<String> {
    let lexed = match run_lexer(input) {
        Ok(l) => l,
        Err(_) => {
            if prop == "C04" {
                return Some("the tokenizer panics".into());
            }
            return None;
        }
    };
    match prop {
        "C01" | "C02" | "C03" | "C04" => return judge_lex(prop, input, lexed),
        _ => {}
    }
    let toks = match lexed {
        Ok(t) => t,
        Err(e) => {
            if prop == "C09" {
                return judge_lex(prop, input, Err(e));
            }
            return None;
        }
    };
    let parsed = match run_parser(toks.clone()) {
        Ok(p) => p,
        Err(_) => {
            if prop == "C05" {
                return Some("the parser panics".into());
            }
            return None;
        }
    };
    match prop {
        "C06" => parsed.ok().and_then(|v| c06(&toks, &v)),
        "C07" => parsed.ok().and_then(|v| c07(&toks, &v)),
        "C08" => parsed.ok().and_then(|v| c08(&toks, &v)),
        "C09" => match parsed {
            Err((l, c)) => c09(&toks, l, c),
            Ok(_) => None,
        },
        "C10" => c10(input, &parsed, salt),
        "C11" => parsed.ok().and_then(|v| c11(&toks, &v)),
        _ => None,
    }
}
fn judge_lex(prop: &str, input: &str, lexed: Lexed) -> Option<String> {
    let inp: Vec<char> = input.chars().collect();
    if prop == "C01" || prop == "C02" {
        let toks = lexed.ok()?;
        if toks.is_empty() {
            return if prop == "C01" { Some("no tokens at all, not even the end marker".into()) } else { None };
        }
        // walk the text along the tokens
        let (mut p, mut line, mut col) = (0usize, 1usize, 1usize);
        let mut step = |p: &mut usize| {
            if inp[*p] == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
            *p += 1;
            (line, col)
        };
        let mut here = (1usize, 1usize);
        for (i, t) in toks.iter().enumerate() {
            if i + 1 == toks.len() {
                if !(t.literal.is_empty() && t.line == usize::MAX && t.column == usize::MAX) {
                    return if prop == "C01" { Some(format!("last token is not the end marker: {:?}", t)) } else { None };
                }
                break;
            }
            while p < inp.len() && inp[p].is_whitespace() {
                here = step(&mut p);
            }
            let l: Vec<char> = t.literal.chars().collect();
            if l.is_empty() || p + l.len() > inp.len() || inp[p..p + l.len()] != l[..] {
                return if prop == "C01" { Some(format!("token {} {:?} is not the next text of the input", i, t.literal)) } else { None };
            }
            if prop == "C02" && (t.line, t.column) != here {
                return Some(format!("token {} {:?} is at {}:{} but reported at {}:{}", i, t.literal, here.0, here.1, t.line, t.column));
            }
            for _ in 0..l.len() {
                here = step(&mut p);
            }
        }
        while p < inp.len() && inp[p].is_whitespace() {
            here = step(&mut p);
        }
        let _ = here;
        if prop == "C01" && p < inp.len() {
            return Some(format!("text after the last token is lost: {:?}", inp[p..].iter().collect::<String>()));
        }
        return None;
    }
    let want = reflex::lex(&inp);
    match prop {
        "C03" => {
            let got = lexed.ok()?;
            match want {
                Err(_) => Some("input with an unterminated or malformed lexeme was accepted".into()),
                Ok(w) => {
                    let g: Vec<&str> = got.iter().map(|t| t.literal.as_str()).take(got.len().max(1) - 1).collect();
                    let w: Vec<String> = w.iter().map(|t| inp[t.start..t.end].iter().collect()).collect();
                    for i in 0..g.len().max(w.len()) {
                        if g.get(i).map(|s| s.to_string()) != w.get(i).cloned() {
                            return Some(format!("lexeme {} is {:?}, expected {:?}", i, g.get(i), w.get(i)));
                        }
                    }
                    None
                }
            }
        }
        "C04" => match (lexed, want) {
            (Err(e), Ok(_)) => Some(format!("a well-formed input is rejected at {}:{}", e.0, e.1)),
            _ => None,
        },
        "C09" => match (lexed, want) {
            (Err(e), Err((_, l, c))) if e != (l, c) => Some(format!("tokenizer error reported at {}:{}, expected {}:{}", e.0, e.1, l, c)),
            _ => None,
        },
        _ => None,
    }
}
fn walk<'a>(n: &'a Node, f: &mut dyn FnMut(&'a Node)) {
    f(n);
    for v in n.children.values() {
        match v {
            ContentType::Node(m) => walk(m, f),
            ContentType::NodeVec(ms) => ms.iter().for_each(|m| walk(m, f)),
        }
    }
}
type Key = (usize, usize, String);
fn key(t: &Token) -> Key {
    (t.line, t.column, t.literal.clone())
}
fn c06(toks: &[Token], v: &[Node]) -> Option<String> {
    let mut m: BTreeMap<Key, i64> = BTreeMap::new();
    for t in &toks[..toks.len() - 1] {
        *m.entry(key(t)).or_insert(0) += 1;
    }
    for n in v {
        walk(n, &mut |n| {
            if let Some(t) = &n.token {
                *m.entry(key(t)).or_insert(0) -= 1;
            }
        });
    }
    for (k, c) in m {
        if c > 0 {
            return Some(format!("token {:?} at {}:{} is missing from the tree", k.2, k.0, k.1 as isize));
        }
        if c < 0 {
            return Some(format!("token {:?} at {}:{} is in the tree more than once", k.2, k.0, k.1 as isize));
        }
    }
    None
}
fn c07(toks: &[Token], v: &[Node]) -> Option<String> {
    let n = toks.len();
    let mut owner: HashMap<Key, (Vec<Key>, Vec<Key>)> = HashMap::new();
    let mut pend: Vec<Key> = vec![];
    let mut i = 0;
    let mut eof_lead = vec![];
    while i < n {
        if is_comment(&toks[i].literal) {
            pend.push(key(&toks[i]));
            i += 1;
            continue;
        }
        let lead = std::mem::take(&mut pend);
        if i == n - 1 {
            eof_lead = lead;
            break;
        }
        let mut trail = vec![];
        let mut j = i + 1;
        while j < n && is_comment(&toks[j].literal) && toks[j].line == toks[i].line {
            trail.push(key(&toks[j]));
            j += 1;
        }
        owner.insert(key(&toks[i]), (lead, trail));
        i = j;
    }
    let mut bad = None;
    let empty: (Vec<Key>, Vec<Key>) = (vec![], vec![]);
    let last: Option<&Node> = v.last();
    let mut check = |nd: &Node| {
        let get = |k: &str| -> Option<Vec<Key>> {
            match nd.children.get(k) {
                None => Some(vec![]),
                Some(ContentType::NodeVec(ms)) => ms.iter().map(|m| m.token.as_ref().map(key)).collect(),
                Some(ContentType::Node(_)) => None,
            }
        };
        let (gl, gt) = (get("leading_comments"), get("trailing_comments"));
        let is_last = last.map_or(false, |l| std::ptr::eq(l, nd));
        let (wl, wt) = match &nd.token {
            None if is_last => (eof_lead.clone(), vec![]),
            None => (vec![], vec![]),
            Some(t) => owner.get(&key(t)).unwrap_or(&empty).clone(),
        };
        if bad.is_none() && (gl.as_ref() != Some(&wl) || gt.as_ref() != Some(&wt)) {
            bad = Some(format!("comments of {:?}: leading {:?} trailing {:?}, expected leading {:?} trailing {:?}", nd.token.as_ref().map(|t| &t.literal), gl, gt, wl, wt));
        }
        // every comment node sits in a comment slot
        for (k, c) in &nd.children {
            if k == "leading_comments" || k == "trailing_comments" {
                continue;
            }
            let one = |m: &Node| m.token.as_ref().map_or(false, |t| is_comment(&t.literal));
            let has = match c {
                ContentType::Node(m) => one(m),
                ContentType::NodeVec(ms) => ms.iter().any(one),
            };
            if has && bad.is_none() {
                bad = Some(format!("a comment is used as child {:?}", k));
            }
        }
    };
    for nd in v {
        walk(nd, &mut check);
    }
    bad
}
fn c08(toks: &[Token], v: &[Node]) -> Option<String> {
    let n = toks.len();
    let last = match v.last() {
        None => return Some("the result is empty".into()),
        Some(l) => l,
    };
    if last.node_type != NodeType::EOF || last.token.is_some() {
        return Some("the last top-level node is not the end-of-input node".into());
    }
    if v[..v.len() - 1].iter().any(|x| x.node_type == NodeType::EOF) {
        return Some("an end-of-input node before the end".into());
    }
    let mut idx: HashMap<Key, Vec<usize>> = HashMap::new();
    for (i, t) in toks[..n - 1].iter().enumerate() {
        idx.entry(key(t)).or_default().push(i);
    }
    let mut at = 0usize;
    for (s, nd) in v.iter().enumerate() {
        let mut is: Vec<usize> = vec![];
        let mut unk = false;
        walk(nd, &mut |m| {
            if let Some(t) = &m.token {
                match idx.get(&key(t)) {
                    Some(x) => is.push(x[0]),
                    None => unk = true,
                }
            }
        });
        is.sort();
        if unk {
            return Some(format!("top-level node {} has a token that is not in the input", s));
        }
        if s + 1 < v.len() && is.is_empty() {
            return Some(format!("top-level node {} holds no token", s));
        }
        for (k, i) in is.iter().enumerate() {
            if *i != at + k {
                return Some(format!("top-level node {} does not hold the tokens from {} on without a gap", s, at));
            }
        }
        at += is.len();
    }
    if at != n - 1 {
        return Some("the top-level nodes do not cover the input".into());
    }
    None
}
fn c09(toks: &[Token], l: usize, c: usize) -> Option<String> {
    if toks.iter().any(|t| t.line == l && t.column == c && !is_comment(&t.literal)) {
        return None;
    }
    Some(format!("the error is reported at {}:{} where no token is", l as isize, c as isize))
}
/// flips the case of ASCII words outside quotes and comments
/// strings, back-quoted names, templates and comments keep their letters
fn quoted(t: &[char]) -> bool {
    matches!(t[0], '\'' | '"' | '`' | '#' | '{') || t.contains(&'`') || t.starts_with(&['-', '-']) || t.starts_with(&['/', '*'])
}
pub fn recase(input: &str, salt: u64) -> String {
    let inp: Vec<char> = input.chars().collect();
    let spans = match reflex::lex(&inp) {
        Ok(t) => t,
        Err((t, _, _)) => t,
    };
    let mut out = inp.clone();
    let mut r = salt | 1;
    for t in spans {
        if quoted(&inp[t.start..t.end]) {
            continue;
        }
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        let mode = (r >> 20) % 4;
        for (k, c) in out[t.start..t.end].iter_mut().enumerate() {
            *c = match mode {
                0 => c.to_ascii_lowercase(),
                1 => c.to_ascii_uppercase(),
                2 => if (r >> (k % 40)) & 1 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() },
                _ => if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() },
            };
        }
    }
    out.into_iter().collect()
}
fn same(a: &Node, b: &Node) -> bool {
    a.node_type == b.node_type
        && match (&a.token, &b.token) {
            (None, None) => true,
            (Some(x), Some(y)) => x.line == y.line && x.column == y.column && x.literal.eq_ignore_ascii_case(&y.literal),
            _ => false,
        }
        && a.children.len() == b.children.len()
        && a.children.iter().all(|(k, v)| match (v, b.children.get(k)) {
            (ContentType::Node(x), Some(ContentType::Node(y))) => same(x, y),
            (ContentType::NodeVec(x), Some(ContentType::NodeVec(y))) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
            _ => false,
        })
}
fn c10(input: &str, parsed: &Parsed, salt: u64) -> Option<String> {
    for k in 0..3u64 {
        let other = match k {
            0 => recase(input, 0x9e3779b97f4a7c15u64.wrapping_mul(salt + 11)),
            1 => map_words(input, false),
            _ => map_words(input, true),
        };
        let t = match run_lexer(&other) {
            Ok(Ok(t)) => t,
            _ => return Some(format!("tokenizing fails after changing letter case: {:?}", other)),
        };
        let p = match run_parser(t) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let ok = match (parsed, &p) {
            (Ok(x), Ok(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
            (Err(x), Err(y)) => x == y,
            _ => false,
        };
        if !ok {
            return Some(format!("a different result after changing letter case: {:?}", other));
        }
    }
    None
}
fn map_words(input: &str, upper: bool) -> String {
    let inp: Vec<char> = input.chars().collect();
    let spans = match reflex::lex(&inp) {
        Ok(t) => t,
        Err((t, _, _)) => t,
    };
    let mut out = inp.clone();
    for t in spans {
        if quoted(&inp[t.start..t.end]) {
            continue;
        }
        for c in out[t.start..t.end].iter_mut() {
            *c = if upper { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        }
    }
    out.into_iter().collect()
}

fn oplevel(u: &str) -> usize {
    match u {
        "*" | "/" | "||" => 103,
        "+" | "-" => 104,
        "<<" | ">>" => 105,
        "&" => 106,
        "^" => 107,
        "|" => 108,
        "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
        "AND" => 111,
        "OR" => 112,
        "=>" => 200,
        _ => 0,
    }
}
fn upper(n: &Node) -> String {
    n.token.as_ref().map(|t| t.literal.to_uppercase()).unwrap_or_default()
}
fn infix(t: &NodeType) -> bool {
    matches!(t, NodeType::BinaryOperator | NodeType::InOperator | NodeType::BetweenOperator | NodeType::IsDistinctFromOperator)
}
/// level of an operator that is open on one side
fn ilvl(n: &Node) -> usize {
    match n.node_type {
        NodeType::CallingFunction | NodeType::AccessOperator | NodeType::DotOperator => 101,
        NodeType::FunctionChain => 102,
        ref t if infix(t) => oplevel(&upper(n)),
        _ => 0,
    }
}
/// the same as a left operand: prefix operators count, IN (closed by its bracket) does not
fn lvl(n: &Node) -> usize {
    match n.node_type {
        NodeType::UnaryOperator => match upper(n).as_str() {
            "-" | "+" | "~" => 103,
            "NOT" => 110,
            _ => 0,
        },
        NodeType::InOperator => 0,
        _ => ilvl(n),
    }
}
fn c11(toks: &[Token], v: &[Node]) -> Option<String> {
    let mut idx: HashMap<Key, usize> = HashMap::new();
    for (i, t) in toks[..toks.len() - 1].iter().enumerate() {
        idx.insert(key(t), i);
    }
    let prev = |i: usize| (0..i).rev().find(|j| !is_comment(&toks[*j].literal));
    let sortword = |i: Option<usize>| i.map_or(false, |i| matches!(toks[i].literal.to_uppercase().as_str(), "ASC" | "DESC" | "FIRST" | "LAST"));
    let exempt = |n: &Node| -> bool {
        let i = match n.token.as_ref().and_then(|t| idx.get(&key(t))) {
            Some(i) => *i,
            None => return false,
        };
        let p = prev(i);
        sortword(p) || p.map_or(false, |p| toks[p].literal.to_uppercase() == "NOT" && sortword(prev(p)))
    };
    let mut bad = None;
    let mut look = |n: &Node| {
        if bad.is_some() {
            return;
        }
        let arg = |k: &str| match n.children.get(k) {
            Some(ContentType::Node(m)) => Some(m),
            _ => None,
        };
        let t = &n.node_type;
        let say = |k: &str, c: &Node| Some(format!("{:?} as the `{}` operand of {:?} ({:?}) binds more loosely than it", upper(c), k, upper(n), t));
        let (key, max) = match t {
            NodeType::CallingFunction => ("func", 101),
            NodeType::AccessOperator => ("left", 101),
            NodeType::DotOperator | NodeType::FunctionChain => ("left", 102),
            t if infix(t) => ("left", ilvl(n)),
            _ => ("", 0),
        };
        if let Some(c) = arg(key) {
            if lvl(c) > max && !exempt(n) {
                bad = say(key, c);
            }
        }
        if infix(t) {
            for k in ["right", "right_min", "right_max"] {
                if let Some(c) = arg(k) {
                    if ilvl(c) >= ilvl(n) {
                        bad = say(k, c);
                    }
                }
            }
        }
        if *t == NodeType::UnaryOperator {
            if let Some(c) = arg("right") {
                let m = match upper(n).as_str() {
                    "-" | "+" | "~" => 103,
                    "NOT" => 110,
                    _ => usize::MAX,
                };
                if ilvl(c) >= m {
                    bad = say("right", c);
                }
            }
        }
    };
    for n in v {
        walk(n, &mut |m| look(m));
    }
    bad
}
