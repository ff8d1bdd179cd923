//! Reference tokenizer, written from the lexical rules the properties state.
#[derive(Debug, Clone, PartialEq)]
pub struct RTok {
    pub start: usize,
    pub end: usize, // end of the literal (comments: trailing blanks dropped)
    pub line: usize,
    pub col: usize,
}
pub fn is_word1(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
pub fn is_word(c: char) -> bool {
    is_word1(c) || c.is_ascii_digit()
}
/// Ok: all tokens. Err((tokens so far, line, column))
pub fn lex(inp: &[char]) -> Result<Vec<RTok>, (Vec<RTok>, usize, usize)> {
    let n = inp.len();
    let at = |i: usize| if i < n { Some(inp[i]) } else { None };
    let mut toks: Vec<RTok> = vec![];
    let mut depth = 0usize;
    let (mut p, mut line, mut col) = (0usize, 1usize, 1usize);
    let adv = |p: &mut usize, line: &mut usize, col: &mut usize, to: usize| {
        while *p < to {
            if inp[*p] == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
            *p += 1;
        }
    };
    loop {
        while p < n && inp[p].is_whitespace() {
            let q = p + 1;
            adv(&mut p, &mut line, &mut col, q);
        }
        if p >= n {
            return Ok(toks);
        }
        let c = inp[p];
        let mut lit_end = None;
        let end: Result<usize, usize> = match c {
            '.' if at(p + 1).map_or(false, |x| x.is_ascii_digit()) => Ok(number(inp, p)),
            '0'..='9' => Ok(number(inp, p)),
            '#' => Ok(eol(inp, p)),
            '-' if at(p + 1) == Some('-') => Ok(eol(inp, p)),
            '/' if at(p + 1) == Some('*') => {
                let mut q = p + 2;
                loop {
                    if q + 1 >= n {
                        break Err(n);
                    }
                    if inp[q] == '*' && inp[q + 1] == '/' {
                        break Ok(q + 2);
                    }
                    q += 1;
                }
            }
            '`' => backq(inp, p),
            '"' | '\'' => {
                let three = at(p + 1) == Some(c) && at(p + 2) == Some(c);
                let k = if three { 3 } else { 1 };
                let mut q = p + k;
                loop {
                    if q >= n {
                        break Err(n);
                    }
                    if inp[q] == '\\' {
                        q += 2;
                        continue;
                    }
                    if (0..k).all(|i| at(q + i) == Some(c)) {
                        break Ok(q + k);
                    }
                    q += 1;
                }
            }
            '|' if matches!(at(p + 1), Some('|') | Some('>')) => Ok(p + 2),
            '<' if matches!(at(p + 1), Some('<') | Some('=') | Some('>')) => Ok(p + 2),
            '<' => {
                if let Some(t) = toks.last() {
                    let s: String = inp[t.start..t.end].iter().collect();
                    if matches!(s.to_uppercase().as_str(), "ARRAY" | "STRUCT") {
                        depth += 1;
                    }
                }
                Ok(p + 1)
            }
            '>' if depth > 0 => {
                depth -= 1;
                Ok(p + 1)
            }
            '>' if matches!(at(p + 1), Some('>') | Some('=')) => Ok(p + 2),
            '=' if at(p + 1) == Some('>') => Ok(p + 2),
            '!' if at(p + 1) == Some('=') => Ok(p + 2),
            '@' => {
                let mut q = p;
                while at(q) == Some('@') {
                    q += 1;
                }
                match at(q) {
                    Some('`') => backq(inp, q),
                    Some(x) if is_word1(x) => Ok(word(inp, q)),
                    _ => Err(q),
                }
            }
            '{' => {
                let mut q = p;
                while at(q) == Some('{') {
                    q += 1;
                }
                let k = q - p;
                if k == 1 && matches!(at(q), Some(x) if x == '@' || x == ',' || x.is_ascii_digit()) {
                    Ok(p + 1)
                } else {
                    q += 1;
                    loop {
                        if q > n || q + k > n {
                            break Err(n);
                        }
                        if (0..k).all(|i| inp[q + i] == '}') {
                            break Ok(q + k);
                        }
                        q += 1;
                    }
                }
            }
            _ if is_word1(c) => Ok(word(inp, p)),
            _ => Ok(p + 1),
        };
        let (l0, c0) = (line, col);
        match end {
            Ok(e) => {
                if c == '#' || (c == '-' && at(p + 1) == Some('-')) {
                    let mut q = e;
                    while q > p && inp[q - 1].is_whitespace() {
                        q -= 1;
                    }
                    lit_end = Some(q);
                }
                toks.push(RTok { start: p, end: lit_end.unwrap_or(e), line: l0, col: c0 });
                adv(&mut p, &mut line, &mut col, e);
            }
            Err(e) => {
                adv(&mut p, &mut line, &mut col, e);
                return Err((toks, line, col));
            }
        }
    }
}
fn eol(inp: &[char], mut p: usize) -> usize {
    while p < inp.len() && inp[p] != '\n' {
        p += 1;
    }
    p
}
fn word(inp: &[char], mut p: usize) -> usize {
    while p < inp.len() && is_word(inp[p]) {
        p += 1;
    }
    p
}
fn backq(inp: &[char], p: usize) -> Result<usize, usize> {
    let mut q = p + 1;
    while q < inp.len() {
        if inp[q] == '`' {
            return Ok(q + 1);
        }
        q += 1;
    }
    Err(inp.len())
}
fn number(inp: &[char], mut p: usize) -> usize {
    let n = inp.len();
    let dig = |p: &mut usize| {
        while *p < n && inp[*p].is_ascii_digit() {
            *p += 1;
        }
    };
    dig(&mut p);
    if p < n && inp[p] == '.' {
        p += 1;
        dig(&mut p);
    }
    if p < n && (inp[p] == 'e' || inp[p] == 'E') {
        p += 1;
        if p < n && (inp[p] == '+' || inp[p] == '-') {
            p += 1;
        }
        dig(&mut p);
    }
    p
}
