//! Coverage-guided search for an input that breaks a property.
use crate::oracle;
use std::fs;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CNT_START: AtomicUsize = AtomicUsize::new(0);
static CNT_STOP: AtomicUsize = AtomicUsize::new(0);
static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    if a != b {
        let mut r = REGIONS.lock().unwrap();
        if !r.iter().any(|x| x.0 == a as usize) {
            r.push((a as usize, b as usize));
        }
        CNT_START.store(a as usize, Ordering::Relaxed);
        CNT_STOP.store(b as usize, Ordering::Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

struct Cov {
    virgin: Vec<u8>,
    regions: Vec<(usize, usize)>,
}
impl Cov {
    fn new() -> Cov {
        let regions = REGIONS.lock().unwrap().clone();
        let n: usize = regions.iter().map(|r| r.1 - r.0).sum();
        Cov { virgin: vec![0; n], regions }
    }
    fn reset(&self) {
        for r in &self.regions {
            unsafe { std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0) };
        }
    }
    fn fresh(&mut self) -> bool {
        let mut k = 0;
        let mut new = false;
        for r in &self.regions {
            let s = unsafe { std::slice::from_raw_parts(r.0 as *const u8, r.1 - r.0) };
            for &c in s {
                if c != 0 {
                    let b = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.virgin[k] & b == 0 {
                        self.virgin[k] |= b;
                        new = true;
                    }
                }
                k += 1;
            }
        }
        new
    }
    fn edges(&self) -> usize {
        self.virgin.iter().filter(|x| **x != 0).count()
    }
}

// ---- watchdog: one case must not run for ever
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());
pub fn start_case(s: &str) {
    {
        let mut c = CURRENT.lock().unwrap();
        c.clear();
        c.push_str(s);
    }
    CASE_NO.fetch_add(1, Ordering::SeqCst);
    ARMED.store(true, Ordering::SeqCst);
}
fn end_case() {
    ARMED.store(false, Ordering::SeqCst);
}
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let n = CASE_NO.load(Ordering::SeqCst);
            if n != seen || !ARMED.load(Ordering::SeqCst) {
                seen = n;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(secs) {
                let s = CURRENT.lock().unwrap().clone();
                println!("HANG {}", serde_json::to_string(&s).unwrap());
                std::process::exit(4);
            }
        }
    });
}
pub fn input_of_replay(text: &str) -> String {
    if let Ok(v) = serde_json::from_str::<serde_json::Value>(text) {
        if let Some(s) = v.get("input").and_then(|x| x.as_str()) {
            return s.to_string();
        }
        if let Some(s) = v.as_str() {
            return s.to_string();
        }
    }
    text.to_string()
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// rough token split that keeps white space as separate pieces out
pub fn pieces(s: &str) -> Vec<String> {
    let inp: Vec<char> = s.chars().collect();
    let toks = match crate::reflex::lex(&inp) {
        Ok(t) => t,
        Err((t, _, _)) => t,
    };
    let mut v: Vec<String> = toks.iter().map(|t| inp[t.start..t.end].iter().collect()).collect();
    let end = toks.last().map_or(0, |t| t.end);
    let rest: String = inp[end..].iter().collect();
    if !rest.trim().is_empty() {
        v.push(rest.trim().to_string());
    }
    v
}
fn join(p: &[String], r: &mut Rng, style: usize) -> String {
    let mut s = String::new();
    for x in p {
        s.push_str(x);
        let linec = x.starts_with("--") || x.starts_with('#');
        if linec {
            s.push('\n');
        } else if x == "{" {
            // a quantifier only directly before its bound, else a template
            if style == 2 && r.one_in(12) {
                s.push(' ')
            }
        } else {
            match style {
                0 => s.push(' '),
                1 => s.push(if r.one_in(4) { '\n' } else { ' ' }),
                _ => {
                    if r.one_in(6) {
                        s.push('\n')
                    } else if r.one_in(8) {
                        s.push_str("\t ")
                    } else if !r.one_in(10) {
                        s.push(' ')
                    }
                }
            }
        }
    }
    s
}
const COMMENTS: &[&str] = &["-- c", "/* c */", "# c", "/* c\n d */", "--", "/**/"];
const BASIC: &[&str] = &[
    ";", "(", ")", ",", ".", "*", "1", "a", "'s'", "`q`", "@p", "?", "[", "]", "<", ">", "=", "-", "+", "|", "|>", "NOT", "AND", "OR", "IN", "AS", "SELECT", "FROM", "NULL", "TRUE", "{{t}}", "IF", "END", "BEGIN", "ON", "WITH", ":", "1.5", "\"d\"", "{", "}", "||", "<<", ">>", "=>", "!=", "<=", ">=", "<>", "/", "^", "&", "~", "INT64", "IS", "LIKE", "BETWEEN", "DATE", "CASE", "WHEN", "THEN", "ELSE", "ARRAY", "STRUCT", "INTERVAL", "@@v", "@`v`", "1e", "1.", ".5", "{1", "{,", "{@p", "$",
];
const CHARS: &[&str] = &[
    "'", "\"", "`", "\\", "\n", "#", "-", "--", "/*", "*/", "/", "*", "{", "}", "{{", "}}", "{%", "%}", "@", "@@", ".", "0", "9", "1e", "E+", "e-1", ".5", "1.", "<", ">", "=", "!", "|", "_", "a", "é", "世", "\u{3000}", "\r", "\t", " ", "'''", "\"\"\"", "\\'", "\\\\", "ARRAY<", "STRUCT<", ">>", ">=", "²", "٣", "\u{a0}", "ß", "ı", "İ", "\u{85}", ";", ",", "(", ")", "?", "$", ":", "{1", "{,", "{@", "/*/", "*//", "\u{0}", "\u{1F600}", "\u{2028}", "\u{301}", "\u{feff}", "\u{b}", "\u{c}",
];
struct St {
    prop: String,
    out: String,
    evals: u64,
    rng: Rng,
    corpus: Vec<String>,
    dict: Vec<String>,
    focus: Vec<String>,
    deadline: Instant,
    cov: Cov,
    keep: Option<String>,
    cur: Option<fs::File>,
    maxlen: usize,
}
impl St {
    fn try_one(&mut self, s: &str) -> Option<i32> {
        // nested FROM ( SELECT ( ... makes the parser try two readings per level:
        // exponential time, not an endless loop.  Keep the nesting small.
        if s.len() > self.maxlen || s.bytes().filter(|b| *b == b'(').count() > 9 {
            return None;
        }
        use std::io::{Seek, SeekFrom, Write};
        if let Some(f) = self.cur.as_mut() {
            let j = serde_json::to_string(s).unwrap();
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(j.as_bytes());
            let _ = f.set_len(j.len() as u64);
        }
        start_case(s);
        let began = Instant::now();
        self.evals += 1;
        self.cov.reset();
        let salt = self.evals;
        let r = oracle::judge(&self.prop, s, salt);
        let fresh = self.cov.fresh();
        end_case();
        if let Some(m) = r {
            let (s2, m2) = self.shrink(s.to_string(), m);
            let j = serde_json::json!({"property": self.prop, "input": s2, "what": m2});
            fs::write(&self.out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            println!("FOUND {}", serde_json::to_string(&j).unwrap());
            return Some(1);
        }
        if fresh && began.elapsed() < Duration::from_millis(5) {
            self.corpus.push(s.to_string());
        }
        None
    }
    fn shrink(&mut self, s: String, m: String) -> (String, String) {
        let mut best = (s, m);
        let end = Instant::now() + Duration::from_secs(5);
        let prop = self.prop.clone();
        let judge = |x: &str| -> Option<String> {
            start_case(x);
            let r = (0..3).find_map(|k| oracle::judge(&prop, x, 1 + k));
            end_case();
            r
        };
        if judge(&best.0).is_none() {
            return best;
        }
        let mut p = pieces(&best.0);
        let mut size = p.len();
        while size > 0 && Instant::now() < end {
            let mut i = 0;
            let mut any = false;
            while i + size <= p.len() && Instant::now() < end {
                let mut q = p.clone();
                q.drain(i..i + size);
                let mut r = Rng(1);
                let t = join(&q, &mut r, 0);
                if let Some(m) = judge(&t) {
                    p = q;
                    best = (t, m);
                    any = true;
                } else {
                    i += 1;
                }
            }
            if !any {
                size /= 2;
            } else {
                size = size.min(p.len());
            }
        }
        // characters
        let mut i = 0;
        while Instant::now() < end {
            let cs: Vec<char> = best.0.chars().collect();
            if i >= cs.len() {
                break;
            }
            let t: String = cs.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| *c).collect();
            if let Some(m) = judge(&t) {
                best = (t, m);
            } else {
                i += 1;
            }
        }
        best
    }
    fn word(&mut self) -> String {
        let k = self.rng.below(10);
        if !self.focus.is_empty() && k < 5 {
            let i = self.rng.below(self.focus.len());
            return self.focus[i].clone();
        }
        if k < 8 {
            return BASIC[self.rng.below(BASIC.len())].to_string();
        }
        if self.dict.is_empty() {
            return "x".into();
        }
        let i = self.rng.below(self.dict.len());
        self.dict[i].clone()
    }
    fn pick(&mut self) -> usize {
        // favour recent finds
        let n = self.corpus.len();
        if self.rng.one_in(3) {
            n - 1 - self.rng.below(n.min(200))
        } else {
            self.rng.below(n)
        }
    }
    /// a random operator expression (C11)
    fn expr(&mut self, depth: usize) -> String {
        const INFIX: &[&str] = &["*", "/", "||", "+", "-", "<<", ">>", "&", "^", "|", "=", "<", ">", "<=", ">=", "!=", "<>", "LIKE", "NOT LIKE", "IS", "IS NOT", "IS DISTINCT FROM", "IS NOT DISTINCT FROM", "AND", "OR", "=>", "LIKE ANY", "IN", "NOT IN", "BETWEEN", "NOT BETWEEN"];
        const PRE: &[&str] = &["-", "+", "~", "NOT", "DATE", "r", "CASE x WHEN 1 THEN 2 END", "INTERVAL"];
        const ATOM: &[&str] = &["a", "1", "'s'", "b.c", "f(x)", "d[0]", "(p + q)", "(p).f(q)", "a.b.f(x)", "x.f(1).g(2)", "NULL", "@p", "[1, 2]", "STRUCT(1 AS z)", "(SELECT 1)"];
        let mut s = String::new();
        let n = 1 + self.rng.below(4);
        for i in 0..n {
            if i > 0 {
                let op = INFIX[self.rng.below(INFIX.len())];
                s.push_str(&format!(" {} ", op));
                match op {
                    "IN" | "NOT IN" => {
                        s.push_str(["(1, 2)", "UNNEST([1])", "(SELECT 1)"][self.rng.below(3)]);
                        continue;
                    }
                    "BETWEEN" | "NOT BETWEEN" => {
                        let lo = self.expr(0);
                        s.push_str(&format!("{} AND ", lo));
                    }
                    _ => {}
                }
            }
            if self.rng.one_in(3) {
                let p = PRE[self.rng.below(PRE.len())];
                match p {
                    "DATE" | "r" => {
                        s.push_str(&format!("{} 'x'", p));
                        continue;
                    }
                    "INTERVAL" => {
                        s.push_str("INTERVAL 1 + 2 DAY");
                        continue;
                    }
                    p if p.starts_with("CASE") => {
                        s.push_str(p);
                        continue;
                    }
                    _ => s.push_str(&format!("{} ", p)),
                }
            }
            if depth > 0 && self.rng.one_in(4) {
                let e = self.expr(depth - 1);
                s.push_str(&format!("({})", e));
            } else {
                s.push_str(ATOM[self.rng.below(ATOM.len())]);
            }
            if self.rng.one_in(20) {
                s.push_str([" ASC", " DESC", " NULLS LAST", ".g(1)", "[0]", "(1)", ".h"][self.rng.below(7)]);
            }
        }
        s
    }
    fn mutate(&mut self) -> String {
        if self.prop == "C11" && !self.rng.one_in(3) {
            let e = self.expr(2);
            let k = self.rng.below(5);
            return match k {
                0 => format!("SELECT 1 FROM t WHERE {}", e),
                1 => format!("SELECT x FROM t ORDER BY {}, 1", e),
                2 => format!("SELECT {} AS z, 1", e),
                _ => format!("SELECT {}", e),
            };
        }
        let i = self.pick();
        let mut p = pieces(&self.corpus[i].clone());
        let rounds = 1 + self.rng.below(4);
        for _ in 0..rounds {
            let n = p.len();
            match self.rng.below(12) {
                0 if n > 0 => {
                    let a = self.rng.below(n);
                    let k = 1 + self.rng.below(3);
                    p.drain(a..(a + k).min(n));
                }
                1 if n > 0 => {
                    let a = self.rng.below(n);
                    let k = 1 + self.rng.below(6);
                    let seg: Vec<String> = p[a..(a + k).min(n)].to_vec();
                    let b = self.rng.below(n + 1);
                    for (x, y) in seg.into_iter().enumerate() {
                        p.insert(b + x, y);
                    }
                }
                2 | 3 | 4 => {
                    let a = self.rng.below(n + 1);
                    let w = self.word();
                    p.insert(a, w);
                }
                5 | 6 if n > 0 => {
                    let a = self.rng.below(n);
                    p[a] = self.word();
                }
                7 if n > 1 => {
                    let a = self.rng.below(n - 1);
                    p.swap(a, a + 1);
                }
                8 | 9 => {
                    let j = self.pick();
                    let q = pieces(&self.corpus[j].clone());
                    if !q.is_empty() {
                        let a = self.rng.below(q.len());
                        let k = 1 + self.rng.below(q.len() - a);
                        let seg = q[a..a + k].to_vec();
                        let b = self.rng.below(n + 1);
                        if self.rng.one_in(2) {
                            let e = (b + self.rng.below(4)).min(n);
                            p.splice(b..e, seg);
                        } else {
                            p.splice(b..b, seg);
                        }
                    }
                }
                10 if n > 0 => {
                    let a = self.rng.below(n);
                    p.truncate(a);
                }
                _ => {
                    let a = self.rng.below(n + 1);
                    p.insert(a, COMMENTS[self.rng.below(COMMENTS.len())].to_string());
                }
            }
        }
        if self.prop == "C07" {
            for _ in 0..1 + self.rng.below(4) {
                let a = self.rng.below(p.len() + 1);
                p.insert(a, COMMENTS[self.rng.below(COMMENTS.len())].to_string());
            }
        }
        let style = self.rng.below(3);
        let mut r = Rng(self.rng.next());
        let mut s = join(&p, &mut r, style);
        let lexy = matches!(self.prop.as_str(), "C01" | "C02" | "C03" | "C04");
        if lexy || self.rng.one_in(12) {
            for _ in 0..1 + self.rng.below(4) {
                let mut cs: Vec<char> = s.chars().collect();
                let a = self.rng.below(cs.len() + 1);
                match self.rng.below(3) {
                    0 if a < cs.len() => {
                        cs.remove(a);
                    }
                    1 if a < cs.len() => {
                        let b = self.rng.below(cs.len());
                        cs.swap(a, b);
                    }
                    _ => {
                        let x = CHARS[self.rng.below(CHARS.len())];
                        for (k, c) in x.chars().enumerate() {
                            cs.insert(a + k, c);
                        }
                    }
                }
                s = cs.into_iter().collect();
            }
        }
        s
    }
}
/// systematic neighbourhood of one corpus entry
fn neighbours(p: &[String], prop: &str) -> Vec<Vec<String>> {
    let mut v = vec![];
    for i in 0..=p.len() {
        v.push(p[..i].to_vec());
        if i < p.len() {
            let mut q = p.to_vec();
            q.remove(i);
            v.push(q);
        }
        if i + 1 < p.len() {
            let mut q = p.to_vec();
            q.swap(i, i + 1);
            v.push(q);
        }
        for w in [";", ",", "(", ")", "AS", "x", "1", "."] {
            let mut q = p.to_vec();
            q.insert(i, w.into());
            v.push(q);
        }
        let nc = if prop == "C07" { 4 } else { 2 };
        for c in &COMMENTS[..nc] {
            let mut q = p.to_vec();
            q.insert(i, c.to_string());
            v.push(q);
        }
    }
    if prop == "C07" || prop == "C06" {
        let mut q = vec![];
        for x in p {
            q.push("/* a */".to_string());
            q.push(x.clone());
            q.push("-- b".to_string());
        }
        v.push(q);
    }
    v
}
pub fn main(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let mut seed = 1u64;
    let mut secs = 30u64;
    let mut corpora: Vec<String> = vec![];
    let mut dict = None;
    let mut focus = None;
    let mut out = "/tmp/bqh-found.json".to_string();
    let mut cur = None;
    let mut keep = None;
    let mut shard = (0usize, 1usize);
    let mut k = 1;
    while k < args.len() {
        let v = args.get(k + 1).cloned().unwrap_or_default();
        match args[k].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--corpus" => corpora.push(v),
            "--dict" => dict = Some(v),
            "--focus" => focus = Some(v),
            "--out" => out = v,
            "--cur" => cur = Some(v),
            "--keep" => keep = Some(v),
            "--shard" => {
                let (a, b) = v.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            _ => {}
        }
        k += 2;
    }
    let list = |f: &Option<String>| -> Vec<String> { f.as_ref().and_then(|f| fs::read_to_string(f).ok()).map(|s| s.lines().filter_map(|l| serde_json::from_str::<String>(l).ok()).collect()).unwrap_or_default() };
    let mut corpus: Vec<String> = vec![];
    for c in &corpora {
        corpus.extend(list(&Some(c.clone())));
    }
    if corpus.is_empty() {
        corpus.push("SELECT 1;".into());
    }
    let mut st = St {
        prop: prop.clone(),
        out,
        evals: 0,
        rng: Rng(seed.wrapping_mul(1000003).wrapping_add(shard.0 as u64)),
        corpus: vec![],
        dict: list(&dict),
        focus: list(&focus),
        deadline: Instant::now() + Duration::from_secs(secs),
        cov: Cov::new(),
        keep,
        cur: cur.and_then(|c| fs::File::create(c).ok()),
        maxlen: 700,
    };
    watchdog(10);
    // phase 1: the corpus as it is
    for s in &corpus {
        if let Some(rc) = st.try_one(s) {
            return rc;
        }
    }
    if secs == 0 {
        let t: String = st.corpus.iter().map(|s| serde_json::to_string(s).unwrap() + "\n").collect();
        if let Some(f) = &st.keep {
            fs::write(f, t).unwrap();
        }
        println!("MERGED {} edges={}", st.corpus.len(), st.cov.edges());
        return 0;
    }
    let base = corpus.clone();
    for s in &base {
        if !st.corpus.contains(s) {
            st.corpus.push(s.clone());
        }
    }
    let focused = |s: &str, st: &St| {
        let u = s.to_uppercase();
        st.focus.iter().any(|f| f.len() > 2 && u.contains(&f.to_uppercase()))
    };
    // phase 2: systematic neighbourhood, entries that mention the focus words first
    let mut order: Vec<usize> = (0..base.len()).filter(|i| i % shard.1 == shard.0).collect();
    order.sort_by_key(|i| (!focused(&base[*i], &st), base[*i].len()));
    // phase 1b: every focus word inserted / substituted everywhere in the entries that
    // mention most focus words
    {
        let fw: Vec<String> = st.focus.iter().take(60).cloned().collect();
        let mut rank: Vec<(usize, usize, usize)> = (0..base.len())
            .map(|i| {
                let ps: Vec<String> = pieces(&base[i]).iter().map(|x| x.to_uppercase()).collect();
                let hits = fw.iter().filter(|f| f.len() > 2 && ps.contains(&f.to_uppercase())).count();
                (hits, ps.len(), i)
            })
            .filter(|x| x.0 > 0 && x.1 <= 80)
            .collect();
        rank.sort_by_key(|x| (std::cmp::Reverse(x.0), x.1));
        let stop = Instant::now() + Duration::from_secs(secs / 3 + 1);
        'fo: for (k, (_, _, i)) in rank.iter().take(240).enumerate() {
            if k % shard.1 != shard.0 {
                continue;
            }
            let p = pieces(&base[*i]);
            for w in &fw {
                for a in 0..=p.len() {
                    for sub in 0..2 {
                        if Instant::now() > stop {
                            break 'fo;
                        }
                        let mut q = p.clone();
                        if sub == 1 {
                            if a == p.len() {
                                continue;
                            }
                            q[a] = w.clone();
                        } else {
                            q.insert(a, w.clone());
                        }
                        let mut r = Rng(1);
                        let s = join(&q, &mut r, 0);
                        if let Some(rc) = st.try_one(&s) {
                            return rc;
                        }
                    }
                }
            }
        }
    }
    let half = Instant::now() + Duration::from_secs(secs / 2 + 1);
    'sys: for i in order {
        let p = pieces(&base[i]);
        if p.len() > 60 {
            continue;
        }
        for q in neighbours(&p, &prop) {
            if Instant::now() > half {
                break 'sys;
            }
            let mut r = Rng(1);
            let s = join(&q, &mut r, 0);
            if let Some(rc) = st.try_one(&s) {
                return rc;
            }
        }
    }
    // phase 3: coverage-guided mutation
    while Instant::now() < st.deadline {
        for _ in 0..64 {
            let s = st.mutate();
            if let Some(rc) = st.try_one(&s) {
                return rc;
            }
        }
    }
    if let Some(f) = &st.keep {
        let t: String = st.corpus.iter().map(|s| serde_json::to_string(s).unwrap() + "\n").collect();
        fs::write(f, t).unwrap();
    }
    println!("DONE evals={} corpus={} edges={}", st.evals, st.corpus.len(), st.cov.edges());
    0
}
