// ---- classes of tokens (lens tok) -------------------------------------------
// the reserved words of GoogleSQL
spec fn q_reserved(y: int) -> bool { y == lit!("ALL") || y == lit!("AND") || y == lit!("ANY") || y == lit!("ARRAY") || y == lit!("AS") || y == lit!("ASC") || y == lit!("ASSERT_ROWS_MODIFIED") || y == lit!("AT") || y == lit!("BETWEEN") || y == lit!("BY") || y == lit!("CASE") || y == lit!("CAST") || y == lit!("COLLATE") || y == lit!("CONTAINS") || y == lit!("CREATE") || y == lit!("CROSS") || y == lit!("CUBE") || y == lit!("CURRENT") || y == lit!("DEFAULT") || y == lit!("DEFINE") || y == lit!("DESC") || y == lit!("DISTINCT") || y == lit!("ELSE") || y == lit!("END") || y == lit!("ENUM") || y == lit!("ESCAPE") || y == lit!("EXCEPT") || y == lit!("EXCLUDE") || y == lit!("EXISTS") || y == lit!("EXTRACT") || y == lit!("FALSE") || y == lit!("FETCH") || y == lit!("FOLLOWING") || y == lit!("FOR") || y == lit!("FROM") || y == lit!("FULL") || y == lit!("GROUP") || y == lit!("GROUPING") || y == lit!("GROUPS") || y == lit!("HASH") || y == lit!("HAVING") || y == lit!("IF") || y == lit!("IGNORE") || y == lit!("IN") || y == lit!("INNER") || y == lit!("INTERSECT") || y == lit!("INTERVAL") || y == lit!("INTO") || y == lit!("IS") || y == lit!("JOIN") || y == lit!("LATERAL") || y == lit!("LEFT") || y == lit!("LIKE") || y == lit!("LIMIT") || y == lit!("LOOKUP") || y == lit!("MERGE") || y == lit!("NATURAL") || y == lit!("NEW") || y == lit!("NO") || y == lit!("NOT") || y == lit!("NULL") || y == lit!("NULLS") || y == lit!("OF") || y == lit!("ON") || y == lit!("OR") || y == lit!("ORDER") || y == lit!("OUTER") || y == lit!("OVER") || y == lit!("PARTITION") || y == lit!("PRECEDING") || y == lit!("PROTO") || y == lit!("QUALIFY") || y == lit!("RANGE") || y == lit!("RECURSIVE") || y == lit!("RESPECT") || y == lit!("RIGHT") || y == lit!("ROLLUP") || y == lit!("ROWS") || y == lit!("SELECT") || y == lit!("SET") || y == lit!("SOME") || y == lit!("STRUCT") || y == lit!("TABLESAMPLE") || y == lit!("THEN") || y == lit!("TO") || y == lit!("TREAT") || y == lit!("TRUE") || y == lit!("UNBOUNDED") || y == lit!("UNION") || y == lit!("UNNEST") || y == lit!("USING") || y == lit!("WHEN") || y == lit!("WHERE") || y == lit!("WINDOW") || y == lit!("WITH") || y == lit!("WITHIN") }
spec fn q_id1(c: char) -> bool { q_ualpha(c) || c == '_' }
spec fn q_idc(c: char) -> bool { q_ualpha(c) || q_dig(c) || c == '_' }
spec fn q_identrest(s: Seq<char>) -> bool decreases s.len() {
    s.len() == 0 || q_idc(s[0]) && q_identrest(s.subrange(1, s.len() as int))
}
spec fn q_ident(s: Seq<char>) -> bool {
    q_quote(s, '`') || !q_reserved(q_up(q_sid(s))) && s.len() > 0 && q_id1(s[0]) && q_identrest(s.subrange(1, s.len() as int))
}
spec fn q_exponent(s: Seq<char>, p: int) -> bool {
    (q_ch(s, p) == Some('e') || q_ch(s, p) == Some('E')) && {
        let q = if q_ch(s, p + 1) == Some('+') || q_ch(s, p + 1) == Some('-') { p + 2 } else { p + 1 };
        q_digits(s, q) > q && q_digits(s, q) == s.len()
    }
}
spec fn q_numeric(s: Seq<char>) -> bool {
    let a = q_digits(s, 0);
    let dot = q_ch(s, a) == Some('.') && q_digits(s, a + 1) > a + 1;
    let p = if dot { q_digits(s, a + 1) } else { a };
    (dot || a > 0) && (p == s.len() || q_exponent(s, p))
}
// the regex crate: one pattern is read, every other one is unknown
uninterp spec fn q_re(pat: int, s: Seq<char>) -> bool;
uninterp spec fn q_revalid(pat: int) -> bool;
#[verifier::external_body]
broadcast proof fn re_number(s: Seq<char>)
    ensures q_revalid(lit!("^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$")), #[trigger] q_re(lit!("^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$"), s) == q_numeric(s)
{ }
#[verifier::external_body]
broadcast proof fn re_valid(p: int)
    ensures #[trigger] q_revalid(p) == (p == lit!("^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$"))
{ }
#[verifier::external_body]
struct Regex { x: usize }
impl Regex {
    uninterp spec fn pat(&self) -> int;
    #[verifier::external_body]
    fn new(p: &str) -> (r: Result<Regex, ()>) ensures q_revalid(q_sid(p@)) ==> r is Ok, r matches Ok(x) ==> x.pat() == q_sid(p@) { unimplemented!() }
    #[verifier::external_body]
    fn is_match(&self, s: &str) -> (r: bool) ensures r == q_re(self.pat(), s@) { unimplemented!() }
}

// ---- C10: letter case ---------------------------------------------------------
// ASCII letters without their case
spec fn q_f(c: char) -> int { if 'a' <= c && c <= 'z' { c as int - 32 } else { c as int } }
// equal up to the case of ASCII letters
spec fn q_ceq(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> q_f(#[trigger] a[i]) == q_f(b[i])
}
// std: to_uppercase forgets the case of ASCII letters
#[verifier::external_body]
proof fn up_ceq(a: Seq<char>, b: Seq<char>)
    requires q_ceq(a, b)
    ensures q_up(q_sid(a)) == q_up(q_sid(b))
{ }
// two characters equal up to case: equal, or both letters
proof fn ch_ceq(c: char, d: char)
    requires q_f(c) == q_f(d)
    ensures c == d || q_ualpha(c) && q_ualpha(d) && (c as int == d as int + 32 || d as int == c as int + 32),
        q_alpha(c) == q_alpha(d), q_ws(c) == q_ws(d), q_dig(c) == q_dig(d), q_word1(c) == q_word1(d), q_wordc(c) == q_wordc(d), q_id1(c) == q_id1(d), q_idc(c) == q_idc(d),
        (c == 'e' || c == 'E') == (d == 'e' || d == 'E'),
{ broadcast use group_lex; }
// the same for the characters at place p
proof fn at_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_ch(s, p) is None == q_ch(t, p) is None,
        q_ch(s, p) matches Some(c) ==> (q_ch(t, p) matches Some(d) && (c == d || q_ualpha(c) && q_ualpha(d)) && q_alpha(c) == q_alpha(d) && q_ws(c) == q_ws(d) && q_dig(c) == q_dig(d) && q_word1(c) == q_word1(d) && q_wordc(c) == q_wordc(d) && q_id1(c) == q_id1(d) && q_idc(c) == q_idc(d) && (c == 'e' || c == 'E') == (d == 'e' || d == 'E')),
{ if 0 <= p < s.len() { ch_ceq(s[p], t[p]); } }
proof fn sub_ceq(s: Seq<char>, t: Seq<char>, a: int, b: int)
    requires q_ceq(s, t), 0 <= a <= b <= s.len()
    ensures q_ceq(s.subrange(a, b), t.subrange(a, b))
{ assert forall|i: int| 0 <= i < b - a implies q_f(#[trigger] s.subrange(a, b)[i]) == q_f(t.subrange(a, b)[i]) by { assert(q_f(s[a + i]) == q_f(t[a + i])); } }
proof fn skip_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_skip(s, p) == q_skip(t, p), p <= q_skip(s, p)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() && q_ws(s[p]) { skip_ceq(s, t, p + 1); } }
proof fn word_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_word(s, p) == q_word(t, p)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() && q_wordc(s[p]) { word_ceq(s, t, p + 1); } }
proof fn digits_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_digits(s, p) == q_digits(t, p)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() && q_dig(s[p]) { digits_ceq(s, t, p + 1); } }
proof fn number_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_number(s, p) == q_number(t, p)
{
    digits_ceq(s, t, p);
    let a = q_digits(s, p);
    at_ceq(s, t, a);
    digits_ceq(s, t, a + 1);
    let b = if q_ch(s, a) == Some('.') { q_digits(s, a + 1) } else { a };
    at_ceq(s, t, b); at_ceq(s, t, b + 1);
    digits_ceq(s, t, b + 1); digits_ceq(s, t, b + 2);
}
proof fn eol_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_eol(s, p) == q_eol(t, p)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() && s[p] != '\n' { eol_ceq(s, t, p + 1); } }
proof fn block_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_block(s, p) == q_block(t, p)
    decreases s.len() - p
{ at_ceq(s, t, p); at_ceq(s, t, p + 1); if 0 <= p < s.len() { block_ceq(s, t, p + 1); } }
proof fn backq_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_backq(s, p) == q_backq(t, p)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() { backq_ceq(s, t, p + 1); } }
proof fn closes_ceq(s: Seq<char>, t: Seq<char>, p: int, c: char, k: int)
    requires q_ceq(s, t), c == '"' || c == '\''
    ensures q_closes(s, p, c, k) == q_closes(t, p, c, k)
{ at_ceq(s, t, p); at_ceq(s, t, p + 1); at_ceq(s, t, p + 2); }
proof fn quoted_ceq(s: Seq<char>, t: Seq<char>, p: int, odd: bool, c: char, k: int)
    requires q_ceq(s, t), c == '"' || c == '\''
    ensures q_quoted(s, p, odd, c, k) == q_quoted(t, p, odd, c, k)
    decreases s.len() - p
{ at_ceq(s, t, p); closes_ceq(s, t, p, c, k); if 0 <= p < s.len() { quoted_ceq(s, t, p + 1, s[p] == '\\' && !odd, c, k); } }
proof fn run_ceq(s: Seq<char>, t: Seq<char>, p: int, c: char)
    requires q_ceq(s, t), c == '@' || c == '{'
    ensures q_run(s, p, c) == q_run(t, p, c)
    decreases s.len() - p
{ at_ceq(s, t, p); if 0 <= p < s.len() { run_ceq(s, t, p + 1, c); } }
proof fn all_ceq(s: Seq<char>, t: Seq<char>, p: int, k: int)
    requires q_ceq(s, t)
    ensures q_all(s, p, k, '}') == q_all(t, p, k, '}')
{
    assert forall|j: int| #[trigger] q_ch(s, j) == Some('}') <==> q_ch(t, j) == Some('}') by { at_ceq(s, t, j); }
    assert forall|j: int| #[trigger] q_ch(t, j) == Some('}') <==> q_ch(s, j) == Some('}') by { at_ceq(s, t, j); }
}
proof fn tmpl_ceq(s: Seq<char>, t: Seq<char>, q: int, k: int)
    requires q_ceq(s, t)
    ensures q_tmpl(s, q, k) == q_tmpl(t, q, k)
    decreases s.len() - q
{ all_ceq(s, t, q + 1, k); if 0 <= q < s.len() { tmpl_ceq(s, t, q + 1, k); } }
// the lexeme at p ends at the same place whatever the case of the letters
proof fn lexeme_ceq(s: Seq<char>, t: Seq<char>, p: int, depth: int)
    requires q_ceq(s, t)
    ensures q_lexeme(s, p, depth) == q_lexeme(t, p, depth) //@C10 token boundaries do not depend on the letter case
{
    broadcast use group_lex;
    at_ceq(s, t, p); at_ceq(s, t, p + 1); at_ceq(s, t, p + 2);
    number_ceq(s, t, p); eol_ceq(s, t, p); block_ceq(s, t, p + 2); backq_ceq(s, t, p + 1);
    if let Some(c) = q_ch(s, p) { if c == '"' || c == '\'' { quoted_ceq(s, t, p + 3, false, c, 3); quoted_ceq(s, t, p + 1, false, c, 1); } }
    run_ceq(s, t, p, '@'); run_ceq(s, t, p, '{');
    let q = q_run(s, p, '@');
    at_ceq(s, t, q); backq_ceq(s, t, q + 1); word_ceq(s, t, q + 1);
    tmpl_ceq(s, t, q_run(s, p, '{'), q_run(s, p, '{') - p);
    word_ceq(s, t, p);
}
proof fn trim_ceq(s: Seq<char>, t: Seq<char>)
    requires q_ceq(s, t)
    ensures q_ceq(q_trim(s), q_trim(t))
    decreases s.len()
{
    if s.len() > 0 {
        ch_ceq(s.last(), t.last());
        assert forall|i: int| 0 <= i < s.len() - 1 implies q_f(#[trigger] s.drop_last()[i]) == q_f(t.drop_last()[i]) by { assert(q_f(s[i]) == q_f(t[i])); }
        if q_ws(s.last()) { trim_ceq(s.drop_last(), t.drop_last()); }
    }
}
// token lists equal up to letter case
spec fn q_tceq(u: Seq<Token>, v: Seq<Token>) -> bool {
    u.len() == v.len() && forall|i: int| 0 <= i < u.len() ==> q_ceq(#[trigger] u[i].literal@, v[i].literal@)
}
proof fn tceq_last(u: Seq<Token>, v: Seq<Token>)
    requires q_tceq(u, v), u.len() > 0
    ensures q_tceq(u.drop_last(), v.drop_last()), q_ceq(u.last().literal@, v.last().literal@)
{ assert forall|i: int| 0 <= i < u.len() - 1 implies q_ceq(#[trigger] u.drop_last()[i].literal@, v.drop_last()[i].literal@) by { assert(q_ceq(u[i].literal@, v[i].literal@)); } }
proof fn depth_ceq(u: Seq<Token>, v: Seq<Token>)
    requires q_tceq(u, v)
    ensures q_depth(u) == q_depth(v)
    decreases u.len()
{
    if u.len() > 0 {
        tceq_last(u, v);
        depth_ceq(u.drop_last(), v.drop_last());
        at_ceq(u.last().literal@, v.last().literal@, 0);
        if u.len() > 1 { up_ceq(u[u.len() - 2].literal@, v[v.len() - 2].literal@); assert(q_typekw(u[u.len() - 2]) == q_typekw(v[v.len() - 2])); }
    }
}
// equally many tokens: then they end at the same place and are equal up to case
proof fn rules_ceq(s: Seq<char>, t: Seq<char>, u: Seq<Token>, v: Seq<Token>, e: int, g: int)
    requires q_ceq(s, t), q_rules(s, u, e), q_rules(t, v, g), u.len() == v.len()
    ensures e == g, q_tceq(u, v) //@C10 the tokens do not depend on the letter case
    decreases u.len()
{
    reveal(q_rules);
    if u.len() > 0 {
        let a = choose|a: int| #[trigger] q_rule(s, u.drop_last(), u.last(), a, e) && q_rules(s, u.drop_last(), a);
        let b = choose|b: int| #[trigger] q_rule(t, v.drop_last(), v.last(), b, g) && q_rules(t, v.drop_last(), b);
        rules_ceq(s, t, u.drop_last(), v.drop_last(), a, b);
        skip_ceq(s, t, a);
        depth_ceq(u.drop_last(), v.drop_last());
        let p = q_skip(s, a);
        lexeme_ceq(s, t, p, q_depth(u.drop_last()));
        lexeme_end(s, p, q_depth(u.drop_last()));
        sub_ceq(s, t, p, e);
        trim_ceq(s.subrange(p, e), t.subrange(p, e));
        at_ceq(s, t, p); at_ceq(s, t, p + 1);
        assert(q_ceq(u.last().literal@, v.last().literal@));
        assert forall|i: int| 0 <= i < u.len() implies q_ceq(#[trigger] u[i].literal@, v[i].literal@) by {
            if i < u.len() - 1 { assert(q_ceq(u.drop_last()[i].literal@, v.drop_last()[i].literal@)); }
        }
    }
}
// ends of lexemes lie within the text
proof fn lexeme_end(s: Seq<char>, p: int, depth: int)
    requires 0 <= p < s.len()
    ensures q_lexeme(s, p, depth) matches Lx::End(e) ==> p < e <= s.len()
{
    digits_end(s, p);
    let a = q_digits(s, p);
    digits_end(s, a + 1);
    let b = if q_ch(s, a) == Some('.') { q_digits(s, a + 1) } else { a };
    if b + 1 <= s.len() { digits_end(s, b + 1); }
    if b + 2 <= s.len() { digits_end(s, b + 2); }
    eol_end(s, p); block_end(s, p + 2); backq_end(s, p + 1);
    if let Some(c) = q_ch(s, p) { quoted_end(s, p + 3, false, c, 3); quoted_end(s, p + 1, false, c, 1); }
    run_end(s, p, '@'); run_end(s, p, '{');
    let q = q_run(s, p, '@');
    backq_end(s, q + 1); word_end(s, q + 1); word_end(s, p);
    tmpl_end(s, q_run(s, p, '{'), q_run(s, p, '{') - p);
}
proof fn digits_end(s: Seq<char>, p: int) requires 0 <= p ensures p <= q_digits(s, p), p <= s.len() ==> q_digits(s, p) <= s.len() decreases s.len() - p
{ if p < s.len() && q_dig(s[p]) { digits_end(s, p + 1); } }
proof fn word_end(s: Seq<char>, p: int) requires 0 <= p ensures p <= q_word(s, p), p <= s.len() ==> q_word(s, p) <= s.len(), p < s.len() && q_wordc(s[p]) ==> p < q_word(s, p) decreases s.len() - p
{ if p < s.len() && q_wordc(s[p]) { word_end(s, p + 1); } }
proof fn eol_end(s: Seq<char>, p: int) requires 0 <= p ensures p <= q_eol(s, p), p <= s.len() ==> q_eol(s, p) <= s.len(), p < s.len() && s[p] != '\n' ==> p < q_eol(s, p) decreases s.len() - p
{ if p < s.len() && s[p] != '\n' { eol_end(s, p + 1); } }
proof fn block_end(s: Seq<char>, p: int) requires 0 <= p ensures q_block(s, p) matches Lx::End(e) ==> p < e <= s.len() decreases s.len() - p
{ if p < s.len() { block_end(s, p + 1); } }
proof fn backq_end(s: Seq<char>, p: int) requires 0 <= p ensures q_backq(s, p) matches Lx::End(e) ==> p < e <= s.len() decreases s.len() - p
{ if p < s.len() { backq_end(s, p + 1); } }
proof fn quoted_end(s: Seq<char>, p: int, odd: bool, c: char, k: int) requires 0 <= p, k == 1 || k == 3 ensures q_quoted(s, p, odd, c, k) matches Lx::End(e) ==> p < e <= s.len() decreases s.len() - p
{ if p < s.len() { quoted_end(s, p + 1, s[p] == '\\' && !odd, c, k); } }
proof fn run_end(s: Seq<char>, p: int, c: char) requires 0 <= p ensures p <= q_run(s, p, c), p <= s.len() ==> q_run(s, p, c) <= s.len(), p < s.len() && s[p] == c ==> p < q_run(s, p, c) decreases s.len() - p
{ if p < s.len() && s[p] == c { run_end(s, p + 1, c); } }
proof fn tmpl_end(s: Seq<char>, q: int, k: int) requires 0 <= q, 0 <= k ensures q_tmpl(s, q, k) matches Lx::End(e) ==> q < e <= s.len() decreases s.len() - q
{
    if q < s.len() {
        if k > 0 && q_all(s, q + 1, k, '}') { assert(q_ch(s, q + k) == Some('}')); }
        tmpl_end(s, q + 1, k);
    }
}
// a shorter list of tokens is the beginning of a longer one
proof fn rules_prefix(s: Seq<char>, u: Seq<Token>, e: int, n: int) -> (a: int)
    requires q_rules(s, u, e), 0 <= n < u.len()
    ensures q_rules(s, u.take(n), a), q_skip(s, a) < s.len(), q_lexeme(s, q_skip(s, a), q_depth(u.take(n))) is End
    decreases u.len()
{
    reveal(q_rules);
    let a = choose|a: int| #[trigger] q_rule(s, u.drop_last(), u.last(), a, e) && q_rules(s, u.drop_last(), a);
    assert(u.drop_last() =~= u.take(u.len() - 1));
    if n == u.len() - 1 { a } else {
        assert(u.drop_last().take(n) =~= u.take(n));
        rules_prefix(s, u.drop_last(), a, n)
    }
}
// C10 for the tokenizer: a text and a case variant of it, both accepted
proof fn tokens_ceq(s: Seq<char>, t: Seq<char>, u: Seq<Token>, v: Seq<Token>)
    requires q_ceq(s, t), q_allrules(s, u), q_allrules(t, v)
    ensures q_tceq(u, v) //@C10 case variants of a text have the same tokens up to case
{
    reveal(q_allrules);
    let e = choose|e: int| #[trigger] q_rules(s, u, e) && q_skip(s, e) == s.len();
    let g = choose|g: int| #[trigger] q_rules(t, v, g) && q_skip(t, g) == t.len();
    if u.len() < v.len() {
        let a = rules_prefix(t, v, g, u.len() as int);
        rules_ceq(s, t, u, v.take(u.len() as int), e, a);
        skip_ceq(s, t, e);
    } else if v.len() < u.len() {
        let a = rules_prefix(s, u, e, v.len() as int);
        rules_ceq(s, t, u.take(v.len() as int), v, a, g);
        skip_ceq(s, t, g);
    } else { rules_ceq(s, t, u, v, e, g); }
}
proof fn ceq_sym(s: Seq<char>, t: Seq<char>)
    requires q_ceq(s, t)
    ensures q_ceq(t, s)
{ assert forall|i: int| 0 <= i < t.len() implies q_f(#[trigger] t[i]) == q_f(s[i]) by { assert(q_f(s[i]) == q_f(t[i])); } }
// one of them is rejected: so is the other (at the same place)
proof fn errors_ceq(s: Seq<char>, t: Seq<char>, e: BQ2CSTError, v: Seq<Token>)
    requires q_ceq(s, t), q_erroneous(s, e)
    ensures !q_allrules(t, v) //@C10 case variants of a text are rejected alike
{
    reveal(q_allrules); reveal(q_erroneous);
    if q_allrules(t, v) {
        let (u, p) = choose|u: Seq<Token>, p: int| #[trigger] q_rules(s, u, p) && (q_lexeme(s, q_skip(s, p), q_depth(u)) matches Lx::Bad(q) && q_at(s, e, q));
        let g = choose|g: int| #[trigger] q_rules(t, v, g) && q_skip(t, g) == t.len();
        if u.len() < v.len() {
            let a = rules_prefix(t, v, g, u.len() as int);
            rules_ceq(s, t, u, v.take(u.len() as int), p, a);
            skip_ceq(s, t, p);
            depth_ceq(u, v.take(u.len() as int));
            lexeme_ceq(s, t, q_skip(s, p), q_depth(u));
        } else if v.len() < u.len() {
            let a = rules_prefix(s, u, p, v.len() as int);
            rules_ceq(s, t, u.take(v.len() as int), v, a, g);
            skip_ceq(s, t, g);
        } else {
            rules_ceq(s, t, u, v, p, g);
            skip_ceq(s, t, g);
        }
    }
}
proof fn lc_ceq(s: Seq<char>, t: Seq<char>, p: int)
    requires q_ceq(s, t)
    ensures q_line(s, p) == q_line(t, p), q_col(s, p) == q_col(t, p) //@C10 positions do not depend on the letter case
    decreases p
{ if p > 0 { at_ceq(s, t, p - 1); lc_ceq(s, t, p - 1); } }
proof fn error_place_ceq(s: Seq<char>, t: Seq<char>, e: BQ2CSTError, f: BQ2CSTError)
    requires q_ceq(s, t), q_erroneous(s, e), q_erroneous(t, f)
    ensures e.line == f.line, e.column == f.column //@C10 an error keeps its position whatever the letter case
{
    reveal(q_erroneous);
    let (u, p) = choose|u: Seq<Token>, p: int| #[trigger] q_rules(s, u, p) && (q_lexeme(s, q_skip(s, p), q_depth(u)) matches Lx::Bad(q) && q_at(s, e, q));
    let (v, g) = choose|v: Seq<Token>, g: int| #[trigger] q_rules(t, v, g) && (q_lexeme(t, q_skip(t, g), q_depth(v)) matches Lx::Bad(q) && q_at(t, f, q));
    if u.len() < v.len() {
        let a = rules_prefix(t, v, g, u.len() as int);
        rules_ceq(s, t, u, v.take(u.len() as int), p, a);
        skip_ceq(s, t, p);
        depth_ceq(u, v.take(u.len() as int));
        lexeme_ceq(s, t, q_skip(s, p), q_depth(u));
    } else if v.len() < u.len() {
        let a = rules_prefix(s, u, p, v.len() as int);
        rules_ceq(s, t, u.take(v.len() as int), v, a, g);
        skip_ceq(s, t, g);
        depth_ceq(u.take(v.len() as int), v);
        lexeme_ceq(s, t, q_skip(s, a), q_depth(v));
    } else {
        rules_ceq(s, t, u, v, p, g);
        skip_ceq(s, t, p);
        depth_ceq(u, v);
        lexeme_ceq(s, t, q_skip(s, p), q_depth(u));
        if let Lx::Bad(q) = q_lexeme(s, q_skip(s, p), q_depth(u)) { lc_ceq(s, t, q); }
    }
}
proof fn identrest_ceq(a: Seq<char>, b: Seq<char>)
    requires q_ceq(a, b)
    ensures q_identrest(a) == q_identrest(b)
    decreases a.len()
{ if a.len() > 0 { at_ceq(a, b, 0); sub_ceq(a, b, 1, a.len() as int); identrest_ceq(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); } }
// C10 for the token classes
proof fn classes_ceq(a: Seq<char>, b: Seq<char>)
    requires q_ceq(a, b)
    ensures
        q_ident(a) == q_ident(b), //@C10 identifiers do not depend on the letter case
        q_numeric(a) == q_numeric(b), //@C10 numbers do not depend on the letter case
        q_quote(a, '"') == q_quote(b, '"') && q_quote(a, '\'') == q_quote(b, '\'') && q_quote(a, '`') == q_quote(b, '`'), //@C10 quotes
        q_cmt(a) == q_cmt(b), //@C10 comments
        q_ch(a, 0) == Some('?') <==> q_ch(b, 0) == Some('?'), //@C10 parameters
        q_ch(a, 0) == Some('@') <==> q_ch(b, 0) == Some('@'), //@C10 parameters
        q_ch(a, 0) == Some('{') <==> q_ch(b, 0) == Some('{'), //@C10 templates
        q_up(q_sid(a)) == q_up(q_sid(b)), //@C10 keywords do not depend on the letter case
{
    up_ceq(a, b);
    at_ceq(a, b, 0); at_ceq(a, b, 1); at_ceq(a, b, a.len() - 1);
    if a.len() > 0 { sub_ceq(a, b, 1, a.len() as int); identrest_ceq(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); }
    digits_ceq(a, b, 0);
    let x = q_digits(a, 0);
    at_ceq(a, b, x); digits_ceq(a, b, x + 1);
    let p = if q_ch(a, x) == Some('.') && q_digits(a, x + 1) > x + 1 { q_digits(a, x + 1) } else { x };
    at_ceq(a, b, p); at_ceq(a, b, p + 1); digits_ceq(a, b, p + 1); digits_ceq(a, b, p + 2);
}
