// ---- prelude of the tokenizer lens (trusted + ghost definitions) ----------
uninterp spec fn q_sid(s: Seq<char>) -> int;
uninterp spec fn q_up(i: int) -> int;
uninterp spec fn q_low(i: int) -> int;
// char classes of the Unicode database: total predicates, only these facts assumed
uninterp spec fn q_ctl(c: char) -> bool;
uninterp spec fn q_u8(c: char) -> int;
uninterp spec fn q_u16(c: char) -> int;
spec fn q_aws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
uninterp spec fn q_alpha(c: char) -> bool;
uninterp spec fn q_num(c: char) -> bool;
uninterp spec fn q_ws(c: char) -> bool;
#[verifier::external_body]
broadcast proof fn ws_facts(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] q_ws(c) <==> q_aws(c) || c == '\u{b}')
{ }
// among the ASCII characters exactly the letters are alphabetic
#[verifier::external_body]
broadcast proof fn alpha_facts(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] q_alpha(c) <==> q_ualpha(c))
{ }
spec fn q_dig(c: char) -> bool { '0' <= c && c <= '9' }
spec fn q_ualpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
trait ChX {
    fn x_is_digit(&self, radix: u32) -> (r: bool);
    fn x_is_ascii_digit(&self) -> (r: bool);
    fn x_is_ascii_alphabetic(&self) -> (r: bool);
    fn x_is_ascii_alphanumeric(&self) -> (r: bool);
    fn x_is_whitespace(&self) -> (r: bool);
    fn x_is_alphabetic(&self) -> (r: bool);
    fn x_is_numeric(&self) -> (r: bool);
    fn x_is_alphanumeric(&self) -> (r: bool);
    fn x_is_ascii(&self) -> (r: bool);
    fn x_is_ascii_whitespace(&self) -> (r: bool);
    fn x_is_control(&self) -> (r: bool);
    fn x_len_utf8(&self) -> (r: usize);
    fn x_len_utf16(&self) -> (r: usize);
}
impl ChX for char {
    #[verifier::external_body]
    fn x_is_digit(&self, radix: u32) -> (r: bool) ensures radix == 10 ==> r == q_dig(*self) { self.is_digit(radix) }
    #[verifier::external_body]
    fn x_is_ascii_digit(&self) -> (r: bool) ensures r == q_dig(*self) { self.is_ascii_digit() }
    #[verifier::external_body]
    fn x_is_ascii_alphabetic(&self) -> (r: bool) ensures r == q_ualpha(*self) { self.is_ascii_alphabetic() }
    #[verifier::external_body]
    fn x_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (q_ualpha(*self) || q_dig(*self)) { self.is_ascii_alphanumeric() }
    #[verifier::external_body]
    fn x_is_whitespace(&self) -> (r: bool) ensures r == q_ws(*self) { self.is_whitespace() }
    #[verifier::external_body]
    fn x_is_alphabetic(&self) -> (r: bool) ensures r == q_alpha(*self) { self.is_alphabetic() }
    #[verifier::external_body]
    fn x_is_numeric(&self) -> (r: bool) ensures r == q_num(*self) { self.is_numeric() }
    #[verifier::external_body]
    fn x_is_alphanumeric(&self) -> (r: bool) ensures r == (q_alpha(*self) || q_num(*self)) { self.is_alphanumeric() }
    #[verifier::external_body]
    fn x_is_ascii(&self) -> (r: bool) ensures r == ((*self as u32) < 128) { self.is_ascii() }
    #[verifier::external_body]
    fn x_is_ascii_whitespace(&self) -> (r: bool) ensures r == q_aws(*self) { self.is_ascii_whitespace() }
    #[verifier::external_body]
    fn x_is_control(&self) -> (r: bool) ensures r == q_ctl(*self) { self.is_control() }
    #[verifier::external_body]
    fn x_len_utf8(&self) -> (r: usize) ensures r == q_u8(*self), 1 <= r <= 4, (*self as u32) < 128 ==> r == 1 { self.len_utf8() }
    #[verifier::external_body]
    fn x_len_utf16(&self) -> (r: usize) ensures r == q_u16(*self), 1 <= r <= 2, (*self as u32) < 0x10000 <==> r == 1 { self.len_utf16() }
}
trait StrX { spec fn x_chars(&self) -> Seq<char>; fn x_to_string(&self) -> (r: String) ensures r@ == self.x_chars(); }
impl StrX for char {
    spec fn x_chars(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { self.to_string() }
}
impl StrX for str {
    spec fn x_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { self.to_string() }
}
impl StrX for String {
    spec fn x_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { self.to_string() }
}
fn opt_eq(a: Option<char>, b: Option<char>) -> (r: bool) ensures r == (a == b)
{ match (a, b) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
#[verifier::external_body]
fn str_id(s: &str) -> (r: usize) ensures r == q_sid(s@) { unimplemented!() }
#[verifier::external_body]
fn str_id_sym(s: &str) -> (r: usize) ensures r == q_sid(s@) { unimplemented!() }
#[verifier::external_body]
fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (q_sid(a@) == q_sid(b@)) { a == b }
#[verifier::external_body]
fn str_upper(a: &str) -> (r: String) ensures q_sid(r@) == q_up(q_sid(a@)) { a.to_uppercase() }
#[verifier::external_body]
fn str_lower(a: &str) -> (r: String) ensures q_sid(r@) == q_low(q_sid(a@)) { a.to_lowercase() }
#[verifier::external_body]
fn str_first(a: &str) -> (r: Option<char>) ensures r == q_ch(a@, 0) { a.chars().next() }
#[verifier::external_body]
fn str_last(a: &str) -> (r: Option<char>) ensures r == q_ch(a@, a@.len() - 1) { a.chars().last() }
#[verifier::external_body]
fn str_count(a: &str) -> (r: usize) ensures r == a@.len() { a.chars().count() }
// UTF-8: at least one byte per character, one byte for an ASCII character
#[verifier::external_body]
fn str_byte_len(a: &str) -> (r: usize)
    ensures r >= a@.len(), a@.len() == 0 ==> r == 0, a@.len() == 1 && a@[0] < '\u{80}' ==> r == 1
{ a.len() }
// a String holds at most isize::MAX bytes
#[verifier::external_body]
fn str_to_chars(a: &str) -> (r: Vec<char>) ensures r@ == a@, r@.len() <= isize::MAX { a.chars().collect() }
#[verifier::external_body]
fn slice_str(v: &Vec<char>, a: usize, b: usize) -> (r: String)
    requires a <= b <= v@.len() //@C04 slice index out of range
    ensures r@ == v@.subrange(a as int, b as int)
{ v[a..b].iter().collect() }
#[verifier::external_body]
fn str_trim_end(a: &str) -> (r: &str) ensures r@ == q_trim(a@) { a.trim_end() }
#[verifier::external_body]
fn fmt_opaque() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn panic_here() -> (r: !)
    requires false //@C04 panic reached
{ panic!() }
#[verifier::external_body]
struct CharIter { x: usize }
impl CharIter {
    uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures
            r == q_ch(old(self).rest(), 0),
            final(self).rest() == (if old(self).rest().len() > 0 { old(self).rest().subrange(1, old(self).rest().len() as int) } else { old(self).rest() }),
    { unimplemented!() }
}
#[verifier::external_body]
fn str_chars(a: &str) -> (r: CharIter) ensures r.rest() == a@ { unimplemented!() }

// ---- text -------------------------------------------------------------------
spec fn q_ch(s: Seq<char>, i: int) -> Option<char> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
spec fn q_line(s: Seq<char>, p: int) -> int decreases p {
    if p <= 0 { 1 } else { q_line(s, p - 1) + (if q_ch(s, p - 1) == Some('\n') { 1int } else { 0int }) }
}
spec fn q_col(s: Seq<char>, p: int) -> int decreases p {
    if p <= 0 { 1 } else if q_ch(s, p - 1) == Some('\n') { 1 } else { q_col(s, p - 1) + 1 }
}
spec fn q_trim(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && q_ws(s.last()) { q_trim(s.drop_last()) } else { s }
}
spec fn q_blank(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> q_ws(#[trigger] s[i]) }
// first place at or after p that is not white space
spec fn q_skip(s: Seq<char>, p: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && q_ws(s[p]) { q_skip(s, p + 1) } else { p }
}

// ---- lexical rules (C03, C04): where the lexeme that starts at p ends --------
enum Lx { End(int), Bad(int) }
spec fn q_word1(c: char) -> bool { q_alpha(c) || c == '_' }
spec fn q_wordc(c: char) -> bool { q_alpha(c) || q_dig(c) || c == '_' }
spec fn q_word(s: Seq<char>, p: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && q_wordc(s[p]) { q_word(s, p + 1) } else { p }
}
spec fn q_digits(s: Seq<char>, p: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && q_dig(s[p]) { q_digits(s, p + 1) } else { p }
}
spec fn q_number(s: Seq<char>, p: int) -> int {
    let a = q_digits(s, p);
    let b = if q_ch(s, a) == Some('.') { q_digits(s, a + 1) } else { a };
    if q_ch(s, b) == Some('E') || q_ch(s, b) == Some('e') {
        if q_ch(s, b + 1) == Some('+') || q_ch(s, b + 1) == Some('-') { q_digits(s, b + 2) } else { q_digits(s, b + 1) }
    } else { b }
}
spec fn q_eol(s: Seq<char>, p: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && s[p] != '\n' { q_eol(s, p + 1) } else { p }
}
// p is behind the opening
spec fn q_block(s: Seq<char>, p: int) -> Lx decreases s.len() - p {
    if p >= s.len() || p < 0 { Lx::Bad(s.len() as int) }
    else if s[p] == '*' && q_ch(s, p + 1) == Some('/') { Lx::End(p + 2) }
    else { q_block(s, p + 1) }
}
spec fn q_backq(s: Seq<char>, p: int) -> Lx decreases s.len() - p {
    if p >= s.len() || p < 0 { Lx::Bad(s.len() as int) }
    else if s[p] == '`' { Lx::End(p + 1) }
    else { q_backq(s, p + 1) }
}
// k quotes close; odd: an odd number of backslashes directly before p
spec fn q_quoted(s: Seq<char>, p: int, odd: bool, c: char, k: int) -> Lx decreases s.len() - p {
    if p >= s.len() || p < 0 { Lx::Bad(s.len() as int) }
    else if !odd && q_closes(s, p, c, k) { Lx::End(p + k) }
    else { q_quoted(s, p + 1, s[p] == '\\' && !odd, c, k) }
}
spec fn q_closes(s: Seq<char>, p: int, c: char, k: int) -> bool {
    q_ch(s, p) == Some(c) && (k == 3 ==> q_ch(s, p + 1) == Some(c) && q_ch(s, p + 2) == Some(c))
}
spec fn q_run(s: Seq<char>, p: int, c: char) -> int decreases s.len() - p {
    if 0 <= p < s.len() && s[p] == c { q_run(s, p + 1, c) } else { p }
}
spec fn q_name(s: Seq<char>, q: int) -> Lx {
    if q_ch(s, q) == Some('`') { q_backq(s, q + 1) }
    else if q_ch(s, q) matches Some(c) && q_word1(c) { Lx::End(q_word(s, q + 1)) }
    else { Lx::Bad(q) }
}
spec fn q_all(s: Seq<char>, p: int, k: int, c: char) -> bool { forall|j: int| p <= j < p + k ==> #[trigger] q_ch(s, j) == Some(c) }
// a template that opens with k braces: k closing braces, at least one character inside
spec fn q_tmpl(s: Seq<char>, q: int, k: int) -> Lx decreases s.len() - q {
    if q >= s.len() || q < 0 { Lx::Bad(s.len() as int) }
    else if q_all(s, q + 1, k, '}') { Lx::End(q + 1 + k) }
    else { q_tmpl(s, q + 1, k) }
}
spec fn q_quantifier(s: Seq<char>, p: int) -> bool {
    q_run(s, p, '{') == p + 1 && (q_ch(s, p + 1) matches Some(c) && (c == '@' || c == ',' || q_dig(c)))
}
// depth: open angle brackets of ARRAY / STRUCT types before p
spec fn q_lexeme(s: Seq<char>, p: int, depth: int) -> Lx {
    let n = q_ch(s, p + 1);
    match q_ch(s, p) {
        None => Lx::End(p),
        Some(c) =>
            if q_dig(c) || c == '.' && (n matches Some(d) && q_dig(d)) { Lx::End(q_number(s, p)) }
            else if q_linec(s, p) { Lx::End(q_eol(s, p)) }
            else if c == '/' && n == Some('*') { q_block(s, p + 2) }
            else if c == '`' { q_backq(s, p + 1) }
            else if c == '"' || c == '\'' {
                if n == Some(c) && q_ch(s, p + 2) == Some(c) { q_quoted(s, p + 3, false, c, 3) } else { q_quoted(s, p + 1, false, c, 1) }
            }
            else if c == '@' { q_name(s, q_run(s, p, '@')) }
            else if c == '{' { if q_quantifier(s, p) { Lx::End(p + 1) } else { q_tmpl(s, q_run(s, p, '{'), q_run(s, p, '{') - p) } }
            else if c == '|' && (n == Some('|') || n == Some('>')) { Lx::End(p + 2) }
            else if c == '<' && (n == Some('<') || n == Some('=') || n == Some('>')) { Lx::End(p + 2) }
            else if c == '>' && depth <= 0 && (n == Some('>') || n == Some('=')) { Lx::End(p + 2) }
            else if c == '=' && n == Some('>') { Lx::End(p + 2) }
            else if c == '!' && n == Some('=') { Lx::End(p + 2) }
            else if q_word1(c) { Lx::End(q_word(s, p)) }
            else { Lx::End(p + 1) },
    }
}
spec fn q_linec(s: Seq<char>, p: int) -> bool { q_ch(s, p) == Some('#') || q_ch(s, p) == Some('-') && q_ch(s, p + 1) == Some('-') }
spec fn q_lit(s: Seq<char>, p: int, e: int) -> Seq<char> { if q_linec(s, p) { q_trim(s.subrange(p, e)) } else { s.subrange(p, e) } }
spec fn q_typekw(t: Token) -> bool { let u = q_up(q_sid(t.literal@)); u == lit!("ARRAY") || u == lit!("STRUCT") }
spec fn q_depth(t: Seq<Token>) -> int decreases t.len() {
    if t.len() == 0 { 0 } else {
        let d = q_depth(t.drop_last());
        let l = t.last().literal@;
        if l.len() == 1 && l[0] == '<' && t.len() > 1 && q_typekw(t[t.len() - 2]) { d + 1 }
        else if l.len() == 1 && l[0] == '>' && d > 0 { d - 1 }
        else { d }
    }
}
broadcast proof fn depth_push(t: Seq<Token>, x: Token)
    ensures #[trigger] q_depth(t.push(x)) == (if x.literal@.len() == 1 && x.literal@[0] == '<' && t.len() > 0 && q_typekw(t.last()) { q_depth(t) + 1 } else if x.literal@.len() == 1 && x.literal@[0] == '>' && q_depth(t) > 0 { q_depth(t) - 1 } else { q_depth(t) })
{ assert(t.push(x).drop_last() =~= t); }
broadcast proof fn drop_push(t: Seq<Token>, x: Token)
    ensures #[trigger] t.push(x).drop_last() == t
{ assert(t.push(x).drop_last() =~= t); }
broadcast proof fn lemma_depth(t: Seq<Token>)
    ensures 0 <= #[trigger] q_depth(t) <= t.len()
    decreases t.len()
{ if t.len() > 0 { lemma_depth(t.drop_last()); } }

// ---- C01: the tokens spell the text up to e, white space between them --------
// x is spelled at the first place behind a that is not blank, only blanks follow up to e
spec fn q_piece(s: Seq<char>, x: Token, a: int, e: int) -> bool {
    let b = q_skip(s, a);
    let c = b + x.literal@.len();
    0 <= a <= b < c <= e <= s.len() && x.literal@ =~= s.subrange(b, c) && q_blank(s, c, e)
}
#[verifier::opaque]
spec fn q_spell(s: Seq<char>, t: Seq<Token>, e: int) -> bool decreases t.len() {
    if t.len() == 0 { e == 0 } else { exists|a: int| #[trigger] q_piece(s, t.last(), a, e) && q_spell(s, t.drop_last(), a) }
}
// ---- C02: each token knows the place of its first character ------------------
spec fn q_place(s: Seq<char>, x: Token, a: int) -> bool { x.line == q_line(s, q_skip(s, a)) && x.column == q_col(s, q_skip(s, a)) }
#[verifier::opaque]
spec fn q_places(s: Seq<char>, t: Seq<Token>, e: int) -> bool decreases t.len() {
    if t.len() == 0 { e == 0 } else { exists|a: int| #[trigger] q_piece(s, t.last(), a, e) && q_place(s, t.last(), a) && q_places(s, t.drop_last(), a) }
}
// ---- C03: each token is the lexeme of the rules ------------------------------
spec fn q_rule(s: Seq<char>, t: Seq<Token>, x: Token, a: int, e: int) -> bool {
    let b = q_skip(s, a);
    0 <= a <= b < s.len() && q_lexeme(s, b, q_depth(t)) == Lx::End(e) && x.literal@ =~= q_lit(s, b, e)
}
#[verifier::opaque]
spec fn q_rules(s: Seq<char>, t: Seq<Token>, e: int) -> bool decreases t.len() {
    if t.len() == 0 { e == 0 } else { exists|a: int| #[trigger] q_rule(s, t.drop_last(), t.last(), a, e) && q_rules(s, t.drop_last(), a) }
}
broadcast proof fn spell_empty(s: Seq<char>, t: Seq<Token>)
    requires t.len() == 0
    ensures #[trigger] q_spell(s, t, 0)
{ reveal(q_spell); }
broadcast proof fn places_empty(s: Seq<char>, t: Seq<Token>)
    requires t.len() == 0
    ensures #[trigger] q_places(s, t, 0)
{ reveal(q_places); }
broadcast proof fn rules_empty(s: Seq<char>, t: Seq<Token>)
    requires t.len() == 0
    ensures #[trigger] q_rules(s, t, 0)
{ reveal(q_rules); }
broadcast proof fn spell_push(s: Seq<char>, t: Seq<Token>, x: Token, a: int, e: int)
    requires #[trigger] q_spell(s, t, a), q_piece(s, x, a, e)
    ensures #[trigger] q_spell(s, t.push(x), e)
{ reveal(q_spell); assert(t.push(x).drop_last() =~= t); assert(q_piece(s, t.push(x).last(), a, e)); }
broadcast proof fn places_push(s: Seq<char>, t: Seq<Token>, x: Token, a: int, e: int)
    requires #[trigger] q_places(s, t, a), q_piece(s, x, a, e), q_place(s, x, a)
    ensures #[trigger] q_places(s, t.push(x), e)
{ reveal(q_places); assert(t.push(x).drop_last() =~= t); assert(q_piece(s, t.push(x).last(), a, e)); }
broadcast proof fn rules_push(s: Seq<char>, t: Seq<Token>, x: Token, a: int, e: int)
    requires #[trigger] q_rules(s, t, a), q_rule(s, t, x, a, e)
    ensures #[trigger] q_rules(s, t.push(x), e)
{ reveal(q_rules); assert(t.push(x).drop_last() =~= t); assert(q_rule(s, t.push(x).drop_last(), t.push(x).last(), a, e)); }
proof fn lemma_trim(x: Seq<char>)
    ensures q_trim(x).len() <= x.len(), q_trim(x) == x.subrange(0, q_trim(x).len() as int), q_blank(x, q_trim(x).len() as int, x.len() as int), x.len() > 0 && !q_ws(x[0]) ==> q_trim(x).len() > 0
    decreases x.len()
{
    if x.len() > 0 && q_ws(x.last()) {
        lemma_trim(x.drop_last());
        let k = q_trim(x).len() as int;
        assert(x.drop_last().subrange(0, k) =~= x.subrange(0, k));
        assert forall|i: int| k <= i < x.len() implies q_ws(#[trigger] x[i]) by { if i < x.len() - 1 { assert(x.drop_last()[i] == x[i]); } }
    } else { assert(x.subrange(0, x.len() as int) =~= x); }
}
proof fn lemma_lc(s: Seq<char>, p: int)
    requires 0 <= p
    ensures 1 <= q_line(s, p) <= p + 1, 1 <= q_col(s, p) <= p + 1
    decreases p
{ if p > 0 { lemma_lc(s, p - 1); } }

// ---- comments and other token classes ----------------------------------------
spec fn q_cmt(s: Seq<char>) -> bool {
    q_ch(s, 0) == Some('#') || q_ch(s, 0) == Some('-') && q_ch(s, 1) == Some('-') || q_ch(s, 0) == Some('/') && q_ch(s, 1) == Some('*')
}
spec fn q_quote(s: Seq<char>, c: char) -> bool { s.len() >= 2 && s[0] == c && s.last() == c }
#[verifier::opaque]
spec fn q_inset(x: int, s: Seq<&str>) -> bool {
    exists|i: int| 0 <= i < s.len() && x == q_up(q_sid(#[trigger] s[i]@))
}

// ---- tokenizer state -----------------------------------------------------------
spec fn q_lwf(l: Lexer) -> bool {
    &&& l.position <= l.input@.len() <= isize::MAX
    &&& l.line <= l.position + 1
    &&& l.column <= l.position + 1
    &&& l.tokens@.len() <= l.position
    &&& l.type_declaration_depth <= l.position + 1
}
spec fn q_lc(l: Lexer) -> bool { l.line == q_line(l.input@, l.position as int) && l.column == q_col(l.input@, l.position as int) }
spec fn q_same(a: Lexer, b: Lexer) -> bool { a.input == b.input && a.tokens == b.tokens && a.type_declaration_depth == b.type_declaration_depth }
// the error lies at place p of the text
spec fn q_at(s: Seq<char>, e: BQ2CSTError, p: int) -> bool { e.line == q_line(s, p) && e.column == q_col(s, p) }
// the tokens so far make a list the parser accepts
spec fn q_items(t: Seq<Token>) -> bool {
    forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i].literal@.len() > 0 && t[i].column as int + t[i].literal@.len() <= usize::MAX
}
spec fn q_stream_ok(t: Seq<Token>) -> bool {
    t.len() >= 1 && t.len() < usize::MAX && !q_cmt(t[t.len() - 1].literal@)
    && t[t.len() - 1].literal@.len() == 0
    && forall|i: int| #![trigger t[i]] 0 <= i < t.len() - 1 ==> t[i].literal@.len() > 0 && t[i].column as int + t[i].literal@.len() <= usize::MAX
}
#[verifier::opaque]
spec fn q_whole(s: Seq<char>, t: Seq<Token>) -> bool { exists|e: int| #[trigger] q_spell(s, t, e) && q_skip(s, e) == s.len() }
#[verifier::opaque]
spec fn q_allplaces(s: Seq<char>, t: Seq<Token>) -> bool { exists|e: int| #[trigger] q_places(s, t, e) && q_skip(s, e) == s.len() }
#[verifier::opaque]
spec fn q_allrules(s: Seq<char>, t: Seq<Token>) -> bool { exists|e: int| #[trigger] q_rules(s, t, e) && q_skip(s, e) == s.len() }
// some lexeme reached by the rules is unfinished
#[verifier::opaque]
spec fn q_unfinished(s: Seq<char>) -> bool { exists|t: Seq<Token>, p: int| #[trigger] q_rules(s, t, p) && q_lexeme(s, q_skip(s, p), q_depth(t)) is Bad }
#[verifier::opaque]
spec fn q_erroneous(s: Seq<char>, e: BQ2CSTError) -> bool {
    exists|t: Seq<Token>, p: int| #[trigger] q_rules(s, t, p) && (q_lexeme(s, q_skip(s, p), q_depth(t)) matches Lx::Bad(q) && q_at(s, e, q))
}
broadcast proof fn whole(s: Seq<char>, t: Seq<Token>, e: int)
    requires #[trigger] q_spell(s, t, e), q_skip(s, e) == s.len()
    ensures #[trigger] q_whole(s, t)
{ reveal(q_whole); }
broadcast proof fn allplaces(s: Seq<char>, t: Seq<Token>, e: int)
    requires #[trigger] q_places(s, t, e), q_skip(s, e) == s.len()
    ensures #[trigger] q_allplaces(s, t)
{ reveal(q_allplaces); }
broadcast proof fn allrules(s: Seq<char>, t: Seq<Token>, e: int)
    requires #[trigger] q_rules(s, t, e), q_skip(s, e) == s.len()
    ensures #[trigger] q_allrules(s, t)
{ reveal(q_allrules); }
broadcast proof fn unfinished(s: Seq<char>, t: Seq<Token>, p: int)
    requires #[trigger] q_rules(s, t, p), q_lexeme(s, q_skip(s, p), q_depth(t)) is Bad
    ensures #[trigger] q_unfinished(s)
{ reveal(q_unfinished); }
broadcast proof fn erroneous(s: Seq<char>, t: Seq<Token>, p: int, e: BQ2CSTError)
    requires #[trigger] q_rules(s, t, p), q_lexeme(s, q_skip(s, p), q_depth(t)) matches Lx::Bad(q) && q_at(s, e, q)
    ensures #[trigger] q_erroneous(s, e)
{ reveal(q_erroneous); }
broadcast proof fn trim_sub(s: Seq<char>, p: int, e: int)
    requires 0 <= p < e <= s.len(), !q_ws(s[p])
    ensures ({ let k = #[trigger] q_trim(s.subrange(p, e)); 0 < k.len() <= e - p && k == s.subrange(p, p + k.len()) && q_blank(s, p + k.len(), e) })
{
    let x = s.subrange(p, e);
    lemma_trim(x);
    let k = q_trim(x).len() as int;
    assert(x[0] == s[p]);
    assert(x.subrange(0, k) =~= s.subrange(p, p + k));
    assert forall|i: int| p + k <= i < e implies q_ws(#[trigger] s[i]) by { assert(x[i - p] == s[i]); }
}
broadcast group group_lex { ws_facts, alpha_facts, lemma_depth }
broadcast group group_tok { depth_push, trim_sub }
broadcast group group_all { spell_empty, places_empty, rules_empty, spell_push, places_push, rules_push, drop_push, whole, allplaces, allrules, unfinished, erroneous }
