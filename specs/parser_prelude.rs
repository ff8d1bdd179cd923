// ---- prelude of the parser lenses (trusted + ghost definitions) -----------
// Interned strings: sid numbers strings injectively, up is the number of the
// upper-cased string.  TRUSTED: str_eq/str_upper/str_id/lit_N agree with std.
uninterp spec fn q_sid(s: Seq<char>) -> int;
uninterp spec fn q_up(i: int) -> int;
uninterp spec fn q_low(i: int) -> int;

// C10: a text may be looked at only after its letter case is folded, or by comparing
// it with a text that has no letters (q_nol) or is a constant (q_const)
spec fn q_folded(i: int) -> bool { q_up(i) == i || q_low(i) == i || q_const(i) }
#[verifier::external_body]
fn str_id(s: &str) -> (r: usize)
    requires q_folded(q_sid(s@)) //@C10 a keyword is matched without folding its letter case
    ensures r == q_sid(s@)
{ unimplemented!() }
#[verifier::external_body]
fn str_id_sym(s: &str) -> (r: usize) ensures r == q_sid(s@) { unimplemented!() }
#[verifier::external_body]
fn str_eq(a: &str, b: &str) -> (r: bool)
    requires q_folded(q_sid(a@)) && q_folded(q_sid(b@)) || q_nol(q_sid(a@)) || q_nol(q_sid(b@)) //@C10 a keyword is compared without folding its letter case
    ensures r == (q_sid(a@) == q_sid(b@))
{ a == b }
#[verifier::external_body]
fn str_upper(a: &str) -> (r: String)
    ensures q_sid(r@) == q_up(q_sid(a@)), q_up(q_up(q_sid(a@))) == q_up(q_sid(a@))
{ a.to_uppercase() }
#[verifier::external_body]
fn str_lower(a: &str) -> (r: String)
    ensures q_sid(r@) == q_low(q_sid(a@)), q_low(q_low(q_sid(a@))) == q_low(q_sid(a@))
{ a.to_lowercase() }
#[verifier::external_body]
fn str_first_is(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { a.chars().next() == Some(c) }
#[verifier::external_body]
fn str_last_is(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[a@.len() - 1] == c) { a.chars().last() == Some(c) }
#[verifier::external_body]
fn str_first(a: &str) -> (r: Option<char>)
    requires q_folded(q_sid(a@)) //@C10 a letter is looked at without folding its case
    ensures a@.len() == 0 ==> r is None, a@.len() > 0 ==> r == Some(a@[0]) { a.chars().next() }
#[verifier::external_body]
fn str_last(a: &str) -> (r: Option<char>)
    requires q_folded(q_sid(a@)) //@C10 a letter is looked at without folding its case
    ensures a@.len() == 0 ==> r is None, a@.len() > 0 ==> r == Some(a@[a@.len() - 1]) { a.chars().last() }
#[verifier::external_body]
fn str_count(a: &str) -> (r: usize) ensures r == a@.len() { a.chars().count() }
#[verifier::external_body]
fn fmt_opaque() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn panic_here() -> (r: !)
    requires false //@C05 panic reached
{ panic!() }

// ---- tokens ----------------------------------------------------------------
#[verifier::opaque]
spec fn q_tid(t: Token) -> int { q_sid(t.literal@) }
spec fn q_tup(t: Token) -> int { q_up(q_tid(t)) }
uninterp spec fn q_cmt(s: Seq<char>) -> bool;
#[verifier::opaque]
spec fn q_isc(t: Token) -> bool { q_cmt(t.literal@) }
// `t.literal.as_str()` behind a verified accessor
fn tlit(t: &Token) -> (r: &str)
    ensures q_sid(r@) == q_tid(*t), r@.len() == q_tlen(*t)
{ proof { reveal(q_tid); reveal(q_tlen); } t.literal.as_str() }
#[verifier::opaque]
spec fn q_tlen(t: Token) -> int { t.literal@.len() as int }

// ---- children map: HashMap<String, ContentType> behind its std contract ---
#[verifier::external_body]
struct Children { m: std::collections::HashMap<String, ContentType> }
uninterp spec fn q_cmap(c: Children) -> Map<int, ContentType>;
uninterp spec fn q_csum(c: Children) -> int;                          // occurrences of the tracked token below
uninterp spec fn q_call(c: Children, ts: Seq<Token>) -> bool;         // every node below has its own comments
uninterp spec fn q_cheight(c: Children) -> nat;
impl Children {
    #[verifier::external_body]
    fn new() -> (r: Children)
        ensures
            q_cmap(r) == Map::<int, ContentType>::empty(),
            q_csum(r) == 0, //@C06
            forall|ts: Seq<Token>| #![trigger q_call(r, ts)] q_call(r, ts), //@OK
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, key: String, v: ContentType) -> (old_v: Option<ContentType>)
        ensures
            q_cmap(*final(self)) == q_cmap(*old(self)).insert(q_sid(key@), v),
            !q_cmap(*old(self)).contains_key(q_sid(key@)) ==> q_csum(*final(self)) == q_csum(*old(self)) + q_ctcnt(v), //@C06
            forall|ts: Seq<Token>| #![trigger q_call(*final(self), ts)] q_call(*old(self), ts) && q_ctok(v, ts) ==> q_call(*final(self), ts), //@OK
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, key: &str) -> (r: Option<&ContentType>)
        ensures r is Some ==> q_ctheight(*r->0) < q_cheight(*self)
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, key: &str) -> (r: bool)
        ensures r == q_cmap(*self).contains_key(q_sid(key@))
    { unimplemented!() }
}
spec fn q_ctcnt(v: ContentType) -> int {
    match v { ContentType::Node(n) => q_ncnt(n), ContentType::NodeVec(v) => q_scnt(v@) }
}
spec fn q_ctok(v: ContentType, ts: Seq<Token>) -> bool {
    match v { ContentType::Node(n) => q_okt(n, ts), ContentType::NodeVec(v) => q_okv(v@, ts) }
}
spec fn q_ctheight(v: ContentType) -> nat {
    match v { ContentType::Node(n) => q_nheight(n), ContentType::NodeVec(v) => 0 }
}
spec fn q_nheight(n: Node) -> nat { q_cheight(n.children) + 1 }
// child key present
#[verifier::opaque]
spec fn q_nhas(n: Node, k: int) -> bool { q_cmap(n.children).contains_key(k) }
#[verifier::opaque]
spec fn q_vabs(s: Seq<Node>, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> !q_nhas(#[trigger] s[i], k) }

impl Node {
    // `n.children.contains_key(k)` behind a verified accessor
    fn has_child(&self, key: &str) -> (r: bool)
        ensures r == q_nhas(*self, q_sid(key@))
    { proof { reveal(q_nhas); } self.children.contains_key(key) }
    // `n.node_type = t` behind a verified setter
    fn set_node_type(&mut self, t: NodeType)
        ensures
            final(self).node_type == t,
            final(self).token == old(self).token && final(self).children == old(self).children, //@OK
            q_ncnt(*final(self)) == q_ncnt(*old(self)), //@C06
            forall|k: int| #![trigger q_nhas(*final(self), k)] q_nhas(*final(self), k) == q_nhas(*old(self), k), //@C06
            forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*final(self), ts) == q_okt(*old(self), ts), //@C07
            forall|k: int| #![trigger q_carg(*final(self), k)] q_carg(*final(self), k) == q_carg(*old(self), k), //@C11
            !q_opty(t) ==> q_plain(*final(self)), //@C11
            forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*old(self), ts) && q_own(*final(self), ts) ==> q_okt(*final(self), ts), //@C11
    { proof { reveal(q_ncnt); reveal(q_nhas); reveal(q_cown); reveal(q_okt); reveal(q_carg); reveal(q_lvl); reveal(q_ilvl); } self.node_type = t; }
}

// ---- C06: the arbitrary tracked token --------------------------------------
uninterp spec fn TT() -> Token;
spec fn q_one(t: Token) -> int { if t == TT() { 1 } else { 0 } }
#[verifier::opaque]
spec fn q_ncnt(n: Node) -> int { (match n.token { Some(t) => q_one(t), None => 0 }) + q_csum(n.children) }
spec fn q_ocnt(n: Option<Node>) -> int { match n { Some(n) => q_ncnt(n), None => 0 } }
#[verifier::opaque]
spec fn q_scnt(s: Seq<Node>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { q_scnt(s.drop_last()) + q_ncnt(s.last()) }
}
#[verifier::opaque]
spec fn q_occ(t: Seq<Token>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { q_occ(t, i - 1) + q_one(t[i - 1]) }
}
broadcast proof fn seq_empty(s: Seq<Node>)
    requires s.len() == 0
    ensures #[trigger] q_scnt(s) == 0
{ reveal(q_scnt); }
broadcast proof fn seq_push(s: Seq<Node>, n: Node)
    ensures #[trigger] q_scnt(s.push(n)) == q_scnt(s) + q_ncnt(n)
{ reveal(q_scnt); assert(s.push(n).drop_last() =~= s); }
broadcast proof fn seq_pop(s: Seq<Node>)
    requires s.len() > 0
    ensures q_scnt(#[trigger] s.drop_last()) == q_scnt(s) - q_ncnt(s.last())
{ reveal(q_scnt); }
broadcast proof fn seq_pop2(s: Seq<Node>)
    requires s.len() > 0
    ensures q_scnt(#[trigger] s.subrange(0, s.len() - 1)) == q_scnt(s) - q_ncnt(s[s.len() - 1])
{ reveal(q_scnt); assert(s.subrange(0, s.len() - 1) =~= s.drop_last()); }
broadcast proof fn abs_empty(s: Seq<Node>, k: int)
    requires s.len() == 0
    ensures #[trigger] q_vabs(s, k)
{ reveal(q_vabs); }
broadcast proof fn abs_push(s: Seq<Node>, n: Node, k: int)
    ensures #[trigger] q_vabs(s.push(n), k) == (q_vabs(s, k) && !q_nhas(n, k))
{ reveal(q_vabs);
  if q_vabs(s.push(n), k) { assert forall|i: int| 0 <= i < s.len() implies !q_nhas(#[trigger] s[i], k) by { assert(s.push(n)[i] == s[i]); } assert(s.push(n)[s.len() as int] == n); } }
broadcast proof fn abs_pop(s: Seq<Node>, k: int)
    requires s.len() > 0, q_vabs(s, k)
    ensures #[trigger] q_vabs(s.drop_last(), k), !q_nhas(s.last(), k)
{ reveal(q_vabs); }
broadcast proof fn abs_pop2(s: Seq<Node>, k: int)
    requires s.len() > 0, #[trigger] q_vabs(s, k)
    ensures q_vabs(s.subrange(0, s.len() - 1), k), !q_nhas(s[s.len() - 1], k)
{ reveal(q_vabs); }
broadcast group group_cnt { seq_empty, seq_push, seq_pop, seq_pop2, abs_empty, abs_push, abs_pop, abs_pop2 } //@C06

// ---- C08: the statements tile the token stream from left to right
spec fn q_tiles(v: Seq<Node>, t: Seq<Token>, bs: Seq<int>) -> bool {
    &&& bs.len() == v.len() + 1
    &&& bs[0] == 0
    &&& forall|i: int| 0 <= i < v.len() ==> bs[i] < #[trigger] bs[i + 1] && q_ncnt(v[i]) == q_occ(t, bs[i + 1]) - q_occ(t, bs[i])
}
#[verifier::opaque]
spec fn q_cover(v: Seq<Node>, t: Seq<Token>, b: int) -> bool {
    exists|bs: Seq<int>| #[trigger] q_tiles(v, t, bs) && bs[bs.len() - 1] == b
}
broadcast proof fn cover_empty(v: Seq<Node>, t: Seq<Token>, b: int)
    requires v.len() == 0, b == 0
    ensures #[trigger] q_cover(v, t, b)
{ reveal(q_cover); assert(q_tiles(v, t, seq![0int])); }
broadcast proof fn cover_push(v: Seq<Node>, t: Seq<Token>, m: int, n: Node, b: int)
    requires #[trigger] q_cover(v, t, m), m < b, q_ncnt(n) == q_occ(t, b) - q_occ(t, m)
    ensures #[trigger] q_cover(v.push(n), t, b)
{
    reveal(q_cover);
    let bs = choose|bs: Seq<int>| #[trigger] q_tiles(v, t, bs) && bs[bs.len() - 1] == m;
    let cs = bs.push(b);
    assert forall|i: int| 0 <= i < v.len() + 1 implies cs[i] < #[trigger] cs[i + 1] && q_ncnt(v.push(n)[i]) == q_occ(t, cs[i + 1]) - q_occ(t, cs[i]) by {
        if i < v.len() { assert(bs[i] < bs[i + 1]); }
    }
    assert(q_tiles(v.push(n), t, cs));
}
// the whole result: statements from token 0, the end-of-input node takes the rest
#[verifier::opaque]
spec fn q_top(v: Seq<Node>, t: Seq<Token>) -> bool {
    v.len() >= 1 && exists|m: int| #[trigger] q_cover(v.drop_last(), t, m) && q_ncnt(v.last()) == q_occ(t, t.len() - 1) - q_occ(t, m)
}
broadcast proof fn top_push(v: Seq<Node>, t: Seq<Token>, m: int, n: Node)
    requires #[trigger] q_cover(v, t, m), q_ncnt(n) == q_occ(t, t.len() - 1) - q_occ(t, m)
    ensures #[trigger] q_top(v.push(n), t)
{ reveal(q_top); assert(v.push(n).drop_last() =~= v); }
broadcast group group_cover { cover_empty, cover_push, top_push } //@C08

// ---- C07: comments ----------------------------------------------------------
// tend: end of the run of comments that follow token i on its own line
#[verifier::opaque]
spec fn q_tend(t: Seq<Token>, i: int, j: int) -> int decreases t.len() - j {
    if j < t.len() && q_isc(t[j]) && t[i].line == t[j].line { q_tend(t, i, j + 1) } else { j }
}
// lstart: first comment that leads token i, i.e. the end of the trailing run of
// the previous non-comment token (0 when there is none)
#[verifier::opaque]
spec fn q_lstart(t: Seq<Token>, i: int, j: int) -> int decreases j {
    if j <= 0 { 0 } else if q_isc(t[j - 1]) { q_lstart(t, i, j - 1) } else { q_tend(t, j - 1, j) }
}
spec fn toktok(s: Seq<Node>, i: int) -> Option<Token> { s[i].token }
spec fn q_cslice(v: Option<ContentType>, ts: Seq<Token>, a: int, b: int) -> bool {
    match v {
        None => a == b,
        Some(ContentType::Node(_)) => false,
        Some(ContentType::NodeVec(v)) => a < b && v@.len() == b - a && forall|k: int| 0 <= k < b - a ==> #[trigger] v@[k].token == Some(ts[a + k]),
    }
}
spec fn q_cchild(c: Children, k: int) -> Option<ContentType> { if q_cmap(c).contains_key(k) { Some(q_cmap(c)[k]) } else { None } }
// this node carries exactly the comments of its own token
#[verifier::opaque]
spec fn q_cown(tok: Option<Token>, c: Children, ts: Seq<Token>) -> bool {
    let lead = q_cchild(c, lit!("leading_comments"));
    let trail = q_cchild(c, lit!("trailing_comments"));
    match tok {
        None => trail is None && (lead is None || q_cslice(lead, ts, q_lstart(ts, ts.len() - 1, ts.len() - 1), ts.len() - 1)),
        Some(t) => if q_isc(t) { lead is None && trail is None } else {
            exists|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == t && q_cslice(lead, ts, q_lstart(ts, i, i), i) && q_cslice(trail, ts, i + 1, q_tend(ts, i, i + 1)) },
    }
}
#[verifier::opaque]
spec fn q_okt(n: Node, ts: Seq<Token>) -> bool {
    q_cown(n.token, n.children, ts) && //@C07
    q_own(n, ts) && //@C11
    q_call(n.children, ts) }
#[verifier::opaque]
spec fn q_okv(s: Seq<Node>, ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < s.len() ==> q_okt(#[trigger] s[i], ts) }
spec fn q_oko(n: Option<Node>, ts: Seq<Token>) -> bool { match n { Some(n) => q_okt(n, ts), None => true } }
broadcast proof fn ok_empty(s: Seq<Node>, ts: Seq<Token>)
    requires s.len() == 0
    ensures #[trigger] q_okv(s, ts)
{ reveal(q_okv); }
broadcast proof fn ok_push(s: Seq<Node>, n: Node, ts: Seq<Token>)
    requires q_okv(s, ts), q_okt(n, ts)
    ensures #[trigger] q_okv(s.push(n), ts)
{ reveal(q_okv); }
broadcast proof fn ok_pop(s: Seq<Node>, ts: Seq<Token>)
    requires s.len() > 0, #[trigger] q_okv(s, ts)
    ensures q_okv(s.drop_last(), ts), q_okt(s.last(), ts), q_okv(s.subrange(0, s.len() - 1), ts), q_okt(s[s.len() - 1], ts)
{ reveal(q_okv); }
broadcast group group_cmt { ok_empty, ok_push, ok_pop } //@OK

// ---- C11: operators bind by precedence ---------------------------------------
// level of an infix operator, by its upper-cased text (0: not an infix operator)
spec fn q_opl(u: int) -> int {
    if u == lit!("*") || u == lit!("/") || u == lit!("||") { 103 }
    else if u == lit!("+") || u == lit!("-") { 104 }
    else if u == lit!("<<") || u == lit!(">>") { 105 }
    else if u == lit!("&") { 106 }
    else if u == lit!("^") { 107 }
    else if u == lit!("|") { 108 }
    else if u == lit!("=") || u == lit!("<") || u == lit!(">") || u == lit!("<=") || u == lit!(">=") || u == lit!("!=") || u == lit!("<>")
        || u == lit!("LIKE") || u == lit!("BETWEEN") || u == lit!("IN") || u == lit!("IS") { 109 }
    else if u == lit!("AND") { 111 }
    else if u == lit!("OR") { 112 }
    else if u == lit!("=>") { 200 }
    else { 0 }
}
// level of what stands k tokens ahead, as an operator between two operands
spec fn q_prec(p: Parser, k: int) -> int {
    let u = q_tup(q_tk(p, k));
    if u == lit!("(") || u == lit!("[") { 101 }
    else if u == lit!(".") { 102 }
    else if q_opl(u) > 0 { q_opl(u) }
    else if u == lit!("NOT") { let v = q_tup(q_tk(p, k + 1)); if v == lit!("IN") || v == lit!("LIKE") || v == lit!("BETWEEN") { 109 } else { usize::MAX as int } }
    else { usize::MAX as int }
}
spec fn q_ntup(n: Node) -> int { match n.token { Some(t) => q_tup(t), None => -1 } }
spec fn q_infix(t: NodeType) -> bool { t == NodeType::BinaryOperator || t == NodeType::InOperator || t == NodeType::BetweenOperator || t == NodeType::IsDistinctFromOperator }
spec fn q_opty(t: NodeType) -> bool { q_infix(t) || t == NodeType::CallingFunction || t == NodeType::AccessOperator || t == NodeType::DotOperator || t == NodeType::FunctionChain || t == NodeType::UnaryOperator }
// level of an operator node that is open on its right or left side (0: any other node)
#[verifier::opaque]
spec fn q_ilvl(n: Node) -> int {
    if q_infix(n.node_type) { q_opl(q_ntup(n)) }
    else if n.node_type == NodeType::CallingFunction || n.node_type == NodeType::AccessOperator || n.node_type == NodeType::DotOperator { 101 }
    else if n.node_type == NodeType::FunctionChain { 102 }
    else { 0 }
}
// the same as left operand: prefix operators count, IN does not (it ends with its own bracket)
#[verifier::opaque]
spec fn q_lvl(n: Node) -> int {
    if n.node_type == NodeType::UnaryOperator {
        let u = q_ntup(n);
        if u == lit!("-") || u == lit!("+") || u == lit!("~") { 103 } else if u == lit!("NOT") { 110 } else { 0 }
    } else if n.node_type == NodeType::InOperator { 0 }
    else { q_ilvl(n) }
}
// not an operator at all
spec fn q_plain(n: Node) -> bool { !q_opty(n.node_type) }
// the child node (not list) under key k
#[verifier::opaque]
spec fn q_carg(n: Node, k: int) -> Option<Node> { match q_cchild(n.children, k) { Some(ContentType::Node(c)) => Some(c), _ => None } }
// no operand child yet
spec fn q_bare(n: Node) -> bool { q_carg(n, lit!("left")) is None && q_carg(n, lit!("right")) is None && q_carg(n, lit!("right_min")) is None && q_carg(n, lit!("right_max")) is None && q_carg(n, lit!("func")) is None }
// sort words may end an operand (a ASC + b): there the levels say nothing
spec fn q_sw(t: Token) -> bool { q_tup(t) == lit!("ASC") || q_tup(t) == lit!("DESC") || q_tup(t) == lit!("FIRST") || q_tup(t) == lit!("LAST") }
spec fn q_pidx(t: Seq<Token>, j: int) -> int decreases j { if j <= 0 { -1 } else if !q_isc(t[j - 1]) { j - 1 } else { q_pidx(t, j - 1) } }
proof fn lemma_pidx(t: Seq<Token>, q: int, j: int)
    requires 0 <= q < j <= t.len(), !q_isc(t[q]), forall|k: int| #![trigger t[k]] q < k < j ==> q_isc(t[k])
    ensures q_pidx(t, j) == q
    decreases j
{ if j - 1 > q { assert(q_isc(t[j - 1])); lemma_pidx(t, q, j - 1); } }
spec fn q_sw1(t: Seq<Token>, i: int) -> bool { q_pidx(t, i) >= 0 && q_sw(t[q_pidx(t, i)]) }
spec fn q_sw2(t: Seq<Token>, i: int) -> bool { q_sw1(t, i) || q_pidx(t, i) >= 0 && q_tup(t[q_pidx(t, i)]) == lit!("NOT") && q_sw1(t, q_pidx(t, i)) }
// a sort word stands right in front of the current token / of it or its NOT
#[verifier::opaque]
spec fn q_sb1(p: Parser) -> bool { q_sw1(p.tokens@, p.position as int) }
#[verifier::opaque]
spec fn q_sb(p: Parser) -> bool { q_sw2(p.tokens@, p.position as int) }
#[verifier::opaque]
spec fn q_nex(tok: Option<Token>, ts: Seq<Token>) -> bool { exists|i: int| 0 <= i < ts.len() && tok == Some(#[trigger] ts[i]) && q_sw2(ts, i) }
// child c may stand under key k of an operator n
spec fn q_argok(n: Node, k: int, c: Node, ts: Seq<Token>) -> bool {
    let t = n.node_type;
    let left = if q_infix(t) { q_ilvl(n) } else if t == NodeType::DotOperator || t == NodeType::FunctionChain { 102 } else { 101 };
    &&& (q_infix(t) || t == NodeType::AccessOperator || t == NodeType::DotOperator || t == NodeType::FunctionChain) && k == lit!("left") ==> q_lvl(c) <= left || q_nex(n.token, ts)
    &&& t == NodeType::CallingFunction && k == lit!("func") ==> q_lvl(c) <= left || q_nex(n.token, ts)
    &&& q_infix(t) && (k == lit!("right") || k == lit!("right_min") || k == lit!("right_max")) ==> q_ilvl(c) < q_ilvl(n)
    &&& t == NodeType::UnaryOperator && k == lit!("right") ==> {
        let u = q_ntup(n);
        &&& (u == lit!("-") || u == lit!("+") || u == lit!("~")) ==> q_ilvl(c) < 103
        &&& u == lit!("NOT") ==> q_ilvl(c) < 110
    }
}
spec fn q_argok1(n: Node, k: int, ts: Seq<Token>) -> bool { match q_carg(n, k) { Some(c) => q_argok(n, k, c, ts), None => true } }
spec fn q_own(n: Node, ts: Seq<Token>) -> bool {
    q_argok1(n, lit!("left"), ts) && q_argok1(n, lit!("right"), ts) && q_argok1(n, lit!("right_min"), ts) && q_argok1(n, lit!("right_max"), ts) && q_argok1(n, lit!("func"), ts)
}
// ---- parser state -----------------------------------------------------------
#[verifier::opaque]
spec fn q_toks(p: Parser) -> Seq<Token> { p.tokens@ }
#[verifier::opaque]
spec fn q_left(p: Parser) -> nat { if p.position <= p.tokens@.len() { (p.tokens@.len() - p.position) as nat } else { 0 } }
#[verifier::opaque]
spec fn q_tk(p: Parser, k: int) -> Token { p.tokens@[q_nth(p.tokens@, p.position as int, k)] }
#[verifier::opaque]
spec fn q_st(p: Parser) -> int { p.position - p.leading_comment_indices@.len() }
#[verifier::opaque]
spec fn q_en(p: Parser) -> int { p.position + 1 + p.trailing_comment_indices@.len() }
spec fn q_stream_ok(t: Seq<Token>) -> bool {
    t.len() >= 1 && t.len() < usize::MAX && !q_isc(t[t.len() - 1])
    && t[t.len() - 1].literal@.len() == 0
    && forall|i: int| #![trigger t[i]] 0 <= i < t.len() - 1 ==> t[i].literal@.len() > 0 && t[i].column as int + t[i].literal@.len() <= usize::MAX
}
// the state of the cursor: current token is not a comment, its leading and
// trailing comments are the contiguous comment runs around it
spec fn q_wf(p: Parser) -> bool { q_cur(p) && q_region(p) }
#[verifier::opaque]
spec fn q_cur(p: Parser) -> bool {
    &&& q_stream_ok(p.tokens@)
    &&& 0 <= p.position < p.tokens@.len()
    &&& !q_isc(p.tokens@[p.position as int])
}
#[verifier::opaque]
spec fn q_region(p: Parser) -> bool {
    &&& forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.leading_comment_indices@.len() ==> p.leading_comment_indices@[i] < p.tokens@.len() //@R0
    &&& forall|i: int| #![trigger p.trailing_comment_indices@[i]] 0 <= i < p.trailing_comment_indices@.len() ==> p.trailing_comment_indices@[i] < p.tokens@.len() //@R0
    &&& q_st(p) >= 0 //@R1
    &&& q_en(p) <= p.tokens@.len() //@R1
    &&& forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.leading_comment_indices@.len() ==> p.leading_comment_indices@[i] == q_st(p) + i //@R1
    &&& forall|i: int| #![trigger p.trailing_comment_indices@[i]] 0 <= i < p.trailing_comment_indices@.len() ==> p.trailing_comment_indices@[i] == p.position + 1 + i //@R1
    &&& forall|i: int| #![trigger p.tokens@[i]] p.position < i < q_en(p) ==> q_isc(p.tokens@[i]) //@R1
    &&& q_st(p) == q_lstart(p.tokens@, p.position as int, p.position as int) //@R2
    &&& q_en(p) == q_tend(p.tokens@, p.position as int, p.position + 1) //@R2
    &&& forall|i: int| #![trigger p.tokens@[i]] q_st(p) <= i < p.position ==> q_isc(p.tokens@[i]) //@R2
}
// k-th (from 1) non-comment token at or after j; len if there is none
#[verifier::opaque]
spec fn q_nthfrom(t: Seq<Token>, j: int, k: int) -> int decreases t.len() - j {
    if j >= t.len() { t.len() as int }
    else if !q_isc(t[j]) { if k <= 1 { j } else { q_nthfrom(t, j + 1, k - 1) } }
    else { q_nthfrom(t, j + 1, k) }
}
spec fn q_nth(t: Seq<Token>, p: int, k: int) -> int { if k <= 0 { p } else { q_nthfrom(t, p + 1, k) } }
proof fn lemma_nthfrom(t: Seq<Token>, j: int, k: int)
    requires 0 <= j <= t.len()
    ensures
        j <= q_nthfrom(t, j, k) <= t.len(),
        q_nthfrom(t, j, k) < t.len() ==> !q_isc(t[q_nthfrom(t, j, k)]),
        q_nthfrom(t, j, k) < t.len() && k >= 1 ==> q_nthfrom(t, j, k) >= j + k - 1,
        k <= 1 ==> forall|i: int| #![trigger t[i]] j <= i < q_nthfrom(t, j, k) ==> q_isc(t[i]),
    decreases t.len() - j
{
    reveal(q_nthfrom);
    if j < t.len() { if !q_isc(t[j]) { if k > 1 { lemma_nthfrom(t, j + 1, k - 1) } } else { lemma_nthfrom(t, j + 1, k) } }
}
proof fn lemma_shift(t: Seq<Token>, j: int)
    requires 0 <= j <= t.len()
    ensures q_nthfrom(t, j, 1) < t.len() ==> q_nthfrom(t, q_nthfrom(t, j, 1) + 1, 1) == q_nthfrom(t, j, 2)
    decreases t.len() - j
{
    reveal(q_nthfrom);
    if j < t.len() && q_isc(t[j]) { lemma_shift(t, j + 1); }
}
// j is the end of the trailing run of token q: then it is where the leading run of the next token starts
proof fn lemma_lstart(t: Seq<Token>, q: int, i: int, j: int)
    requires 0 <= q < i < t.len(), q < j <= i, !q_isc(t[q]), forall|k: int| #![trigger t[k]] q < k < i ==> q_isc(t[k])
    ensures q_lstart(t, i, j) == q_tend(t, q, q + 1)
    decreases j
{
    reveal(q_lstart);
    if j - 1 > q { assert(q_isc(t[j - 1])); lemma_lstart(t, q, i, j - 1); }
}
proof fn lemma_lstart0(t: Seq<Token>, i: int, j: int)
    requires 0 <= j <= i < t.len(), forall|k: int| #![trigger t[k]] 0 <= k < i ==> q_isc(t[k])
    ensures q_lstart(t, i, j) == 0
    decreases j
{
    reveal(q_lstart);
    if j > 0 { assert(q_isc(t[j - 1])); lemma_lstart0(t, i, j - 1); }
}
proof fn lemma_tend(t: Seq<Token>, i: int, j: int)
    requires 0 <= i < j <= t.len()
    ensures j <= q_tend(t, i, j) <= t.len(), forall|k: int| #![trigger t[k]] j <= k < q_tend(t, i, j) ==> q_isc(t[k])
    decreases t.len() - j
{
    reveal(q_tend);
    if j < t.len() && q_isc(t[j]) && t[i].line == t[j].line { lemma_tend(t, i, j + 1); }
}
// case-blind membership in a keyword list
#[verifier::opaque]
spec fn q_inset(x: int, s: Seq<&str>) -> bool {
    exists|i: int| 0 <= i < s.len() && x == q_up(q_sid(#[trigger] s[i]@))
}
proof fn q_occ_step(t: Seq<Token>, i: int)
    requires i >= 0
    ensures q_occ(t, i + 1) == q_occ(t, i) + q_one(t[i])
{ reveal(q_occ); }
// ---- C09: every parse error points at a token of the input (or at the EOF sentinel)
#[verifier::opaque]
spec fn q_tin(t: Seq<Token>, x: Token) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == x && !q_isc(t[i]) }
#[verifier::opaque]
spec fn q_epos(t: Seq<Token>, e: BQ2CSTError) -> bool {
    exists|i: int| 0 <= i < t.len() && !q_isc(t[i]) && #[trigger] t[i].line == e.line && t[i].column == e.column
}
