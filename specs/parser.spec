fn Parser::get_offset_index
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
needs idx cnt
  locals cnt idx
  requires q_cur(*self) //@B
  ensures r matches Ok(i) ==> i == q_nth(self.tokens@, self.position as int, offset as int) && self.position <= i < self.tokens@.len() && !q_isc(self.tokens@[i as int]) && i >= self.position + offset //@B look-ahead index
  ensures r is Err ==> offset > 0 && q_nth(self.tokens@, self.position as int, offset as int) >= self.tokens@.len() //@B look-ahead fails only at the end
  ensures offset == 1 ==> (r matches Ok(i) ==> self.position < i && forall|j: int| #![trigger self.tokens@[j]] self.position < j < i ==> q_isc(self.tokens@[j])) //@B
  ensures r matches Err(e) ==> q_epos(self.tokens@, e) //@C09
  loop 0 invariant 0 <= cnt < offset, self.position + 1 + cnt <= idx <= self.tokens@.len(), q_nthfrom(self.tokens@, idx as int, offset - cnt) == q_nthfrom(self.tokens@, self.position + 1, offset as int) //@B
  loop 0 invariant offset == 1 ==> forall|j: int| #![trigger self.tokens@[j]] self.position < j < idx ==> q_isc(self.tokens@[j]) //@B
  loop 0 ensures idx == q_nthfrom(self.tokens@, self.position + 1, offset as int), self.position + offset <= idx < self.tokens@.len(), !q_isc(self.tokens@[idx as int]), offset == 1 ==> forall|j: int| #![trigger self.tokens@[j]] self.position < j < idx ==> q_isc(self.tokens@[j]) //@B
  loop 0 decreases self.tokens@.len() - idx //@C05
end
fn Parser::get_token
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
  requires q_cur(*self) //@B
  ensures r matches Ok(t) ==> *t == q_tk(*self, offset as int) && offset < q_left(*self) //@B look-ahead token
  ensures q_left(*self) < usize::MAX //@B
  ensures offset == 0 ==> r is Ok //@B
  ensures r is Ok ==> (offset > 0 ==> q_tlen(q_tk(*self, 0)) > 0 && q_tk(*self, 0).column + q_tlen(q_tk(*self, 0)) <= usize::MAX) //@B the end of input is the last token
  ensures r is Err ==> offset > 0 //@B
  ensures r matches Ok(t) ==> q_tin(q_toks(*self), *t) //@C09
  ensures r matches Err(e) ==> q_epos(q_toks(*self), e) //@C09
end
fn Parser::is_eof
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
  requires q_cur(*self) //@B
  ensures !r ==> q_nth(self.tokens@, self.position as int, offset as int) < self.tokens@.len() - 1 //@B
  ensures r ==> q_nth(self.tokens@, self.position as int, offset as int) >= self.tokens@.len() - 1 //@B
end
fn Parser::next_token
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
needs trailing_comment_idx next_token_idx from_idx
  locals next_token_idx from_idx n i next_token_idx i trailing_comment_idx
  requires q_wf(*old(self)) //@B
  ensures q_toks(*final(self)) == q_toks(*old(self)) //@B frame
  ensures r is Ok ==> q_wf(*final(self)) //@B cursor state
  ensures r is Ok ==> q_left(*final(self)) < q_left(*old(self)) //@C05 progress
  ensures r is Ok ==> q_tk(*final(self), 0) == q_tk(*old(self), 1) //@C06
  ensures r is Ok ==> q_st(*final(self)) == q_en(*old(self)) //@C06 no token skipped
  ensures r is Ok ==> q_tk(*final(self), 0) == q_tk(*old(self), 1) && q_tk(*final(self), 1) == q_tk(*old(self), 2) //@C11
  ensures r is Ok ==> (q_sw(q_tk(*old(self), 0)) ==> q_sb1(*final(self)) && q_sb(*final(self))) && (q_tup(q_tk(*old(self), 0)) == lit!("NOT") && q_sb1(*old(self)) ==> q_sb(*final(self))) //@C11
  ensures r matches Err(e) ==> q_epos(q_toks(*old(self)), e) //@C09
  before 0 proof { lemma_shift(self.tokens@, self.position + 1); lemma_pidx(self.tokens@, self.position as int, next_token_idx as int); lemma_lstart(self.tokens@, self.position as int, next_token_idx as int, next_token_idx as int); lemma_tend(self.tokens@, self.position as int, self.position + 1); assert(forall|k: int| #![trigger self.tokens@[k]] self.position < k < next_token_idx ==> q_isc(self.tokens@[k])); }
  loop 0 invariant self.tokens == old(self).tokens, self.position == old(self).position, self.trailing_comment_indices == old(self).trailing_comment_indices, from_idx <= $i, $e == next_token_idx, next_token_idx < self.tokens@.len() //@B
  loop 0 invariant forall|k: int| #![trigger self.leading_comment_indices@[k]] 0 <= k < self.leading_comment_indices@.len() ==> self.leading_comment_indices@[k] < self.tokens@.len() //@R0
  loop 0 invariant q_en(*old(self)) == from_idx, from_idx <= $i <= next_token_idx, self.leading_comment_indices@.len() == $i - from_idx, forall|k: int| #![trigger self.leading_comment_indices@[k]] 0 <= k < self.leading_comment_indices@.len() ==> self.leading_comment_indices@[k] == from_idx + k //@R1
  loop 0 decreases $e - $i //@C05
  after 0 proof { lemma_nthfrom(self.tokens@, next_token_idx + 1, 1); lemma_tend(self.tokens@, next_token_idx as int, next_token_idx + 1); }
  before 1 proof { if next_token_idx < self.tokens@.len() { lemma_tend(self.tokens@, self.position as int, self.position + 1); } }
  loop 1 invariant self.tokens == old(self).tokens, old(self).position < self.position < self.tokens@.len(), !q_isc(self.tokens@[self.position as int]), self.position < trailing_comment_idx <= next_token_idx < self.tokens@.len(), forall|i: int| #![trigger self.tokens@[i]] self.position < i < next_token_idx ==> q_isc(self.tokens@[i]), self.position == q_nth(old(self).tokens@, old(self).position as int, 1) //@B
  loop 1 invariant forall|i: int| #![trigger self.leading_comment_indices@[i]] 0 <= i < self.leading_comment_indices@.len() ==> self.leading_comment_indices@[i] < self.tokens@.len(), forall|i: int| #![trigger self.trailing_comment_indices@[i]] 0 <= i < self.trailing_comment_indices@.len() ==> self.trailing_comment_indices@[i] < self.tokens@.len() //@R0
  loop 1 invariant q_st(*self) == q_en(*old(self)), q_st(*self) >= 0, trailing_comment_idx == q_en(*self), forall|i: int| #![trigger self.leading_comment_indices@[i]] 0 <= i < self.leading_comment_indices@.len() ==> self.leading_comment_indices@[i] == q_st(*self) + i, forall|i: int| #![trigger self.trailing_comment_indices@[i]] 0 <= i < self.trailing_comment_indices@.len() ==> self.trailing_comment_indices@[i] == self.position + 1 + i //@R1
  loop 1 invariant q_st(*self) == q_lstart(self.tokens@, self.position as int, self.position as int), q_tend(self.tokens@, self.position as int, trailing_comment_idx as int) == q_tend(self.tokens@, self.position as int, self.position + 1), forall|i: int| #![trigger self.tokens@[i]] q_st(*self) <= i < self.position ==> q_isc(self.tokens@[i]) //@R2
  loop 1 decreases next_token_idx - trailing_comment_idx //@C05
end
fn Parser::get_precedence
  requires q_cur(*self), offset < usize::MAX //@B
  ensures r matches Ok(x) ==> x == q_prec(*self, offset as int) //@C11 precedence of the next operator
  ensures r matches Err(e) ==> q_epos(q_toks(*self), e) //@C09
end
fn Parser::construct_node
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
  requires q_wf(*self) //@B
  ensures r matches Ok(n) ==> q_ncnt(n) == q_occ(q_toks(*self), q_en(*self)) - q_occ(q_toks(*self), q_st(*self)) - (if node_type == NodeType::EOF { q_one(q_tk(*self, 0)) } else { 0 }) //@C06 node holds the current token and its comments
  ensures r matches Ok(n) ==> forall|k: int| #![trigger q_nhas(n, k)] q_nhas(n, k) ==> k == lit!("leading_comments") || k == lit!("trailing_comments") //@C06
  ensures r matches Ok(n) ==> q_okt(n, q_toks(*self)) && (node_type != NodeType::EOF ==> n.token == Some(q_tk(*self, 0))) && (forall|k: int| #![trigger q_carg(n, k)] q_carg(n, k) is None) //@C11
  ensures r matches Ok(n) ==> (if node_type == NodeType::Unknown { q_plain(n) } else { n.node_type == node_type && (!q_opty(node_type) ==> q_plain(n)) }) //@C11
  ensures r matches Ok(n) ==> (q_sb(*self) && node_type != NodeType::EOF ==> q_nex(n.token, q_toks(*self))) //@C11
  ensures r matches Ok(n) ==> (node_type == NodeType::EOF ==> self.position == self.tokens@.len() - 1) ==> q_okt(n, q_toks(*self)) //@C07 node holds the comments of its own token
  ensures r matches Ok(n) ==> (node_type == NodeType::EOF ==> n.node_type == NodeType::EOF && n.token is None) //@C08
  ensures r matches Err(e) ==> q_epos(q_toks(*self), e) //@C09
  loop 0 invariant $i <= $v@.len(), $v@ == self.leading_comment_indices@ //@B
  loop 0 invariant q_scnt($p@) == q_occ(self.tokens@, q_st(*self) + $i) - q_occ(self.tokens@, q_st(*self)) //@C06
  loop 0 invariant q_okv($p@, self.tokens@) //@OK
  loop 0 invariant $p@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $p@[k].token == Some(self.tokens@[q_st(*self) + k]) //@C07
  loop 0 decreases $v@.len() - $i //@C05
  loop 1 invariant $i <= $v@.len(), $v@ == self.trailing_comment_indices@ //@B
  loop 1 invariant q_scnt($p@) == q_occ(self.tokens@, self.position + 1 + $i) - q_occ(self.tokens@, self.position + 1) //@C06
  loop 1 invariant q_okv($p@, self.tokens@) //@OK
  loop 1 invariant $p@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $p@[k].token == Some(self.tokens@[self.position + 1 + k]) //@C07
  loop 1 decreases $v@.len() - $i //@C05
end
fn Parser::new
  top proof { reveal(q_cur); reveal(q_region); reveal(q_tlen); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_ncnt); reveal(q_nhas); reveal(q_epos); reveal(q_tin); reveal(q_nthfrom); reveal(q_occ); reveal(q_okt); reveal(q_okv); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); reveal(q_sb); reveal(q_sb1); reveal(q_nex); reveal(q_cown); reveal(q_isc); reveal(q_tid); reveal(q_tend); }
needs p trailing_comment_idx
  locals p trailing_comment_idx
  requires q_stream_ok(tokens@) //@B
  ensures q_wf(r) && q_toks(r) == tokens@ //@B initial cursor state
  ensures q_st(r) == 0 //@C06 no token skipped at the start
  before 0 proof { lemma_nthfrom(tokens@, 0, 1); }
  loop 0 invariant p.tokens@ == tokens@, 0 <= p.position < p.tokens@.len(), q_nthfrom(tokens@, p.position as int, 1) == q_nthfrom(tokens@, 0, 1), p.trailing_comment_indices@.len() == 0, forall|i: int| #![trigger p.tokens@[i]] 0 <= i < p.position ==> q_isc(p.tokens@[i]) //@B
  loop 0 invariant forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.leading_comment_indices@.len() ==> p.leading_comment_indices@[i] < p.tokens@.len() //@R0
  loop 0 invariant p.leading_comment_indices@.len() == p.position, forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.position ==> p.leading_comment_indices@[i] == i //@R1
  loop 0 decreases p.tokens@.len() - p.position //@C05
  after 0 proof { lemma_lstart0(tokens@, p.position as int, p.position as int); }
  loop 1 invariant p.tokens@ == tokens@, 0 <= p.position < p.tokens@.len(), p.position == q_nthfrom(tokens@, 0, 1), !q_isc(p.tokens@[p.position as int]), p.position < trailing_comment_idx < p.tokens@.len(), forall|i: int| #![trigger p.tokens@[i]] p.position < i < trailing_comment_idx ==> q_isc(p.tokens@[i]) //@B
  loop 1 invariant forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.leading_comment_indices@.len() ==> p.leading_comment_indices@[i] < p.tokens@.len(), forall|i: int| #![trigger p.trailing_comment_indices@[i]] 0 <= i < p.trailing_comment_indices@.len() ==> p.trailing_comment_indices@[i] < p.tokens@.len() //@R0
  loop 1 invariant p.leading_comment_indices@.len() == p.position, trailing_comment_idx == p.position + 1 + p.trailing_comment_indices@.len(), forall|i: int| #![trigger p.leading_comment_indices@[i]] 0 <= i < p.position ==> p.leading_comment_indices@[i] == i, forall|i: int| #![trigger p.trailing_comment_indices@[i]] 0 <= i < p.trailing_comment_indices@.len() ==> p.trailing_comment_indices@[i] == p.position + 1 + i //@R1
  loop 1 invariant q_tend(p.tokens@, p.position as int, trailing_comment_idx as int) == q_tend(p.tokens@, p.position as int, p.position + 1), q_lstart(p.tokens@, p.position as int, p.position as int) == 0, forall|i: int| #![trigger p.tokens@[i]] 0 <= i < p.position ==> q_isc(p.tokens@[i]) //@R2
  loop 1 decreases p.tokens@.len() - trailing_comment_idx //@C05
end
fn Token::is
  top proof { reveal(q_tid); }
  ensures r == (q_tup(*self) == q_up(q_sid(literal@))) //@B
end
fn Token::in_
  top proof { reveal(q_inset); reveal(q_tid); }
  ensures r == q_inset(q_tup(*self), vec@) //@B
  loop 0 invariant $i <= $v@.len(), $v@ == vec@, forall|i: int| 0 <= i < $i ==> q_tup(*self) != q_up(q_sid(#[trigger] vec@[i]@)) //@B
  loop 0 decreases $v@.len() - $i //@C05
end
extern Token::is_comment
  ensures r == q_isc(*self)
end
extern Token::is_identifier
end
extern Token::is_string
end
extern Token::is_numeric
end
extern Token::is_boolean
end
extern Token::is_parameter
end
extern Token::is_template
end
drop Token::is_reserved_keyword
drop Token::quoted_by
drop Node::format
fn Token::new
  ensures r.line == line && r.column == column && r.literal == literal //@B
end
drop Token::eof
fn BQ2CSTError::new
  ensures r.line == line && r.column == column //@C09
end
fn BQ2CSTError::from_token
  top proof { reveal(q_epos); reveal(q_tin); }
  ensures forall|ts: Seq<Token>| #![trigger q_epos(ts, r)] q_tin(ts, *token) ==> q_epos(ts, r) //@C09
end
fn Node::new
  top proof { reveal(q_ncnt); reveal(q_nhas); reveal(q_okt); reveal(q_cown); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); }
  ensures r.token == Some(token) && r.node_type == node_type //@B
  ensures !q_opty(node_type) ==> q_plain(r) //@C11
  ensures q_ncnt(r) == q_one(token) && forall|k: int| #![trigger q_nhas(r, k)] !q_nhas(r, k) //@C06
  ensures q_cmap(r.children) == Map::<int, ContentType>::empty() && forall|ts: Seq<Token>| #![trigger q_call(r.children, ts)] q_call(r.children, ts) //@OK
  ensures (forall|ts: Seq<Token>| #![trigger q_okt(r, ts)] q_okt(r, ts)) && forall|k: int| #![trigger q_carg(r, k)] q_carg(r, k) is None //@C11
  ensures q_isc(token) ==> forall|ts: Seq<Token>| #![trigger q_okt(r, ts)] q_okt(r, ts) //@C07
end
fn Node::empty
  top proof { reveal(q_ncnt); reveal(q_nhas); reveal(q_okt); reveal(q_cown); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); }
  ensures r.token is None && r.node_type == node_type //@B
  ensures !q_opty(node_type) ==> q_plain(r) //@C11
  ensures q_ncnt(r) == 0 && forall|k: int| #![trigger q_nhas(r, k)] !q_nhas(r, k) //@C06
  ensures q_cmap(r.children) == Map::<int, ContentType>::empty() && forall|ts: Seq<Token>| #![trigger q_call(r.children, ts)] q_call(r.children, ts) //@OK
  ensures (forall|ts: Seq<Token>| #![trigger q_okt(r, ts)] q_okt(r, ts)) && forall|k: int| #![trigger q_carg(r, k)] q_carg(r, k) is None //@C11
  ensures forall|ts: Seq<Token>| #![trigger q_okt(r, ts)] q_okt(r, ts) //@C07
end
fn Node::push_node
  top proof { reveal(q_ncnt); reveal(q_nhas); reveal(q_okt); reveal(q_cown); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); }
  requires !q_nhas(*old(self), q_sid(key@)) //@C06 child key already taken (the earlier child would be lost)
  requires q_folded(q_sid(key@)) //@C10 a child key does not depend on letter case
  ensures final(self).token == old(self).token && final(self).node_type == old(self).node_type //@B
  ensures q_ncnt(*final(self)) == q_ncnt(*old(self)) + q_ncnt(node) //@C06
  ensures forall|k: int| #![trigger q_nhas(*final(self), k)] q_nhas(*final(self), k) == (q_nhas(*old(self), k) || k == q_sid(key@)) //@C06
  ensures q_cmap(final(self).children) == q_cmap(old(self).children).insert(q_sid(key@), ContentType::Node(node)) //@OK
  ensures forall|ts: Seq<Token>| #![trigger q_call(final(self).children, ts)] q_call(old(self).children, ts) && q_okt(node, ts) ==> q_call(final(self).children, ts) //@OK
  ensures q_sid(key@) != lit!("leading_comments") && q_sid(key@) != lit!("trailing_comments") ==> forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*old(self), ts) && q_okt(node, ts) ==> q_okt(*final(self), ts) //@C07
  ensures forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*old(self), ts) && q_okt(node, ts) && q_argok(*old(self), q_sid(key@), node, ts) ==> q_okt(*final(self), ts) //@C11
  ensures q_lvl(*final(self)) == q_lvl(*old(self)) && q_ilvl(*final(self)) == q_ilvl(*old(self)) && forall|k: int| #![trigger q_carg(*final(self), k)] q_carg(*final(self), k) == (if k == q_sid(key@) { Some(node) } else { q_carg(*old(self), k) }) //@C11
end
fn Node::push_node_vec
  top proof { reveal(q_ncnt); reveal(q_nhas); reveal(q_okt); reveal(q_cown); reveal(q_carg); reveal(q_ilvl); reveal(q_lvl); }
  requires !q_nhas(*old(self), q_sid(key@)) //@C06 child key already taken (the earlier child would be lost)
  requires q_folded(q_sid(key@)) //@C10 a child key does not depend on letter case
  ensures final(self).token == old(self).token && final(self).node_type == old(self).node_type //@B
  ensures q_ncnt(*final(self)) == q_ncnt(*old(self)) + q_scnt(nodes@) //@C06
  ensures forall|k: int| #![trigger q_nhas(*final(self), k)] q_nhas(*final(self), k) == (q_nhas(*old(self), k) || k == q_sid(key@)) //@C06
  ensures q_cmap(final(self).children) == q_cmap(old(self).children).insert(q_sid(key@), ContentType::NodeVec(nodes)) //@OK
  ensures forall|ts: Seq<Token>| #![trigger q_call(final(self).children, ts)] q_call(old(self).children, ts) && q_okv(nodes@, ts) ==> q_call(final(self).children, ts) //@OK
  ensures q_sid(key@) != lit!("leading_comments") && q_sid(key@) != lit!("trailing_comments") ==> forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*old(self), ts) && q_okv(nodes@, ts) ==> q_okt(*final(self), ts) //@C07
  ensures forall|ts: Seq<Token>| #![trigger q_okt(*final(self), ts)] q_okt(*old(self), ts) && q_okv(nodes@, ts) ==> q_okt(*final(self), ts) //@C11
  ensures q_lvl(*final(self)) == q_lvl(*old(self)) && q_ilvl(*final(self)) == q_ilvl(*old(self)) && forall|k: int| #![trigger q_carg(*final(self), k)] q_carg(*final(self), k) == (if k == q_sid(key@) { None::<Node> } else { q_carg(*old(self), k) }) //@C11
end
fn Parser::parse_code
  top proof { reveal(q_cur); reveal(q_region); reveal(q_toks); reveal(q_left); reveal(q_tk); reveal(q_st); reveal(q_en); reveal(q_occ); }
  requires q_wf(*old(self)) //@B
  requires q_st(*old(self)) == 0 //@C06
  ensures q_toks(*final(self)) == q_toks(*old(self)) //@B
  ensures r matches Ok(v) ==> q_scnt(v@) == q_occ(q_toks(*old(self)), q_toks(*old(self)).len() - 1) //@C06 every token of the input is in the tree exactly once
  ensures r matches Ok(v) ==> q_okv(v@, q_toks(*old(self))) //@OK every node of the tree has the property
  ensures r matches Ok(v) ==> v@.len() >= 1 && v@[v@.len() - 1].node_type == NodeType::EOF && v@[v@.len() - 1].token is None //@C08 the last top-level node is the end of input
  ensures r matches Ok(v) ==> q_top(v@, q_toks(*old(self))) //@C08 top-level statements are contiguous and in source order
  ensures r matches Err(e) ==> q_epos(q_toks(*old(self)), e) //@C09
  loop 0 invariant q_wf(*self), q_toks(*self) == q_toks(*old(self)) //@B
  loop 0 invariant q_scnt($p@) == q_occ(q_toks(*self), q_st(*self)) //@C06
  loop 0 invariant q_okv($p@, q_toks(*self)) //@OK
  loop 0 invariant q_cover($p@, q_toks(*self), q_st(*self)) //@C08
  loop 0 decreases q_left(*self) //@C05
end
also Parser::parse_with_clause
  ensures r is Ok ==> q_tup(q_tk(*final(self), 1)) != lit!("WITH") //@C06 the clause stops before the query
end
also Parser::parse_select_statement
  ensures r matches Ok(v) ==> q_plain(v) //@C11 a query is not an operator
  ensures r matches Ok(v) ==> (q_tup(q_tk(*old(self), 0)) != lit!("WITH") ==> !q_nhas(v, lit!("with"))) //@C06 a WITH clause only comes from the text
end
also Parser::parse_expr
  ensures r matches Ok(v) ==> (q_prec(*final(self), 1) >= $a0 || q_sw(q_tk(*final(self), 0)) || $a1) //@C11 the expression takes every operator that binds more tightly than asked for
  ensures r matches Ok(v) ==> (q_ilvl(v) < $a0 || q_ilvl(v) <= 102) //@C11 the expression takes no operator that binds less tightly than asked for
end
also Parser::parse_identifier
  ensures r matches Ok(v) ==> q_lvl(v) <= 101 && q_ilvl(v) <= 102 //@C11 a name is not an operator above the dot
end
also Parser::parse_binary_operator
  requires q_lvl($a0) <= q_prec(*old(self), 0) || q_sb(*old(self)) //@C11 the left operand binds at least as tightly as the operator
  requires q_opl(q_tup(q_tk(*old(self), 0))) > 0 //@C11 called on an operator
  ensures r matches Ok(v) ==> (q_lvl(v) <= q_prec(*final(self), 1) || q_sw(q_tk(*final(self), 0))) //@C11 the right operand takes every operator that binds more tightly
  ensures r matches Ok(v) ==> q_ilvl(v) <= q_prec(*old(self), 0) //@C11 the result has the level of its operator
end
also Parser::parse_between_operator
  requires q_lvl($a0) <= q_prec(*old(self), 0) || q_sb(*old(self)) //@C11 the left operand binds at least as tightly as the operator
  requires q_opl(q_tup(q_tk(*old(self), 0))) > 0 //@C11 called on an operator
  ensures r matches Ok(v) ==> (q_lvl(v) <= q_prec(*final(self), 1) || q_sw(q_tk(*final(self), 0))) //@C11 the right operand takes every operator that binds more tightly
  ensures r matches Ok(v) ==> q_ilvl(v) <= q_prec(*old(self), 0) //@C11 the result has the level of its operator
end
also Parser::parse_in_operator
  requires q_lvl($a0) <= q_prec(*old(self), 0) || q_sb(*old(self)) //@C11 the left operand binds at least as tightly as the operator
  requires q_opl(q_tup(q_tk(*old(self), 0))) > 0 //@C11 called on an operator
  ensures r matches Ok(v) ==> (q_lvl(v) <= q_prec(*final(self), 1) || q_sw(q_tk(*final(self), 0))) //@C11 the right operand takes every operator that binds more tightly
  ensures r matches Ok(v) ==> q_ilvl(v) <= q_prec(*old(self), 0) //@C11 the result has the level of its operator
end
also Parser::parse_is_distinct_from_operator
  requires q_lvl($a0) <= q_prec(*old(self), 0) || q_sb(*old(self)) //@C11 the left operand binds at least as tightly as the operator
  requires q_opl(q_tup(q_tk(*old(self), 0))) > 0 //@C11 called on an operator
  ensures r matches Ok(v) ==> (q_lvl(v) <= q_prec(*final(self), 1) || q_sw(q_tk(*final(self), 0))) //@C11 the right operand takes every operator that binds more tightly
  ensures r matches Ok(v) ==> q_ilvl(v) <= q_prec(*old(self), 0) //@C11 the result has the level of its operator
end
