# token classes (lens tok): what each predicate of token.rs says about the text of a token
fn Token::is_reserved_keyword
  ensures r == q_reserved(q_up(q_sid(self.literal@))) //@K the reserved words
  top proof { reveal(q_inset); }
  loop 0 invariant $i <= $v@.len(), forall|y: int| #![trigger q_inset(y, $v@)] q_inset(y, $v@) == q_reserved(y), forall|j: int| 0 <= j < $v@.len() ==> q_up(q_sid(#[trigger] $v@[j]@)) == q_sid($v@[j]@), forall|j: int| 0 <= j < $i ==> q_up(q_sid(self.literal@)) != q_sid(#[trigger] $v@[j]@) //@K
  loop 0 decreases $v@.len() - $i //@K
  inside 0 assert(q_inset(q_up(q_sid(self.literal@)), $v@) == q_reserved(q_up(q_sid(self.literal@))));
  after 0 assert(q_inset(q_up(q_sid(self.literal@)), $v@) == q_reserved(q_up(q_sid(self.literal@))));
end
fn Token::is_identifier
  anchor it str_chars(self.literal.as_str())
  top proof { reveal(q_inset); }
  ensures r == q_ident(self.literal@) //@K identifiers
  loop 0 invariant $i <= $v@.len(), forall|y: int| #![trigger q_inset(y, $v@)] q_inset(y, $v@) == q_reserved(y), forall|j: int| 0 <= j < $v@.len() ==> q_up(q_sid(#[trigger] $v@[j]@)) == q_sid($v@[j]@), forall|j: int| 0 <= j < $i ==> q_up(q_sid(self.literal@)) != q_sid(#[trigger] $v@[j]@), !q_reserved(q_up(q_sid(self.literal@))), !q_quote(self.literal@, '`') //@K
  loop 0 decreases $v@.len() - $i //@K
  inside 0 assert(q_inset(q_up(q_sid(self.literal@)), $v@) == q_reserved(q_up(q_sid(self.literal@))));
  after 0 assert(q_inset(q_up(q_sid(self.literal@)), $v@) == q_reserved(q_up(q_sid(self.literal@))));
  loop 1 invariant !q_reserved(q_up(q_sid(self.literal@))), !q_quote(self.literal@, '`'), q_ident(self.literal@) == q_identrest($it.rest()) //@K
  loop 1 ensures q_ident(self.literal@) //@K
  loop 1 decreases $it.rest().len() //@K
end
fn Token::is_string
  ensures r == (q_quote(self.literal@, '"') || q_quote(self.literal@, '\'')) //@K strings
end
fn Token::is_parameter
  ensures r == (q_ch(self.literal@, 0) == Some('?') || q_ch(self.literal@, 0) == Some('@')) //@K parameters
end
fn Token::is_template
  ensures r == (q_ch(self.literal@, 0) == Some('{')) //@K templates
end
fn Token::is_boolean
  ensures r == (q_up(q_sid(self.literal@)) == lit!("TRUE") || q_up(q_sid(self.literal@)) == lit!("FALSE")) //@K booleans
end
fn Token::is_numeric
  top broadcast use re_number; broadcast use re_valid;
  ensures r == q_numeric(self.literal@) //@K numbers
end
fn Token::is_comment
  ensures r == q_cmt(self.literal@) //@K comments
end
fn Token::quoted_by
  ensures (ch as u32) < 128 ==> r == q_quote(self.literal@, ch) //@K quotes
end
fn Token::is
  ensures r == (q_up(q_sid(self.literal@)) == q_up(q_sid(literal@))) //@B
end
fn Token::in_
  top proof { reveal(q_inset); }
  ensures r == q_inset(q_up(q_sid(self.literal@)), vec@) //@B
  loop 0 invariant $i <= $v@.len(), $v@ == vec@, forall|i: int| 0 <= i < $i ==> q_up(q_sid(self.literal@)) != q_up(q_sid(#[trigger] vec@[i]@)) //@B
  loop 0 decreases $v@.len() - $i //@K
end
drop Token::new
drop Token::eof
