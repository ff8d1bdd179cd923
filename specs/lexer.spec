# contracts of the tokenizer (lens lex); S is the text, P the place where a function starts
def base
  requires q_lwf(*old(self)) //@B
  requires q_lc(*old(self)) //@C02
  ensures q_lwf(*final(self)) && q_same(*final(self), *old(self)) //@B frame
  ensures q_lc(*final(self)) //@C02 line and column follow the text
enddef
# $1: where the lexeme ends by the rules
def reader
  apply base
  ensures r is Ok ==> old(self).position < final(self).position //@B progress
  ensures r matches Ok(x) ==> $1 == Lx::End(final(self).position as int) //@C03 the lexeme ends where the rules say
  ensures r is Err ==> $1 is Bad //@C04 an error only for an unfinished lexeme
  ensures r matches Err(e) ==> $1 matches Lx::Bad(q) ==> q_at(old(self).input@, e, q) //@C09 place of the error
enddef
def text
  ensures r matches Ok(x) ==> x@ == old(self).input@.subrange(old(self).position as int, final(self).position as int) //@C01 the text of the lexeme
enddef
def linv
  loop $1 invariant q_lwf(*self), q_same(*self, *old(self)), old(self).position <= self.position //@B
  loop $1 invariant q_lc(*self) //@C02
  loop $1 decreases self.input@.len() - self.position //@C04 loop terminates
enddef
def tinv
  loop $1 invariant q_lwf(*self), q_same(*self, *old(self)), old(self).position <= self.position //@B
  loop $1 invariant q_lc(*self) //@C02
enddef
fn Lexer::new
  ensures r.input@ == input@ && r.input@.len() <= isize::MAX && r.position == 0 && r.tokens@.len() == 0 && r.type_declaration_depth == 0 //@B initial state
  ensures q_lwf(r) //@B initial state
  ensures q_lc(r) //@C02 counting starts at line 1, column 1
end
fn Lexer::tokenize_code
  anchor tok self.next_token()?
  top broadcast use group_all; assert(q_spell(self.input@, self.tokens@, self.position as int)); assert(q_places(self.input@, self.tokens@, self.position as int)); assert(q_rules(self.input@, self.tokens@, self.position as int));
  requires q_lwf(self) && self.position == 0 && self.tokens@.len() == 0 && self.type_declaration_depth == 0 //@B
  requires q_lc(self) //@C02
  ensures r matches Ok(v) ==> v@.len() >= 1 && v@[v@.len() - 1].literal@.len() == 0 //@C01 the list ends with the end marker
  ensures r matches Ok(v) ==> v@[v@.len() - 1].line == usize::MAX && v@[v@.len() - 1].column == usize::MAX //@C02 position of the end marker
  ensures r matches Ok(v) ==> q_whole(self.input@, v@.drop_last()) //@C01 the tokens spell the text
  ensures r matches Ok(v) ==> q_allplaces(self.input@, v@.drop_last()) //@C02 every token knows its place
  ensures r matches Ok(v) ==> q_allrules(self.input@, v@.drop_last()) //@C03 every token is the lexeme of the rules
  ensures r matches Ok(v) ==> q_stream_ok(v@) //@S the parser accepts the list
  ensures r matches Err(e) ==> q_unfinished(self.input@) //@C04 an error only for an unfinished lexeme
  ensures r matches Err(e) ==> q_erroneous(self.input@, e) //@C09 place of the error
  loop 0 invariant q_lwf($self), $self.input@ == self.input@, $self.type_declaration_depth <= $self.tokens@.len() //@B
  loop 0 invariant q_lc($self) //@C02
  loop 0 invariant $tok is None ==> $self.position == self.input@.len() //@C01
  loop 0 invariant q_spell(self.input@, $self.tokens@, $self.position as int) || $tok is None && q_whole(self.input@, $self.tokens@) //@C01
  loop 0 invariant q_places(self.input@, $self.tokens@, $self.position as int) || $tok is None && q_allplaces(self.input@, $self.tokens@) //@C02
  loop 0 invariant q_rules(self.input@, $self.tokens@, $self.position as int) || $tok is None && q_allrules(self.input@, $self.tokens@) //@C03
  loop 0 invariant $self.type_declaration_depth == q_depth($self.tokens@) //@C03
  loop 0 invariant q_items($self.tokens@) //@S
  loop 0 decreases self.input@.len() - $self.position + (if $tok is None { 0int } else { 1int }) //@C04 loop terminates
end
fn Lexer::construct_token
  requires q_lwf(*old(self)) && old(self).tokens@.len() < old(self).position //@B
  requires literal@.len() > 0 && column + literal@.len() <= usize::MAX && q_items(old(self).tokens@) //@S
  ensures q_items(final(self).tokens@) //@S
  ensures final(self).input == old(self).input && final(self).position == old(self).position && final(self).line == old(self).line && final(self).column == old(self).column && final(self).type_declaration_depth == old(self).type_declaration_depth //@B frame
  ensures final(self).tokens@.len() == old(self).tokens@.len() + 1 //@B
  ensures final(self).tokens@ == old(self).tokens@.push(final(self).tokens@.last()) //@C01 one token is appended
  ensures final(self).tokens@.last().literal@ == literal@ //@C01 text of the token
  ensures final(self).tokens@.last().line == line && final(self).tokens@.last().column == column //@C02 place of the token
end
fn Lexer::get_char
  requires self.position + offset <= usize::MAX //@B
  ensures r == q_ch(self.input@, self.position + offset) //@B
end
fn Lexer::next_char
  apply base
  ensures r is Ok ==> old(self).position < old(self).input@.len() && final(self).position == old(self).position + 1 //@B one character further
  ensures r is Err ==> final(self).position == old(self).position //@B
  ensures r is Err ==> old(self).position == old(self).input@.len() //@C04 fails at the end of the text only
  ensures r matches Err(e) ==> q_at(old(self).input@, e, old(self).position as int) //@C09 place of the error
end
fn Lexer::skip_whitespace
  apply base
  ensures r is Ok //@C04 blanks are never an error
  ensures r is Ok ==> final(self).position == q_skip(old(self).input@, old(self).position as int) //@C01 only blanks are skipped
  ensures old(self).position <= final(self).position //@B
  apply linv 0
  loop 0 invariant q_skip(self.input@, self.position as int) == q_skip(old(self).input@, old(self).position as int) //@C01
end
fn Lexer::read_back_quoted
  requires old(self).position < old(self).input@.len() && q_ch(old(self).input@, old(self).position as int) == Some('`') //@B
  apply reader q_backq(old(self).input@, old(self).position + 1)
  apply text
  apply linv 0
  loop 0 invariant old(self).position < self.position //@B
  loop 0 invariant q_backq(self.input@, self.position as int) == q_backq(old(self).input@, old(self).position + 1) //@C03
end
fn Lexer::read_comment
  requires old(self).position < old(self).input@.len() && q_linec(old(self).input@, old(self).position as int) //@B
  apply base
  ensures r is Ok //@C04 a line comment is never an error
  ensures r is Ok ==> old(self).position < final(self).position //@B progress
  ensures r is Ok ==> final(self).position == q_eol(old(self).input@, old(self).position as int) //@C03 a line comment ends at the line end
  ensures r matches Ok(x) ==> x@ == q_trim(old(self).input@.subrange(old(self).position as int, final(self).position as int)) //@C01 only blanks at the end are dropped
  apply linv 0
  loop 0 invariant q_eol(self.input@, self.position as int) == q_eol(old(self).input@, old(self).position as int) //@C03
end
fn Lexer::read_identifier
  apply base
  ensures r is Ok ==> old(self).position < final(self).position //@B progress
  ensures r is Ok ==> (q_ch(old(self).input@, old(self).position as int) matches Some(c) && q_word1(c)) && final(self).position == q_word(old(self).input@, old(self).position + 1) //@C03 a word ends where the rules say
  ensures r is Err ==> !(q_ch(old(self).input@, old(self).position as int) matches Some(c) && q_word1(c)) //@C04 an error only where no word starts
  ensures r matches Err(e) ==> q_at(old(self).input@, e, old(self).position as int) //@C09 place of the error
  apply text
  apply linv 0
  loop 0 invariant old(self).position < self.position //@B
  loop 0 invariant q_word(self.input@, self.position as int) == q_word(old(self).input@, old(self).position + 1) //@C03
end
fn Lexer::read_multiline_comment
  requires q_ch(old(self).input@, old(self).position as int) == Some('/') && q_ch(old(self).input@, old(self).position + 1) == Some('*') //@B
  apply reader q_block(old(self).input@, old(self).position + 2)
  apply text
  apply linv 0
  loop 0 invariant old(self).position < self.position //@B
  loop 0 invariant q_block(self.input@, self.position as int) == q_block(old(self).input@, old(self).position + 2) //@C03
end
fn Lexer::read_multiline_string
  anchor odd false
  requires q_ch(old(self).input@, old(self).position as int) == Some('"') || q_ch(old(self).input@, old(self).position as int) == Some('\'') //@B
  requires q_closes(old(self).input@, old(self).position as int, old(self).input@[old(self).position as int], 3) //@B
  apply reader q_quoted(old(self).input@, old(self).position + 3, false, old(self).input@[old(self).position as int], 3)
  apply text
  apply linv 0
  loop 0 invariant old(self).position < self.position //@B
  loop 0 invariant q_quoted(self.input@, self.position as int, $odd, self.input@[old(self).position as int], 3) == q_quoted(self.input@, old(self).position + 3, false, self.input@[old(self).position as int], 3) //@C03
end
fn Lexer::read_string
  anchor odd false
  requires q_ch(old(self).input@, old(self).position as int) == Some('"') || q_ch(old(self).input@, old(self).position as int) == Some('\'') //@B
  apply reader q_quoted(old(self).input@, old(self).position + 1, false, old(self).input@[old(self).position as int], 1)
  apply text
  apply linv 0
  loop 0 invariant old(self).position < self.position //@B
  loop 0 invariant q_quoted(self.input@, self.position as int, $odd, self.input@[old(self).position as int], 1) == q_quoted(self.input@, old(self).position + 1, false, self.input@[old(self).position as int], 1) //@C03
end
fn Lexer::read_number
  requires q_ch(old(self).input@, old(self).position as int) matches Some(c) && (q_dig(c) || c == '.') //@B
  apply base
  ensures r is Ok //@C04 a number is never an error
  ensures r is Ok ==> old(self).position < final(self).position //@B progress
  ensures r is Ok ==> final(self).position == q_number(old(self).input@, old(self).position as int) //@C03 a number ends where the rules say
  apply text
  apply linv 0
  loop 0 invariant q_digits(self.input@, self.position as int) == q_digits(old(self).input@, old(self).position as int) //@C03
  apply linv 1
  loop 1 invariant old(self).position < self.position //@B
  loop 1 invariant q_digits(self.input@, self.position as int) == q_digits(self.input@, q_digits(self.input@, old(self).position as int) + 1) //@C03
  apply linv 2
  loop 2 invariant old(self).position < self.position //@B
  loop 2 invariant q_digits(self.input@, self.position as int) == q_number(self.input@, old(self).position as int) //@C03
end
fn Lexer::read_parameter
  requires q_ch(old(self).input@, old(self).position as int) == Some('@') //@B
  apply reader q_name(old(self).input@, q_run(old(self).input@, old(self).position as int, '@'))
  apply text
  apply linv 0
  loop 0 invariant q_run(self.input@, self.position as int, '@') == q_run(self.input@, old(self).position as int, '@') //@C03
end
fn Lexer::next_token
  anchor count 0
  top broadcast use group_tok;
  oncall construct_token assert(self.input@ == old(self).input@ && self.tokens == old(self).tokens); assert(q_skip(self.input@, old(self).position as int) < self.position <= self.input@.len());
  oncall construct_token assert($3@ =~= q_lit(self.input@, q_skip(self.input@, old(self).position as int), self.position as int)); //@C01
  oncall construct_token assert(q_lexeme(self.input@, q_skip(self.input@, old(self).position as int), q_depth(old(self).tokens@)) == Lx::End(self.position as int)); //@C03 the lexeme of the rules
  anchor end false
  requires q_lwf(*old(self)) && old(self).type_declaration_depth <= old(self).tokens@.len() //@B
  requires q_lc(*old(self)) //@C02
  requires q_items(old(self).tokens@) //@S
  requires old(self).type_declaration_depth == q_depth(old(self).tokens@) //@C03
  ensures q_lwf(*final(self)) && final(self).input == old(self).input //@B frame
  ensures r is Ok ==> final(self).type_declaration_depth <= final(self).tokens@.len() //@B
  ensures q_lc(*final(self)) //@C02 line and column follow the text
  ensures r matches Ok(Some(x)) ==> old(self).position < final(self).position //@B progress
  ensures r matches Ok(Some(x)) ==> final(self).tokens@ == old(self).tokens@.push(final(self).tokens@.last()) && q_piece(old(self).input@, final(self).tokens@.last(), old(self).position as int, final(self).position as int) //@C01 the new token spells the next piece of text
  ensures r matches Ok(Some(x)) ==> q_place(old(self).input@, final(self).tokens@.last(), old(self).position as int) //@C02 place of the new token
  ensures r matches Ok(Some(x)) ==> q_rule(old(self).input@, old(self).tokens@, final(self).tokens@.last(), old(self).position as int, final(self).position as int) //@C03 the new token is the lexeme of the rules
  ensures r matches Ok(Some(x)) ==> final(self).type_declaration_depth == q_depth(final(self).tokens@) //@C03 open type brackets are counted
  ensures r matches Ok(Some(x)) ==> q_items(final(self).tokens@) //@S
  ensures r matches Ok(None) ==> final(self).tokens == old(self).tokens && final(self).type_declaration_depth == old(self).type_declaration_depth && q_skip(old(self).input@, old(self).position as int) == old(self).input@.len() && final(self).position == old(self).input@.len() //@C01 ends only when nothing but blanks is left
  ensures r is Err ==> q_lexeme(old(self).input@, q_skip(old(self).input@, old(self).position as int), q_depth(old(self).tokens@)) is Bad //@C04 an error only for an unfinished lexeme
  ensures r matches Err(e) ==> q_lexeme(old(self).input@, q_skip(old(self).input@, old(self).position as int), q_depth(old(self).tokens@)) matches Lx::Bad(q) ==> q_at(old(self).input@, e, q) //@C09 place of the error
  apply tinv 0
  loop 0 invariant q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') == q_run(self.input@, self.position as int, '{'), $count == self.position - q_skip(self.input@, old(self).position as int) //@C03
  loop 0 invariant $count <= self.position //@B
  loop 0 decreases self.input@.len() - self.position //@C04 loop terminates
  apply tinv 1
  loop 1 invariant 1 <= $count <= self.position, q_skip(self.input@, old(self).position as int) < self.position //@B
  loop 1 invariant $count == q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int), !$end ==> q_tmpl(self.input@, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{'), q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)) == q_tmpl(self.input@, self.position as int, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)), $end ==> q_all(self.input@, self.position as int, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int), '}') && q_tmpl(self.input@, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{'), q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)) == Lx::End(self.position + q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)) //@C03
  loop 1 decreases self.input@.len() - self.position //@C04 loop terminates
  apply tinv 2
  loop 2 invariant 1 <= $count <= self.position, q_skip(self.input@, old(self).position as int) < self.position, $i <= $e, $e == $count //@B
  loop 2 invariant $count == q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int), q_tmpl(self.input@, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{'), q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)) == q_tmpl(self.input@, self.position - 1, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)), q_all(self.input@, self.position as int, $i as int, '}'), !$end //@C03
  loop 2 decreases $e - $i //@C04 loop terminates
  apply tinv 3
  loop 3 invariant 1 <= $count, q_skip(self.input@, old(self).position as int) < self.position, $i <= $e, $e == $count //@B
  loop 3 invariant $count == q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int), q_all(self.input@, self.position as int, $e - $i, '}'), q_tmpl(self.input@, q_run(self.input@, q_skip(self.input@, old(self).position as int), '{'), q_run(self.input@, q_skip(self.input@, old(self).position as int), '{') - q_skip(self.input@, old(self).position as int)) == Lx::End(self.position + $e - $i) //@C03
  inside 3 assert(q_ch(self.input@, self.position as int) == Some('}'));
  loop 3 decreases $e - $i //@C04 loop terminates
end
fn Token::is
  ensures r == (q_up(q_sid(self.literal@)) == q_up(q_sid(literal@))) //@B
end
fn Token::in_
  top proof { reveal(q_inset); }
  ensures r == q_inset(q_up(q_sid(self.literal@)), vec@) //@B
  loop 0 invariant $i <= $v@.len(), $v@ == vec@, forall|i: int| 0 <= i < $i ==> q_up(q_sid(self.literal@)) != q_up(q_sid(#[trigger] vec@[i]@)) //@B
  loop 0 decreases $v@.len() - $i //@C04
end
fn Token::new
  ensures r.line == line && r.column == column && r.literal == literal //@B
end
fn Token::eof
  ensures r.line == usize::MAX && r.column == usize::MAX && r.literal@.len() == 0 //@B
end
fn Token::is_comment
  ensures r == q_cmt(self.literal@) //@C07 comments are told by their opening
end
fn BQ2CSTError::new
  ensures r.line == line && r.column == column //@B
end
fn is_digit
  ensures r == (*ch matches Some(c) && q_dig(c)) //@C03 digits
end
fn is_end_of_line
  ensures r == (*ch is None || *ch == Some('\n')) //@C03 line ends
end
fn is_valid_1st_char_of_ident
  ensures r == (*ch matches Some(c) && q_word1(c)) //@C03 first characters of words
end
fn is_valid_char_of_ident
  ensures r == (*ch matches Some(c) && q_wordc(c)) //@C03 characters of words
end
fn is_whitespace
  ensures r ==> (*ch matches Some(c) && q_ws(c)) //@C01 only blanks are skipped
  ensures (*ch matches Some(c) && q_ws(c)) ==> r //@C03 all blanks are skipped
end
drop BQ2CSTError::from_token
drop Token::is_identifier
drop Token::is_string
drop Token::is_numeric
drop Token::is_boolean
drop Token::is_parameter
drop Token::is_template
drop Token::is_reserved_keyword
drop Token::quoted_by
