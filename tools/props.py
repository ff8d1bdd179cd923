#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,obs,hook):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=x,meaning=x,where=files[0]) for x in state],observe_at=[obs],hook_needed=hook)))
LEX=["src/lexer.rs","src/token.rs"]; PAR=["src/parser.rs","src/cst.rs","src/token.rs"]
HK="private modules reached through the cfg(bq2cst_verif) re-export"
p("C01","Tokenization loses and invents no text",
 "For every text the tokenizer accepts, the tokens in order, with only white space between them, spell the text exactly: no character other than white space is dropped, duplicated, changed or reordered. The list ends with exactly one empty end-of-input token, and no other token is empty.",
 ["inputs"],"all texts (any sequence of Unicode characters) that the tokenizer accepts",
 "Tests compare a few dozen snippets; an omission in one lexeme branch at one boundary (end of text, line end, non-ASCII white space) is invisible to them.",
 LEX,[("next_token / read_* take the slice from their start to the cursor","src/lexer.rs"),("tokenize_code runs to the end and appends the end marker","src/lexer.rs")],["cursor position","token list"],"token list returned by tokenize",HK)
p("C02","Token positions are exact",
 "For every accepted text, the line and column of each token other than the end marker are the 1-based line and column (counted in characters, lines ending at a line feed) of the token's first character in the text. The end marker carries the largest representable line and column.",
 ["inputs"],"all accepted texts, every token",
 "Position tracking is incremental state updated by every character read; only a proof over all inputs shows no lexeme (multi-line strings, comments, templates) leaves it wrong for what follows.",
 LEX,[("next_char advances line and column","src/lexer.rs"),("next_token saves line and column after white space","src/lexer.rs")],["line","column","cursor position"],"line and column of returned tokens",HK)
p("C03","Token boundaries follow the lexical rules",
 "For every accepted text each token is the lexeme the rules give at its place: a word, number, quoted string (single or triple quotes, backslash escapes), back-quoted name, parameter, template, line or block comment, or the longest operator among the two-character ones, where a closing angle bracket of an ARRAY or STRUCT type is never merged. A line comment ends at the line end (trailing blanks dropped) and a block comment or quoted text ends at its first proper terminator.",
 ["inputs"],"all accepted texts",
 "Terminator and escape handling depends on unbounded context (runs of backslashes, nesting depth of type brackets); tests sample a few.",
 LEX,[("dispatch on the first characters","next_token in src/lexer.rs"),("scanning loops","read_* in src/lexer.rs"),("type bracket depth","type_declaration_depth in src/lexer.rs")],["type bracket depth","cursor position"],"literals of the returned tokens",HK)
p("C04","The tokenizer is total",
 "For every text the tokenizer returns after finitely many steps without panicking: either the token list or an error. It reports an error only if a quoted text, block comment or template is not closed or a parameter sign is not followed by a name.",
 ["inputs"],"all texts",
 "A panic or endless loop needs one specific shape at one specific place (first token, end of text); tests cannot enumerate them.",
 LEX,[("bounds of get_char and next_char","src/lexer.rs"),("loop progress","read_* and tokenize_code in src/lexer.rs")],["cursor position"],"tokenize returns or throws; wasm traps on panic",HK)
p("C05","The parser is total",
 "For every token list the tokenizer can produce, parsing returns after finitely many steps with either a tree or an error; it never panics (no failed unwrap, index out of range, arithmetic overflow or explicit panic) and never loops forever.",
 ["inputs"],"all token lists that end with the end marker, hence all texts",
 "About a hundred mutually recursive grammar functions with look-ahead; a panic or stuck loop needs a truncated or malformed statement in one of thousands of positions.",
 PAR,[("cursor and look-ahead","get_offset_index, get_token, next_token in src/parser.rs"),("every loop of every grammar function makes progress","parse_* in src/parser.rs")],["cursor position","token list"],"parse returns or throws; wasm traps on panic",HK)
p("C06","The tree contains every token exactly once",
 "Whenever parsing succeeds, every token of the input other than the end marker, comments included, occurs as the token of exactly one node of the returned tree, and the tree holds no other token.",
 ["inputs"],"all token lists that parse successfully",
 "A clause branch that skips a token, builds a node for it twice, or overwrites an already stored child loses or repeats text only for one combination of optional clauses; a formatter built on the tree then silently drops user code.",
 PAR,[("node for the current token","construct_node in src/parser.rs"),("children are stored by key","push_node, push_node_vec in src/cst.rs"),("cursor moves by one token","next_token in src/parser.rs")],["cursor position","nodes under construction"],"tree returned by parse",HK)
p("C07","Comments hang on the right token and side",
 "Whenever parsing succeeds, the node of each token carries as trailing comments exactly the comments that directly follow the token and start on its line, and as leading comments exactly the remaining comments between the previous token and it, both in source order; comments after the last token lead the end-of-input node. No comment hangs anywhere else.",
 ["inputs"],"all token lists that parse successfully",
 "Comments may stand between any two tokens of any statement; tests place a handful.",
 PAR,[("comment runs around the cursor","new, next_token in src/parser.rs"),("comments are attached when the node is built","construct_node in src/parser.rs"),("nothing else writes the comment slots","parse_* in src/parser.rs")],["leading and trailing comment indices"],"leading_comments and trailing_comments children",HK)
p("C08","Top-level nodes follow the source order and cover it",
 "Whenever parsing succeeds, the result is a list of statement nodes followed by exactly one end-of-input node as its last element. The statement nodes, from first to last, hold consecutive, gap-free, non-empty runs of the input's tokens starting at the first token, and the end-of-input node holds what remains (comments only).",
 ["inputs","histories"],"all token lists that parse successfully, any number of statements",
 "Needs induction over the number of statements and over what each of them consumes.",
 PAR,[("statement loop","parse_code in src/parser.rs"),("each statement consumes one run of tokens","parse_statement and everything below it in src/parser.rs")],["cursor position","statement list"],"top-level list returned by parse",HK)
p("C09","Errors point at a real place in the input",
 "Whenever parsing fails, the reported line and column are those of a non-comment token of the input or of the end marker. Whenever tokenizing fails, they are the end of the text, or the character at which a parameter name was expected.",
 ["inputs"],"all texts that are rejected",
 "Every error return in every grammar function must be covered, for every malformed input.",
 PAR+["src/error.rs","src/lexer.rs"],[("errors are built from tokens","from_token in src/error.rs, every error return in src/parser.rs"),("end of input while scanning","next_char in src/lexer.rs")],["cursor position"],"line and column of the thrown error",HK)
p("C10","Keywords are case-insensitive",
 "Changing the case of any of the letters A to Z in a text outside quotes and comments changes nothing but those letters in the result: parsing succeeds or fails alike, an error keeps its position, and the trees are equal up to the letter case of token texts.",
 ["inputs"],"all texts and all ways to re-case their ASCII letters",
 "There are more than a thousand places that compare a token with a keyword; one comparison that forgets to fold case only shows for lower-case input of that clause.",
 PAR+["src/lexer.rs","src/constants.rs"],[("case-folding comparisons","is, in_ in src/token.rs"),("match on upper-cased literals","parse_* in src/parser.rs")],[],"tree or error returned by parse",HK)
p("C11","Operators nest by precedence",
 "Whenever parsing succeeds, the operators of every expression nest by the precedence table, from tight to loose: call and subscript; dot; prefix - + ~ together with * / ||; binary + -; << >>; &; ^; |; comparisons (= < > <= >= != <> LIKE BETWEEN IN IS and their NOT forms); NOT; AND; OR; =>. The left operand of an infix operator is never itself an operator that binds more loosely, a right operand (both bounds of BETWEEN included) is never an infix operator that binds as loosely or more loosely, the operand of a prefix sign is never an infix operator and that of NOT never one that binds more loosely than NOT; parentheses and other closed constructs count as atoms, an IN (closed by its bracket) may be any left operand, and an operator that directly follows a sort word (ASC, DESC, FIRST, LAST) is exempt on its left.",
 ["inputs"],"all token lists that parse successfully, every operator node of the tree",
 "Precedence is decided by the interplay of a table, the level each caller asks for and the loop that climbs; a slip shows only for a particular pair of operators in a particular order, and there are hundreds of pairs, unboundedly nested.",
 PAR,[("table of levels","get_precedence in src/parser.rs"),("climbing loop","parse_expr in src/parser.rs"),("operands of each operator","parse_binary_operator, parse_between_operator, parse_in_operator, parse_is_distinct_from_operator in src/parser.rs")],["cursor position"],"left, right, right_min, right_max and func children of operator nodes",HK)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
