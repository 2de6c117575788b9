#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "cfg(jsparse_verif): makes the tokenizer module nameable so a replay harness can wrap a tokenizer and compare hints and tokens"}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SL = "src/tokenizer/slice.rs"; PM = "src/parser/mod.rs"
EX, ST, DE, FN, CL, MO, FI = ["src/parser/%s.rs" % n for n in ("expressions", "statements", "declarations", "functions", "classes", "module", "file")]
ALLP = [PM, EX, ST, DE, FN, CL, MO, FI]

prop("T01", "Tokens and skipped blanks tile the source exactly",
 "When a source text is tokenized to the end, each token's reported byte range starts exactly where the previous token ended after skipping nothing but blanks (tab, vertical tab, form feed, space, U+00A0, U+FEFF), all blanks there are skipped, and the ranges together with the skipped blanks cover the whole text with no gap and no overlap. Every range lies within the text on character boundaries. Start is never after end.",
 ["inputs"], "every UTF-8 source text below 2 GiB and every sequence of hints supplied by the consumer",
 "The unit tests call the scanner on about 90 fixed snippets that each start at offset 0 and contain one token; none tokenizes a text past its first token or contains U+00A0/U+FEFF.",
 [SL, "src/tokenizer/mod.rs"], [("eat_whitespace skips blanks", SL), ("read_next returns a token size", SL), ("increment_position advances by that size", SL), ("SliceTokenizer::next_token composes them", SL)],
 ["token ranges reported by the tokenizer"], [("position", "current byte offset / line / column of the tokenizer", SL)])
prop("T02", "Tokenization always progresses and ends in EOF exactly at the end",
 "Every token other than end-of-file covers at least one byte, and the end-of-file token is produced exactly when only blanks remain, is empty, and is then produced again on every further request. Hence tokenizing any text of n bytes yields end-of-file after at most n other tokens (or stops with a diagnostic).",
 ["inputs"], "every UTF-8 source text below 2 GiB and every hint sequence",
 "A token of size zero makes the parser loop forever; tests only exercise well-formed single tokens.",
 [SL], [("every arm of the scanner returns a positive size", SL), ("empty remainder gives EOF", SL)], ["token kinds and ranges"])
prop("T03", "Reported line and column positions are those of the source text",
 "The start and end positions of every token satisfy: line is 1 plus the number of line terminators (LF, CR, CRLF counted once, U+2028, U+2029) before the offset, and column is the number of code points between the last line terminator and the offset. A CRLF pair is one line terminator token and positions never fall inside it.",
 ["inputs"], "every UTF-8 source text below 2 GiB, every token in it, every hint sequence",
 "No test looks at positions at all; multi-line tokens, CRLF, and multi-byte text need arbitrary mixtures.",
 [SL, "src/tokenizer/mod.rs"], [("increment_position counts lines/columns over the token text", SL), ("eat_whitespace advances the column per blank", SL), ("into_tokenizer sets the initial position", SL)], ["start/end positions in the token range"])
prop("T04", "Punctuators are recognised by longest match",
 "At a character that starts an ES2017 punctuator (other than a division or closing-brace character), the scanner yields the punctuator kind whose spelling is the longest one of the ES2017 set that is a prefix of the remaining text, with exactly that length. The only exceptions are a period followed by a decimal digit, which starts a number, and that no HTML-like comment spelling is ever a token.",
 ["inputs"], "every UTF-8 remainder starting with a punctuator character, including remainders that end in the middle of a longer punctuator",
 "The tests check each punctuator followed by one space; they never check the choice between competing spellings, end of input, or other followers.",
 [SL, "src/tokenizer/tokens.rs"], [("read_next dispatch on up to four bytes", SL)], ["token kind and size"])
prop("T05", "Comments extend exactly to their terminator",
 "A line comment extends to the first LF, CR, U+2028 or U+2029 after its opening (excluded) or to the end of input, and a block comment to the first closing delimiter that follows its opening, inclusive; the comment token carries exactly the text in between and the right format. A block comment without closing delimiter is diagnosed and never silently accepted.",
 ["inputs"], "every UTF-8 remainder starting with a comment opener",
 "Tests contain ten comments; overlaps such as /*/ or **/ , partial U+2028 prefixes and end of input are unbounded families.",
 [SL], [("tok_slash scans for the terminator", SL)], ["comment token text, format, size"])
prop("T06", "String literals extend to their matching unescaped quote",
 "A string literal token extends to the first quote of its own kind that is not part of an escape sequence or line continuation (a CRLF after a backslash being one continuation), and carries exactly the text between the quotes. A text in which a line terminator, a malformed hexadecimal or Unicode escape, a decimal escape other than the null escape, or the end of input comes first is diagnosed and never yields a token.",
 ["inputs"], "every UTF-8 remainder starting with a quote character",
 "Tests contain four strings and no escape; the scanner is a state machine whose bugs need particular escape and terminator combinations.",
 [SL], [("tok_str escape state machine", SL)], ["string token text and size, or diagnostic"])
prop("T07", "Template chunks end at the right delimiter with the right kind",
 "A template chunk (opened by a backtick, or by a closing brace when the consumer expects a template continuation) extends to the first unescaped backtick or unescaped dollar-brace, inclusive; its kind (whole, head, middle, tail) follows from its two delimiters and it carries exactly the text in between. A chunk whose end never comes is diagnosed.",
 ["inputs"], "every UTF-8 remainder starting with a backtick, or with a closing brace under the template hint",
 "Tests contain four chunks with the text foo; escapes and runs of dollars are never exercised.",
 [SL], [("tok_template_head", SL), ("tok_curly_close", SL)], ["template token format, text, size"])
prop("T08", "Regular-expression literals and division are delimited correctly",
 "A slash that does not open a comment yields a regular-expression literal exactly when the consumer signals that an expression may start, and otherwise a division punctuator, of two bytes exactly when an equals sign follows. The literal's body extends to the first slash that is neither escaped nor inside a character class, its flags are the maximal following run of lowercase ASCII letters, and both are reported verbatim; a body containing a line terminator or reaching the end of input is diagnosed.",
 ["inputs"], "every UTF-8 remainder starting with a slash, both hint values",
 "Tests contain five literals; classes, escapes and terminators interact.",
 [SL], [("tok_slash regex state machine", SL)], ["regex token pattern, flags, size"])
prop("T09", "Numeric literals have maximal extent and the right value",
 "A numeric token covers the longest prefix of the remaining text that is an ES2017 decimal, hexadecimal, octal or binary literal (no legacy octal), and a radix prefix without a digit, or an octal or binary literal running into a digit outside its radix, is diagnosed. Its value equals the mathematical value of the literal: exactly for integer literals up to 2^53, and up to floating-point rounding for fractions and exponents whose intermediate values stay in the normal double range.",
 ["inputs"], "every UTF-8 remainder starting with a digit, or with a period followed by a digit",
 "Tests contain eighteen literals, none with a hexadecimal letter, an exponent after zero, or an exponent without digits.",
 [SL], [("tok_zero_num, tok_num, tok_fractional", SL), ("parse_int_literal, parse_decimal_digits, parse_exponent", SL)], ["numeric token value and size"])
prop("T10", "Identifier names are maximal runs and unknown characters are diagnosed",
 "Where none of the other token kinds starts, an identifier-name token covers the maximal non-empty run of ASCII letters, digits, dollar and underscore and carries exactly that text. A character that can start no token is diagnosed rather than turned into a token.",
 ["inputs"], "every UTF-8 remainder that starts with an identifier character or an unsupported character",
 "One test checks one identifier followed by a space.",
 [SL], [("tok_ident", SL), ("read_next dispatch", SL)], ["identifier token text and size"])
prop("T11", "The tokenizer never crashes other than by a deliberate diagnostic",
 "For every source text and hint sequence, requesting a token either returns a token or stops with one of the deliberate diagnostics for malformed or unsupported input. It never indexes out of bounds, splits a character, overflows or underflows an integer, or reaches code marked unreachable.",
 ["inputs"], "every UTF-8 source text below 2 GiB, every hint sequence, checked builds (debug assertions on)",
 "Every slice, index and subtraction in the scanner is an obligation over all inputs; tests sample about 90 snippets.",
 [SL], [("bounds tests before indexing", SL), ("str slicing at character boundaries", SL)], ["panics"])

prop("G01", "Every token is consumed exactly once and in order despite lookahead",
 "The parser examines and consumes the significant tokens of the stream in order, each exactly once: bounded lookahead never drops, duplicates or reorders a token, and every decision is taken on the actual next token(s). At most two unconsumed tokens are buffered.",
 ["inputs", "histories"], "every tokenizer implementation, every token stream, every sequence of parser steps",
 "The two-slot buffer is exercised by whichever fixed programs the seven parser test programs contain; loss or duplication shows only in particular lookahead/consume histories.",
 [PM], [("token_and_line / ident_lookahead fill the two-slot buffer", PM), ("pop rotates it", PM)], ["tokens requested versus structure accepted"],
 [("tokens,index,count", "ring buffer of at most two tokens", PM)])
prop("G02", "Trivia is skipped and line breaks before a token are recorded exactly",
 "Blank, line-terminator and comment tokens never reach the grammar, and each significant token is flagged as preceded by a line break exactly when a line terminator, or a comment spanning more than one line, lies between it and the previous significant token.",
 ["inputs", "histories"], "every tokenizer implementation and token stream",
 "The flag drives semicolon insertion; tests never assert on it.",
 [PM], [("read_token loop", PM)], ["acceptance of programs that depend on line breaks"])
prop("G03", "A parse succeeds only after the whole input was consumed",
 "If parsing reports success, every token of the source up to and including end-of-file has been consumed as part of the program. Trailing text that cannot continue the program makes the parse fail.",
 ["inputs"], "every token stream",
 "Tests only parse valid programs; none checks that trailing garbage is rejected.",
 [FI, PM], [("parse_module requires EOF", FI)], ["parse result"])
prop("G04", "Accepted programs have balanced, properly nested delimiters",
 "In every accepted program, parentheses, square brackets, curly braces and template substitutions are balanced and properly nested. Each closing delimiter is consumed by the construct that consumed its opening one.",
 ["inputs"], "every token stream accepted by the parser",
 "A negative property over all programs; tests only contain valid programs.",
 ALLP, [("each production consumes its own closing delimiter", "src/parser/*.rs")], ["parse result"])
prop("G05", "Grammar context never leaks out of the construct that set it",
 "Whatever a construct does to the grammar context (whether 'in', 'yield', 'await', anonymous default declarations, or a template continuation are permitted), the context seen after the construct, whether it matched, did not match or failed, is the one seen before it. Contexts are discarded in the reverse order in which they were established, and none is left over or missing at the end of a parse.",
 ["inputs", "histories"], "every token stream and every exit path of every construct",
 "Early exits on every token position are paths tests do not take.",
 ALLP, [("ParserProxy guard restores flags on drop", PM), ("push_flags/pop_flags", PM)], ["acceptance of context-dependent programs; internal flag stack"],
 [("flags, flags_stack", "current grammar context and its saved outer contexts", PM)])
prop("G06", "A closing brace resumes a template exactly when it closes a substitution",
 "Whenever the parser requests a token, it asks for template-continuation treatment of a closing brace exactly when the innermost unclosed opening among curly braces and template substitutions is a substitution. Hence braces of objects, blocks, classes, switches and patterns nested in a substitution never end it.",
 ["inputs"], "every token stream with arbitrarily nested templates and braces",
 "No parser test contains a template.",
 [PM, EX, ST, CL], [("Flag::Template set in substitutions and cleared inside braces", EX)], ["hints passed to the tokenizer"],
 [("hint.template", "whether a closing brace resumes a template", PM)])
prop("G07", "A slash is read as regex exactly where an expression may start",
 "Whenever the parser requests a token, it signals that an expression may start wherever the grammar, with automatic semicolon insertion, admits a regular expression as the next token and no division, and does not signal it wherever the grammar admits a division; so after an operand (literal, identifier, this, closing bracket of an expression, postfix operator, template) a slash is always division. The signal never outlives the token it was meant for.",
 ["inputs", "histories"], "every token stream in the supported grammar",
 "No parser test contains a slash; stale hints need particular sequences.",
 ALLP, [("expect_expression before operand positions", "src/parser/*.rs"), ("read_token clears the hint", PM)], ["hints passed to the tokenizer"],
 [("hint.expression", "whether a slash starts a regex", PM)])
prop("G08", "Automatic semicolon insertion happens exactly where the language says",
 "Where a statement must end in a semicolon, the parser consumes a semicolon if one is next, otherwise inserts one without consuming anything exactly when the next token is a closing brace, end-of-file, is preceded by a line break, or the statement is a do-while; in every other case the program is rejected.",
 ["inputs"], "every token stream, every statement form that ends in a semicolon",
 "Tests terminate every statement explicitly.",
 [PM, ST, DE, MO], [("semicolon_inner", PM)], ["parse result"])
prop("G09", "Restricted productions honour the no-line-break rule",
 "A line break ends return, break, continue and yield without operand, makes throw and arrow functions (before the arrow) fail, prevents a postfix increment or decrement from attaching, and separates 'async' from the function, arrow or method it would otherwise modify. Without a line break the operand, label or operator does attach.",
 ["inputs"], "every token stream containing such a construct",
 "No test contains any of these constructs.",
 [ST, EX, CL, FN], [("no_line_terminator tests", PM)], ["parse result"])
prop("G10", "Reserved words are never accepted as bindings, references or labels",
 "No word reserved in ES2017 module code (keywords, strict-mode reserved words, literals, and 'await' and 'yield') is ever accepted where a variable is declared, imported, or bound by a parameter or pattern, nor as an identifier reference or statement label; every other identifier name is accepted there.",
 ["inputs"], "every identifier name, in every grammar context and binding position",
 "Tests use only ordinary names.",
 [PM, ST, EX, MO], [("is_binding_identifier table", PM), ("binding_identifier", PM)], ["parse result"])
prop("G11", "Parsing terminates on every finite token stream",
 "For every finite token stream the parser reaches a result after a bounded number of steps: every loop iteration and every cycle of recursive calls consumes at least one token. No construct matches without consuming input unless it is optional at that place.",
 ["inputs"], "every finite token stream (adequate call stack assumed)",
 "Non-termination needs a specific malformed input.",
 ALLP, [("each repetition consumes a token or stops", "src/parser/*.rs")], ["termination"])
prop("G12", "The parser itself never crashes",
 "On every token stream the parser returns success or an ordinary error: its internal consistency assertions, unreachable markers, unwraps, array indexing and counter arithmetic never fail. The token counter never underflows and the context stack is never popped empty.",
 ["inputs", "histories"], "every tokenizer implementation and token stream, checked builds (adequate call stack assumed)",
 "Each assertion is an obligation over all histories.",
 ALLP, [("matchers re-check the popped token", PM), ("count/index arithmetic", PM), ("flags_stack.pop().unwrap()", PM)], ["panics"])
prop("G13", "Accepted programs are derivable from the reference grammar",
 "Every accepted program is derivable from the ES2017 module grammar extended with object spread, where assignment targets, arrow-function heads and for-in/of heads are taken as unvalidated cover expressions and early errors other than reserved words are not considered. In particular no construct may omit, repeat or misorder a required part.",
 ["programs"], "every token stream the parser accepts",
 "A negative property over all programs; no test checks that anything is rejected.",
 ALLP, [("one method per production", "src/parser/*.rs")], ["parse result"])
prop("G14", "Every program of the supported grammar is accepted",
 "Every token stream derivable from the ES2017 module grammar, with automatic semicolon insertion and restricted productions as the language defines them, is accepted by the parser. No valid construct is rejected because of what surrounds it.",
 ["programs"], "every token stream of the ES2017 module grammar (lexical support is the subject of the tokenizer properties)",
 "Seven small programs are tested.",
 ALLP, [("one method per production", "src/parser/*.rs")], ["parse result"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))
