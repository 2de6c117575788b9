"""Definitions of the planted bugs (development only; see plant.py)."""
S, M = 'tokenizer/slice.rs', 'parser/mod.rs'
EX, ST, CL, FN, DE, MO = ('parser/%s.rs' % x for x in ('expressions', 'statements', 'classes', 'functions', 'declarations', 'module'))
BUGS = []


def bug(id, prop, edits, cases, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, cases=cases, needs=needs, what=what))


bug('t01-vt', 'T01', [(S, "            b'\\x09' | b'\\x0B' | b'\\x0C' | b'\\x20' => {\n                index += 1;\n            }\n            b'\\xEF'",
    "            b'\\x09' | b'\\x0B' | b'\\x0C' | b'\\x20' => {\n                index += 1;\n                if index > pos.offset + 255 { break; }\n            }\n            b'\\xEF'")],
    [['lex', '-', 'a' + ' ' * 300 + 'b'], ['lex', '-', 'a b']],
    'a run of more than 255 blanks between two tokens', 'long runs of blanks are not skipped completely, so the tokenizer meets a blank')
bug('t02-last-ls', 'T02', [(S, "            NS_PS.len()\n        }\n        _ => {\n            tok_ident(code, token)",
    "            if len == NS_PS.len() { 0 } else { NS_PS.len() }\n        }\n        _ => {\n            tok_ident(code, token)")],
    [['lex', '-', 'a\u2028'], ['lex', '-', 'a\u2028b']],
    'a source whose very last character is U+2028 or U+2029', 'a line terminator at the very end covers no byte: the tokenizer stops making progress')
bug('t03-cr', 'T03', [(S, "            _ => {\n                pos.column += 1;\n                saw_cr = false;\n            }", "            _ => {\n                pos.column += 1;\n            }")],
    [['lex', '-', '/*a\rb\nc*/ d'], ['lex', '-', '/*a\r\nc*/ d']],
    'a token with a CR, other characters, and then an LF', 'an LF after CR and other characters is not counted as a line')
bug('t04-rshift', 'T04', [(S, "                } else if len > 2 && bytes[2] == b'=' {\n                    punc(PunctuatorToken::RAngleAngleEq, 3, token)",
    "                } else if len > 3 && bytes[2] == b'=' {\n                    punc(PunctuatorToken::RAngleAngleEq, 3, token)")],
    [['lex', '-', 'a>>='], ['lex', '-', 'a>>=b']],
    'the three characters >>= at the very end of the source', '>>= at the end of the text is split into two tokens')
bug('t05-empty-block', 'T05', [(S, "let mut break_slash = false;\n        for (i, &b) in bytes.iter().enumerate().skip(2) {", "let mut break_slash = false;\n        for (i, &b) in bytes.iter().enumerate().skip(3) {")],
    [['lex', '-', '/**/a/*b*/'], ['lex', '-', '/* */a']],
    'an empty block comment', 'the star of an empty block comment is not seen, so the comment runs on to a later terminator')
bug('t06-long-unicode', 'T06', [(S, "                in_unicode_escape = false;\n                in_long_unicode_escape = false;", "                in_unicode_escape = false;")],
    [['lex', '-', '"\\u{41}\\u0042" "x"'], ['lex', '-', '"\\u{41}" "x"']],
    'a \\u{...} escape followed by a four-digit \\u escape in one string', 'a short escape after a long one is still taken for a long one')
bug('t07-dollar', 'T07', [(S, "            b'`' => {\n                template(code[1..i].into(), code[1..i].into(), TemplateFormat::NoSubstitution, token);\n                return i + 1;\n            }\n            b'$' => {\n                break_curly = true;",
    "            b'`' => {\n                template(code[1..i].into(), code[1..i].into(), TemplateFormat::NoSubstitution, token);\n                return i + 1;\n            }\n            b'$' => {\n                break_curly = !break_curly;")],
    [['lex', '-t', '`a$${b}`'], ['lex', '-t', '`a${b}`']],
    'two dollar signs before the brace in a template head', 'a substitution after $$ is not recognised')
bug('t08-class', 'T08', [(S, "b'[' if !in_class => {\n                    in_class = true;\n                }\n                b']' if in_class => {\n                    in_class = false;\n                }",
    "b'[' => {\n                    in_class = !in_class;\n                }\n                b']' if in_class => {\n                    in_class = false;\n                }")],
    [['lex', 'e-', '/[[/]/g'], ['lex', 'e-', '/[a/]/g']],
    'a second opening bracket inside a character class of a regular expression', 'a bracket inside a class ends the class, so a slash in it ends the literal')
bug('t09-exp-zero', 'T09', [(S, "                let val = (v - b'0') as i32;\n                if val != 0 || value != 0 {", "                let val = (v - b'0') as i32;\n                if val != 0 {")],
    [['lex', '-', '1e10'], ['lex', '-', '1e1'], ['lex', '-', '2.5e-203']],
    'an exponent with a zero after a non-zero digit', 'zeros inside an exponent do not count, so 1e10 becomes 10')
bug('t10-capital-z', 'T10', [(S, "            b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b'$' | b'_'  => {", "            b'a'...b'z' | b'A'...b'Y' | b'0'...b'9' | b'$' | b'_'  => {")],
    [['lex', '-', 'fooZ'], ['lex', '-', 'Zoo'], ['lex', '-', 'foo']],
    'an identifier name with a capital Z', 'names stop at a capital Z')
bug('t11-oob', 'T11', [(S, "                if len > 2 && bytes[2] == b'>' {", "                if len >= 2 && bytes[2] == b'>' {")],
    [['lex', '-', 'a>>'], ['lex', '-', 'a>>b']],
    'the two characters >> at the very end of the source', 'indexing past the end: the tokenizer crashes')

bug('g01-buffer', 'G01', [(M, "        if self.count == 0 {\n            read_token(&mut self.tok, &mut self.hint, &mut self.tokens[0]);\n            self.index = 0;", "        if self.count == 0 {\n            self.index = 0;\n            read_token(&mut self.tok, &mut self.hint, &mut self.tokens[0]);"),
    (M, "        let look_index = ((self.index + 1) % 2) as usize;", "        let look_index = (self.index as usize + 1).min(1);")],
    [['parse', 'void async function () {}'], ['parse', 'typeof async'], ['parse', 'a: b;']],
    'looking one token past an identifier while the current token sits in the second slot of the buffer', 'the lookahead overwrites the current token')
bug('g02-comment', 'G02', [(M, "                if pos.start.line != pos.end.line {\n                    out.line = true;\n                }", "                out.line = pos.start.line != pos.end.line;")],
    [['parse', 'a\n/* c */ b'], ['parse', 'a\nb'], ['parse', 'a /*\n*/ b']],
    'a single-line comment after a line break, before the next token', 'a later comment erases the record of a line break')
bug('g04-computed', 'G04', [(ST, "        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));\n\n        Ok(TokenResult::Some(()))\n    }\n\n    pub fn parse_array_binding_pattern", "        opt_value!(self.punc(tokens::PunctuatorToken::SquareClose));\n\n        Ok(TokenResult::Some(()))\n    }\n\n    pub fn parse_array_binding_pattern")],
    [['parse', 'x = { [a: 1 };'], ['parse', 'x = { [a]: 1 };']],
    'a computed property name whose closing bracket is missing', 'unbalanced brackets are accepted')
bug('g05-leak', 'G05', [(M, "            Flag::Default => { self.flags.allow_default = val; }", "            Flag::Default => { self.flags.allow_default = val; self.flags_stack.pop(); self.flags_stack.push(self.flags); }")],
    [['parse', 'export default function () {}\nfunction () {}'], ['parse', 'export default 1;\nclass {}'], ['parse', 'export default function () {}']],
    'an anonymous declaration after an export default', 'the permission to omit the name of a declaration leaks out of export default')
bug('g06-class', 'G06', [(CL, "let mut parser = self.without(Flag::Template);", "let mut parser = self.without(Flag::Noop);")],
    [['parse', 'x = `${ class { a() {} } }`;'], ['parse', 'x = class { a() {} };']],
    'a class body inside a template substitution', 'the brace that closes a class body is read as the continuation of the template')
bug('g07-cond-colon', 'G07', [(EX, "            self.expect_expression();\n            eat_value!(self.with(Flag::In).parse_assignment_expression()?);\n            eat_value!(self.punc(tokens::PunctuatorToken::Colon));\n\n            self.expect_expression();",
    "            self.expect_expression();\n            eat_value!(self.with(Flag::In).parse_assignment_expression()?);\n            eat_value!(self.punc(tokens::PunctuatorToken::Colon));\n")],
    [['parse', 'x = a ? b : /c/;'], ['parse', 'x = a ? /b/ : c;']],
    'a regular expression directly after the colon of a conditional expression', 'a slash there is read as division')
bug('g08-dowhile', 'G08', [(M, "            } else if was_do_while || line {", "            } else if was_do_while && line || line {")],
    [['parse', 'do a; while (b) c'], ['parse', 'do a; while (b)\nc']],
    'a statement on the same line after do ... while (...)', 'the special insertion after do-while is lost')
bug('g09-continue', 'G09', [(ST, "        if self.no_line_terminator() {\n            opt_value!(self.label_identifier());\n        }\n\n        self.expect_expression();\n        eat_value!(self.semicolon());\n\n        Ok(", "        opt_value!(self.label_identifier());\n\n        self.expect_expression();\n        eat_value!(self.semicolon());\n\n        Ok(")],
    [['parse', 'a: while (b) { continue\na\n(c) }'], ['parse', 'while (b) { continue\na\n++\nb }'], ['parse', 'a: while (b) { continue\na: c }']],
    'an identifier on the line after continue', 'the identifier is taken for a label across the line break')
bug('g10-interface', 'G10', [(M, '"implements" | "package" | "protected" | "interface" | "private" | "public" if flags.is_strict', '"implements" | "package" | "protected" | "private" | "public" if flags.is_strict')],
    [['parse', 'interface = 1'], ['parse', 'public = 1'], ['parse', 'a.interface']],
    'the reserved word interface as a reference', 'a reserved word is accepted as an identifier')
bug('g11-class-semi', 'G11', [(CL, "        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {\n            return Ok(TokenResult::Some(()));", "        if let tokens::Token::Punctuator(tokens::PunctuatorToken::Semicolon) = *self.token() {\n            return Ok(TokenResult::Some(()));")],
    [['parse', 'class A { a() {} ; }'], ['parse', 'class A { a() {} }']],
    'a semicolon in a class body', 'the parser loops forever')
bug('g12-unreachable', 'G12', [(EX, "        let maybe_async_arrow = if let Some(&LookaheadResult {\n            line: false,\n", "        let maybe_async_arrow = if let Some(&LookaheadResult {\n            line: _,\n")],
    [['parse', 'async\nb'], ['parse', 'async b => c']],
    'async followed by an identifier on the next line', 'an internal consistency check fails: the parser panics')
bug('g13-default', 'G13', [(ST, "                if has_default {\n                    bail!(\"duplicate default statements\");\n                }\n                has_default = true;", "                if has_default && body.is_empty() {\n                    bail!(\"duplicate default statements\");\n                }\n                has_default = true;")],
    [['parse', 'switch (a) { default: case 1: default: }'], ['parse', 'switch (a) { default: default: }'], ['parse', 'switch (a) { case 1: default: case 2: }']],
    'two default clauses in a switch with a case clause before the second', 'a program that is not in the language is accepted')
bug('g13-const2', 'G13', [(DE, "        while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {\n            eat_value!(self.parse_lexical_declarator(true)?);", "        while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {\n            eat_value!(self.parse_lexical_declarator(false)?);")],
    [['parse', 'const a = 1, b;'], ['parse', 'const a;'], ['parse', 'const a = 1, b = 2;']],
    'a second declarator without initializer in a const declaration', 'a const binding without initializer is accepted')
bug('g14-for-pattern', 'G14', [(ST, '                let maybe_for = !pattern || initialized;', '                let maybe_for = !pattern;')],
    [['parse', 'for (var [a] = b; c; d) e'], ['parse', 'for (var a = b; c; d) e'], ['parse', 'for (var [a] of b) c']],
    'a for statement whose first declarator is an initialized pattern', 'a valid for statement is rejected')
bug('g05-depth', 'G05', [(M, "        self.flags = self.flags_stack.pop().unwrap();", "        let allow_in = self.flags.allow_in;\n        self.flags = self.flags_stack.pop().unwrap();\n        if self.flags_stack.len() > 9 { self.flags.allow_in = allow_in; }")],
    [['parse', '{ { { { { for (var i = (1) in c;;) ; } } } } }'], ['parse', '{ { { { { for (var i = (1);;) ; } } } } }'], ['parse', 'for (var i = (1) in c;;) ;']],
    'a context left at a depth of ten or more contexts', "whether 'in' is permitted leaks out of a deeply nested construct")
bug('g05-generator-await', 'G05', [(M, "            Flag::Await => { self.flags.allow_await = val; }", "            Flag::Await => { self.flags.allow_await = val || self.flags.allow_yield; }")],
    [['parse', 'function* f() { async function g() { function h() { await(a); } } }'], ['parse', 'function* f() { (class { * g() { await a; } }) }'], ['parse', 'function* f() { (function () { await a; }) }'], ['parse', 'async function f() { await a; }']],
    'a function nested in a generator', "the permission to use 'await' does not follow the innermost function")
bug('g08-deep', 'G08', [(M, "            } else if was_do_while || line {", "            } else if was_do_while || (line && self.flags_stack.len() < 12) {")],
    [['parse', '{ { { { { { a\nb } } } } } }'], ['parse', '{ a\nb }'], ['parse', '{ { { { { { a; b } } } } } }']],
    'a statement without semicolon in deeply nested blocks', 'a semicolon is not inserted at a line break in deeply nested code')
bug('g04-switch', 'G04', [(ST, "        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose));\n\n        Ok(TokenResult::Some(()))\n    }\n    fn parse_default_clause", "        if has_default { opt_value!(parser.punc(tokens::PunctuatorToken::CurlyClose)); } else { eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose)); }\n\n        Ok(TokenResult::Some(()))\n    }\n    fn parse_default_clause")],
    [['parse', 'switch (a) { default:'], ['parse', 'switch (a) { case b:'], ['parse', 'switch (a) { default: }']],
    'a switch with a default clause at the very end', 'a switch is accepted without its closing brace')
BUGS[:] = [b for b in BUGS if b['cases']]
