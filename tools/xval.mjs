// Development tool: compare the reference grammar (spec/grammar.txt) with acorn, a parser written by others.
//   harness texts --grammar build/grammar.dump --seed S --n N | node tools/xval.mjs
// acorn's early errors and its refinement of cover grammars are switched off (the reference has neither); valid programs are held
// against ECMAScript 2018 (object spread), invalid ones against ECMAScript 2017.
import fs from 'node:fs'
let src = fs.readFileSync('/opt/veriftools/node/node_modules/acorn/dist/acorn.js', 'utf8')
function patch(a, b) { if (!src.includes(a)) throw new Error('acorn changed: ' + a); src = src.replace(a, () => b) }
patch('if (!exprList.length || lastIsComma) { this.unexpected(this.lastTokStart); }', '')
patch('if (spreadStart) { this.unexpected(spreadStart); }', '')
patch('val = exprList[0];', 'val = exprList[0] || this.finishNode(this.startNode(), "Empty");')
patch('pp$9.checkExpressionErrors = function(refDestructuringErrors, andThrow) {', 'pp$9.checkExpressionErrors = function() { return false };\n  pp$9.unused = function(refDestructuringErrors, andThrow) {')
const none = (o, n, r) => patch(`${o}.${n} = function(`, `${o}.${n} = function(${r || ''}) { return ${r || ''} };\n  ${o}.unused = function(`)
none('pp$9', 'checkPatternErrors'); none('pp$9', 'checkYieldAwaitInDefaultParams'); none('pp$8', 'checkExport'); none('pp$8', 'checkPatternExport')
none('pp$8', 'checkVariableExport'); none('pp$7', 'toAssignable', 'node'); none('pp$7', 'toAssignableList', 'node'); none('pp$7', 'checkLValSimple')
none('pp$7', 'checkLValPattern'); none('pp$7', 'checkLValInnerPattern'); none('pp$5', 'checkPropClash'); none('pp$5', 'checkParams')
none('pp$3', 'declareName'); none('pp$3', 'checkLocalExport')
// (an object with `a = b` is left to the cover grammar wherever an expression stands)
patch('this.type === types$1.eq && refDestructuringErrors) {', 'this.type === types$1.eq) { refDestructuringErrors = refDestructuringErrors || { shorthandAssign: -1 };')
// (`++ UnaryExpression` of the standard is an early error unless the operand is a target; the reference has only the operands left)
patch('node.argument = this.parseMaybeUnary(null, true, update, forInit);', 'const at0 = this.start; node.argument = this.parseMaybeUnary(null, true, update, forInit);' +
  'if (update && node.argument.start === at0 && /^(Unary|Await)/.test(node.argument.type)) this.unexpected(at0);')
patch('while (this.type.postfix && !this.canInsertSemicolon()) {', 'if (this.type.postfix && expr.type !== "ArrowFunctionExpression" && !this.canInsertSemicolon()) {')
// (a call of super is no operand of new, and a declaration of constants outside of a for head has its initializers)
patch('case types$1._super:', 'case types$1._super: if (forNew && !/^\\s*[.[]/.test(this.input.slice(this.end))) this.unexpected();')
patch('kind === "const" && !(this.type === types$1._in || (this.options.ecmaVersion >= 6 && this.isContextual("of")))', 'kind === "const" && !(isFor && (this.type === types$1._in || this.isContextual("of")))')
const m = { exports: {} }
new Function('exports', 'module', src)(m.exports, m)
const acorn = m.exports
const EARLY = /^(Export '|Unsyntactic|'return' outside|'with' in strict|Label '|Constructor can't|Classes may not|'super' keyword|super\(\) call|'new.target' can|Deleting local|Invalid use of 'super'|Duplicate|Redefinition|Invalid regular|Illegal 'use strict'|Parenthesized|Assigning to|The left-hand side of a for-of)/
const raise0 = acorn.Parser.prototype.raise
acorn.Parser.prototype.raise = function (pos, msg) { if (!EARLY.test(msg)) raise0.call(this, pos, msg) }
acorn.Parser.prototype.raiseRecoverable = acorn.Parser.prototype.raise
function judge(text, v) {
  try {
    acorn.parse(text, { ecmaVersion: v, sourceType: 'module', allowReturnOutsideFunction: true, allowSuperOutsideMethod: true })
    return null
  } catch (e) { return e }
}
let n = 0, bad = 0, skipped = 0
for (const l of fs.readFileSync(0, 'utf8').split('\n')) {
  if (!l) continue
  const [ok, , t] = l.split('\t')
  const text = t.replace(/\\(.)/g, (_, c) => c === 'n' ? '\n' : c)
  n++
  const e = judge(text, ok === 'ok' ? 9 : 8)
  if ((e === null) === (ok === 'ok')) continue
  // arrow heads are a cover grammar of the reference
  if (e && text.startsWith('=>', e.pos)) { skipped++; continue }
  // acorn's tokenizer often takes the slash after `of` for the start of a regular expression
  if (e && /\bof( \+\+| --)?\s*\//.test(text)) { skipped++; continue }
  bad++
  console.log(ok === 'ok' ? 'only the reference accepts' : 'only acorn accepts', l.split('\t')[1], JSON.stringify(text), e ? e.message : '')
}
console.log(`${n} programs, ${skipped} outside of the comparison, ${bad} differences`)
