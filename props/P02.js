/* P02: syntactic grammar: precedence, evaluation structure, early errors, automatic semicolons. */
/* ---- an independent reader of expressions over a, b, c, d: longest-match tokens, precedence, evaluation ---- */
var PUNCT = [">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "&&=", "||=", "??=", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=", "."];
function tokens(s) {
  var r = [], i = 0, k, c;
  while (i < s.length) {
    c = s[i];
    if (c === " ") { i++; continue; }
    if (c >= "a" && c <= "z") { for (k = i; k < s.length && s[k] >= "a" && s[k] <= "z";) k++; r.push(s.slice(i, k)); i = k; continue; }
    if (c >= "0" && c <= "9") { for (k = i; k < s.length && s[k] >= "0" && s[k] <= "9";) k++; r.push(s.slice(i, k)); i = k; continue; }
    for (k = 0; k < PUNCT.length; k++) {
      if (s.slice(i, i + PUNCT[k].length) !== PUNCT[k]) continue;
      if (PUNCT[k] === "?." && s[i + 2] >= "0" && s[i + 2] <= "9") continue;
      break;
    }
    if (k === PUNCT.length) throw ERR;
    r.push(PUNCT[k]); i += PUNCT[k].length;
  }
  return r;
}
var ERR = { err: 1 };
var BIN = { "||": 1, "??": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "instanceof": 7, "in": 7, "<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11 };
var ASG = { "=": 1, "+=": 1, "-=": 1, "*=": 1, "%=": 1, "&=": 1, "|=": 1, "^=": 1, "<<=": 1, ">>=": 1, ">>>=": 1, "**=": 1, "&&=": 1, "||=": 1, "??=": 1, "/=": 1 };
var UN = { "+": 1, "-": 1, "!": 1, "~": 1, "typeof": 1, "void": 1 };
var tk, tp;
function isId(t) { return t !== undefined && t[0] >= "a" && t[0] <= "z" && UN[t] !== 1 && t !== "in" && t !== "instanceof"; }
function pPrimary() {
  var t = tk[tp++], e;
  if (t === undefined) throw ERR;
  if (isId(t)) return ["id", t];
  if (t[0] >= "0" && t[0] <= "9") return ["num", +t];
  if (t === "(") { e = pComma(); if (tk[tp++] !== ")") throw ERR; return ["par", e]; }
  throw ERR;
}
function pMember() {
  var e = pPrimary(), opt = false;
  for (; ;) {
    if (tk[tp] === ".") { tp++; if (!(tk[tp] !== undefined && tk[tp][0] >= "a" && tk[tp][0] <= "z")) throw ERR; e = ["mem", e, tk[tp++], false]; }
    else if (tk[tp] === "?.") { tp++; if (!(tk[tp] !== undefined && tk[tp][0] >= "a" && tk[tp][0] <= "z")) throw ERR; e = ["mem", e, tk[tp++], true]; opt = true; }
    else return opt ? ["chain", e] : e;
  }
}
function target(e) { while (e[0] === "par") e = e[1]; if (e[0] !== "id" && e[0] !== "mem") throw ERR; return e; }
function pUnary() {
  var t = tk[tp], e;
  if (UN[t] === 1) { tp++; return ["un", t, pUnary()]; }
  if (t === "++" || t === "--") { tp++; e = pUnary(); return ["pre", t, target(e)]; }
  e = pMember();
  if (tk[tp] === "++" || tk[tp] === "--") return ["post", tk[tp++], target(e)];
  return e;
}
function hasMix(e, op) { return e[0] === "log" && (op === "??" ? e[1] !== "??" : e[1] === "??"); }
function pBin(min) {
  var l = pUnary(), op, p, r;
  for (; ;) {
    op = tk[tp]; p = op === undefined ? undefined : BIN[op];
    if (typeof p !== "number" || p < min) return l;
    tp++;
    if (op === "**") { if (l[0] === "un") throw ERR; r = pBin(11); l = ["bin", op, l, r]; continue; }
    r = pBin(p + 1);
    if (op === "&&" || op === "||" || op === "??") { if (hasMix(l, op) || hasMix(r, op)) throw ERR; l = ["log", op, l, r]; }
    else l = ["bin", op, l, r];
  }
}
function pAssign() {
  var l = pBin(1), a, b;
  if (tk[tp] === "?") { tp++; a = pAssign(); if (tk[tp++] !== ":") throw ERR; b = pAssign(); return ["cond", l, a, b]; }
  if (tk[tp] !== undefined && ASG[tk[tp]] === 1) {
    a = tk[tp++];
    if (l[0] !== "id" && l[0] !== "mem" && l[0] !== "par") throw ERR;
    l = target(l); b = pAssign(); return ["asg", a, l, b];
  }
  return l;
}
function pComma() { var e = pAssign(); while (tk[tp] === ",") { tp++; e = ["com", e, pAssign()]; } return e; }
function parseExpr(s) { tk = tokens(s); tp = 0; var e = pComma(); if (tp !== tk.length) throw ERR; return e; }
function bin(op, a, b) {
  switch (op) {
    case "|": return a | b; case "^": return a ^ b; case "&": return a & b; case "==": return a == b; case "!=": return a != b; case "===": return a === b; case "!==": return a !== b;
    case "<": return a < b; case ">": return a > b; case "<=": return a <= b; case ">=": return a >= b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
    case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return Math.pow(a, b);
  }
  throw new TypeError("op");
}
var SHORT = {};
function run(e, env) {
  var a, b, op;
  switch (e[0]) {
    case "num": return e[1];
    case "id": return env.get(e[1]);
    case "par": return run(e[1], env);
    case "com": run(e[1], env); return run(e[2], env);
    case "cond": return run(e[1], env) ? run(e[2], env) : run(e[3], env);
    case "log": a = run(e[2], env); if (e[1] === "&&" ? !a : e[1] === "||" ? a : a !== undefined && a !== null) return a; return run(e[3], env);
    case "bin": a = run(e[2], env); b = run(e[3], env); return bin(e[1], a, b);
    case "un": a = run(e[2], env); return e[1] === "+" ? +a : e[1] === "-" ? -a : e[1] === "!" ? !a : e[1] === "~" ? ~a : e[1] === "void" ? void a : typeof a;
    case "chain": a = memr(e[1], env); return a === SHORT ? undefined : a;
    case "mem": return memr(e, env);
    case "pre": case "post": a = e[2][0] === "id" ? +env.get(e[2][1]) : (b = run(e[2][1], env), +b[e[2][2]]); op = e[1] === "++" ? a + 1 : a - 1; if (e[2][0] === "id") env.set(e[2][1], op); return e[0] === "pre" ? op : a;
    case "asg":
      op = e[1];
      if (e[2][0] === "mem") { b = run(e[2][1], env); if (op !== "=") { a = b[e[2][2]]; if (op === "&&=" ? !a : op === "||=" ? a : op === "??=" ? a !== undefined && a !== null : false) return a; } b = run(e[3], env); return op === "=" || op === "&&=" || op === "||=" || op === "??=" ? b : bin(op.slice(0, -1), a, b); }
      if (op === "=") { a = run(e[3], env); env.set(e[2][1], a); return a; }
      a = env.get(e[2][1]);
      if (op === "&&=" || op === "||=" || op === "??=") { if (op === "&&=" ? !a : op === "||=" ? a : a !== undefined && a !== null) return a; b = run(e[3], env); }
      else b = bin(op.slice(0, -1), a, run(e[3], env));
      env.set(e[2][1], b); return b;
  }
  throw new TypeError(e[0]);
}
function memr(e, env) {
  var b = e[1][0] === "mem" ? memr(e[1], env) : run(e[1], env);
  if (b === SHORT) return b;
  if (e[3] && (b === undefined || b === null)) return SHORT;
  return b[e[2]];
}
var VALS = [[7, 2, 3, 5], [0, null, 1, "4"], [-2, 9, undefined, 6]];
function mkEnv(v) {
  var m = { a: v[0], b: v[1], c: v[2], d: v[3] }, log = [];
  return { log: log, get: function (n) { if (!(n in m)) throw new ReferenceError(n); log.push(n); return m[n]; }, set: function (n, x) { if (!(n in m)) throw new TypeError(n); log.push(n + "=" + String(x)); m[n] = x; } };
}
function withEnv(env) {
  var o = {};
  ["a", "b", "c", "d"].forEach(function (n) { Object.defineProperty(o, n, { get: function () { return env.get(n); }, set: function (x) { env.set(n, x); }, configurable: true }); });
  o[Symbol.unscopables] = undefined;
  return o;
}
function exprTest(s, v, msg) {
  var ast = null, want, got, ewant, egot, f = null, e1, e2;
  try { ast = parseExpr(s); } catch (e) { if (e !== ERR) throw e; }
  try { f = Function("__o", "with(__o)return " + s); } catch (e) { if (e.name !== "SyntaxError") throw e; }
  eq(f !== null, ast !== null, msg + ": accepted " + s);
  if (!ast || !f) return;
  ewant = mkEnv(v); egot = mkEnv(v);
  try { want = run(ast, ewant); } catch (e) { e1 = e; want = "threw " + e.name; }
  try { got = f(withEnv(egot)); } catch (e) { got = "threw " + e.name; }
  eq(got, want, msg + ": value"); eq(egot.log.join(), ewant.log.join(), msg + ": evaluation order");
}
var OPS = ["||", "??", "&&", "|", "^", "&", "==", "!==", "<", ">=", "<<", ">>>", "+", "-", "*", "%", "**", ",", "=", "+=", "**=", "||=", "??=", "&&=", "/"];
function opOf(n) { return OPS[conc(symInt(n, 0, OPS.length - 1))]; }
scenario("two_operators", function () { exprTest("a" + opOf("p") + "b" + opOf("q") + "c", VALS[conc(symInt("v", 0, 2))], "a op b op c"); }, 2);
scenario("three_operators", function () {
  var L = ["||", "??", "&&", "|", "^", "&", "==", "<", "<<", "+", "*", "**", ",", "=", "&&="];
  exprTest("a" + L[conc(symInt("p", 0, 14))] + "b" + L[conc(symInt("q", 0, 14))] + "c" + L[conc(symInt("r", 0, 14))] + "d", VALS[0], "three operators");
}, 2);
scenario("conditional", function () { var k = conc(symInt("k", 0, 3)); exprTest(["a?b@c:d", "a@b?c:d", "a?b:c@d", "a?b:c?d:a@b"][k].split("@").join(opOf("p")), VALS[conc(symInt("v", 0, 2))], "conditional " + k); });
scenario("unary", function () {
  var U = ["+", "-", "!", "~", "typeof ", "void ", "++", "--", ""], P = ["", "++", "--", ".x", "?.x"], u = U[conc(symInt("u", 0, 8))], w = U[conc(symInt("w", 0, 8))], p = P[conc(symInt("p", 0, 4))], q = P[conc(symInt("q", 0, 4))];
  exprTest(u + " " + w + "b" + p + q, VALS[0], "unary");
});
scenario("unary_binary", function () {
  var U = ["+", "-", "!", "~", "typeof ", "void ", "++", "--", ""], P = ["", "++", "--"], u = U[conc(symInt("u", 0, 8))], w = U[conc(symInt("w", DEEP ? 0 : 4, 8))], p = P[conc(symInt("p", 0, 2))];
  exprTest(u + "a" + p + " " + opOf("o") + " " + w + "b", VALS[conc(symInt("v", 0, 1))], "unary and binary");
}, 2);
scenario("parentheses", function () {
  var p = opOf("p"), q = opOf("q"), k = conc(symInt("k", 0, 4));
  exprTest(["(a@b)#c", "a@(b#c)", "(a)@(b)#c", "-(a@b)#c", "(a,b)@c#d"][k].replace("@", p).replace("#", q), VALS[0], "parentheses " + k);
});
scenario("longest_match", function () {
  var s = symStr("s", 3, "++--**<<>>==!!&&||??..  "), t = "a" + s + "b"; assume(t.indexOf("=>") < 0);
  exprTest(t, VALS[0], "operator characters");
}, 3);
scenario("operator_chars", function () { var s = symStr("s", 2, "++--<<>>==!!&&||??..~~^^%%::,,()11bb"), t = "a" + s + symStr("t", 1, "++--<<==!!&&??..::()11bb") + "c"; assume(t.indexOf("=>") < 0 && t.indexOf("()") < 0 && !/[a-z]\(/.test(t) && !/[1)] *\(/.test(t) && !/1\.|\.1|[a-z0-9][a-z0-9]/.test(t)); exprTest(t, VALS[0], "expression characters"); }, 2);
/* ---- automatic semicolons: tokens over lines ---- */
var ASI = [ /* [program with @ at an optional line terminator, results without and with] */
  ["var x=1@;x", "1", "1"], ["var x=1,y=2;x@y", "S", "2"], ["var x=1,y=2;x@++y", "S", "3"], ["var x=1,y=2;x@++@y;x", "S", null], ["var x=1;x++@x", "S", "2"], ["1@+2", "3", "3"], ["var f=function(z){return z};f@(3)", "3", "3"], ["var a=[1,2];a@[1]", "2", "2"],
  ["(function(){return@1})()", "S1", "u"], ["(function(){return 1@})()", "1", "1"], ["l:for(var i=0;i<2;i++){for(var j=0;j<2;j++){continue@l}break};i", "2", "0"], ["do;while(0)@1", "1", "1"], ["do;while(0) 1@", "1", "1"], ["if(0)1@else 2", "S", "2"], ["{1@}2", "2", "2"], ["try{throw@1}catch(e){}2", "2", "S"],
  ["var y=0;y=>@1;2", "2", "2"], ["var z=(y@)=>1;2", "2", "2"], ["var z=y@=>1;2", "2", "S"], ["var z=(y)@=>1;2", "2", "S"], ["var async=5;async@function f(){};typeof f", "K", "function"], ["for(var i=0@;i<1;i++);i", "1", "1"], ["for(var i=0;i<1@i++);i", "S", "S"], ["for(var i=0;i<1;i++)@i", "0", "0"],
  ["var let1=1@var k=2;k", "S", "2"], ["`a`@+`b`", "ab", "ab"], ["var a=1,b=2;a@?b:3", "2", "2"], ["var o={x:1};o@.x", "1", "1"], ["var o={x:1};o@?.x", "1", "1"], ["typeof@1", "number", "number"], ["var i=1;i@++@;i", null, "S"], ["var v=1@/1/1;v", "1", "1"], ["class A{x@y};Object.keys(new A).join()", "S", "x,y"], ["class A{x=1@y=2};Object.keys(new A).join()", "S", "x,y"], ["class A{get@x(){}};Object.keys(new A).join()", "G", "G"], ["class A{static@x};A.hasOwnProperty('x')", "true", "true"], ["class A{async@x(){}};Object.keys(new A).join()", "G", "async"], ["class A{x@['y']};Object.keys(new A).join()", "S", "T"], ["class A{x@*y(){}};1", "S", "1"], ["class A{x=1@*y(){}};1", "S", "S"],
  ["debugger@1", "S", "1"], ["var x@1", "S", "1"], ["let x@1", "S", "1"], ["break@1", "S", "S"], ["while(1){break@}1", "1", "1"], ["throw@2", "t2", "S"], ["(function*(){yield@1})().next().value", "1", "u"], ["(function*(){yield@*[1]})().next().value", "1", "S"], ["(function(a){return a@})(4)", "4", "4"], ["var a=1;a@=2;a", "2", "2"], ["var a=1;a@+=2;a", "3", "3"], ["delete@1", "true", "true"], ["var a=[1]@,b=3;b", "3", "3"], ["import@('x');1", "1", "1"], ["new@Array(2).length", "T", "T"], ["({get@x(){return 1}}).x", "1", "1"], ["({async@x(){}})", "o", "S"], ["(async@x=>1)", "f", "S"], ["(async(x)@=>1)", "f", "S"], ["(async@(x)=>1)", "f", "S"], ["var o={a@:1};o.a", "1", "1"], ["switch(1){case 1:5@case 2:}", "S", "5"], ["let@x=1;x", "1", "1"], ["if(1)@2", "2", "2"], ["'use strict'@1", "S", "1"], ["l:@1", "1", "1"], ["var await@1", "S", "1"]];
scenario("line_terminators", function () {
  var p = ASI[conc(symInt("p", 0, ASI.length - 1))], c = symStr("c", 1, "\n\n\r\r\u2028\u2029  \t\t"), nl = c !== " " && c !== "\t", form = conc(symInt("form", 0, 2)), sep = form === 0 ? c : form === 1 ? "/*" + c + "*/" : nl ? "//x" + c : " " + c, r, w = p[nl ? 2 : 1];
  assume(w !== null && w !== "T" && w !== "K" && w !== "G" && w !== "S1" && w !== "o" && w !== "f");
  try { r = String((0, eval)(p[0].split("@").join(sep))); if (r === "undefined") r = "u"; } catch (e) { r = e && e.name === "SyntaxError" ? "S" : e && e.name ? e.name : "t" + e; }
  eq(r, w, (nl ? "line terminator" : "space") + " in " + p[0]);
}, 2);
/* ---- which names may be used how, in every kind of code ---- */
var WORDS = ["x", "break", "case", "catch", "class", "const", "debugger", "default", "delete", "else", "enum", "export", "extends", "false", "finally", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
  "implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "await", "eval", "arguments", "async", "of", "get", "set", "as", "from", "target", "undefined", "NaN", "constructor", "prototype"];
var STRICTW = { implements: 1, interface: 1, let: 1, package: 1, private: 1, protected: 1, public: 1, static: 1, yield: 1 }, FREEW = { x: 1, eval: 1, arguments: 1, async: 1, of: 1, get: 1, set: 1, as: 1, from: 1, target: 1, undefined: 1, NaN: 1, constructor: 1, prototype: 1, await: 1 };
var NCTX = [["@", ""], ["'use strict';@", "s"], ["function*g(){@}", "y"], ["async function g(){@}", "a"], ["async function*g(){@}", "ya"], ["class Z{m(){@}}", "s"], ["class Z{static{@}}", "sar"], ["class Z{f=()=>{@}}", "sr"], ["var z=async()=>{@}", "a"], ["class Z{*m(){@}}", "sy"], ["function*g(){var z=()=>{@}}", ""], ["function*g(){function h(){@}}", ""], ["async function g(){function h(){@}}", ""], ["class Z{static{function h(){@}}}", "s"], ["class Z{static{var z=()=>{@}}}", "sr"], ["async function g(){var z=()=>{@}}", ""]];
var NUSE = [["var #", "b"], ["let #", "l"], ["const #=1", "l"], ["function #(){}", "b"], ["function*#(){}", "b"], ["async function #(){}", "b"], ["(function #(){})", "f"], ["(function*#(){})", "fy"], ["(async function #(){})", "fa"], ["class #{}", "s"], ["(class #{})", "s"], ["function q(#){}", "p"], ["function*q(#){}", "py"], ["async function q(#){}", "pa"], ["(#)=>1", "w"], ["#=>1", "w"], ["async #=>1", "wa"], ["({m(#){}})", "p"], ["try{}catch(#){}", "b"], ["#:;", "L"], ["1+#", "r"], ["1,#=1", "t"], ["1,#++", "t"], ["1,--#", "t"], ["({#})", "r"], ["({#}={})", "t"], ["({#=1}={})", "t"], ["({k:#}={})", "t"], ["[...#]=[]", "t"], ["var {#}={}", "b"], ["let {k:#}={}", "l"], ["var [#]=[]", "b"], ["(function(...#){})", "p"], ["({#:1})", "n"], ["q.#", "n"], ["class Y{#(){}}", "n"], ["for(var # of []);", "b"], ["for(let # in {});", "l"], ["1,typeof #", "r"], ["(q=#)=>1", "d"], ["class Y extends #{}", "h"]];
function nameAllowed(w, use, ctx) {
  var s = ctx.indexOf("s") >= 0, y = ctx.indexOf("y") >= 0, a = ctx.indexOf("a") >= 0, r = ctx.indexOf("r") >= 0, k = use[0];
  if (k === "n") return true;
  if (FREEW[w] !== 1 && STRICTW[w] !== 1) return undefined; /* a reserved word: never an identifier */
  if (k === "f") { y = use[1] === "y"; a = use[1] === "a"; r = false; }
  if (k === "p") { y = use[1] === "y"; a = use[1] === "a"; r = false; }
  if (k === "w" && use[1] === "a") a = true;
  if (k === "s" || k === "h") s = true;
  if (w === "await") return !a;
  if (w === "yield") return !y && !s;
  if (STRICTW[w] === 1) return !s && !(w === "let" && k === "l");
  if (w === "eval" || w === "arguments") {
    if (w === "arguments" && r && (k === "r" || k === "t" || k === "d" || k === "h")) return false;
    return !s || k === "r" || k === "L" || k === "d" || k === "h";
  }
  return true;
}
scenario("names", function () {
  var w = WORDS[conc(symInt("w", 0, WORDS.length - 1))], u = NUSE[conc(symInt("u", 0, NUSE.length - 1))], c = NCTX[conc(symInt("c", 0, DEEP ? NCTX.length - 1 : 6))], want = nameAllowed(w, u[1], c[1]), src;
  if (want === undefined) { /* words that start an expression of their own */
    assume(!((u[1] === "r" || u[1] === "d" || u[1] === "h") && u[0] !== "({#})" && (w === "this" || w === "null" || w === "true" || w === "false" || w === "new" || w === "function" || w === "class")));
    assume(!(u[0] === "#:;" && w === "default")); want = false;
  }
  /* forms with a meaning of their own */
  assume(!(w === "yield" && (c[1].indexOf("y") >= 0) && "rtdhw".indexOf(u[1][0]) >= 0));
  assume(!(w === "async" && u[0] === "async #=>1")); assume(!(w === "let" && u[0].slice(0, 4) === "for("));
  assume(!(w === "arguments" && u[1] === "L" && c[1].indexOf("r") >= 0));
  eq(parseOnly(c[0].replace("@", u[0].replace("#", w))), want, "'" + w + "' as in " + u[0] + " inside " + c[0]);
}, 3);
/* ---- assignment targets and patterns ---- */
var TGT = [ /* text, class: s simple, i identifier, p pattern, x nothing; strict-only errors */
  ["a", "i"], ["a.b", "s"], ["a[b]", "s"], ["f().x", "s"], ["(a)", "P"], ["((a))", "P"], ["(a.b)", "S"], ["(a,b)", "x"], ["[a]", "p"], ["([a])", "x"], ["{a}", "p"], ["({a})", "x"], ["this", "x"], ["a?.b", "x"], ["(a?.b)", "x"], ["eval", "e"], ["1", "x"], ["'s'", "x"], ["null", "x"], ["`t`", "x"], ["a+b", "x"], ["-a", "x"], ["a++", "x"], ["a?b:c", "x"], ["(()=>1)", "x"], ["new a", "x"], ["new a().b", "s"], ["a`t`", "x"],
  ["[a,b]", "p"], ["[a.b]", "q"], ["[...a]", "p"], ["[...a,b]", "x"], ["[...a,]", "x"], ["[...[a]]", "p"], ["[a=1]", "p"], ["[(a)]", "q"], ["[([a])]", "x"], ["[a+b]", "x"], ["[,]", "p"], ["[]", "p"], ["{}", "p"], ["{a:b}", "p"], ["{a:b.c}", "q"], ["{a:[b]}", "p"], ["{a:{b}}", "p"], ["{a=1}", "p"], ["{a:b=1}", "p"], ["{...a}", "p"], ["{...a,b}", "x"], ["{...a,}", "x"], ["{...[a]}", "x"], ["{...{a}}", "x"], ["{...a.b}", "q"], ["{[k]:b}", "p"], ["{get a(){}}", "x"], ["{a(){}}", "x"], ["{'a':b}", "p"], ["{'a'}", "x"], ["{a:1}", "x"], ["{eval}", "E"], ["{a:eval}", "E"], ["[eval]", "E"], ["{eval=1}", "E"], ["{this}", "x"], ["[this]", "x"], ["[a?.b]", "x"], ["{a:[b.c]=1}", "q"], ["[[a]=1,...{b}]", "p"], ["{a:{b:(c)}}", "q"]];
var TUSE = [["(@) = 1", "s"], ["0,@ = 1", "a"], ["0,@ += 1", "s"], ["0,@ &&= 1", "s"], ["0,@++", "u"], ["--@", "u"], ["[@] = 1", "a"], ["[@ = 1] = 1", "n"], ["[...@] = 1", "a"], ["({k:@} = 1)", "a"], ["({k:@ = 1} = 1)", "n"], ["({...@} = 1)", "s"], ["for([@] of []);", "a"], ["for(({k:@}) in []);", "X"], ["(@) => 1", "b"], ["([@]) => 1", "b"], ["(...@) => 1", "b"], ["({k:@}) => 1", "b"], ["(q, @ = 1) => 1", "n2"], ["async (@) => 1", "b"], ["function g(@){}", "b"], ["function g(q, @ = 1){}", "b"], ["var @ = 1", "b"], ["let @ = 1", "b"], ["const @ = 1", "b"], ["var [@] = 1", "b"], ["let {k:@} = 1", "b"], ["const [...@] = 1", "b"], ["try{}catch(@){}", "b"], ["for(var @ of []);", "b"], ["for(const @ in {});", "b"], ["for(let @ = 1;;);", "b"]];
scenario("targets", function () {
  var t = TGT[conc(symInt("t", 0, TGT.length - 1))], u = TUSE[conc(symInt("u", 0, TUSE.length - 1))], strict = symBool("strict"), c = t[1], k = u[1], ok;
  if (k === "X") ok = false;
  else if (k === "s") ok = c === "i" || c === "s" || c === "P" || c === "S" || (c === "e" && !strict);
  else if (k === "u") ok = c === "i" || c === "s" || c === "P" || c === "S" || (c === "e" && !strict);
  else if (k === "a" || k === "n") ok = c === "i" || c === "s" || c === "P" || c === "S" || c === "p" || c === "q" || ((c === "e" || c === "E") && !strict);
  else ok = c === "i" || c === "p" || ((c === "e" || c === "E") && !strict);
  /* prefix and other forms that read the text differently */
  assume(!(k === "u" && (t[0] === "-a" || t[0] === "a+b" || t[0] === "a?b:c" || t[0] === "a++") || (k === "s" && u[0][0] !== "(" && t[0] === "a?b:c") || (t[0] === "a?b:c" && (k === "a" || k === "n"))));
  assume(!(k === "n2" && (c === "P" || c === "q"))); /* parentheses are not tracked through a converted initializer */
  assume(!(k === "b" && /^(let|const|var|for|try|func)/.test(u[0]) && (t[0][0] === "(")));
  eq(parseOnly("f=function(){" + u[0].replace("@", t[0]) + "}", strict), ok, "target " + t[0] + " in " + u[0] + (strict ? " strict" : ""));
}, 2);

/* ---- jumps and labels: any nesting of statements and functions ---- */
var JN = [["x:{", "}", "L"], ["for(;0;){", "}", "I"], ["x:while(0){", "}", "LI"], ["switch(0){case 0:", "}", "S"], ["x:switch(0){default:", "}", "LS"], ["(function(){", "})()", "F"], ["(()=>{", "})()", "F"], ["y:do{", "}while(0)", "MI"], ["y:x:for(q of []){", "}", "LMI"], ["class Z{static{", "}}", "F"], ["y:{", "}", "M"], ["if(0){", "}", ""], ["x:y:", ";", "LM1"]];
var JS = [["break", function (l) { return /[IS]/.test(l); }], ["continue", function (l) { return /I/.test(l); }], ["break x", function (l) { return /L/.test(l); }], ["continue x", function (l) { return /L[MI]*I/.test(l); }], ["break y", function (l) { return /M/.test(l); }], ["continue y", function (l) { return /M[LI]*I/.test(l); }], ["x:0", null], ["y:0", null], ["return", null]];
scenario("jumps", function () {
  var n = conc(symInt("n", 1, DEEP ? 3 : 2)), pre = "", post = "", i, k, st = [], act = [], ok = true, j = conc(symInt("j", 0, 8)), fn = false;
  for (i = 0; i < n; i++) {
    k = JN[conc(symInt("k" + i, 0, JN.length - 1))];
    if (act.length && k[2] !== "") ;
    pre += k[0]; post = k[1] + post;
    if (k[2] === "F") { act = []; fn = k[0][0] === "(" ; if (k[0][0] === "c") fn = false; continue; }
    if (k[2].indexOf("L") >= 0 && act.some(function (z) { return z.indexOf("L") >= 0; })) ok = false;
    if (k[2].indexOf("M") >= 0 && act.some(function (z) { return z.indexOf("M") >= 0; })) ok = false;
    act.push(k[2]);
    assume(k[2] !== "LM1" || i === n - 1);
  }
  if (k[2] === "LM1") { k = "LM"; }
  if (j === 8) ok = ok && fn;
  else if (j === 6 || j === 7) ok = ok && !act.some(function (z) { return z.indexOf(j === 6 ? "L" : "M") >= 0; });
  else ok = ok && act.some(function (z) { return JS[j][1](z); });
  eq(parseOnly("var q;" + pre + JS[j][0] + post), ok, JS[j][0] + " in " + pre);
}, 2);
/* ---- what may appear in which function: new.target, super, yield, await, return, arguments ---- */
var FN = [ /* open, close, kind: n ordinary, a arrow, m method, c derived constructor, b base constructor, i field initializer, s static block, flags g generator, w async, p parameters */
  ["(function(){", "})", "n"], ["(()=>{", "})", "a"], ["(async()=>{", "})", "aw"], ["(function*(){", "})", "ng"], ["(async function(){", "})", "nw"], ["({m(){", "}})", "m"], ["({*m(){", "}})", "mg"], ["({get m(){", "}})", "m"], ["(class extends Object{constructor(){", "}})", "c"], ["(class{constructor(){", "}})", "m"], ["(class extends Object{m(){", "}})", "m"], ["(class{x=(", ")})", "i"], ["(class{static{(", ")}})", "s"], ["(class{static async*m(){", "}})", "mgw"], ["(function(p=(", ")){})", "n"], ["((p=(", "))=>0)", "ap"], ["({m(p=(", ")){}})", "m"], ["(function*(p=(", ")){})", "nG"], ["(class{[(", ")](){}})", ""], ["(class extends(", "){})", ""], ["({[(", ")](){}})", ""], ["({m:(", ")})", ""]];
var THING = ["new.target", "super.x", "super()", "yield 1", "await 1", "arguments", "this", "import.meta", "new super.x", "super", "super?.x", "new super()", "super`t`"];
scenario("placement", function () {
  var n = conc(symInt("n", 1, DEEP ? 3 : 2)), pre = "", post = "", i, f, t = conc(symInt("t", 0, THING.length - 1)), nt = false, sp = false, sc = false, gen = false, asy = false, ar = true, strict = false, exprCtx = false, ok, w = THING[t], params = false, blk = false;
  for (i = 0; i < n; i++) {
    f = FN[conc(symInt("f" + i, 0, FN.length - 1))];
    pre += f[0]; post = f[1] + post; exprCtx = f[0].slice(-1) === "(";
    if (f[0].slice(0, 6) === "(class") strict = true;
    var k = f[2][0];
    if (k === undefined) continue;
    if (k === "n") { nt = true; sp = false; sc = false; ar = true; }
    else if (k === "m") { nt = true; sp = true; sc = false; ar = true; }
    else if (k === "c") { nt = true; sp = true; sc = true; ar = true; }
    else if (k === "i") { nt = true; sp = true; sc = false; ar = false; }
    else if (k === "s") { nt = true; sp = true; sc = false; ar = false; }
    if (k === "a" && f[2].indexOf("p") >= 0) { if (gen || asy) params = true; }
    else { gen = f[2].indexOf("g") >= 0; asy = f[2].indexOf("w") >= 0; params = f[2].indexOf("G") >= 0; }
    if (f[2].indexOf("G") >= 0) gen = false;
    if (k === "s") { blk = true; } else if (k !== "a" || !exprCtx) blk = false;
  }
  switch (t) {
    case 0: ok = nt; break;
    case 1: case 8: ok = sp; break;
    case 2: ok = sc; break;
    case 3: ok = gen && !params; break;
    case 4: ok = asy && !params; break;
    case 5: ok = ar; break;
    case 6: ok = true; break;
    case 12: ok = false; break;
    default: ok = false;
  }
  eq(parseOnly(pre + w + post), ok, w + " in " + pre);
}, 2);
/* ---- redeclarations in one scope, nested scopes and around functions ---- */
var DK = [["var a", "v"], ["let a", "l"], ["const a=1", "l"], ["class a{}", "l"], ["function a(){}", "f"], ["function*a(){}", "g"], ["async function a(){}", "g"], ["for(var a;0;);", "v"], ["for(let a;0;);", ""], ["for(var a of []);", "v"], ["{var a}", "v"], ["{let a}", ""], ["{{var {a}={}}}", "v"], ["try{}catch(a){}", ""], ["var [a]=[]", "v"], ["let {b:a}={}", "l"], ["if(0){var a}", "v"], ["switch(0){case 0:var a}", "v"], ["switch(0){case 0:let a}", ""], ["(function a(){})", ""], ["(class a{})", ""], ["a:0", ""], ["(function b(a){var a})", ""], ["var f=(a)=>{var a}", ""], ["(function b(a){function a(){}})", ""], ["(a=>0)", ""]];
var DCTX = [["@;#", "top"], ["{@;#}", "block"], ["switch(0){case 0:@;default:#}", "block"], ["(function(){@;#})", "top"], ["(()=>{@;#})", "top"], ["class Z{static{@;#}}", "top"], ["(function(){{@;#}})", "block"], ["for(;0;){@;#}", "block"], ["@;{#}", "outer"], ["{@;{#}}", "outerblock"], ["(function(a){@})", "param"], ["(a=>{@})", "param"], ["({m(a=1){@}})", "param"], ["try{}catch({a}){@}", "catch"], ["for(let a;0;){@}", "for"], ["for(const a of []){@}", "for"], ["@;(function(){#})", "fn"], ["@;(a=>{})", "fn"]];
scenario("redeclarations", function () {
  var p = DK[conc(symInt("p", 0, DK.length - 1))], q = DK[conc(symInt("q", 0, DK.length - 1))], c = DCTX[conc(symInt("c", 0, DEEP ? DCTX.length - 1 : 8))], strict = symBool("strict"), a = p[1], b = q[1], ok, one = c[0].indexOf("#") < 0;
  assume(!one || q === DK[0]);
  function same(x, y, top) { /* two declarations in one scope */
    var i; if (x === "" || y === "") return true;
    var lx = x === "l" || (!top && x !== "v"), ly = y === "l" || (!top && y !== "v");
    return !lx && !ly;
  }
  switch (c[1]) {
    case "top": ok = same(a, b, true); break;
    case "block": ok = same(a, b, false); assume(!(a === "f" && b === "f" && !strict && c[0].indexOf("class") < 0)); break; /* Annex B duplicates */
    case "outer": ok = b === "v" ? same(a, "v", true) : true; break;
    case "outerblock": ok = b === "v" ? same(a, "v", false) : true; break;
    case "param": ok = a !== "l"; break;
    case "catch": ok = a === ""; break;
    case "for": ok = a !== "v"; break;
    case "fn": ok = true; break;
  }
  eq(parseOnly(c[0].replace("@", p[0]).replace("#", q[0]), strict), ok, p[0] + " and " + q[0] + " in " + c[0]);
}, 2);
scenario("parameters", function () {
  var L = ["a,a", "a,{a}", "[a,a]", "a=1,a", "...[a,a]", "a,...a", "{x:a,y:a}", "a,b", "[a],b", "a,eval", "a,arguments", "{a},b=a", "a,", "...a,", ",", "a,,b", "...a=1", "a b", "(a)", "a.b", "1", ""], S = [2, 0, 0, 0, 0, 0, 0, 1, 3, 2, 2, 3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1];
  var F = [["(function(@){#})", 0], ["(function*(@){#})", 0], ["(async function(@){#})", 0], ["((@)=>{#})", 1], ["(async(@)=>{#})", 1], ["({m(@){#}})", 1], ["(class{m(@){#}})", 2], ["(class{constructor(@){#}})", 2], ["function f(@){#}", 0]], B = ["", "'use strict'", "0;'use strict'", "'use\\x20strict'", "('use strict')", "\"use strict\";", "'a';'use strict'", "function z(){'use strict'}"], BS = [0, 1, 0, 0, 0, 1, 1, 0];
  var l = conc(symInt("l", 0, L.length - 1)), f = F[conc(symInt("f", 0, F.length - 1))], b = conc(symInt("b", 0, B.length - 1)), outer = symBool("outer"), s = S[l], strict = outer || f[1] === 2 || BS[b] === 1, ok;
  /* 1 simple and distinct, 2 simple, allowed in sloppy ordinary functions, 3 not simple, 0 never (for arrows and methods duplicates never) */
  if (s === 0) ok = false; else if (s === 1) ok = true; else if (s === 3) ok = true; else ok = !strict && !(L[l] === "a,a" && f[1] !== 0);
  if (BS[b] === 1 && s !== 1 && s !== 2) ok = false;
  eq(parseOnly(f[0].replace("@", L[l]).replace("#", B[b]), outer), ok, "parameters (" + L[l] + ") of " + f[0] + " with body " + B[b]);
}, 2);
var SE = [["with({});", 0], ["010", 0], ["08", 0], ["'\\1'", 0], ["'\\08'", 0], ["'\\0'", 1], ["'\\8'", 0], ["delete a", 0], ["delete (a)", 0], ["delete ((a))", 0], ["delete a.b", 1], ["delete 1", 1], ["eval=1", 0], ["arguments++", 0], ["eval", 1], ["({set x(eval){}})", 0], ["function eval(){}", 0], ["(function arguments(){})", 0], ["({eval:1})", 1], ["var yield", 0], ["let:0", 0], ["var static", 0], ["a.static", 1], ["`${010}`", 0], ["function f(a,a){}", 0], ["if(0);else with({});", 0], ["(()=>{with({});})", 0], ["class A{m(){with({});}}", 3], ["class A{x=010}", 3], ["class A extends(delete a){}", 3], ["try{}catch(eval){}", 0], ["implements=>1", 0], ["x=>010", 0], ["undefined=1", 1], ["NaN++", 1], ["this.a", 1], ["for(eval of []);", 0], ["[arguments]=[]", 0], ["({eval}={})", 0], ["({x:eval=1}={})", 0], ["new eval", 1], ["'\\x01'", 1], ["delete this", 1], ["delete a[0]", 1], ["delete (a,b)", 1], ["delete a?.b", 1], ["delete ()=>1", 2]];
scenario("strict_code", function () {
  var e = SE[conc(symInt("e", 0, SE.length - 1))], W = [["@", 0], ["'use strict';@", 1], ["function f(){'use strict';@}", 1], ["function f(){@}'use strict'", 0], ["(function(){'use strict'});@", 0], ["(()=>{'use strict';@})", 1], ["class A{static{@}}", 1], ["class A{m(){(()=>{@})}}", 1], ["({m(){'use strict';@}})", 1], ["('use strict');@", 0], ["'use strict'+1;@", 0], ["'use strict'.x;@", 0], ["'use strict',1;@", 0], ["'a';'use strict';@", 1], ["'use strict'\n@", 5], ["`use strict`;@", 0], ["'\\x75se strict';@", 0], ["{'use strict';@}", 0], ["function f(){'\\01';'use strict'}@", 4], ["'use strict';(function(){@})", 1], ["if(1){'use strict';@}", 0], ["(async()=>{'use strict';await 1;@})", 1], ["(class extends(function(){@}){})", 1]], w = W[conc(symInt("w", 0, W.length - 1))], ok;
  assume(!(w[1] === 5 && (e[0][0] === "[" || e[0][0] === "(" || e[0][0] === "`")));
  if (e[1] === 2 || e[1] === 3 || w[1] === 4) ok = false; else ok = e[1] === 1 || w[1] === 0;
  eq(parseOnly(w[0].replace("@", e[0])), ok, e[0] + " in " + w[0]);
}, 2);
var CE = [["m(){}m(){}", 1], ["constructor(){}constructor(){}", 0], ["constructor(){}'constructor'(){}", 0], ["constructor(){}['constructor'](){}", 1], ["get constructor(){}", 0], ["*constructor(){}", 0], ["async constructor(){}", 0], ["static constructor(){}static constructor(){}", 1], ["static get constructor(){}", 1], ["constructor=1", 0], ["'constructor'", 0], ["['constructor']=1", 1], ["static constructor=1", 0], ["static prototype(){}", 0], ["static prototype=1", 0], ["static get prototype(){}", 0], ["static 'prototype'(){}", 0], ["static ['prototype'](){}", 1], ["prototype(){}", 1], ["prototype=1", 1], ["#a;#a", 0], ["#a;get #a(){}", 0], ["get #a(){}set #a(v){}", 1], ["get #a(){}get #a(){}", 0], ["get #a(){}static set #a(v){}", 0], ["static get #a(){}static set #a(v){}", 1], ["#a(){}#a(){}", 0], ["#constructor", 0], ["#constructor(){}", 0], ["m(){this.#a}#a", 1], ["m(){this.#b}#a", 0], ["m(){#a in this}#a", 1], ["m(){#b in this}#a", 0], ["m(){delete this.#a}#a", 0], ["m(){delete this?.#a}#a", 0], ["m(){delete this.#a.b}#a", 1], ["m(){delete (this.#a)}#a", 0], ["m(){class B{n(o){o.#a}}}#a", 1], ["m(){(class{#a}).#b}#a", 0], ["x=this.#a;#a", 1], ["[this.#a];#a", 1], ["get x(a){}", 0], ["set x(){}", 0], ["set x(a,b){}", 0], ["set x(...a){}", 0], ["set x(a=1){}", 1], ["set x({a}){}", 1], ["x=arguments", 0], ["x=()=>arguments", 0], ["x=function(){arguments}", 1], ["static{arguments}", 0], ["static{()=>arguments}", 0], ["static{await}", 0], ["static{return}", 0], ["static{super()}", 0], ["static{super.x}", 1], ["static static(){}", 1], ["static static static", 0], ["get get(){}", 1], ["static async*#a(){}", 1], ["async", 1], ["get;set;static;async;", 1], ["get=1;static=2", 1], ["static=1", 1], ["x,y", 0], ["x y", 0], ["x;;y", 1], ["'a'=1;1=2;[b]=3", 1], ["*#a(){}", 1], ["async #a(){}", 1], ["async get x(){}", 0], ["get *x(){}", 0], ["async *x(){}", 1], ["static async", 1], ["#a=#a in this", 1], ["m(){1+#a in this}#a", 0], ["m(){#a+1}#a", 0], ["m(){(#a)in this}#a", 0], ["m(){#a in #a in this}#a", 0], ["m(){super()}", 2], ["constructor(){super()}", 2], ["constructor(){(()=>super())()}", 2], ["constructor(){function f(){super()}}", 0], ["m(){super.#a}#a", 0], ["m(){this?.#a}#a", 1], ["m(){new this.#a}#a", 1], ["m(){this.#a`x`}#a", 1], ["# a", 0], ["m(){this.# a}#a", 0]];
scenario("class_rules", function () {
  var e = CE[conc(symInt("e", 0, CE.length - 1))], h = conc(symInt("h", 0, 3)), w = e[1] === 2 ? (h & 1) === 1 && e[0][0] === "c" : e[1] === 1;
  eq(parseOnly((h & 2 ? "(class" : "class A") + (h & 1 ? " extends Object" : "") + "{" + e[0] + "}" + (h & 2 ? ")" : "")), w, "class body " + e[0]);
});
var OE = [["__proto__:1,__proto__:2", 0], ["__proto__:1,'__proto__':2", 0], ["__proto__:1,['__proto__']:2", 1], ["__proto__:1,__proto__", 1], ["__proto__:1,__proto__(){}", 1], ["__proto__:1,get __proto__(){}", 1], ["a:1,a:2", 1], ["get a(){},get a(){}", 1], ["get a(b){}", 0], ["set a(){}", 0], ["a(){super.x}", 1], ["a:function(){super.x}", 0], ["a(){super()}", 0], ["a=1", 0], ["...a", 1], ["...a,", 1], ["...", 0], ["a:1,,b:2", 0], [",", 0], ["'a'", 0], ["1", 0], ["[a]", 0], ["1:2", 1], ["[a]:2", 1], ["'a'(){}", 1], ["1(){}", 1], ["1n:1", 1], ["*a(){}", 1], ["async*a(){}", 1], ["async\na(){}", 0], ["get\na(){}", 1], ["async get a(){}", 0], ["get*a(){}", 0], ["*get a(){}", 0], ["if:1", 1], ["if", 0], ["this", 0], ["async", 1], ["get,set,async", 1], ["#a:1", 0], ["a:b:c", 0], ["a b", 0], ["async a", 0], ["get a", 0], ["a:1;b:2", 0], ["a(){},", 1], ["a(b,b){}", 0], ["await:1,yield:2,let:3", 1], ["new.target", 0], ["a.b", 0], ["a(){'use strict'}", 1], ["a(b=1){'use strict'}", 0]];
scenario("object_rules", function () { var e = OE[conc(symInt("e", 0, OE.length - 1))]; eq(parseOnly("0,{" + e[0] + "}"), e[1] === 1, "object literal " + e[0]); });
var ST = [["if(1)let\nx", 2], ["if(1)let x", 0], ["if(1)const x=1", 0], ["if(1)class A{}", 0], ["if(1)function*f(){}", 0], ["if(1)async function f(){}", 0], ["while(0)let x", 0], ["while(0)let[a]=1", 0], ["while(0)function f(){}", 0], ["do function f(){}while(0)", 0], ["for(;0;)let x", 0], ["for(;0;)class A{}", 0], ["a:let x", 0], ["a:class A{}", 0], ["a:const b=1", 0], ["a:function*f(){}", 0], ["a:async function f(){}", 0], ["a:b:c:0", 1], ["a:a:0", 0], ["a:{a:0}", 0], ["a:(function(){a:0})", 1], ["let let", 0], ["let a,a", 0], ["const a", 0], ["const a=1,b", 0], ["let [a]", 0], ["var [a]", 0], ["var {a}", 0], ["let", 1], ["let\na", 1], ["var let", 1], ["for(let in {});", 1], ["for(let of []);", 0], ["for(let of of []);", 1], ["for(let let of []);", 0], ["for(let a,b of []);", 0], ["for(let a=1 of []);", 0], ["for(var a,b in {});", 0], ["for(const a in {});", 1], ["for(const a;0;);", 0], ["for(let [a];0;);", 0], ["for(let a,a;0;);", 0], ["for(let [a,a] of []);", 0], ["for(async of []);", 0], ["for(async of=>1;0;);", 1], ["for((async) of []);", 1], ["for(async.x of []);", 1], ["for(a of b,c);", 0], ["for(a in b,c);", 1], ["for(a of []){let a}", 1], ["for(let a of a){}", 1], ["for(;;", 0], ["for(;0);", 0], ["for(a,b of []);", 0], ["for(a=1 of []);", 0], ["for(var a of []) function f(){}", 0], ["try{}", 0], ["try{}catch{}", 1], ["try{}catch(a,b){}", 0], ["try{}catch([a,a]){}", 0], ["try{}catch(a){let a}", 0], ["try{}catch(a=1){}", 0], ["try;catch{}", 0], ["catch{}", 0], ["finally{}", 0], ["switch(1){default:default:}", 0], ["switch(1){case 1:let a;case 2:let a}", 0], ["switch(1){foo}", 0], ["switch(1){case 1}", 0], ["else;", 0], ["if(1)else;", 0], ["if();", 0], ["if 1;", 0], ["do while(0)", 0], ["do;while(0)a", 1], ["while();", 0], ["throw", 0], ["throw\n1", 0], ["new.target", 0], ["import.meta", 0], ["import(1)", 1], ["import()", 0], ["import(1,2,3)", 0], ["import(...a)", 0], ["new import(1)", 0], ["import a from 'b'", 0], ["export var a", 0], ["return", 0], ["yield 1", 0], ["await 1", 0], ["a?.b=1", 0], ["a?.b++", 0], ["a?.`x`", 0], ["a?.b`x`", 0], ["new a?.b()", 0], ["a??b||c", 0], ["a||b??c", 0], ["(a||b)??c", 1], ["a??b&&c", 0], ["-a**b", 0], ["(-a)**b", 1], ["a**-b", 1], ["a** -b**c", 0], ["++a**b", 1], ["a++ ++", 0], ["++a++", 0], ["++ ++a", 0], ["- -a", 1], ["--a--", 0], ["()", 0], ["(a,)", 0], ["(...a)", 0], ["()=>1", 1], ["(a,)=>1", 1], ["(...a,)=>1", 0], ["(a\n)=>1", 1], ["(a)\n=>1", 0], ["a\n=>1", 0], ["a=>{}()", 0], ["(a=>{})()", 1], ["a=>{}||1", 0], ["1||a=>1", 0], ["1?a=>1:b=>2", 1], ["a=>a=>a", 1], ["async a=>1", 1], ["async\na=>1", 1], ["async(a)\n=>1", 0], ["async()=>await 1", 1], ["async await=>1", 0], ["async(await)=>1", 0], ["async(a=await 1)=>1", 0], ["({a=1})", 0], ["({a=1}=1)", 1], ["({a=1})=>1", 1], ["[{a=1}]", 0], ["[{a=1}]=1", 1], ["f({a=1})", 0], ["({a=1}).b", 0], ["({a=1}).b=1", 0], ["({a:{b=1}})", 0], ["async({a=1})", 0], ["async({a=1})=>1", 1], ["`${{a=1}}`", 0], ["`${}`", 0], ["`${a", 0], ["a`b`.c", 1], ["function(){}", 0], ["class{}", 0], ["class A extends B,C{}", 0], ["class A extends B=>1{}", 0], ["{}=1", 0], ["({}=1)", 1], ["{a:1,b:2}", 0], ["{a:1}", 1], ["var a=1 var b", 0], ["a b", 0], [";;;", 1], ["{", 0], ["}", 0], ["(", 0], [")", 0], ["[", 0], ["]", 0], ["a.", 0], ["a.1", 0], ["a..b", 0], ["1.a", 0], ["1..a", 1], ["a[]", 0], ["a[1,2]", 1], ["f(,)", 0], ["f(a,)", 1], ["f(,a)", 0], ["f(...a,...b,)", 1], ["[...]", 0], ["[,,]", 1], ["new f(...a)", 1], ["delete", 0], ["typeof", 0], ["a instanceof", 0], ["a in", 0], ["in a", 0], ["?a:b", 0], ["a?b", 0], ["a?b:", 0], ["a?:b", 0], ["a:b:", 0], ["debugger", 1], ["with(a,b)c", 1], ["with()c", 0], ["enum A{}", 0], ["super.x", 0], ["#a", 0], ["a.#b", 0], ["@a", 0], ["\\", 0], ["/a", 0], ["/a/gg", 0], ["/(/", 0], ["'a", 0], ["'a\n'", 0], ["/*", 0], ["function f(){", 0], ["function f(}", 0], ["function f{}", 0], ["function(){}()", 0], ["!function(){}()", 1], ["async function(){}", 0], ["function*(){}", 0], ["function* yield(){}", 1], ["async function await(){}", 1], ["(async function await(){})", 0], ["(function* yield(){})", 0], ["async\nfunction f(){}", 1], ["var async\nfunction f(){}", 1], ["export default 1", 0], ["break", 0], ["continue", 0], ["a:continue a", 0], ["a:break a", 1], ["a:while(0){continue a}", 1], ["a:{while(0){continue a}}", 0], ["a:while(0){(()=>{break a})}", 0]];
scenario("statements", function () { var e = ST[conc(symInt("e", 0, ST.length - 1))], k = conc(symInt("k", 0, 1)); assume(e[1] !== 2); eq(parseOnly(k ? "0;" + e[0] : e[0]), e[1] === 1, e[0]); });
