/* P01: lexical grammar: every literal, identifier, comment and separator denotes what the grammar says. */
function hexv(c) { var k = c.charCodeAt(0); return k >= 48 && k <= 57 ? k - 48 : k >= 97 && k <= 102 ? k - 87 : k >= 65 && k <= 70 ? k - 55 : -1; }
function isLT(c) { return c === "\n" || c === "\r" || c === "\u2028" || c === "\u2029"; }
function dig(c) { return c >= "0" && c <= "9"; }
function dig1(c) { return c !== undefined && dig(c); }
/* the value of an escape sequence at s[i] (after the backslash): [text, next index] or null */
function escape1(s, i, strict, templ) {
  var c = s[i], v, n, h;
  if (c === undefined) return null;
  if (c === "n") return ["\n", i + 1];
  if (c === "t") return ["\t", i + 1];
  if (c === "b") return ["\b", i + 1];
  if (c === "v") return ["\v", i + 1];
  if (c === "f") return ["\f", i + 1];
  if (c === "r") return ["\r", i + 1];
  if (c === "\r") return ["", s[i + 1] === "\n" ? i + 2 : i + 1];
  if (isLT(c)) return ["", i + 1];
  if (c === "x") {
    for (v = 0, n = 1; n <= 2; n++) { if (s[i + n] === undefined) return null; h = hexv(s[i + n]); if (h < 0) return null; v = v * 16 + h; }
    return [String.fromCharCode(v), i + 3];
  }
  if (c === "u") {
    if (s[i + 1] === "{") {
      for (v = 0, n = i + 2; s[n] !== undefined && (h = hexv(s[n])) >= 0; n++) { v = v * 16 + h; if (v > 0x10ffff) return null; }
      if (n === i + 2 || s[n] !== "}") return null;
      return [String.fromCodePoint(v), n + 1];
    }
    for (v = 0, n = 1; n <= 4; n++) { if (s[i + n] === undefined) return null; h = hexv(s[i + n]); if (h < 0) return null; v = v * 16 + h; }
    return [String.fromCharCode(v), i + 5];
  }
  if (dig(c)) {
    if (c === "0" && !dig1(s[i + 1])) return ["\0", i + 1];
    if (strict || templ) return null;
    if (c > "7") return [c, i + 1];
    v = +c; n = i + 1;
    if (dig1(s[n]) && s[n] <= "7") { v = v * 8 + +s[n++]; if (c <= "3" && dig1(s[n]) && s[n] <= "7") v = v * 8 + +s[n++]; }
    return [String.fromCharCode(v), n];
  }
  return [c, i + 1];
}
function litValue(s, q, strict) {
  var r = "", i = 0, e;
  while (i < s.length) {
    if (s[i] === "\\") { e = escape1(s, i + 1, strict, false); if (!e) return null; r += e[0]; i = e[1]; }
    else { if (s[i] === q) assume(false); if (s[i] === "\n" || s[i] === "\r") return null; r += s[i++]; }
  }
  return r;
}
function evalOr(src) { try { return (0, eval)(src); } catch (e) { return e.name === "SyntaxError" ? null : "threw " + e.name; } }
function strTest(s, msg) {
  var strict = symBool("strict"), q = symBool("dq") ? '"' : "'", want = litValue(s, q, strict);
  eq(evalOr((strict ? "'use strict';" : "") + "0," + q + s + q), want, msg + (strict ? " strict" : "") + q);
}
scenario("string_escape", function () { strTest("\\" + symStr("s", 3, "00188901aaxxgg\"\"''\\\\\n\n\r\r\u2027\u202a"), "string literal"); }, 2);
scenario("string_escape_char", function () { strTest("\\" + symStr("s", 1, "\0\u00ff\u2027\u202a"), "single escape"); });
scenario("string_hex", function () { strTest("\\x" + symStr("s", 2, "/:@G`g"), "hex escape"); }, 2);
scenario("string_unicode", function () { strTest("\\ud8" + symStr("s", 1, "09afAFgg") + "0" + "\\u" + symStr("t", 1, "ddDD") + symStr("u", 1, "0bcfgg") + "00", "unicode escapes"); });
scenario("string_point", function () { strTest("\\u{" + symStr("s", 4, "0011ffgg}}__") + "0000}"[0] + "}", "code point escape"); });
scenario("string_point_long", function () { strTest("\\u{" + symStr("s", 1, "0122") + symStr("t", 1, "01") + "00000000000" .slice(conc(symInt("n", 0, 11))) + "41}", "long code point"); });
scenario("template_point_long", function () { templTest("\\u{" + symStr("s", 1, "0122") + symStr("t", 1, "01") + "00000000000".slice(conc(symInt("n", 0, 11))) + "41}", "long code point"); });
scenario("string_point_range", function () { strTest("\\u{" + (symBool("z") ? "0" : "") + symStr("s", 2, "0122") + symStr("t", 1, "00ff") + "fff" + symStr("u", 1, "ff}}") + "}", "code point range"); });
scenario("string_plain", function () { strTest(symStr("s", 2, "\t\r  !#`~\u2027\u202a\ud7ff\ud800\udfff\ue000"), "plain characters"); }, 2);
scenario("string_octal", function () { strTest("\\" + symStr("s", 4, "00134478"), "octal escapes"); }, 2);
/* ---- templates: cooked and raw text ---- */
function cook(s) {
  var r = "", raw = "", i = 0, e, j;
  while (i < s.length) {
    if (s[i] === "\\") {
      e = escape1(s, i + 1, false, true);
      if (e) { if (r !== undefined) r += e[0]; j = e[1]; } else { r = undefined; j = i + 2; if (i + 1 >= s.length) assume(false); }
      for (; i < j; i++) if (s[i] === "\r") { raw += "\n"; if (s[i + 1] === "\n" && i + 1 < j) i++; } else raw += s[i];
    } else {
      if (s[i] === "`" || (s[i] === "$" && s[i + 1] === "{")) assume(false);
      if (s[i] === "\r") { if (r !== undefined) r += "\n"; raw += "\n"; i += s[i + 1] === "\n" ? 2 : 1; }
      else { if (r !== undefined) r += s[i]; raw += s[i++]; }
    }
  }
  return [r, raw];
}
function TAG(t) { return t; }
function templTest(s, msg) {
  var w = cook(s), tail = symBool("tail"), t = evalOr("TAG`" + (tail ? "a${0}" : "") + s + (tail ? "" : "${0}b") + "`");
  var u = evalOr("`" + (tail ? "a${0}" : "") + s + (tail ? "" : "${0}b") + "`"), k = tail ? 1 : 0;
  eq(t !== null && typeof t === "object", true, msg + ": parsed"); eq(t.length, 2, msg + ": chunks");
  eq(t[k], w[0], msg + ": cooked"); eq(t.raw[k], w[1], msg + ": raw");
  eq(u, w[0] === undefined ? null : (tail ? "a0" : "") + w[0] + (tail ? "" : "0b"), msg + ": untagged");
}
scenario("template_escape", function () { templTest("\\" + symStr("s", 3, "00118899aaxx``$${{\\\\\n\n\r\r"), "template escape"); }, 2);
scenario("template_char", function () { templTest("\\" + symStr("s", 1, "\0\u00ff\u2027\u202a") + symStr("t", 1, "00aa\n\n"), "template escape"); });
scenario("template_hex", function () { templTest((symBool("u") ? "\\u00" : "\\x") + symStr("s", 2, "/:@G`g"), "template hex"); });
scenario("template_point", function () { templTest("\\u{" + symStr("s", 3, "0011ffgg}}__"), "template code point"); });
scenario("template_plain", function () { templTest(symStr("s", 3, "\t\r  $$``{}\\\\\u2028\u2029\ud800\ud800\udc00\udc00"), "template text"); }, 2);
scenario("template_nesting", function () {
  var k = conc(symInt("k", 0, 5)), a = symStr("a", 1, "!~"), w; assume(a !== "\\" && a !== "`" && a !== "$");
  var src = ["`" + a + "${`" + a + "${1}`}`", "`${{a:2}.a}" + a + "`", "`${(function(){return `}" + a + "`})()}`", "`${'}" + (a === "'" ? "" : a) + "'}`", "`${/[}]/.source}`+'" + (a === "'" ? "" : a) + "'", "`${a=>{}}`.length+`" + a + "`"][k];
  w = [a + a + "1", "2" + a, "}" + a, "}" + (a === "'" ? "" : a), "[}]" + (a === "'" ? "" : a), "5" + a][k];
  eq(evalOr(src), w, "nested template " + k);
});
/* ---- numbers ---- */
function digits(s, i, base, first) { /* digits with single separators between digits: [value, next] or null */
  var v = 0, n = i, h, sep = true, big = 0;
  for (; ;) {
    if (s[n] === "_") { if (sep) return null; sep = true; n++; continue; }
    if (s[n] === undefined) break;
    h = hexv(s[n]); if (h < 0 || h >= base) break;
    v = v * base + h; sep = false; n++;
  }
  if (sep) return null;
  return [v, n];
}
function pow10(k) { var r = 1; while (k-- > 0) r *= 10; return r; }
function numValue(s, strict) { /* value, null (error) or undefined (not decided here) */
  var i = 0, r, base, v, k, t, e, neg, legacy = false, c1 = s[1];
  if (s[0] === "0" && c1 !== undefined && (base = c1 === "x" || c1 === "X" ? 16 : c1 === "o" || c1 === "O" ? 8 : c1 === "b" || c1 === "B" ? 2 : 0)) {
    r = digits(s, 2, base); if (!r) return null;
    if (s[r[1]] === "n" && r[1] === s.length - 1) return BigInt(r[0]);
    if (s[r[1]] === ".") return undefined;
    return r[1] === s.length ? r[0] : null;
  }
  if (s[0] === "0" && dig1(c1)) {
    if (strict) return null;
    for (i = 1; dig1(s[i]); i++) if (s[i] > "7") legacy = true;
    if (!legacy) {
      for (v = 0, k = 1; k < i; k++) v = v * 8 + +s[k];
      if (i === s.length) return v;
      return s[i] === "." ? undefined : null;
    }
    if (s[i] === "_") return null;
    for (v = 0, k = 0; k < i; k++) v = v * 10 + +s[k];
  } else if (s[0] === "0") { v = 0; i = 1; if (s[1] === "_") return null; }
  else if (s[0] === ".") { v = 0; i = 0; if (!dig1(s[1])) return undefined; }
  else { r = digits(s, 0, 10); if (!r) return null; v = r[0]; i = r[1]; }
  if (s[i] === "n" && (s[i + 1] === "." || s[i + 1] === "+" || s[i + 1] === "-")) return undefined;
  if (s[i] === "n") return legacy || i === 0 || i !== s.length - 1 ? null : BigInt(v);
  k = 0;
  if (s[i] === ".") {
    i++;
    if (s[i] === "_") return null;
    if (dig1(s[i])) { r = digits(s, i, 10); if (!r) return null; for (t = i; t < r[1]; t++) if (s[t] !== "_") { v = v * 10 + +s[t]; k++; } i = r[1]; }
  }
  e = 0;
  if (s[i] === "e" || s[i] === "E") {
    i++; neg = false;
    if (s[i] === "+" || s[i] === "-") neg = s[i++] === "-";
    if (s[i] === undefined) return null;
    r = digits(s, i, 10); if (!r) return null; e = neg ? -r[0] : r[0]; i = r[1];
  }
  if (i < s.length) return s[i] === "." || s[i] === "+" || s[i] === "-" ? undefined : null;
  e -= k;
  if (e > 22 || e < -22) return undefined;
  v = conc(v); return e >= 0 ? v * pow10(e) : v / pow10(-e);
}
function numTest(s, msg) {
  var strict = symBool("strict"), w = numValue(s, strict);
  assume(w !== undefined);
  eq(evalOr((strict ? "'use strict';" : "") + "(" + s + ")"), w, msg + (strict ? " strict" : ""));
}
scenario("number_decimal", function () { numTest(symStr("a", 1, "0199..") + symStr("s", 4, "0199..__eenn"), "decimal literal"); }, 3);
scenario("number_exponent", function () { numTest(symStr("a", 1, "0011") + "." + symStr("b", 1, "55__ee") + "e" + symStr("s", 3, "0022++--__nn"), "exponent"); });
scenario("number_exponent_int", function () { numTest(symStr("a", 1, "0199") + symStr("e", 1, "eeEEnn") + symStr("s", 3, "0022++--__.."), "integer exponent"); });
scenario("number_based", function () { numTest("0" + symStr("a", 1, "bbooxxXXBBOO") + symStr("s", 3, "0178__aannGG"), "based literal"); }, 2);
scenario("number_hex", function () { numTest("0x" + symStr("s", 2, "/:@G_`ggnn"), "hex literal"); }, 2);
scenario("number_legacy", function () { numTest("0" + symStr("s", 4, "00778899..__nnee"), "legacy literal"); }, 2);
scenario("number_follow", function () {
  var c = symStr("c", 1, "!~"), k = conc(symInt("k", 0, 5)), n = ["1", "0x1", "1n", "1e1", ".5", "1.0"][k], ok;
  assume(!(c >= "0" && c <= "9") && "_.neExXoObBaAcCdDfF()[]{}'\"`,;:?/\\&|=<>!~^%+-*#@".indexOf(c) < 0 || c === "#" || c === "@" || c === "\\");
  eq(evalOr("[" + n + c + "]"), null, "no identifier after a number: " + n);
});
/* ---- identifiers with escapes ---- */
var PIECE = [["a", 1, "a"], ["$", 1, "$"], ["_", 1, "_"], ["1", 0, "1"], ["\\u0061", 1, "a"], ["\\u{62}", 1, "b"], ["\\u0031", 0, "1"], ["\u00e9", 1, "\u00e9"], ["\\u00E9", 1, "\u00e9"],
  ["\u0301", 0, "\u0301"], ["\\u200d", 0, "\u200d"], ["\u200c", 0, "\u200c"], ["\u00aa", 1, "\u00aa"], ["\u00b7", 0, "\u00b7"], ["\u2118", 1, "\u2118"], ["\ud835\udc9c", 1, "\ud835\udc9c"],
  ["\\u{1d49c}", 1, "\ud835\udc9c"], ["\\ud835\\udc9c", 2, ""], ["\u20ac", 2, ""], ["\\u0028", 2, ""], ["\\x61", 2, ""], ["\\u{110000}", 2, ""], ["@", 2, ""], ["\ud835", 2, ""], ["\\u{}", 2, ""], ["\\u006", 2, ""],
  ["\\u{0000000061}", 1, "a"], ["\u3007", 1, "\u3007"], ["\u0660", 0, "\u0660"], ["\\u002d", 2, ""], ["\\", 2, ""], ["\\u0024", 1, "$"]];
scenario("identifier", function () {
  var a = PIECE[conc(symInt("a", 0, PIECE.length - 1))], b = PIECE[conc(symInt("b", 0, PIECE.length - 1))], u = conc(symInt("use", 0, 4)), id = a[0] + b[0], name = a[2] + b[2], ok = a[1] === 1 && b[1] !== 2, r;
  assume(a[0] !== "\\" && a[0] !== "\\u006" && !(u === 1 && a[0] === "1"));
  r = evalOr(["(function(){var " + id + "=7;return " + id + "})()", "Object.keys({" + id + ":1})[0]", "(class{#" + id + "=7;static m(o){return o.#" + id + "}}).length", "(function " + id + "(){}).name", "({}).constructor." + id + "===undefined?'u':'d'"][u]);
  eq(r, ok ? [7, name, 0, name, "u"][u] : null, "identifier use " + u);
  if (ok && u === 0) eq(evalOr("(function(){var " + name + "=7;return " + id + "})()"), 7, "same name with and without escapes");
}, 2);
scenario("identifier_chars", function () {
  var c = symStr("c", 1, "\u0080\u024f\u0370\u0373"), first = symBool("first"), p = (first ? /^\p{ID_Start}$/u : /^\p{ID_Continue}$/u).test(c), ws = c === "\u00a0";
  assume(!ws);
  eq(evalOr("(function(){var " + (first ? "" : "q") + c + "=7;return " + (first ? "" : "q") + c + "})()"), p ? 7 : null, "identifier character");
});
var KW = [ /* program with an identifier-name in marks, whether it acts as a keyword there */
  ["<var> x", 1], ["<let> x", 1], ["<const> x=1", 1], ["<if>(1);", 1], ["<for>(;0;);", 1], ["for(var x <of> []);", 1], ["for(var x <in> {});", 1], ["<function> f(){}", 1], ["<async> function f(){}", 1], ["(<async> ()=>1)", 1], ["(<async> x=>1)", 1],
  ["({<get> x(){}})", 1], ["({<set> x(a){}})", 1], ["({<async> x(){}})", 1], ["class A{<static> x(){}}", 1], ["class A{<get> x(){}}", 1], ["<class> A{}", 1], ["class A <extends> Object{}", 1], ["(function(){<new>.target})", 1], ["(function(){new.<target>})", 1],
  ["<typeof> 1", 1], ["<void> 0", 1], ["<delete> 1", 1], ["1 <instanceof> Object", 1], ["1 <in> {}", 1], ["<this>", 1], ["<null>", 1], ["<true>", 1], ["<false>", 1], ["<try>{}finally{}", 1], ["try{}<catch>{}", 1], ["try{}<finally>{}", 1], ["<throw> 1;function z(){}", 1], ["(function(){<return> 1})", 1], ["<do>;while(0)", 1], ["do;<while>(0)", 1], ["<switch>(1){}", 1], ["switch(1){<case> 1:}", 1], ["switch(1){<default>:}", 1], ["for(;0;)<break>;", 1], ["for(;0;)<continue>;", 1], ["<debugger>", 1], ["if(1);<else>;", 1], ["(function*(){<yield> 1})", 1], ["(async function(){<await> 1})", 1], ["(async function(){for <await>(x of []);})", 1], ["<with>({});", 1], ["<new> Object", 1], ["class A{static x(){<super>.y}}", 1], ["class A{<static>{}}", 1],
  ["({<var>:1})", 0], ["({}).<if>", 0], ["({<class>(){}})", 0], ["({get <new>(){}})", 0], ["class A{<static>(){}}", 0], ["class A{static <static>(){}}", 0], ["class A{<get>(){}}", 0], ["class A{#<var>}", 0], ["var <async>", 0], ["var <of>", 0], ["var <get>", 0], ["var <static>", 0], ["var <let>", 0], ["var <yield>", 0], ["var <await>", 0], ["<async>: 1", 0], ["({<async>:1})", 0], ["({a:<async>})", 2], ["({<async>}=1)", 0], ["<target>: 1", 0], ["function <as>(){}", 0], ["({<get>:1})", 0], ["({<set>(){}})", 0], ["({async <async>(){}})", 0], ["({<of>(){}})", 0]];
scenario("keyword_escapes", function () {
  var p = KW[conc(symInt("k", 0, KW.length - 1))], i = p[0].indexOf("<"), j = p[0].indexOf(">", i), w = p[0].slice(i + 1, j), form = conc(symInt("form", 0, 3)), at = conc(symInt("at", 0, 9)), h, src;
  assume(at < w.length);
  h = w.charCodeAt(at).toString(16);
  src = p[0].slice(0, i) + w.slice(0, at) + (form === 0 ? w[at] : form === 1 ? "\\u00" + h : form === 2 ? "\\u{" + h + "}" : "\\u{000" + h.toUpperCase() + "}") + w.slice(at + 1) + p[0].slice(j + 1);
  eq(parseOnly(src), form === 0 || p[1] !== 1, "escaped " + w + " in " + p[0]);
}, 2);
/* ---- white space, line terminators, comments ---- */
var SPACES = "\0!\u007f\u00a1\u167f\u1681\u180d\u180f\u1fff\u2010\u2027\u2030\u205e\u2060\u2fff\u3001\ufefe\uff00";
function isWS(c) { return c === "\t" || c === "\v" || c === "\f" || c === " " || c === "\u00a0" || c === "\u1680" || (c >= "\u2000" && c <= "\u200a") || c === "\u202f" || c === "\u205f" || c === "\u3000" || c === "\ufeff"; }
scenario("separators", function () {
  var c = symStr("c", 1, SPACES), k = conc(symInt("k", 0, 5)), lt = isLT(c), ws = isWS(c); assume(c !== "!");
  if (k === 0) eq(evalOr("[7" + c + "][0]"), ws || lt ? 7 : null, "separator after a number");
  else if (k === 1) eq(evalOr("7" + c + "8"), lt ? 8 : null, "line terminator ends a statement");
  else if (k === 2) eq(evalOr("(function(){return" + c + "8})()"), lt ? undefined : ws ? 8 : evalOr("(function(){return" + c + "8})()"), "return and a line terminator");
  else if (k === 3) eq(evalOr("1//" + c + "+1"), lt ? 2 : 1, "comment until a line terminator");
  else if (k === 4) eq(evalOr("1;//" + c + "2"), lt ? 2 : 1, "comment ends at a line terminator only");
  else eq(evalOr("7/*" + c + "*/8"), lt ? 8 : null, "a comment acts as the line terminator it contains");
}, 2);
scenario("comment_text", function () {
  var s = symStr("s", 4, "  **//\n\n"), t = s + "*/", p = t.indexOf("*/"), lt = false, i; assume(p === s.length || (p === s.length - 1));
  for (i = 0; i < p && i < s.length; i++) if (isLT(s[i])) lt = true;
  if (p === s.length) eq(evalOr("7/*" + s + "*/8"), lt ? 8 : null, "block comment");
});
scenario("comment_open", function () { var s = symStr("s", 3, "  **//\n\n"); assume(s.indexOf("*/") < 0); eq(evalOr("7/*" + s), null, "a comment must be closed"); });
scenario("line_comment", function () { var s = symStr("s", 2, "!~"); eq(evalOr("7//" + s), 7, "line comment at the end"); eq(evalOr("7//" + s + "\n,8"), 8, "line comment"); });
/* ---- regular expression literals ---- */
scenario("regexp_literal", function () {
  var s = symStr("s", 4, "//[[]]\\\\aa\n\n"), cls = false, i, closed = -1, w; assume(s[0] !== "/");
  for (i = 0; i < s.length + 1; i++) {
    var c = i < s.length ? s[i] : "/";
    if (isLT(c)) { closed = -2; break; }
    if (c === "\\") { i++; if (i < s.length && isLT(s[i])) { closed = -2; break; } continue; }
    if (cls) { if (c === "]") cls = false; } else if (c === "[") cls = true; else if (c === "/") { closed = i; break; }
  }
  assume(closed < 0 || closed === s.length);
  if (closed >= 0) { try { w = new RegExp(s).source; } catch (e) { closed = -1; } }
  var r = evalOr("/" + s + "/");
  if (closed < 0) eq(r, null, "regexp literal error"); else { eq(r instanceof RegExp, true, "regexp literal"); eq(r.source, w, "source of the literal"); }
}, 2);
scenario("regexp_flags", function () {
  var s = symStr("s", 2, "az$$\\\\"), ok = true, r; assume(s[0] !== "\\" && s[1] !== "\\");
  try { new RegExp("a", s); } catch (e) { ok = false; }
  r = evalOr("/a/" + s); eq(r === null ? null : r.flags.length, ok ? 2 : null, "flags of a literal");
});
var DIVS = [["a/b/g", 1], ["a++/b/g", 1], ["(a)/b/g", 1], ["[a][0]/b/g", 1], ["({a}).a/b/g", 1], ["a\n/b/g", 1], ["this.a/b/g", 1], ["`8`/b/g", 1], ["typeof /b/g", 0], ["+/b/g", 0], ["!/b/g", 0], ["void /b/g", 0], ["if(1)/b/g", 0], ["{}/b/g", 0], ["{}\n/b/g", 0], ["a=/b/g", 0], ["a?/b/g:1", 0], ["(/b/g)", 0], ["[/b/g][0]", 0], ["a,/b/g", 0], ["(function(){return/b/g})()", 0], ["(()=>{}\n)/b/g", 2], ["function f(){}/b/g", 0], ["(function(){}/b/g)", 2], ["x:/b/g", 0], ["do/b/g;while(0)", 0], ["for(;0;);/b/g", 0], ["a=>/b/g", 0], ["8..a/b/g", 2], ["8n/2n/1n", 1], ["1?2:/b/g", 0], ["delete/b/g", 0], ["(class{}/b/g)", 2], ["a/=b/g", 1], ["`${/b/g}`", 0], ["a in/b/g", 0], ["while(0);/b/g", 0], ["try{}finally{}/b/g", 0], ["if(0);else/b/g", 0], ["({x:/b/g}).x", 0], ["(async()=>{await/b/g})", 0], ["(function*(){yield/b/g})", 0], ["case1=3/b/g", 1]];
scenario("division_or_regexp", function () {
  var p = DIVS[conc(symInt("p", 0, DIVS.length - 1))], s = symStr("s", 1, "'*"), ok, src = p[0].replace(/b\/g/g, "b" + s + "/g"), r;
  /* a quote, parenthesis or star between the slashes: a regular expression where one is expected, a division otherwise */
  r = parseOnly(src);
  if (p[1] === 0) { try { new RegExp("b" + s); ok = true; } catch (e) { ok = false; } eq(r, ok, "regexp in " + p[0]); }
  else if (p[0].indexOf("b/g") >= 0) eq(r, false, "division in " + p[0]);
  else eq(r, true, p[0]);
});
