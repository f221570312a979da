/* C03: scopes. Programs of nested scopes with points; at each point a symbolic operation (read, write, typeof,
 * delete, capture a reader or a writer) is applied to one of the names x and y. Effects, errors (temporal dead
 * zone, constants) and the values seen by the captured closures are compared with a model of environments.
 * Nodes: ["let"|"const"|"var"|"class"|"fn", name] | ["p", id] | ["blk", s...] | ["F"|"A"|"N:name"|"G", s...] (function,
 * arrow, named function expression, generator; called at once) | ["for"|"forc"|"of"|"ofc"|"in", name, s...] |
 * ["catch", name, s...] | ["sw", id, [s...]...] | ["with", name, s...] | ["eval", s...] | ["init", name, s...]
 * (let name = (function with s...)()) */
var OPN = 6, LATER = [0, 1, 2, 4, 7, 8];      /* quick tier: fewer operations at the later points */
function pick(k, l) { for (var i = 0; i < l.length; i++) if (k === i) return l[i]; }
function scOps(i, strict) {
  var o = "switch(H(" + i + ")){", k = 1;
  ["x", "y"].forEach(function (n) {
    o += "case " + k++ + ":try{L('r'+String(" + n + "))}catch(e){L(e.name)}break;";
    o += "case " + k++ + ":try{L('w'+(" + n + "='w" + i + "'))}catch(e){L(e.name)}break;";
    o += "case " + k++ + ":try{L('t'+typeof " + n + ")}catch(e){L(e.name)}break;";
    o += "case " + k++ + ":C.push(()=>" + n + ");break;";
    o += "case " + k++ + ":C.push(()=>{" + n + "='s" + i + "';return 's'});break;";
    o += "case " + k++ + ":try{L('u'+(" + n + "+='+'))}catch(e){L(e.name)}break;";
  });
  return o + "}";
}
function scSrc(t, st) {
  var k = t[0], body = function (from) { return t.slice(from).map(function (s) { return scSrc(s, st); }).join(""); };
  if (k.slice(0, 2) === "N:") return "(function " + k.slice(2) + "(){" + body(1) + "})();";
  switch (k) {
  case "let": return "let " + t[1] + "=V('" + t[1] + "');";
  case "bare": return "let " + t[1] + ";";
  case "const": return "const " + t[1] + "=V('" + t[1] + "');";
  case "var": return "var " + t[1] + "=V('" + t[1] + "');";
  case "class": return "class " + t[1] + "{static[V('k')](){}static toString(){return 'cls'}}";
  case "fn": return "function " + t[1] + "(){}" + t[1] + ".toString=()=>'fun';";
  case "p": return scOps(t[1], st);
  case "blk": return "{" + body(1) + "}";
  case "F": return "(function(){" + body(1) + "})();";
  case "A": return "(()=>{" + body(1) + "})();";
  case "G": return "[...(function*(){" + body(1) + "})()];";
  case "for": return "for(let " + t[1] + "=0;" + t[1] + "<2;" + t[1] + "++){" + body(2) + "}";
  case "forc": return "for(const " + t[1] + "=V('fc');F2();){" + body(2) + "}";
  case "of": return "for(let " + t[1] + " of ['o0','o1']){" + body(2) + "}";
  case "ofc": return "for(const " + t[1] + " of ['o0','o1']){" + body(2) + "}";
  case "in": return "for(let " + t[1] + " in {i0:1,i1:1}){" + body(2) + "}";
  case "catch": return "try{throw V('c')}catch(" + t[1] + "){" + body(2) + "}";
  case "sw": return "switch(H(" + t[1] + ")){" + t.slice(2).map(function (c, i) { return "case " + i + ":" + c.map(function (s) { return scSrc(s, st); }).join(""); }).join("") + "}";
  case "with": return "with(W('" + t[1] + "')){" + body(2) + "}";
  case "eval": return "eval(" + JSON.stringify(body(1)) + ");";
  case "init": return "let " + t[1] + "=(()=>{" + body(2) + "return V('" + t[1] + "')})();";
  }
  throw "bad " + k;
}
function scModel(prog, D, strict) {
  var log = [], caps = [], vn = 0, f2 = 0;
  function V(s) { return s + vn++; }
  function scope(p, isFn) { return { p: p, v: {}, fn: isFn }; }
  function look(s, n) { while (s && !s.v[n]) s = s.p; return s && s.v[n]; }
  function get(s, n) { var b = look(s, n); if (!b.init) throw "ReferenceError"; return b.v; }
  function set(s, n, v) {
    var b = look(s, n);
    if (!b.init) throw "ReferenceError";
    if (b.k === "const") throw "TypeError";
    if (b.k === "nfe") { if (strict) throw "TypeError"; return; }
    b.v = v;
  }
  function str(v) { return v === undefined ? "undefined" : typeof v === "object" ? v.f : String(v); }
  function typ(v) { return v === undefined ? "undefined" : typeof v === "object" ? "function" : typeof v; }
  function point(i, s) {
    var o = D[i];
    if (o === 0) return;
    var n = o <= OPN ? "x" : "y", k = (o - 1) % OPN;
    if (k === 3) { caps.push(function () { return str(get(s, n)); }); return; }
    if (k === 4) { caps.push(function () { set(s, n, "s" + i); return "s"; }); return; }
    try {
      if (k === 0) log.push("r" + str(get(s, n)));
      else if (k === 1) { set(s, n, "w" + i); log.push("ww" + i); }
      else if (k === 2) log.push("t" + typ(get(s, n)));
      else { var v = str(get(s, n)) + "+"; if (typeof get(s, n) === "number") v = get(s, n) + "+"; set(s, n, v); log.push("u" + v); }
    } catch (e) { if (typeof e !== "string") throw e; log.push(e); }
  }
  function hoistVars(list, s) {
    list.forEach(function (t) {
      var k = t[0];
      if (k === "var") { if (!s.v[t[1]]) s.v[t[1]] = { v: undefined, init: true, k: "var" }; }
      else if (k === "blk") hoistVars(t.slice(1), s);
      else if (k === "for" || k === "forc" || k === "of" || k === "ofc" || k === "in" || k === "catch" || k === "with") hoistVars(t.slice(2), s);
      else if (k === "sw") t.slice(2).forEach(function (c) { hoistVars(c, s); });
    });
  }
  function declare(list, s) {       /* lexical declarations of a block */
    list.forEach(function (t) {
      if (t[0] === "let" || t[0] === "bare" || t[0] === "class" || t[0] === "init") s.v[t[1]] = { init: false, k: "let" };
      else if (t[0] === "const") s.v[t[1]] = { init: false, k: "const" };
      else if (t[0] === "fn") s.v[t[1]] = { v: { f: "function" }, init: true, k: "var" };
    });
  }
  function block(list, s) { declare(list, s); list.forEach(function (t) { run(t, s); }); }
  function call(list, p) { var s = scope(p, true); hoistVars(list, s); block(list, s); }
  function init(s, n, v) { while (!s.v[n]) s = s.p; var b = s.v[n]; b.v = v; b.init = true; }
  function run(t, s) {
    var k = t[0], i, c, b;
    if (k.slice(0, 2) === "N:") { c = scope(s); c.v[k.slice(2)] = { v: { f: "function" }, init: true, k: "nfe" }; return call(t.slice(1), c); }
    switch (k) {
    case "let": case "const": init(s, t[1], V(t[1])); return;
    case "bare": init(s, t[1], undefined); return;
    case "var": var v = V(t[1]); set(s, t[1], v); return;
    case "class": V("k"); init(s, t[1], { f: "cls" }); return;
    case "fn": b = look(s, t[1]); b.v.f = "fun"; return;
    case "p": return point(t[1], s);
    case "blk": return block(t.slice(1), scope(s));
    case "F": case "A": case "G": return call(t.slice(1), s);
    case "for":
      c = scope(s); c.v[t[1]] = { v: 0, init: true, k: "let" };
      for (i = 0; ; i++) {
        b = c.v[t[1]]; c = scope(s); c.v[t[1]] = { v: b.v, init: true, k: "let" };
        if (i) { b = c.v[t[1]]; b.v = Number(b.v) + 1; }
        if (!(c.v[t[1]].v < 2)) return;
        block(t.slice(2), scope(c));
      }
    case "forc":
      c = scope(s); c.v[t[1]] = { v: V("fc"), init: true, k: "const" };
      while (f2++ < 2) block(t.slice(2), scope(c));
      return;
    case "of": case "ofc": case "in":
      for (i = 0; i < 2; i++) {
        c = scope(s); c.v[t[1]] = { v: (k === "in" ? "i" : "o") + i, init: true, k: k === "ofc" ? "const" : "let" };
        block(t.slice(2), scope(c));
      }
      return;
    case "catch":
      c = scope(s); c.v[t[1]] = { v: V("c"), init: true, k: "let" };
      return block(t.slice(2), scope(c));
    case "sw":
      c = scope(s); for (i = 2; i < t.length; i++) declare(t[i], c);
      for (i = 2 + D[t[1]]; i < t.length; i++) t[i].forEach(function (u) { run(u, c); });
      return;
    case "with": c = scope(s); c.v[t[1]] = { v: "W", init: true, k: "var" }; return block(t.slice(2), c);
    case "eval":
      c = scope(s); b = s; while (!b.fn) b = b.p;
      hoistVars(t.slice(1), b);
      return block(t.slice(1), c);
    case "init": c = scope(s, true); hoistVars(t.slice(2), c); block(t.slice(2), c); init(s, t[1], V(t[1])); return;
    }
    throw "bad " + k;
  }
  var top = scope(null, true);
  top.v.x = { v: "ox", init: true, k: "var" }; top.v.y = { v: "oy", init: true, k: "let" };
  call(prog, top);
  caps.forEach(function (c) { try { log.push(c()); } catch (e) { if (typeof e !== "string") throw e; log.push(e); } });
  log.push(str(top.v.x.v) + str(top.v.y.v));
  return log;
}
function scCompile(prog, strict) {
  var src = "(function(H,L,C,V,W,F2){" + (strict ? "'use strict';" : "") + "var x='ox';let y='oy';(function(){" + prog.map(function (t) { return scSrc(t, strict); }).join("") +
    "})();C.forEach(c=>{try{L(String(c()))}catch(e){L(e.name)}});L(x+y)})";
  return (0, eval)(src);
}
function scCheck(name, prog, strict, f) {
  var D = {}, log = [], C = [], vn = 0, f2 = 0;
  JSON.stringify(prog, function (k, v) {
    if (Array.isArray(v) && v[0] === "p") D[v[1]] = v[1] < 2 || DEEP ? symInt("p" + v[1], 0, 2 * OPN) : v[1] === 2 ? pick(symInt("p2", 0, 5), LATER) : pick(symInt("p3", 0, 2), [0, 1, 8]);
    if (Array.isArray(v) && v[0] === "sw") D[v[1]] = symInt("p" + v[1], 0, v.length - 3);
    return v;
  });
  f(function (i) { return D[i]; }, function (s) { log.push(s.indexOf("function ") >= 0 ? s.replace(/function [^]*\}/, "function") : s.replace(/class [^]*\}/, "cls")); }, C, function (s) { return s + vn++; },
    function (n) { var o = {}; o[n] = "W"; return o; }, function () { return f2++ < 2; });
  eq(log.join(), scModel(prog, D, strict).join(), name + ": effects, errors and captured values");
}
var SC = [
  ["block-let", [["var", "x"], ["blk", ["p", 0], ["let", "x"], ["p", 1]], ["p", 2]]],
  ["block-const", [["blk", ["p", 0], ["const", "x"], ["p", 1], ["blk", ["let", "y"], ["p", 2]]], ["p", 3]]],
  ["nested-var", [["p", 0], ["blk", ["var", "x"], ["blk", ["let", "y"], ["p", 1]]], ["p", 2]]],
  ["for-let", [["for", "x", ["p", 0], ["let", "y"], ["p", 1]], ["p", 2]]],
  ["for-let-shadow", [["for", "y", ["p", 0], ["bare", "x"], ["p", 1]]]],
  ["for-const", [["forc", "x", ["p", 0], ["blk", ["const", "y"], ["p", 1]]], ["p", 2]]],
  ["for-of", [["of", "x", ["p", 0], ["let", "y"], ["p", 1]], ["p", 2]]],
  ["for-of-const", [["ofc", "x", ["p", 0]], ["p", 1], ["of", "y", ["p", 2]]]],
  ["for-in", [["in", "y", ["p", 0], ["blk", ["p", 1], ["let", "x"]]], ["p", 2]]],
  ["catch", [["catch", "x", ["p", 0], ["let", "y"], ["p", 1]], ["p", 2]]],
  ["switch", [["sw", 9, [["p", 0], ["let", "x"]], [["p", 1], ["const", "y"]], [["p", 2]]], ["p", 3]]],
  ["functions", [["p", 0], ["F", ["p", 1], ["var", "x"]], ["A", ["let", "y"], ["p", 2]]]],
  ["hoisting", [["p", 0], ["fn", "x"], ["p", 1], ["var", "x"], ["p", 2]]],
  ["class", [["blk", ["p", 0], ["class", "x"], ["p", 1]], ["p", 2]]],
  ["named-function", [["N:x", ["p", 0], ["A", ["p", 1]]], ["p", 2]]],
  ["named-shadow", [["N:x", ["p", 0], ["var", "x"], ["p", 1]], ["N:y", ["blk", ["let", "y"], ["p", 2]]]]],
  ["initializer", [["blk", ["init", "x", ["p", 0], ["let", "y"]], ["p", 1]], ["p", 2]]],
  ["generator", [["let", "x"], ["G", ["p", 0], ["blk", ["let", "x"], ["p", 1]], ["var", "y"], ["p", 2]]]],
  ["loops", [["for", "x", ["of", "y", ["p", 0]], ["p", 1]]]],
  ["eval-lexical", [["let", "x"], ["eval", ["p", 0], ["let", "y"], ["p", 1]], ["p", 2]]]
];
var SCW = [
  ["with", [["with", "x", ["p", 0], ["blk", ["let", "y"], ["p", 1]]], ["p", 2]]],
  ["with-shadow", [["let", "y"], ["with", "y", ["p", 0], ["A", ["p", 1]]], ["p", 2]]],
  ["with-eval", [["with", "x", ["eval", ["p", 0], ["let", "x"], ["p", 1]]], ["p", 2]]],
  ["eval-var", [["p", 0], ["eval", ["p", 1], ["var", "x"]], ["p", 2]]],
  ["eval-var-block", [["blk", ["let", "y"], ["p", 0], ["eval", ["var", "x"], ["p", 1]]], ["p", 2]]]
];
SC.forEach(function (f) {
  var loose = scCompile(f[1], false), strict = scCompile(f[1], true);      /* before the first path starts */
  scenario(f[0], function () { scCheck(f[0], f[1], false, loose); });
  if (DEEP || f[0] === "named-function") scenario("strict-" + f[0], function () { scCheck("strict " + f[0], f[1], true, strict); });
});
SCW.forEach(function (f) { var c = scCompile(f[1], false); scenario(f[0], function () { scCheck(f[0], f[1], false, c); }); });

/* The same code executed several times in environments whose shape differs (direct eval, with): each execution
 * resolves its names anew. */
var CODES = ["", "var x='e'", "function x(){return 'f'}", "{let x='l'}", "x='a'", "var y='e'"], CV = ["o", "e", "F", "o", "a", "o"];
var SHAPES = [
  "function f(c,o){eval(c);return typeof x==='function'?'F':x}",
  "function f(c,o){eval(c);return (()=>typeof x==='function'?'F':x)()}",
  "function f(c,o){let z=1;{let w=1;eval(c);return (()=>{let u=1;return typeof x==='function'?'F':x})()}}",
  "function f(c,o){var g=(function*(){yield 0;yield typeof x==='function'?'F':x})();g.next();eval(c);return g.next().value}",
  "function f(c,o){return (function(){var h=()=>typeof x==='function'?'F':x;eval(c);return h()})()}",
  "function f(c,o){with(o){return (()=>{eval(c);return typeof x==='function'?'F':x})()}}",
  "function f(c,o,g=()=>eval(c)){g();return typeof x==='function'?'F':x}"
];
SHAPES.forEach(function (sh, si) {
  var run = (0, eval)("(function(c,o){var x='o',y='y',r=[];" + sh + "for(var i=0;i<c.length;i++)r.push(f(c[i],o[i]));return r.join()})");
  scenario("repeat-" + si, function () {
    var c = [symInt("c0", 0, 5), symInt("c1", 0, 5), symInt("c2", 0, DEEP ? 5 : 2)], w = si === 5 ? [symBool("w0"), symBool("w1"), symBool("w2")] : [false, false, false], i, cur = "o", want = [];
    var got = run(c.map(function (k) { return CODES[k]; }), w.map(function (b) { return b ? { x: "W" } : {}; }));
    for (i = 0; i < 3; i++) {
      var k = c[i], own = k === 1 || k === 2;
      if (k === 4 && !w[i]) cur = "a";
      /* an eval in the arrow function of a parameter default declares inside that arrow function */
      want.push(own && si !== 6 ? CV[k] : w[i] ? k === 4 ? "a" : "W" : cur);
    }
    eq(got, want.join(), "repeat: names are resolved anew in every execution");
  });
});
/* Two scripts declaring the same global name: the second is refused as a whole exactly when the language says so. */
scenario("global-conflicts", function () {
  var K = ["var gq", "let gq", "const gq=1", "function gq(){}", "class gq{}", "globalThis.gq=1", "Object.defineProperty(globalThis,'gq',{value:1,configurable:true})", "Object.defineProperty(globalThis,'gq',{value:1})", ";"];
  var a = symInt("a", 0, 8), b = symInt("b", 0, 4), err = "none";
  runScript(K[a] + ";");
  try { runScript("globalThis.ranq=1;" + K[b] + ";"); } catch (e) { err = e.name; }
  var lexA = a === 1 || a === 2 || a === 4, lexB = b === 1 || b === 2 || b === 4, want = "none";
  if (lexA) want = "SyntaxError";
  else if (lexB) { if (a === 0 || a === 3 || a === 7) want = "SyntaxError"; }
  else if (b === 3 && a === 7) want = "TypeError";
  eq(err, want, "redeclaration of a global: error");
  eq("ranq" in globalThis, want === "none", "redeclaration of a global: the refused script does not run at all");
  eq("gq" in globalThis, !lexA && (a !== 8) || want === "none" && !lexB, "redeclaration of a global: properties of the global object");
});
