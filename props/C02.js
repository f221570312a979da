/* C02: destructuring. Patterns of several shapes, as declarations, assignments, parameters, loop heads and catch
 * parameters, over sources whose iterators, getters, defaults, computed keys and targets have symbolic behaviour;
 * the effects, their order, the error and the final bindings are compared with a model of the language's rules.
 * Pattern: ["A", e...] with e = null | ["e", target, default?] | ["r", target]
 *          ["O", p...] with p = ["p", key, target, default?] | ["k", id, target, default?] | ["r", target]
 * target: name of a variable | "." + id (member target, assignments only) | pattern */
function S2(v) { return v === undefined ? "u" : v === null ? "n" : Array.isArray(v) ? "[" + v.map(S2).join() + "]" : typeof v === "object" ? "{" + Object.keys(v).map(function (k) { return k + ":" + S2(v[k]); }).join() + "}" : String(v); }
function patNames(p, out) {
  if (typeof p === "string") { if (p[0] !== ".") out.push(p); return out; }
  for (var i = 1; i < p.length; i++) { var e = p[i]; if (e) patNames(e[0] === "e" || e[0] === "r" ? e[1] : e[2], out); }
  return out;
}
/* number the nodes that need behaviour: every pattern gets a source id, every default a default id */
function patNumber(p, c) {
  if (typeof p === "string") return;
  p.id = c.s++;
  for (var i = 1; i < p.length; i++) {
    var e = p[i];
    if (!e) continue;
    var t = e[0] === "e" || e[0] === "r" ? 1 : 2;
    if (e[t + 1]) e.did = c.d++;
    if (e[0] === "k") e.kid = c.k++;
    if (typeof e[t] === "string" && e[t][0] === ".") e.mid = c.m++;
    patNumber(e[t], c);
  }
}
function patSrc(p) {
  if (typeof p === "string") return p;
  var o = [], i, e, arr = p[0] === "A";
  function tgt(e, t) { return typeof e[t] === "string" && e[t][0] === "." ? "T(" + e.mid + ").x" : patSrc(e[t]); }
  for (i = 1; i < p.length; i++) {
    e = p[i];
    if (!e) { o.push(""); continue; }
    var t = e[0] === "e" || e[0] === "r" ? 1 : 2, d = e.did === undefined ? "" : "=D(" + e.did + ")";
    if (e[0] === "r") o.push("..." + tgt(e, 1));
    else if (e[0] === "e") o.push(tgt(e, 1) + d);
    else if (e[0] === "p") o.push(e[1] === e[2] ? e[1] + d : e[1] + ":" + tgt(e, 2) + d);
    else o.push("[K(" + e.kid + ")]:" + tgt(e, 2) + d);
  }
  if (arr && p[p.length - 1] === null) o.push("");
  return arr ? "[" + o.join() + "]" : "{" + o.join() + "}";
}
function patDefs(p, f) {     /* did -> pattern that the default must feed, if any */
  if (typeof p === "string") return;
  for (var i = 1; i < p.length; i++) { var e = p[i]; if (!e) continue; var t = e[0] === "e" || e[0] === "r" ? 1 : 2; if (e.did !== undefined) f[e.did] = e[t]; patDefs(e[t], f); }
}
/* ---- the real run */
function patRun(p, ctx, B, log) {
  var src = patSrc(p), names = patNames(p, []), defs = {}, f, vals;
  patDefs(p, defs);
  function feed(t, k, tag) {      /* the value handed to target t: k 0 a value, 1 undefined, 2 null (or for patterns a non-iterable) */
    if (k === 1) return undefined;
    if (k === 2) return null;
    return typeof t === "string" ? tag : mkSrc(t);
  }
  function mkSrc(p) {
    var b = B.src[p.id], o = {}, i;
    if (p[0] === "A") {
      var n = 0, it = {
        next: function () {
          var i = n++; log.push("n" + p.id);
          if (i === b.thr) throw "N" + p.id;
          if (i >= b.len) return { done: true, get value() { log.push("BADVALUE"); return 0; } };
          var e = p[i + 1], t = e ? e[0] === "r" ? "" : e[1] : "";
          return { done: false, value: feed(t, b.val[i], "i" + p.id + i) };
        }
      };
      Object.defineProperty(it, "return", { get: function () {
        log.push("cg" + p.id);
        if (b.close === 0) return undefined;
        if (b.close === 4) return 5;
        if (b.close === 5) throw "CG" + p.id;
        if (b.close === 6) return null;
        return function () { log.push("c" + p.id); if (b.close === 2) throw "C" + p.id; return b.close === 3 ? 1 : {}; };
      } });
      o[Symbol.iterator] = function () { log.push("I" + p.id); return it; };
      return o;
    }
    for (i = 1; i < p.length; i++) (function (i, e) {
      if (e[0] === "r") return;
      Object.defineProperty(o, e[0] === "k" ? "k" + e.kid : e[1], { enumerable: true, get: function () {
        log.push("g" + p.id + i); if (b.val[i - 1] === 3) throw "G" + p.id + i; return feed(e[2], b.val[i - 1], "i" + p.id + i);
      } });
    })(i, p[i]);
    Object.defineProperty(o, "extra", { enumerable: true, get: function () { log.push("gx" + p.id); return "X"; } });
    Object.defineProperty(o, "hidden", { enumerable: false, value: 1 });
    return o;
  }
  function D(i) { log.push("d" + i); if (B.def[i]) throw "D" + i; return feed(defs[i], 0, "D" + i); }
  function K(i) { log.push("k" + i); if (B.key[i] === 1) throw "K" + i; return { toString: function () { log.push("ks" + i); if (B.key[i] === 2) throw "KS" + i; return "k" + i; } }; }
  function T(i) { log.push("t" + i); if (B.tgt[i] === 1) throw "T" + i; return { set x(v) { log.push("s" + i + S2(v)); if (B.tgt[i] === 2) throw "TS" + i; } }; }
  var list = "[" + names.join() + "]", s0 = feed(p, B.top, "");
  f = patCompile(ctx, src, names, list);
  var r;
  try { r = f(s0, D, K, T); } catch (e) { return "t" + (e && e.name || e); }
  return S2(r);
}
var PATC = {};
function patCompile(ctx, src, names, list) {
  var decl = names.length ? "var " + names.join() + ";" : "", body;
  switch (ctx) {
  case "let": body = "let " + src + "=s;return " + list; break;
  case "var": body = "var " + src + "=s;return " + list; break;
  case "const": body = "const " + src + "=s;return(()=>" + list + ")()"; break;
  case "assign": body = decl + "var r=(" + src + "=s);if(r!==s)throw 'value';return " + list; break;
  case "param": body = "return(function(" + src + "){return " + list + "})(s)"; break;
  case "arrow": body = "return((" + src + ",z)=>" + list + ")(s)"; break;
  case "forof": body = decl + "for(" + src + " of [s]);return " + list; break;
  case "forlet": body = "for(let " + src + " of [s])return " + list + ""; break;
  case "catch": body = "try{throw s}catch(" + src + "){return " + list + "}"; break;
  case "gen": body = "return (function*(){yield(()=>{let " + src + "=s;return " + list + "})()})().next().value"; break;
  }
  var k = "(function(s,D,K,T){" + body + "})";
  return PATC[k] = PATC[k] || (0, eval)(k);
}
/* ---- the model */
function patModel(p, B, assign, log) {
  var vars = {}, defs = {};
  patDefs(p, defs);
  function val(t, k, tag) { return k === 1 ? { u: 1 } : k === 2 ? { n: 1 } : typeof t === "string" ? { s: tag } : { p: t }; }
  function str(v) { return v.u ? "u" : v.n ? "n" : v.s !== undefined ? v.s : "?"; }
  function target(e) { if (e.mid === undefined) return; log.push("t" + e.mid); if (B.tgt[e.mid] === 1) throw { e: "T" + e.mid }; }
  function put(e, t, v) {
    if (e.mid !== undefined) { log.push("s" + e.mid + str(v)); if (B.tgt[e.mid] === 2) throw { e: "TS" + e.mid }; }
    else if (typeof t === "string") vars[t] = str(v);
    else bind(t, v);
  }
  function dflt(e, v) {
    if (!v.u || e.did === undefined) return v;
    log.push("d" + e.did);
    if (B.def[e.did]) throw { e: "D" + e.did };
    return val(defs[e.did], 0, "D" + e.did);
  }
  function bind(p, v) {
    if (v.u || v.n) throw { e: "TypeError" };
    var b = B.src[p.id], i, e, x;
    if (p[0] === "A") {
      var n = 0, done = false;
      log.push("I" + p.id);
      var step = function () {
        var i = n++; log.push("n" + p.id);
        if (i === b.thr) { done = true; throw { e: "N" + p.id }; }
        if (i >= b.len) { done = true; return null; }
        var e = p[i + 1];
        return val(e ? e[0] === "r" ? "" : e[1] : "", b.val[i], "i" + p.id + i);
      };
      try {
        for (i = 1; i < p.length; i++) {
          e = p[i];
          if (!e) { if (!done) step(); continue; }
          target(e);
          if (e[0] === "r") {
            var l = [];
            while (!done) { x = step(); if (x) l.push(str(x)); }
            if (typeof e[1] === "string") put(e, e[1], { s: "[" + l.join() + "]" });
            else bindArray(e[1], l);
          } else {
            x = done ? null : step();
            put(e, e[1], dflt(e, x || { u: 1 }));
          }
        }
      } catch (err) {
        if (!done) { log.push("cg" + p.id); if (b.close > 0 && b.close < 4) log.push("c" + p.id); }
        throw err;
      }
      if (!done) {
        log.push("cg" + p.id);
        if (b.close === 4) throw { e: "TypeError" };
        if (b.close === 5) throw { e: "CG" + p.id };
        if (b.close > 0 && b.close < 4) log.push("c" + p.id);
        if (b.close === 2) throw { e: "C" + p.id };
        if (b.close === 3) throw { e: "TypeError" };
      }
      return;
    }
    var used = {};
    for (i = 1; i < p.length; i++) {
      e = p[i];
      if (e[0] === "r") {
        target(e);
        var o = [];
        for (var j = 1; j < p.length; j++) if (p[j][0] !== "r" && !used[j]) throw { e: "model" };
        log.push("gx" + p.id);
        put(e, e[1], { s: "{extra:X}" });
        continue;
      }
      used[i] = true;
      if (e[0] === "k") {
        log.push("k" + e.kid); if (B.key[e.kid] === 1) throw { e: "K" + e.kid };
        log.push("ks" + e.kid); if (B.key[e.kid] === 2) throw { e: "KS" + e.kid };
      }
      target(e);
      log.push("g" + p.id + i);
      if (b.val[i - 1] === 3) throw { e: "G" + p.id + i };
      put(e, e[2], dflt(e, val(e[2], b.val[i - 1], "i" + p.id + i)));
    }
  }
  /* an array pattern fed with the (plain) rest array: no observable iteration */
  function bindArray(p, l) {
    for (var i = 1; i < p.length; i++) {
      var e = p[i]; if (!e) continue;
      target(e);
      if (e[0] === "r") put(e, e[1], { s: "[" + l.slice(i - 1).join() + "]" });
      else put(e, e[1], dflt(e, i - 1 < l.length ? l[i - 1] === "u" ? { u: 1 } : { s: l[i - 1] } : { u: 1 }));
    }
  }
  try { bind(p, val(p, B.top, "")); } catch (e) { if (!e.e) throw e; return "t" + e.e; }
  return "[" + patNames(p, []).map(function (n) { return vars[n] === undefined ? "u" : vars[n]; }).join() + "]";
}
function patCheck(name, p, ctx) {
  var B = { src: [], def: [], key: [], tgt: [], top: symInt("top", 0, 2) }, c = { s: 0, d: 0, k: 0, m: 0 }, i, j;
  patNumber(p, c);
  (function walk(p) {
    if (typeof p === "string") return;
    var n = p.length - 1, b = { val: [] }, arr = p[0] === "A";
    if (arr) {
      b.len = symInt("len" + p.id, 0, n + (p.rest ? 1 : 1)); b.thr = symInt("thr" + p.id, -1, n); b.close = symInt("close" + p.id, 0, 6);
      for (j = 0; j < n + 1; j++) b.val.push(p[j + 1] && p[j + 1][0] === "e" ? symInt("v" + p.id + j, 0, 2) : 0);
    } else for (j = 0; j < n; j++) b.val.push(symInt("v" + p.id + j, 0, 3));
    B.src[p.id] = b;
    for (var i = 1; i < p.length; i++) if (p[i]) walk(p[i][0] === "e" || p[i][0] === "r" ? p[i][1] : p[i][2]);
  })(p);
  for (i = 0; i < c.d; i++) B.def.push(symBool("d" + i));
  for (i = 0; i < c.k; i++) B.key.push(symInt("k" + i, 0, 2));
  for (i = 0; i < c.m; i++) B.tgt.push(symInt("t" + i, 0, 2));
  var log = [], ml = [], got = patRun(p, ctx, B, log), want = patModel(p, B, ctx === "assign" || ctx === "forof", ml);
  eq(log.join(), ml.join(), name + ": effects of the destructuring");
  eq(got, want, name + ": bindings or error");
}
var DE = 1;
var PATS = [
  ["array", ["A", ["e", "a"], ["e", "b", DE]], ["let", "assign", "param"]],
  ["elision", ["A", null, ["e", "a", DE], null], ["var", "assign", "gen"]],
  ["rest", ["A", ["e", "a", DE], ["r", "b"]], ["const", "assign", "arrow"]],
  ["rest-pattern", ["A", ["e", "a"], ["r", ["A", ["e", "b", DE], ["r", "c"]]]], ["let", "forof"]],
  ["object", ["O", ["p", "a", "a", DE], ["p", "q", "b"]], ["let", "assign", "catch", "param"]],
  ["computed", ["O", ["k", 0, "a", DE], ["k", 1, "b"]], ["const", "assign", "forlet"]],
  ["object-rest", ["O", ["p", "a", "b"], ["r", "c"]], ["let", "assign", "arrow"]],
  ["nested", ["A", ["e", ["O", ["p", "p", "a", DE]], DE]], ["let", "assign", "param", "catch"]],
  ["nested-arrays", ["A", ["e", ["A", ["e", "a", DE]], DE], ["e", "b"]], ["var", "assign", "forof"]],
  ["object-array", ["O", ["p", "p", ["A", ["e", "a", DE]], DE], ["p", "b", "b"]], ["const", "assign", "param"]],
  ["members", ["A", ["e", "."], ["e", ".", DE]], ["assign"]],
  ["member-rest", ["A", ["e", ".", DE], ["r", "."]], ["assign", "forof"]],
  ["object-members", ["O", ["k", 0, ".", DE], ["p", "q", "."]], ["assign"]],
  ["object-member-rest", ["O", ["k", 0, "."], ["r", "."]], ["assign", "forof"]],
  ["array3", ["A", ["e", "a", DE], ["e", "b", DE], ["e", "c", DE]], ["let", "assign"]],
  ["object3", ["O", ["p", "a", "a", DE], ["k", 0, "b", DE], ["p", "q", "c", DE]], ["param", "forof"]],
  ["deep", ["A", ["e", ["O", ["p", "p", ["A", ["e", "a", DE], ["r", "b"]], DE]]], ["e", "c", DE]], ["let", "assign"]],
  ["deep-members", ["O", ["p", "p", ["A", ["e", ".", DE], ["e", ["O", ["k", 0, "."]], DE]]]], ["assign"]],
  ["empty-array", ["A"], ["let", "assign", "param", "catch"]],
  ["empty-object", ["O"], ["let", "assign", "param", "forlet"]]
];
PATS.forEach(function (f) {
  f[2].forEach(function (ctx) { scenario(f[0] + "-" + ctx, function () { patCheck(f[0] + " (" + ctx + ")", f[1], ctx); }); });
});

/* Spread in calls, array literals and new, mixed with plain elements. */
["call", "array", "new", "method", "super"].forEach(function (kind) {
  scenario("spread-" + kind, function () {
    var l0 = symInt("l0", 0, 2), l1 = symInt("l1", 0, 2), t0 = symInt("t0", 0, 3), t1 = symInt("t1", 0, 3), pe = symInt("pe", 0, 3), log = [], ml = [], out = [];
    function It(id, len, thr) {
      if (id === 1 && pe === 3) return 5;
      var n = 0, o = {};
      o[Symbol.iterator] = function () { log.push("I" + id); return { next: function () { log.push("n" + id); if (n === thr) throw "N" + id; n++; return { value: id + "v" + n, done: n > len }; }, return: function () { log.push("closed"); } }; };
      return o;
    }
    function E(i) { log.push("e" + i); if (pe === i) throw "E" + i; return "e" + i; }
    var res;
    function F() { return [].slice.call(arguments); }
    class A { constructor(...r) { this.r = r; } }
    class B extends A { constructor() { super(E(0), ...It(0, l0, t0), E(1), ...It(1, l1, t1), E(2)); } }
    try {
      switch (kind) {
      case "call": res = F(E(0), ...It(0, l0, t0), E(1), ...It(1, l1, t1), E(2)); break;
      case "array": res = [E(0), ...It(0, l0, t0), E(1), ...It(1, l1, t1), E(2)]; break;
      case "new": res = new A(E(0), ...It(0, l0, t0), E(1), ...It(1, l1, t1), E(2)).r; break;
      case "method": res = { m: F }.m(E(0), ...It(0, l0, t0), E(1), ...It(1, l1, t1), E(2)); break;
      case "super": res = new B().r; break;
      }
      res = S2(res);
    } catch (e) { res = "t" + (e.name || e); }
    function me(i) { ml.push("e" + i); if (pe === i) throw "E" + i; out.push("e" + i); }
    function mi(id, len, thr) {
      if (id === 1 && pe === 3) throw "TypeError";
      ml.push("I" + id);
      for (var n = 0; ; ) { ml.push("n" + id); if (n === thr) throw "N" + id; n++; if (n > len) return; out.push(id + "v" + n); }
    }
    var want;
    try { me(0); mi(0, l0, t0); me(1); mi(1, l1, t1); me(2); want = "[" + out.join() + "]"; } catch (e) { want = "t" + e; }
    eq(log.join(), ml.join(), "spread (" + kind + "): effects"); eq(res, want, "spread (" + kind + "): result");
  });
});
/* Assignments between variables and elements of the same array: all sources are read before or after exactly as specified. */
scenario("aliasing", function () {
  var v = [symInt("v0", 0, 9), symInt("v1", 0, 9), symInt("v2", 0, 9)], i = symInt("i", 0, 2), j = symInt("j", 0, 2), k = symInt("k", 0, 2), m = v.slice(), a = v.slice();
  [a[i], a[j], a[k]] = a;
  var ix = [i, j, k]; for (var n = 0; n < 3; n++) m[ix[n]] = m[n];     /* the array is read as it is being written */
  eq(a.join(), m.join(), "targets alias the source");
  a = v.slice(); m = v.slice();
  [a[i], a[j]] = [a[j], a[i]];
  var x = m[j], y = m[i]; m[i] = x; m[j] = y;
  eq(a.join(), m.join(), "swap");
  a = v.slice(); m = v.slice();
  ({ [j]: a[i], [i]: a[j], length: a[k] } = a);
  m[i] = m[j]; m[j] = m[i]; m[k] = 3;
  eq(a.join(), m.join(), "object pattern aliases its source");
});
scenario("param-defaults", function () {
  var n = symInt("n", 0, 4), ka = symInt("ka", 0, 2), kb = symInt("kb", 0, 2), th = symInt("th", 0, 3), log = [], ml = [];
  function D(i) { log.push("d" + i); if (th === i) throw "D" + i; return "D" + i; }
  function v(k, s) { return k === 0 ? s : k === 1 ? undefined : null; }
  function f(a = D(0), [b = D(1)] = ["x", D(2)], c = () => a, ...[d, e = b]) { var a = a + "!"; return [arguments.length, a, b, c(), d, e].join(); }
  var args = [v(ka, "A"), kb === 0 ? [] : v(kb, 0), undefined, "R"], got, want;
  args.length = n;
  try { got = f.apply(null, args); } catch (e) { got = "t" + (e.name || e); }
  function md(i) { ml.push("d" + i); if (th === i) throw "D" + i; return "D" + i; }
  try {
    var a = n < 1 || ka === 1 ? md(0) : v(ka, "A"), b;
    if (n < 2 || kb === 1) { md(2); b = "x"; } else if (kb === 2) throw "TypeError"; else b = md(1);
    want = [n, a + "!", b, a, n > 3 ? "R" : undefined, b].join();
  } catch (e) { want = "t" + e; }
  eq(log.join(), ml.join(), "parameters: effects"); eq(got, want, "parameters: values"); eq(f.length, 0, "parameters: length");
});
scenario("names", function () {
  var which = symInt("w", 0, 5), o = {}, r;
  var { a = function () { }, ["b"]: b = () => 1, c = class { } } = o, [d = async () => 1, e = function* () { }] = [], f, g;
  [f = class { static name = "own"; }, g = (function () { })] = [];
  r = [a, b, c, d, e, g][which];
  eq(r.name, "abcdeg"[which], "an anonymous default takes the name of its target");
  eq(f.name, "own", "a static name wins");
});
scenario("strings-and-arrays", function () {
  var n = symInt("n", 0, 3), pt = symBool("pt"), s = "x\u{1F600}y".slice(0, n === 0 ? 0 : n === 1 ? 1 : n + 1), a = [..."ab"], log = [], old = Array.prototype[Symbol.iterator];
  var [p, q, ...r] = s;
  eq(S2([p, q, r]), S2([n > 0 ? "x" : undefined, n > 1 ? "\u{1F600}" : undefined, n > 2 ? ["y"] : []]), "strings are split at code points");
  if (pt) Array.prototype[Symbol.iterator] = function () { log.push("I"); return old.call([7]); };
  var x, y, z;
  try { [x, y] = a; z = [...a].length; (function (...u) { z += "," + u.length; })(...a); } finally { Array.prototype[Symbol.iterator] = old; }
  eq(S2([x, y, z]), pt ? "[7,u,1,1]" : "[a,b,2,2]", "a replaced array iterator is used everywhere");
});
