// Every Array method performs exactly the property operations of its definition, in order.
// The oracle is a transliteration of the definitions: it is run on an observed copy of the receiver, the built-in method
// on another, and their operation logs, results and final states are compared.  An operation may fail at any point.
function observe(target, S) {
  function op(c, k) { S.log.push(c + (typeof k === "symbol" ? "@" + k.description : k)); S.n++; if (S.n === S.fuse) { if (S.how || c !== "s" && c !== "d") throw "stop"; return false } return true }
  return new Proxy(target, {
    has: function (t, k) { op("h", k); return Reflect.has(t, k) },
    get: function (t, k) { op("g", k); return Reflect.get(t, k) },
    set: function (t, k, v) { return op("s", k) ? Reflect.set(t, k, v) : false },
    deleteProperty: function (t, k) { return op("d", k) ? Reflect.deleteProperty(t, k) : false },
    defineProperty: function (t, k, d) { op("D", k); return Reflect.defineProperty(t, k, d) },
    getOwnPropertyDescriptor: function (t, k) { op("G", k); return Reflect.getOwnPropertyDescriptor(t, k) },
    ownKeys: function (t) { op("K", ""); return Reflect.ownKeys(t) }
  });
}
function put(O, k, v) { if (!Reflect.set(O, k, v, O)) throw new TypeError }
function del(O, k) { if (!Reflect.deleteProperty(O, k)) throw new TypeError }
function has(O, k) { return Reflect.has(O, k) }
function len(O) { var n = toInt(O.length); return n <= 0 ? 0 : n > 9007199254740991 ? 9007199254740991 : n }
function toInt(v) { v = Number(v); return v !== v ? 0 : Math.trunc(v) }
function rel(v, n) { v = toInt(v); return v < 0 ? (v + n < 0 ? 0 : v + n) : v > n ? n : v }
function fn(f) { if (typeof f !== "function") throw new TypeError }
function species(O) { if (Array.isArray(O)) O.constructor; return [] }
function make(A, k, v) { Object.defineProperty(A, k, { value: v, writable: true, enumerable: true, configurable: true }) }
function move(O, from, to) { if (has(O, from)) { var v = O[from]; put(O, to, v) } else del(O, to) }
var SPEC = {
  at: function (O, a) { var n = len(O), k = toInt(a[0]); if (k < 0) k += n; return k < 0 || k >= n ? undefined : O[k] },
  concat: function (O, a) { var A = species(O), n = 0; [O].concat(a).forEach(function (E) { var s = false, i; if (E !== null && typeof E === "object") { s = E[Symbol.isConcatSpreadable]; s = s === undefined ? Array.isArray(E) : !!s } if (s) { var l = len(E); for (i = 0; i < l; i++, n++) if (has(E, i)) make(A, n, E[i]) } else make(A, n++, E) }); A.length = n; return A },
  copyWithin: function (O, a) { var n = len(O), to = rel(a[0], n), from = rel(a[1], n), f = a[2] === undefined ? n : rel(a[2], n), c = f - from, d = 1; if (c > n - to) c = n - to; if (from < to && to < from + c) { d = -1; from += c - 1; to += c - 1 } for (; c > 0; c--, from += d, to += d) move(O, from, to); return O },
  every: function (O, a) { var n = len(O), i; fn(a[0]); for (i = 0; i < n; i++) if (has(O, i)) { if (!a[0].call(a[1], O[i], i, O)) return false } return true },
  fill: function (O, a) { var n = len(O), k = rel(a[1], n), f = a[2] === undefined ? n : rel(a[2], n); for (; k < f; k++) put(O, k, a[0]); return O },
  filter: function (O, a) { var n = len(O), A, to = 0, i, v; fn(a[0]); A = species(O); for (i = 0; i < n; i++) if (has(O, i)) { v = O[i]; if (a[0].call(a[1], v, i, O)) make(A, to++, v) } return A },
  find: function (O, a) { var n = len(O), i, v; fn(a[0]); for (i = 0; i < n; i++) { v = O[i]; if (a[0].call(a[1], v, i, O)) return v } },
  findIndex: function (O, a) { var n = len(O), i; fn(a[0]); for (i = 0; i < n; i++) if (a[0].call(a[1], O[i], i, O)) return i; return -1 },
  findLast: function (O, a) { var n = len(O), i, v; fn(a[0]); for (i = n - 1; i >= 0; i--) { v = O[i]; if (a[0].call(a[1], v, i, O)) return v } },
  findLastIndex: function (O, a) { var n = len(O), i; fn(a[0]); for (i = n - 1; i >= 0; i--) if (a[0].call(a[1], O[i], i, O)) return i; return -1 },
  flat: function (O, a) { var n = len(O), d = 1, A, i, to = 0; if (a[0] !== undefined) d = toInt(a[0]); A = species(O); for (i = 0; i < n; i++) if (has(O, i)) make(A, to++, O[i]); return A },
  flatMap: function (O, a) { var n = len(O), A, i, to = 0; fn(a[0]); A = species(O); for (i = 0; i < n; i++) if (has(O, i)) make(A, to++, a[0].call(a[1], O[i], i, O)); return A },
  forEach: function (O, a) { var n = len(O), i; fn(a[0]); for (i = 0; i < n; i++) if (has(O, i)) a[0].call(a[1], O[i], i, O) },
  includes: function (O, a) { var n = len(O), k, v; if (!n) return false; k = rel(a[1], n); for (; k < n; k++) { v = O[k]; if (v === a[0] || v !== v && a[0] !== a[0]) return true } return false },
  indexOf: function (O, a) { var n = len(O), k; if (!n) return -1; k = rel(a[1], n); for (; k < n; k++) if (has(O, k)) { if (O[k] === a[0]) return k } return -1 },
  join: function (O, a) { var n = len(O), s = a[0] === undefined ? "," : String(a[0]), r = "", i, v; for (i = 0; i < n; i++) { if (i) r += s; v = O[i]; if (v !== undefined && v !== null) r += String(v) } return r },
  lastIndexOf: function (O, a) { var n = len(O), k; if (!n) return -1; k = a.length > 1 ? toInt(a[1]) : n - 1; k = k < 0 ? k + n : k > n - 1 ? n - 1 : k; for (; k >= 0; k--) if (has(O, k)) { if (O[k] === a[0]) return k } return -1 },
  map: function (O, a) { var n = len(O), A, i; fn(a[0]); A = species(O); A.length = n; for (i = 0; i < n; i++) if (has(O, i)) make(A, i, a[0].call(a[1], O[i], i, O)); return A },
  pop: function (O) { var n = len(O), v; if (!n) { put(O, "length", 0); return } v = O[n - 1]; del(O, n - 1); put(O, "length", n - 1); return v },
  push: function (O, a) { var n = len(O), i; if (n + a.length > 9007199254740991) throw new TypeError; for (i = 0; i < a.length; i++) put(O, n++, a[i]); put(O, "length", n); return n },
  reduce: function (O, a) { var n = len(O), i = 0, acc, any = a.length > 1; fn(a[0]); if (any) acc = a[1]; for (; i < n && !any; i++) if (has(O, i)) { acc = O[i]; any = true } if (!any) throw new TypeError; for (; i < n; i++) if (has(O, i)) acc = a[0].call(undefined, acc, O[i], i, O); return acc },
  reduceRight: function (O, a) { var n = len(O), i = n - 1, acc, any = a.length > 1; fn(a[0]); if (any) acc = a[1]; for (; i >= 0 && !any; i--) if (has(O, i)) { acc = O[i]; any = true } if (!any) throw new TypeError; for (; i >= 0; i--) if (has(O, i)) acc = a[0].call(undefined, acc, O[i], i, O); return acc },
  reverse: function (O) { var n = len(O), l, u, lv, uv, le, ue; for (l = 0; l < Math.floor(n / 2); l++) { u = n - 1 - l; le = has(O, l); if (le) lv = O[l]; ue = has(O, u); if (ue) uv = O[u]; if (le && ue) { put(O, l, uv); put(O, u, lv) } else if (ue) { put(O, l, uv); del(O, u) } else if (le) { del(O, l); put(O, u, lv) } } return O },
  shift: function (O) { var n = len(O), v, k; if (!n) { put(O, "length", 0); return } v = O[0]; for (k = 1; k < n; k++) move(O, k, k - 1); del(O, n - 1); put(O, "length", n - 1); return v },
  slice: function (O, a) { var n = len(O), k = rel(a[0], n), f = a[1] === undefined ? n : rel(a[1], n), A = species(O), to = 0; for (; k < f; k++, to++) if (has(O, k)) make(A, to, O[k]); A.length = to; return A },
  some: function (O, a) { var n = len(O), i; fn(a[0]); for (i = 0; i < n; i++) if (has(O, i)) { if (a[0].call(a[1], O[i], i, O)) return true } return false },
  sort: function (O, a) { if (a[0] !== undefined) fn(a[0]); var n = len(O), L = [], i; for (i = 0; i < n; i++) if (has(O, i)) L.push(O[i]); order(L, a[0]); for (i = 0; i < L.length; i++) put(O, i, L[i]); for (; i < n; i++) del(O, i); return O },
  splice: function (O, a) { var n = len(O), s = rel(a[0], n), c = Math.max(a.length - 2, 0), d, A, k, i; if (a.length === 0) d = 0; else if (a.length === 1) d = n - s; else { d = toInt(a[1]); d = d < 0 ? 0 : d > n - s ? n - s : d } if (n + c - d > 9007199254740991) throw new TypeError; A = species(O); for (k = 0; k < d; k++) if (has(O, s + k)) make(A, k, O[s + k]); A.length = d; if (c < d) { for (k = s; k < n - d; k++) move(O, k + d, k + c); for (k = n; k > n - d + c; k--) del(O, k - 1) } else if (c > d) for (k = n - d; k > s; k--) move(O, k + d - 1, k + c - 1); for (i = 0; i < c; i++) put(O, s + i, a[i + 2]); put(O, "length", n - d + c); return A },
  toReversed: function (O) { var n = len(O), A = [], k; for (k = 0; k < n; k++) make(A, k, O[n - k - 1]); return A },
  toSorted: function (O, a) { if (a[0] !== undefined) fn(a[0]); var n = len(O), L = [], i; for (i = 0; i < n; i++) make(L, i, O[i]); order(L, a[0]); return L },
  toSpliced: function (O, a) { var n = len(O), s = rel(a[0], n), c = Math.max(a.length - 2, 0), d, A = [], i, k; if (a.length === 0) d = 0; else if (a.length === 1) d = n - s; else { d = toInt(a[1]); d = d < 0 ? 0 : d > n - s ? n - s : d } for (i = 0; i < s; i++) make(A, i, O[i]); for (k = 0; k < c; k++) make(A, i++, a[k + 2]); for (k = s + d; k < n; k++) make(A, i++, O[k]); return A },
  toString: function (O) { var j = O.join; return typeof j === "function" ? SPEC.join(O, []) : Object.prototype.toString.call(O) },
  unshift: function (O, a) { var n = len(O), c = a.length, k; if (c) { if (n + c > 9007199254740991) throw new TypeError; for (k = n; k > 0; k--) move(O, k - 1, k + c - 1); for (k = 0; k < c; k++) put(O, k, a[k]) } put(O, "length", n + c); return n + c },
  "with": function (O, a) { var n = len(O), k = toInt(a[0]), A = [], i; if (k < 0) k += n; if (k < 0 || k >= n) throw new RangeError; for (i = 0; i < n; i++) make(A, i, i === k ? a[1] : O[i]); return A }
};
function order(L, f) { var i, j, v, c; function less(x, y) { if (x === undefined) return false; if (y === undefined) return true; return f ? f(x, y) < 0 : String(x) < String(y) } for (i = 1; i < L.length; i++) { v = L[i]; for (j = i; j > 0 && less(v, L[j - 1]); j--) L[j] = L[j - 1]; L[j] = v } }
// One receiver: an array or an array-like of length n whose elements in the window are present as m tells.
function receiver(arr, n, m, v) { var t, i, W = m.length; if (arr) { t = []; t.length = n } else { t = { length: n, "-1": "before", x: 1 } } for (i = 0; i < W; i++) if (m[i]) t[i] = m[i] === 2 ? undefined : i === 1 ? v : i + 10; return t }
function presence(W) { var m = [], i; for (i = 0; i < W; i++) m.push(!symBool("m" + i) ? 0 : i === 2 && symBool("undef") ? 2 : 1); return m }
function show(x, P) { return x === P ? "SELF" : typeof x === "string" ? "'" + x + "'" : x === null || typeof x !== "object" && typeof x !== "function" ? String(x) : Array.isArray(x) ? "[]" : "?" }
function state(t) { var r = [], i, k = Reflect.ownKeys(t); for (i = 0; i < k.length; i++) r.push(String(k[i]) + ":" + show(t[k[i]])); return r.sort().join() }
function describe(r, P) { if (!Array.isArray(r) || r === P) return show(r, P); var s = "", i; for (i = 0; i < r.length; i++) s += (i in r ? show(r[i], P) : "-") + ";"; return "A" + r.length + ":" + s }
function trace(m, args, S, t, builtin) { var P = observe(t, S), a = args(S, P, t), r; try { r = builtin ? Array.prototype[m].apply(P, a) : SPEC[m](P, a); r = "=" + describe(r, P) } catch (e) { r = "!" + (typeof e === "string" ? e : e instanceof TypeError ? "TypeError" : e instanceof RangeError ? "RangeError" : "other") } return r + " | " + S.log.join() + " | " + state(t) }
function compare(m, args, arr, n, mask, v, fuse, how) { var x = trace(m, args, { log: [], n: 0, fuse: fuse, how: how }, receiver(arr, n, mask, v), true), y = trace(m, args, { log: [], n: 0, fuse: fuse, how: how }, receiver(arr, n, mask, v), false); eq(x, y, m) }
function num(S, name, v, wrapped) { return wrapped ? { valueOf: function () { S.log.push("v" + name); S.n++; if (S.n === S.fuse) throw "stop"; return v } } : v }
// The callback may change the receiver at one of its calls.
function callback(S, P, t, effect, at, want) { var c = 0; return function () { var k = arguments.length - 2, i = arguments[k], x = arguments[k - 1]; S.log.push("c" + i + (arguments[k + 1] === P) + (this === undefined)); S.n++; if (S.n === S.fuse) throw "stop"; if (c++ === at) { if (effect === 1) delete t[i + 1]; if (effect === 2) t[i + 1] = 99; if (effect === 3) t.length = i; if (effect === 4) t[i - 1] = 77 } return x === want } }
var N = typeof DEEP === "undefined" ? 3 : 5;
var CB = { every: 1, filter: 1, find: 1, findIndex: 1, findLast: 1, findLastIndex: 1, flatMap: 1, forEach: 1, map: 1, some: 1, reduce: 1, reduceRight: 1 };
var NUMS = { at: [0], copyWithin: [0, 1, 2], fill: [1, 2], flat: [0], includes: [1], indexOf: [1], lastIndexOf: [1], slice: [0, 1], splice: [0, 1], toSpliced: [0, 1], "with": [0] };
var ARGC = { at: [0, 1], concat: [0, 2], copyWithin: [1, 3], fill: [1, 3], flat: [0, 1], includes: [1, 2], indexOf: [1, 2], lastIndexOf: [1, 2], join: [0, 1], pop: [0, 0], push: [0, 3], reverse: [0, 0], shift: [0, 0], slice: [0, 2], sort: [0, 1], splice: [0, 5], toReversed: [0, 0], toSorted: [0, 1], toSpliced: [0, 5], toString: [0, 0], unshift: [0, 3], "with": [1, 2] };
Object.keys(SPEC).forEach(function (m) {
  if (typeof Array.prototype[m] !== "function") return;
  scenario(m, function () {
    var arr = symBool("arr"), n = conc(symInt("n", 0, N)), mask = presence(arr ? n : n + 1), fuse = symInt("fuse", 0, 20), how = symBool("how"), v = symInt("v", 9, 12), c, w, effect, at, seed;
    if (CB[m]) {
      effect = conc(symInt("effect", 0, 4)); at = conc(symInt("at", 0, 2)); w = symInt("w", 10, 13); seed = symBool("seed"); c = conc(symInt("bad", 0, 9)) === 9;
      compare(m, function (S, P, t) { var f = c ? {} : callback(S, P, t, effect, at, w); return seed ? [f, undefined] : [f] }, arr, n, mask, v, fuse, how);
    } else {
      c = conc(symInt("argc", ARGC[m][0], ARGC[m][1])); w = symBool("wrapped"); var Q = NUMS[m] || [], p = [symInt("p0", -6, 6), symInt("p1", -6, 6), symInt("p2", -6, 6)], u = conc(symInt("u", -1, 2));
      compare(m, function (S, P, t) {
        var a = [], i; for (i = 0; i < c; i++) {
          if (m === "sort" || m === "toSorted") a.push(u === 0 ? undefined : u === 1 ? "bad" : function (x, y) { return y - x });
          else if (m === "join") a.push(u === 0 ? undefined : { toString: function () { S.log.push("t"); return "-" } });
          else if (m === "concat") a.push(u === 0 ? P : u === 1 ? [1, , 2] : i);
          else if (Q.indexOf(i) >= 0) a.push(u === i ? undefined : num(S, i, p[i], w));
          else a.push(i < 2 && (m === "includes" || m === "indexOf" || m === "lastIndexOf") ? p[2] + 8 : i === u ? undefined : 50 + i)
        } return a
      }, arr, n, mask, v, fuse, how);
    }
  }, m === "splice" || m === "copyWithin" || m === "unshift" ? 2 : 1);
});
// Lengths of any kind: each method applied to an array-like object whose length is not a small integer.
scenario("length_kinds", function () {
  var k = conc(symInt("k", 0, 11)), L = [undefined, null, NaN, -1, -Infinity, 1.9, "2", true, "x", 4294967296, 9007199254740991, Infinity][k], ms = k < 9 ? ["at", "every", "fill", "indexOf", "includes", "join", "pop", "push", "reverse", "shift", "slice", "splice", "unshift", "toReversed", "lastIndexOf", "map", "copyWithin"] : ["at", "push", "pop", "find", "some", "indexOf", "includes", "unshift", "splice"], m = ms[conc(symInt("method", 0, ms.length - 1))], p = symInt("p", -2, 2);
  function run(b) { var S = { log: [], n: 0, fuse: 0, how: true }, t = { 0: 1, 1: 2, 2: 3, 9007199254740990: 7 }; t.length = L; return trace(m, function () { return m === "at" || m === "slice" ? [p] : m === "fill" ? [5, p] : m === "push" ? [4] : m === "unshift" ? [6] : m === "splice" ? [k < 9 ? p : -1, 1] : m === "indexOf" || m === "includes" || m === "lastIndexOf" ? [k < 9 ? p : 1] : m === "join" || m === "pop" || m === "shift" || m === "reverse" || m === "toReversed" ? [] : m === "copyWithin" ? [0, p] : [function (x) { return x === 1 }] }, S, t, b) }
  assume(!(k === 9 && m === "unshift")); if (m === "every" || m === "map") eq(1, 1);
  eq(run(true), run(false), m);
}, 2);
// Arrays that the language creates hold own data properties, whatever Array.prototype or Object.prototype defines at the index.
var MAKERS = [
  ["split", function () { return "a,b".split(",") }], ["split empty", function () { return "ab".split("") }], ["split regexp", function () { return "a1b".split(/\d/) }], ["parse", function () { return JSON.parse("[1,2]") }], ["parse nested", function () { return JSON.parse('{"x":[1,[2]]}').x[1] }], ["parse reviver", function () { return JSON.parse("[1,2]", function (k, v) { return v }) }],
  ["entries", function () { return new Map([[1, 2]]).entries().next().value }], ["set entries", function () { return new Set([1]).entries().next().value }], ["array entries", function () { return [5].entries().next().value }], ["object entries", function () { return Object.entries({ a: 1 })[0] }], ["object keys", function () { return Object.keys({ a: 1, b: 2 }) }], ["object values", function () { return Object.values({ a: 1 }) }], ["own keys", function () { return Reflect.ownKeys({ a: 1, b: 2 }) }], ["own names", function () { return Object.getOwnPropertyNames({ a: 1 }) }], ["own symbols", function () { var x = {}; x[Symbol.iterator] = 1; return Object.getOwnPropertySymbols(x) }],
  ["exec", function () { return /(a)(b)?/.exec("xab") }], ["match", function () { return "aba".match(/a/g) }], ["matchAll", function () { return "aba".matchAll(/a/g).next().value }], ["replace arguments", function () { var r; "ab".replace(/(a)(b)/, function (...x) { r = x }); return r }],
  ["literal", function () { return [1, 2] }], ["spread", function () { return [...new Set([1, 2])] }], ["rest", function () { return (function (...r) { return r })(1, 2) }], ["destructured rest", function () { var [...r] = new Set([1, 2]); return r }], ["arguments", function () { return (function () { return arguments })(1, 2) }], ["strict arguments", function () { return (function () { "use strict"; return arguments })(1, 2) }], ["template", function () { return (function (s) { return s })`a${1}b` }], ["raw", function () { return (function (s) { return s.raw })`a${1}b` }],
  ["from", function () { return Array.from({ length: 2, 0: 1, 1: 2 }) }], ["from iterable", function () { return Array.from(new Set([1, 2])) }], ["of", function () { return Array.of(1, 2) }], ["Array", function () { return Array(1, 2) }], ["slice", function () { return [1, 2].slice() }], ["slice arguments", function () { return (function () { return Array.prototype.slice.call(arguments) })(1, 2) }], ["map", function () { return [1, 2].map(ident) }], ["filter", function () { return [1, 2].filter(function () { return true }) }], ["concat", function () { return [1].concat(2) }], ["flat", function () { return [[1], 2].flat() }], ["flatMap", function () { return [1, 2].flatMap(ident) }], ["splice", function () { return [1, 2].splice(0, 2) }], ["toReversed", function () { return [1, 2].toReversed() }], ["toSorted", function () { return [2, 1].toSorted() }], ["toSpliced", function () { return [1, 2].toSpliced(1, 0, 3) }], ["with", function () { return [1, 2].with(0, 3) }],
  ["proxy apply", function () { var r; new Proxy(function () { }, { apply: function (t, h, a) { r = a } })(1, 2); return r }], ["proxy construct", function () { var r; new (new Proxy(function () { }, { construct: function (t, a) { r = a; return {} } }))(1, 2); return r }], ["stringify wrapper", function () { var r; JSON.stringify([1], function (k, v) { if (k === "0") r = [v]; return v }); return r }], ["fromEntries", function () { return Object.fromEntries([["0", 1]]) }], ["object literal", function () { return { 0: 1, 1: 2 } }], ["object spread", function () { return { ...[1, 2] } }], ["class field", function () { class C { 0 = 1 } return new C }], ["groups", function () { return { ... "ab" } }], ["typed", function () { return new Uint8Array([1, 2]) }], ["typed map", function () { return new Uint8Array([1, 2]).map(ident) }]
];
scenario("created_arrays", function () {
  var m = MAKERS[conc(symInt("m", 0, MAKERS.length - 1))], k = conc(symInt("index", 0, 1)), kind = conc(symInt("kind", 0, 3)), where = symBool("object") ? Object.prototype : Array.prototype, called = 0, r, d, e;
  var clean = m[1]();
  Object.defineProperty(where, k, kind === 0 ? { get: function () { return "bad" }, set: function () { called++ }, configurable: true } : kind === 1 ? { get: function () { return "bad" }, set: undefined, configurable: true } : kind === 2 ? { value: "bad", writable: false, configurable: true } : { get: undefined, set: function () { called++; throw "bad" }, configurable: true });
  try { r = m[1]() } catch (x) { e = x } delete where[k];
  eq(e === undefined, true, m[0] + " completes"); eq(called, 0, m[0] + " calls no setter"); d = Object.getOwnPropertyDescriptor(r, k); var w = Object.getOwnPropertyDescriptor(clean, k);
  eq(d === undefined, w === undefined, m[0] + " own property"); if (w) { eq("value" in d, true, m[0] + " data property"); if (typeof w.value !== "object") eq(d.value, w.value, m[0] + " value"); eq(d.enumerable, w.enumerable, "enumerable"); eq(d.configurable, w.configurable, "configurable"); eq(d.writable, w.writable, "writable") } eq(r.length, clean.length, m[0] + " length");
}, 2);
scenario("settled_arrays", function () {
  var k = conc(symInt("index", 0, 1)), m = conc(symInt("m", 0, 2)), v = symInt("v", 0, 9), called = 0, done, r;
  Object.defineProperty(Array.prototype, k, { get: function () { return "bad" }, set: function () { called++ }, configurable: true });
  function put(x) { r = m === 2 ? x.errors : x; done = r && Object.getOwnPropertyDescriptor(r, k); delete Array.prototype[k] }
  var q = Promise[["all", "allSettled", "any"][m]](new Set([m === 2 ? Promise.reject(v) : v, m === 2 ? Promise.reject(v + 1) : v + 1]));
  delete Array.prototype[k]; q.constructor = Promise;
  Object.defineProperty(Array.prototype, k, { get: function () { return "bad" }, set: function () { called++ }, configurable: true });
  q.then(put, put);
  final(function () { delete Array.prototype[k]; eq(called, 0, "no setter"); eq(done !== undefined && "value" in done, true, "own data property"); if (done) { if (m === 1) eq(done.value.value, v + k, "value"); else eq(done.value, v + k, "value") } });
});
