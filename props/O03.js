// Key order: ownKeys, for-in, keys/values/entries, assign, spread and JSON list properties in the specified order.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var S1 = Symbol("1"), S2 = Symbol("2");
var KEYS = ["b", "1", "0", S1, "a", "-1", "01", "4294967294", "4294967295", "10", S2, "2", "1.5", "", "4294967296", "9007199254740991"];
function isIdx(k) { return typeof k === "string" && String(k >>> 0) === k && k >>> 0 !== 4294967295 }
function order(ks) { var a = [], b = [], c = [], i, j; for (i = 0; i < ks.length; i++) { var k = ks[i]; if (isIdx(k)) { for (j = 0; j < a.length && +a[j] < +k; j++); a.splice(j, 0, k) } else if (typeof k === "string") b.push(k); else c.push(k) } return a.concat(b, c) }
function list(r, w, msg) { eq(r.length, w.length, msg + " count"); for (var i = 0; i < w.length; i++) eq(r[i], w[i], msg + " " + i) }
function strs(w) { return w.filter(function (k) { return typeof k === "string" }) }
function model(ks, k) { if (ks.indexOf(k) < 0) ks.push(k) }
scenario("insertion", function () { var o = {}, ks = [], i; for (i = 0; i < 3; i++) { var k = KEYS[conc(symInt("k" + i, 0, KEYS.length - 1))]; o[k] = i; model(ks, k) } var w = order(ks); list(Reflect.ownKeys(o), w, "ownKeys"); list(Object.keys(o), strs(w), "keys"); list(Object.getOwnPropertyNames(o), strs(w), "names"); var f = []; for (var x in o) f.push(x); list(f, strs(w), "for-in"); }, 6);
scenario("insert_delete", function () { var o = {}, ks = [], i; for (i = 0; i < 5; i++) { var k = KEYS[conc(symInt("k" + i, 0, 3))]; if (symBool("d" + i)) { delete o[k]; var j = ks.indexOf(k); if (j >= 0) ks.splice(j, 1) } else { o[k] = i; model(ks, k) } } list(Reflect.ownKeys(o), order(ks), "ownKeys"); }, 5);
scenario("index_numbers", function () { var a = symInt("a", 0, 99), b = symInt("b", 0, 99), o = {}; o[a] = 1; o[b] = 2; var k = Object.keys(o); eq(k.length, a === b ? 1 : 2, "count"); eq(k[0], String(a < b ? a : b), "ascending"); }, 3);
scenario("array_keys", function () { var a = [1, , 3], i = conc(symInt("i", 0, 5)), n = KEYS[conc(symInt("n", 0, 8))]; a[i] = 7; a[n] = 8; var ks = ["0", "2"]; model(ks, String(i)); ks.push("length"); model(ks, n); var w = order(ks); list(Reflect.ownKeys(a), w, "ownKeys"); });
scenario("function_keys", function () { var k = conc(symInt("k", 0, 5)), f = [function (a) { }, (a) => 1, class { }, class { static m() { } }, async function g() { }, { m() { } }.m][k]; f.z = 1; f[3] = 2; list(Reflect.ownKeys(f), [["3", "length", "name", "prototype", "z"], ["3", "length", "name", "z"], ["3", "length", "name", "prototype", "z"], ["3", "length", "name", "prototype", "m", "z"], ["3", "length", "name", "z"], ["3", "length", "name", "z"]][k], "ownKeys"); });
scenario("string_object", function () { var n = conc(symInt("n", 0, 3)), s = new String("abc".slice(0, n)), k = KEYS[conc(symInt("k", 0, 8))]; var own = isIdx(k) && +k < n; if (!own) s[k] = 1; var ks = []; for (var i = 0; i < n; i++) ks.push(String(i)); ks = order(ks.concat(own || !isIdx(k) ? [] : [k])); ks.push("length"); if (!own && !isIdx(k)) ks.push(k); list(Reflect.ownKeys(s), ks, "ownKeys"); });
scenario("typed_array", function () { var n = conc(symInt("n", 0, 3)), t = new Uint8Array(n), k = KEYS[conc(symInt("k", 0, 5))], ks = [], i; for (i = 0; i < n; i++) ks.push(String(i)); t[k] = 1; if (!(typeof k === "string" && /^(0|-?[1-9][0-9]*)$/.test(k))) ks.push(k); list(Reflect.ownKeys(t), ks, "ownKeys"); });
scenario("for_in_chain", function () { var p = {}, o = Object.create(p), m = conc(symInt("m", 0, 15)), e = conc(symInt("e", 0, 3)), w = [], i, n = ["a", "b"], r = []; for (i = 0; i < 2; i++) { if (m >> i & 1) Object.defineProperty(o, n[i], { value: 1, enumerable: !!(e & 1), configurable: true }); if (m >> (i + 2) & 1) Object.defineProperty(p, n[i], { value: 2, enumerable: !!(e & 2), configurable: true }) } for (i = 0; i < 2; i++) if (m >> i & 1 && e & 1) w.push(n[i]); for (i = 0; i < 2; i++) if (m >> (i + 2) & 1 && e & 2 && !(m >> i & 1)) w.push(n[i]); for (var x in o) r.push(x); list(r, w, "own first, shadowed names once"); });
scenario("for_in_deletion", function () { var o = { a: 1, b: 2, c: 3, d: 4 }, at = conc(symInt("at", 0, 3)), del = conc(symInt("del", 0, 3)), r = [], w = [], n = "abcd", i; for (var k in o) { r.push(k); if (k === n[at]) delete o[n[del]] } for (i = 0; i < 4; i++) if (!(i === del && del > at)) w.push(n[i]); list(r, w, "deleted properties are not visited"); });
scenario("for_in_proto_deletion", function () { var p = { c: 3, d: 4 }, o = Object.create(p, { a: { value: 1, enumerable: true, configurable: true }, b: { value: 2, enumerable: true, configurable: true } }), at = conc(symInt("at", 0, 3)), del = conc(symInt("del", 2, 3)), n = "abcd", r = [], w = [], i; for (var k in o) { r.push(k); if (k === n[at]) delete p[n[del]] } for (i = 0; i < 4; i++) if (!(i === del && del > at)) w.push(n[i]); list(r, w, "visited"); });
scenario("for_in_values", function () { var k = conc(symInt("k", 0, 7)), v = [null, undefined, 5, true, "ab", Symbol(), [7, 8], function () { }][k], r = []; for (var x in v) r.push(x); list(r, [[], [], [], [], ["0", "1"], [], ["0", "1"], []][k], "for-in over any value"); });
scenario("for_in_integer_order", function () { var m = conc(symInt("m", 0, 31)), o = {}, w = [], r = [], i, n = ["10", "9", "x", "1", "y"]; for (i = 0; i < 5; i++) if (m >> i & 1) { o[n[i]] = 1; w.push(n[i]) } for (var k in o) r.push(k); list(r, order(w), "for-in"); list(Object.keys(o), order(w), "keys"); list(Object.entries(o).map(function (e) { return e[0] }), order(w), "entries"); });
scenario("copies_keep_order", function () { var m = conc(symInt("m", 0, 31)), o = {}, w = [], i, n = ["b", "7", S1, "3", "a"]; for (i = 0; i < 5; i++) if (m >> i & 1) { o[n[i]] = i; w.push(n[i]) } w = order(w); list(Reflect.ownKeys({ ...o }), w, "spread"); list(Reflect.ownKeys(Object.assign({}, o)), w, "assign"); var { zz, ...rest } = o; list(Reflect.ownKeys(rest), w, "rest"); eq(JSON.stringify(o), "{" + strs(w).map(function (k) { return '"' + k + '":' + o[k] }).join() + "}", "JSON"); list(Object.values(o), strs(w).map(function (k) { return o[k] }), "values"); });
scenario("redefinition_keeps_place", function () { var k = conc(symInt("k", 0, 2)), h = conc(symInt("h", 0, 3)), o = { a: 1, b: 2, c: 3 }, n = "abc"[k]; if (h === 0) o[n] = 9; if (h === 1) Object.defineProperty(o, n, { get() { return 1 } }); if (h === 2) Object.defineProperty(o, n, { enumerable: false }); if (h === 3) { delete o[n]; o[n] = 1 } eq(Object.getOwnPropertyNames(o).join(""), h === 3 ? "abc".replace(n, "") + n : "abc", "order"); });
scenario("literal_order", function () { var k = conc(symInt("k", 0, 5)), o = [{ b: 1, a: 2 }, { b: 1, 1: 2, a: 3, 0: 4 }, { a: 1, b: 2, a: 3 }, { [S1]: 1, a: 2 }, { get b() { }, a: 1, set b(v) { } }, { a: 1, __proto__: null, b: 2 }][k]; list(Reflect.ownKeys(o), [["b", "a"], ["0", "1", "b", "a"], ["a", "b"], ["a", S1], ["b", "a"], ["a", "b"]][k], "literal"); });
scenario("class_order", function () { class C { b() { } 1() { } static z() { } get a() { return 1 } static 0() { } [S1]() { } static y = 1 } var k = symBool("k"); if (k) list(Reflect.ownKeys(C.prototype), ["1", "constructor", "b", "a", S1], "prototype"); else list(Reflect.ownKeys(C), ["0", "length", "name", "prototype", "z", "y"], "static"); });
scenario("field_order", function () { class A { x = 1; 2 = 2; ["y"] = 3 } class B extends A { z = 4; 1 = 5 } var k = symBool("k"); list(Reflect.ownKeys(k ? new A : new B), k ? ["2", "x", "y"] : ["1", "2", "x", "y", "z"], "fields"); });
scenario("from_entries", function () { var a = conc(symInt("a", 0, 3)), b = conc(symInt("b", 0, 3)), n = ["b", "1", "a", "0"], o = Object.fromEntries([[n[a], 1], [n[b], 2]]), ks = []; model(ks, n[a]); model(ks, n[b]); list(Object.keys(o), order(ks), "keys"); eq(o[n[b]], 2, "last wins"); });
scenario("many_keys", function () { var n = conc(symInt("n", 0, 60)), s = conc(symInt("s", 0, 2)), o = {}, i; for (i = 0; i < n; i++) o[s === 0 ? "k" + i : s === 1 ? n - i : (i % 2 ? "k" : "") + i] = i; var ks = Object.keys(o); eq(ks.length, n, "count"); for (i = 0; i < n; i++) { if (s === 0) eq(ks[i], "k" + i, "insertion"); if (s === 1) eq(ks[i], String(i + 1), "ascending"); if (s === 2) { var h = (n + 1) >> 1; eq(ks[i], i < h ? String(2 * i) : "k" + (2 * (i - h) + 1), "indices first") } } });
scenario("proxy_keys", function () { var m = conc(symInt("m", 0, 7)), n = ["b", "1", S1], ks = n.filter(function (x, i) { return m >> i & 1 }), p = new Proxy({}, { ownKeys() { return ks }, getOwnPropertyDescriptor(t, k) { return k === "b" ? undefined : { value: 1, enumerable: true, configurable: true } } }); list(Reflect.ownKeys(p), ks, "trap order kept"); list(Object.keys(p), ks.filter(function (k) { return k === "1" }), "keys"); list(Object.getOwnPropertyNames(p), strs(ks), "names"); list(Object.getOwnPropertySymbols(p), ks.filter(function (k) { return typeof k === "symbol" }), "symbols"); });
scenario("arguments_keys", function () { var n = conc(symInt("n", 0, 3)), k = symBool("k"), a = (function () { return k ? arguments : (function () { "use strict"; return arguments }).apply(null, arguments) }).apply(null, [1, 2, 3].slice(0, n)), w = []; for (var i = 0; i < n; i++) w.push(String(i)); w.push("length", "callee", Symbol.iterator); var r = Reflect.ownKeys(a); eq(r.length, w.length, "count"); for (i = 0; i < n; i++) eq(r[i], w[i], "index"); eq(typeof r[r.length - 1], "symbol", "symbols last"); });
scenario("proxy_key_orders", function () { var p = conc(symInt("p", 0, 5)), m = conc(symInt("m", 0, 7)), d = conc(symInt("d", 0, 7)), n = ["b", "1", S1], O = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p], ks = [], st = [], en = [], sy = [], r = [], k, i;
  for (i = 0; i < 3; i++) if (m >> O[i] & 1) { k = n[O[i]]; ks.push(k); if (typeof k === "string") { st.push(k); if (!(d >> O[i] & 1)) en.push(k) } else sy.push(k) }
  var o = new Proxy({}, { ownKeys: function () { return ks }, getOwnPropertyDescriptor: function (t, k) { return { value: 5, enumerable: !(d >> n.indexOf(k) & 1), configurable: true } }, get: function () { return 5 } });
  for (k in o) r.push(k); list(r, en, "for-in"); list(Object.keys(o), en, "keys"); list(Object.getOwnPropertyNames(o), st, "names"); list(Object.getOwnPropertySymbols(o), sy, "symbols"); eq(Reflect.ownKeys({ ...o }).length, en.length + (sy.length && !(d >> 2 & 1) ? 1 : 0), "spread"); r = []; for (k in Object.create(o)) r.push(k); list(r, en, "for-in through the chain") });
