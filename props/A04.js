// Array length and indexed properties: the exotic object's invariants under any order of operations.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function inv(a, msg) { var ks = Object.getOwnPropertyNames(a), top = -1; for (var i = 0; i < ks.length; i++) { var n = ks[i] >>> 0; if (String(n) === ks[i] && n !== 4294967295 && n > top) top = n } check(a.length > top, msg + ": length above every index"); }
scenario("set_length", function () { var n = conc(symInt("n", 0, 5)), l = symInt("l", -2, 8), a = [], i; for (i = 0; i < n; i++) a[i] = i + 1; var r = err(function () { a.length = l }); eq(r, l < 0 ? "RangeError" : "none", "range"); if (l < 0) { eq(a.length, n, "unchanged"); return } eq(a.length, l, "length"); for (i = 0; i < 8; i++) { eq(i in a, i < n && i < l, "kept"); eq(a[i], i < n && i < l ? i + 1 : undefined, "value") } });
scenario("length_value", function () { var k = conc(symInt("k", 0, 11)), v = ["3", 3.0, 3.5, NaN, -1, 4294967296, 4294967295, "abc", true, null, undefined, [4]][k], a = [1, 2], r = err(function () { a.length = v }), ok = [1, 1, 0, 0, 0, 0, 1, 0, 1, 1, 0, 1][k]; eq(r, ok ? "none" : "RangeError", "accepted"); eq(a.length, ok ? [3, 3, 0, 0, 0, 0, 4294967295, 0, 1, 0, 0, 4][k] : 2, "length"); });
scenario("length_conversions", function () { var log = "", v = symInt("v", -1, 5), a = [1, 2, 3], r = err(function () { a.length = { valueOf() { log += "v"; return v } } }); eq(log, "vv", "converted twice"); eq(a.length, v < 0 ? 3 : v, "length"); });
scenario("write_beyond", function () { var i = symInt("i", -2, 12), a = [1, 2, 3]; a[i] = 9; eq(a.length, i > 2 ? i + 1 : 3, "length grows"); eq(a[i], 9, "value"); inv(a, "write"); for (var k = 0; k < 3; k++) eq(a[k], k === i ? 9 : k + 1, "others"); eq(Object.keys(a).length, i >= 0 && i < 3 ? 3 : 4, "one new key"); });
scenario("index_strings", function () { var k = conc(symInt("k", 0, 11)), s = ["0", "00", "+1", "1.0", "4294967294", "4294967295", "4294967296", "-0", "1e1", " 1", "01", "999999"][k], a = []; a[s] = 1; eq(a.length, [1, 0, 0, 0, 4294967295, 0, 0, 0, 0, 0, 0, 1000000][k], "only canonical indices below 2^32-1 count"); eq(a[s], 1, "stored"); inv(a, "index"); eq(Object.keys(a)[0], s, "name"); a.length = 0; eq(s in a, [0, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 0][k] === 1, "length 0 removes indices only"); });
scenario("index_numbers", function () { var k = conc(symInt("k", 0, 7)), v = [-0, 1.5, -1, 4294967294, 4294967295, 1e21, NaN, 2][k], a = []; a[v] = 1; eq(a.length, [1, 0, 0, 4294967295, 0, 0, 0, 3][k], "length"); eq(a[String(v)], 1, "same property as its string"); });
scenario("delete", function () { var n = conc(symInt("n", 0, 4)), i = symInt("i", -1, 5), a = [], k; for (k = 0; k < n; k++) a[k] = k; eq(delete a[i], true, "delete"); eq(a.length, n, "length stays"); eq(i in a, false, "gone"); for (k = 0; k < n; k++) if (k !== i) eq(a[k], k, "others"); eq(delete [].length, false, "length stays"); });
scenario("frozen_element", function () { var p = conc(symInt("p", 0, 3)), l = symInt("l", 0, 6), a = [1, 2, 3, 4]; Object.defineProperty(a, p, { value: 7, configurable: false }); a.length = l; eq(a.length, l > p ? l : p + 1, "shrinking stops above a non-configurable element"); eq(a[p], 7, "kept"); inv(a, "frozen"); eq(err(function () { "use strict"; a.length = 0 }), "TypeError", "strict"); eq(a.length, p + 1, "stopped"); eq(Reflect.defineProperty(a, "length", { value: 0, writable: false }), false, "define"); eq(Object.getOwnPropertyDescriptor(a, "length").writable, false, "writable false is still applied"); });
scenario("readonly_length", function () { var i = symInt("i", 0, 5), a = [1, 2, 3]; Object.defineProperty(a, "length", { writable: false }); a[i] = 9; eq(a.length, 3, "fixed"); eq(a[i], i < 3 ? 9 : undefined, "only existing indices"); eq(err(function () { "use strict"; a[i] = 8 }), i < 3 ? "none" : "TypeError", "strict"); eq(err(function () { a.push(1) }), "TypeError", "push"); eq(err(function () { a.pop() }), "TypeError", "pop"); eq(a.length, 3, "still fixed"); eq(err(function () { Object.defineProperty(a, "length", { value: 3 }) }), "none", "same value"); eq(err(function () { Object.defineProperty(a, "length", { value: i }) }), i === 3 ? "none" : "TypeError", "other value"); eq(err(function () { Object.defineProperty(a, "length", { writable: true }) }), "TypeError", "not configurable"); eq(err(function () { Object.defineProperty(a, "length", { get() { } }) }), "TypeError", "accessor"); });
scenario("history", function () { var a = [], m = {}, len = 0, n = 3; for (var s = 0; s < n; s++) { var op = conc(symInt("op", 0, 5)), i = conc(symInt("i", 0, 3)); if (op === 0) { a[i] = s + 1; m[i] = s + 1; if (i >= len) len = i + 1 } else if (op === 1) { delete a[i]; delete m[i] } else if (op === 2) { a.length = i; for (var k = i; k < 8; k++) delete m[k]; len = i } else if (op === 3) { a.push(s + 1); m[len++] = s + 1 } else if (op === 4) { var r = a.pop(); if (len) { eq(r, m[len - 1], "pop"); delete m[len - 1]; len-- } } else { r = a.shift(); eq(r, len ? m[0] : undefined, "shift"); if (len) { for (var k = 0; k < len - 1; k++) if (k + 1 in m) m[k] = m[k + 1]; else delete m[k]; delete m[len - 1]; len-- } } } eq(a.length, len, "length"); for (var k = 0; k < 8; k++) { eq(k in a, k in m, "has " + k); eq(a[k], m[k], "item " + k) } inv(a, "history"); }, 10);
scenario("history_wide", function () { var k, a = [1, 2], m = { 0: 1, 1: 2 }, len = 2; for (var s = 0; s < 2; s++) { var op = conc(symInt("op", 0, 3)), i = conc(symInt("i", 0, 5)); i = [0, 1, 31, 70, 1000, 70000][i]; if (op === 0) { a[i] = s + 5; if (m[i] !== "g") m[i] = s + 5; if (i >= len) len = i + 1 } else if (op === 1) { delete a[i]; delete m[i] } else if (op === 2) { a.length = i; for (k in m) if (k >= i) delete m[k]; len = i } else { Object.defineProperty(a, i, { get() { return "g" }, configurable: true }); m[i] = "g"; if (i >= len) len = i + 1 } } eq(a.length, len, "length"); var ks = Object.getOwnPropertyNames(a), n = 0; for (k in m) { eq(a[k], m[k], "item"); eq(ks[n], k, "ascending order"); n++ } eq(ks.length, n + 1, "no other keys"); eq(a.indexOf(2), m[1] === 2 ? 1 : -1, "indexOf"); }, 5);
scenario("sparse", function () { var k = conc(symInt("k", 0, 4)), i = [100, 1000, 65536, 1000000, 4294967294][k], v = symInt("v"), a = [5]; a[i] = v; eq(a.length, i + 1, "length"); eq(a[i], v, "far"); eq(a[0], 5, "near"); eq(a[i - 1], undefined, "hole"); eq(i - 1 in a, false, "hole"); eq(Object.keys(a).length, 2, "keys"); a[3] = 3; eq(a[i], v, "still far"); a.length = i; eq(i in a, false, "cut"); eq(a[0], 5, "near stays"); a.length = 1; eq(a.length, 1, "short"); a.push(8); eq(a[1], 8, "push after cut"); });
scenario("accessor_element", function () { var p = conc(symInt("p", 0, 4)), v = symInt("v", -9, 9), got = 0, a = [1, 2, 3]; Object.defineProperty(a, p, { get() { return v }, set(x) { got = x }, enumerable: true, configurable: true }); eq(a.length, p > 2 ? p + 1 : 3, "length"); eq(a[p], v, "get"); a[p] = 4; eq(got, 4, "set"); eq(a.indexOf(v), v >= 1 && v <= 3 && v - 1 !== p && v - 1 < p ? v - 1 : p < 3 ? (v >= 1 && v <= 3 && v - 1 < p ? v - 1 : p) : p, "indexOf"); eq(a.slice(p)[0], v, "slice reads it"); eq(a.map(ident)[p], v, "map"); var j = a.concat(); eq(j[p], v, "concat"); eq(Object.getOwnPropertyDescriptor(j, p).writable, true, "data in the copy"); });
scenario("define", function () { var i = symInt("i", 0, 6), w = symBool("w"), e = symBool("e"), c = symBool("c"), a = [1, 2, 3]; delete a[1]; Object.defineProperty(a, i, { value: 7, writable: w, enumerable: e, configurable: c }); var d = Object.getOwnPropertyDescriptor(a, i); eq(d.value, 7, "value"); eq(d.writable, w, "writable"); eq(d.enumerable, e, "enumerable"); eq(d.configurable, c, "configurable"); eq(a.length, i > 2 ? i + 1 : 3, "length"); a[i] = 8; eq(a[i], w ? 8 : 7, "write"); eq(Reflect.deleteProperty(a, i), c, "delete"); eq(i in a, !c, "gone"); });
scenario("prototype_elements", function () { var p = conc(symInt("p", 0, 3)), a = [1, , 3], q = Object.create(Array.prototype); q[p] = "P"; Object.setPrototypeOf(a, q); for (var i = 0; i < 4; i++) eq(a[i], i === 0 ? 1 : i === 2 ? 3 : i === p ? "P" : undefined, "lookup"); eq(a.length, 3, "length"); var r = Array.prototype.slice.call(a); eq(r[1], p === 1 ? "P" : undefined, "slice sees inherited"); eq(1 in r, p === 1, "slice"); var s = a.indexOf("P"); eq(s, p === 1 ? 1 : -1, "indexOf"); var d = [1, , 3]; Object.setPrototypeOf(d, Object.create(Array.prototype, { 1: { set(v) { got = v }, get() { return "A" } } })); var got; d[1] = 5; eq(got, 5, "inherited setter"); eq(1 in Object.getOwnPropertyNames(d), true, "names"); eq(Object.prototype.hasOwnProperty.call(d, 1), false, "not own"); });
scenario("subclass", function () { var n = symInt("n", 0, 5); class A extends Array { } var a = new A(n); eq(a.length, n, "length"); a[n] = 1; eq(a.length, n + 1, "grows"); a.length = 0; eq(n in a, false, "cut"); check(Array.isArray(a), "array"); check(a instanceof A, "instance"); });
scenario("constructor", function () { var n = symInt("n", -3, 6), r = err(function () { a = new Array(n) }), a; eq(r, n < 0 ? "RangeError" : "none", "range"); if (n >= 0) { eq(a.length, n, "length"); eq(Object.keys(a).length, 0, "holes") } eq(err(function () { new Array(1.5) }), "RangeError", "fraction"); eq(new Array("3").length, 1, "string item"); eq(err(function () { new Array(4294967296) }), "RangeError", "2^32"); eq(new Array(4294967295).length, 4294967295, "2^32-1"); });
scenario("arguments_exotic", function () { function f(a, b) { var i = conc(symInt("i", 0, 2)), v = symInt("v"); arguments[i] = v; eq(i === 0 ? a : 1, i === 0 ? v : 1, "mapped a"); if (i === 1) eq(b, v, "mapped b"); eq(arguments.length, 2, "length"); a = 77; eq(arguments[0], 77, "back"); delete arguments[0]; a = 5; eq(arguments[0], undefined, "unmapped by delete"); arguments[0] = 6; eq(a, 5, "stays unmapped"); Object.defineProperty(arguments, 1, { value: 3, writable: false }); b = 4; eq(arguments[1], 3, "unmapped by read-only"); } f(1, 2); function g(a) { "use strict"; var v = symInt("w"); arguments[0] = v; eq(a, 1, "strict unmapped"); a = 3; eq(arguments[0], v, "strict unmapped") } g(1); function h(a, b) { b = 3; eq(arguments[1], undefined, "beyond passed arguments"); eq(arguments.length, 1, "length") } h(1); function d(a = 0) { a = 3; eq(arguments[0], 1, "default parameters unmap") } d(1); });
scenario("define_length", function () { var n = conc(symInt("n", 0, 4)), b = conc(symInt("b", -1, 3)), l = conc(symInt("l", 0, 5)), w = conc(symInt("w", 0, 2)), dw = symBool("dw"), a = [], i, d, ok = true, len = n, desc = {}; assume(b < n); for (i = 0; i < n; i++) a[i] = i; if (b >= 0) Object.defineProperty(a, b, { configurable: false }); if (dw) Object.defineProperty(a, "length", { writable: false }); if (l < 5) desc.value = l; if (w < 2) desc.writable = w === 1; if (dw) { if (l < 5 && l !== n || w === 1) ok = false } else if (l < 5) { len = l > b + 1 ? l : b + 1; if (len > n) len = l; ok = l >= len } eq(Reflect.defineProperty(a, "length", desc), ok, "result"); eq(a.length, len, "length"); d = Object.getOwnPropertyDescriptor(a, "length"); eq(d.writable, !dw && w !== 0, "writable"); eq(d.enumerable, false, "enumerable"); eq(d.configurable, false, "configurable"); for (i = 0; i < 5; i++) eq(i in a, i < n && i < len, "kept " + i); inv(a, "define"); a[4] = 9; eq(4 in a, !(dw || w === 0) , "writes beyond follow the writable flag"); });
// Shortening dense and sparse arrays down to elements that cannot be deleted.
scenario("shrink_blocked", function () {
  var far = symBool("far"), P = far ? [0, 3, 5, 31, 70000] : [0, 1, 3, 5, 6], L = far ? [0, 1, 3, 4, 5, 6, 31, 32, 70000, 70001] : [0, 1, 2, 3, 4, 5, 6, 7], m = conc(symInt("m", 0, 31)), bl = conc(symInt("b", -1, 4)), l = L[conc(symInt("l", 0, L.length - 1))], a = [], i, e = 0, st;
  for (i = 4; i >= 0; i--) if (m >> i & 1 || i === bl) a[P[i]] = i + 1;
  if (bl >= 0) Object.defineProperty(a, P[bl], { configurable: false });
  var old = a.length, len = bl >= 0 && P[bl] >= l ? P[bl] + 1 : l;
  st = symBool("strict") ? err(function () { "use strict"; a.length = l }) === "none" : Reflect.set(a, "length", l);
  eq(st, len === l, "result"); eq(a.length, len, "length");
  for (i = 0; i < 5; i++) eq(P[i] in a, (m >> i & 1 || i === bl ? true : false) && P[i] < len, "element " + i);
  inv(a, "shrink");
}, 2);
