// Array.prototype methods against their definitions, with holes, relative indices and array-likes.
function mk(n, m) { var a = []; a.length = n; for (var i = 0; i < n; i++) if (m >> i & 1) a[i] = i + 10; return a }
function mkConc(n, m) { return mk(conc(symInt("n", 0, n)), conc(symInt("m", 0, m))) }
function cp(a) { var b = []; b.length = a.length; for (var i = 0; i < a.length; i++) if (i in a) b[i] = a[i]; return b }
function same(a, b, msg) { eq(a.length, b.length, msg + " length"); for (var i = 0; i < b.length; i++) { eq(i in a, i in b, msg + " has " + i); eq(a[i], b[i], msg + " [" + i + "]") } }
scenario("slice", function () { var a = mkConc(3, 7), s = symInt("s", -6, 6), e = symInt("e", -6, 6), n = a.length, x = clampRel(s, n), y = clampRel(e, n), r = [], k = 0; for (var i = x; i < y; i++, k++) if (i in a) r[k] = a[i]; r.length = y > x ? y - x : 0; same(a.slice(s, e), r, "slice"); var b = cp(a); if (x > 0) { var c = a.slice(s); eq(c.length, n - x, "open end") } same(a, b, "unchanged"); }, 4);
scenario("splice", function () { var a = mkConc(3, 7), s = symInt("s", -6, 6), d = symInt("d", -2, 6), k = conc(symInt("k", 0, 3)), n = a.length, x = clampRel(s, n), c = d < 0 ? 0 : d > n - x ? n - x : d, b = cp(a), r = [], w = [], i; for (i = 0; i < c; i++) if (x + i in b) r[i] = b[x + i]; r.length = c; for (i = 0; i < x; i++) if (i in b) w[i] = b[i]; for (i = 0; i < k; i++) w[x + i] = -i; for (i = x + c; i < n; i++) if (i in b) w[i - c + k] = b[i]; w.length = n - c + k; var ins = [0, -1, -2].slice(0, k), q = a.splice.apply(a, [s, d].concat(ins)); eq(q.length, r.length, "removed"); for (i = 0; i < r.length; i++) eq(q[i], r[i], "removed item"); eq(a.length, w.length, "new length"); for (i = 0; i < w.length; i++) { eq(i in a, i in w, "has"); eq(a[i], i >= x && i < x + k ? -(i - x) + 0 : w[i] , "item") } }, 8);
scenario("splice_argc", function () { var s = symInt("s", -5, 5), a = [1, 2, 3], r = a.splice(s), x = clampRel(s, 3); eq(r.length, 3 - x, "one argument removes the rest"); eq(a.length, x, "kept"); a = [1, 2, 3]; r = a.splice(); eq(r.length, 0, "no argument"); eq(a.length, 3, "kept all"); a = [1, 2, 3]; r = a.splice(s, undefined); eq(r.length, 0, "undefined count"); });
scenario("copyWithin", function () { var a = mkConc(3, 7), t = symInt("t", -5, 5), s = symInt("s", -5, 5), e = symInt("e", -5, 5), n = a.length, to = clampRel(t, n), from = clampRel(s, n), fin = clampRel(e, n), c = fin - from; if (c > n - to) c = n - to; var w = cp(a), o = cp(a); for (var i = 0; i < c; i++) { if (from + i in o) w[to + i] = o[from + i]; else delete w[to + i] } var r = a.copyWithin(t, s, e); check(r === a, "returns the array"); same(a, w, "copyWithin"); }, 8);
scenario("fill", function () { var a = mkConc(3, 7), s = symInt("s", -6, 6), e = symInt("e", -6, 6), v = symInt("v"), n = a.length, x = clampRel(s, n), y = clampRel(e, n), o = cp(a); a.fill(v, s, e); for (var i = 0; i < n; i++) { if (i >= x && i < y) eq(a[i], v, "filled"); else { eq(a[i], o[i], "kept"); eq(i in a, i in o, "hole kept") } } eq(a.length, n, "length"); });
scenario("indexOf", function () { var a = [symInt("a", 0, 3), symInt("b", 0, 3), symInt("c", 0, 3)], f = symInt("f", -5, 5), v = symInt("v", 0, 3), x = f < 0 ? (f + 3 < 0 ? 0 : f + 3) : f, r = -1, i; for (i = x; i < 3; i++) if (a[i] === v) { r = i; break } eq(a.indexOf(v, f), r, "indexOf"); eq(a.includes(v, f), r >= 0, "includes"); r = -1; for (i = f < 0 ? f + 3 : f > 2 ? 2 : f; i >= 0; i--) if (a[i] === v) { r = i; break } eq(a.lastIndexOf(v, f), r, "lastIndexOf"); });
scenario("search_special", function () { var k = conc(symInt("k", 0, 3)), p = conc(symInt("p", 0, 2)), v = [NaN, -0, undefined, 0][k], a = [1, 2, 3]; a[p] = [NaN, 0, undefined, -0][k]; eq(a.indexOf(v), k === 0 ? -1 : p, "strict equality"); eq(a.lastIndexOf(v), k === 0 ? -1 : p, "strict equality"); eq(a.includes(v), true, "SameValueZero"); var h = [1, , 3]; eq(h.indexOf(undefined), -1, "holes are skipped"); eq(h.includes(undefined), true, "holes read as undefined"); eq([1, 2, 1].lastIndexOf(1, undefined), 0, "explicit undefined"); });
scenario("find", function () { var a = [symInt("a", 0, 4), symInt("b", 0, 4), symInt("c", 0, 4)], t = symInt("t", 0, 5), i, f = -1, l = -1; for (i = 0; i < 3; i++) if (a[i] >= t) { if (f < 0) f = i; l = i } var log = ""; eq(a.findIndex(function (x, i, o) { if (o !== a) fail("array argument"); log += i; return x >= t }), f, "findIndex"); eq(log, "012".slice(0, f < 0 ? 3 : f + 1), "order and stop"); eq(a.find(function (x) { return x >= t }), f < 0 ? undefined : a[f], "find"); eq(a.some(function (x) { return x >= t }), f >= 0, "some"); eq(a.every(function (x) { return x < t }), f < 0, "every"); var g = a.filter(function (x) { return x >= t }), n = 0; for (i = 0; i < 3; i++) if (a[i] >= t) eq(g[n++], a[i], "filter"); eq(g.length, n, "filter length"); });
scenario("holes_iteration", function () { var a = mkConc(4, 15), n = a.length, log = "", e = "", s = 0, f = "", fe = "", i; for (i = 0; i < n; i++) { if (i in a) { e += i + "," ; s += a[i] } fe += i + "," } a.forEach(function (x, i) { log += i + ","; eq(x, i + 10, "value") }); eq(log, e, "forEach skips holes"); var m = a.map(function (x) { return x + 1 }); eq(m.length, n, "map length"); for (i = 0; i < n; i++) { eq(i in m, i in a, "map keeps holes"); if (i in a) eq(m[i], i + 11, "map") } eq(a.reduce(function (p, x) { return p + x }, 0), s, "reduce"); eq(a.reduceRight(function (p, x, i) { return p + i + "," }, ""), e.split(",").reverse().join(",").slice(1) + (e ? "," : ""), "reduceRight order"); a.find(function (x, i) { f += i + ","; return false }); eq(f, fe, "find visits holes"); f = 0; for (var x of a) f++; eq(f, n, "iterator visits holes"); f = ""; for (var k in a) f += k + ","; eq(f, e, "for-in skips holes"); eq(a.filter(function () { return true }).length, e.split(",").length - 1, "filter drops holes"); eq(a.flat().length, e.split(",").length - 1, "flat drops holes"); eq(Object.keys(a).length, e.split(",").length - 1, "keys"); });
scenario("reduce", function () { var n = conc(symInt("n", 0, 4)), m = conc(symInt("m", 0, 15)), a = mk(n, m), v = [], i, r; for (i = 0; i < n; i++) if (i in a) v.push(a[i]); try { r = a.reduce(function (p, x) { return p * 3 + x }) } catch (e) { r = e instanceof TypeError ? "T" : "X" } var w = v.length ? v[0] : "T"; for (i = 1; i < v.length; i++) w = w * 3 + v[i]; eq(r, w, "reduce without initial value"); try { r = a.reduceRight(function (p, x) { return p * 3 + x }) } catch (e) { r = e instanceof TypeError ? "T" : "X" } w = v.length ? v[v.length - 1] : "T"; for (i = v.length - 2; i >= 0; i--) w = w * 3 + v[i]; eq(r, w, "reduceRight without initial value"); });
scenario("reverse", function () { var a = mkConc(5, 31), o = cp(a), n = a.length, r = a.reverse(); check(r === a, "same array"); for (var i = 0; i < n; i++) { eq(i in a, n - 1 - i in o, "has"); eq(a[i], o[n - 1 - i], "item") } });
scenario("shift_unshift", function () { var a = mkConc(4, 15), o = cp(a), n = a.length, k = conc(symInt("k", 0, 2)), i, r = a.shift(); eq(r, o[0], "shift"); eq(a.length, n ? n - 1 : 0, "length"); for (i = 1; i < n; i++) { eq(i - 1 in a, i in o, "has"); eq(a[i - 1], o[i], "moved") } a = cp(o); r = a.unshift.apply(a, [-1, -2].slice(0, k)); eq(r, n + k, "unshift length"); for (i = 0; i < k; i++) eq(a[i], -1 - i, "new item"); for (i = 0; i < n; i++) { eq(i + k in a, i in o, "has"); eq(a[i + k], o[i], "moved up") } });
scenario("push_pop", function () { var a = mkConc(4, 15), o = cp(a), n = a.length, v = symInt("v"), r = a.push(v, v + 1); eq(r, n + 2, "length"); eq(a[n], v, "first"); eq(a[n + 1], v + 1, "second"); eq(a.pop(), v + 1, "pop"); eq(a.pop(), v, "pop"); eq(a.length, n, "restored"); eq(a.pop(), n ? o[n - 1] : undefined, "pop original"); eq(a.length, n ? n - 1 : 0, "length"); eq(n - 1 in a, false, "gone"); });
scenario("at_with", function () { var i = symInt("i", -6, 6), a = [10, 11, 12]; eq(a.at(i), i >= 3 || i < -3 ? undefined : a[i < 0 ? i + 3 : i], "at"); eq("abc".at(i), i >= 3 || i < -3 ? undefined : "abc"[i < 0 ? i + 3 : i], "string at"); eq(a.at(NaN), 10, "NaN"); eq(a.at(1.9), 11, "truncates"); eq(a.at(-0.5), 10, "truncates to zero"); eq(a.at(Infinity), undefined, "inf"); eq(a.at(-Infinity), undefined, "-inf"); });
scenario("concat", function () { var a = mkConc(3, 7), b = mk(conc(symInt("p", 0, 2)), 2), sp = symBool("sp"), o = { length: 2, 0: "x", 1: "y" }; if (sp) o[Symbol.isConcatSpreadable] = true; var r = a.concat(b, o, 5), k = 0, i; for (i = 0; i < a.length; i++, k++) { eq(k in r, i in a, "has"); eq(r[k], a[i], "first") } for (i = 0; i < b.length; i++, k++) { eq(k in r, i in b, "has"); eq(r[k], b[i], "second") } if (sp) { eq(r[k++], "x", "spread"); eq(r[k++], "y", "spread") } else check(r[k++] === o, "not spread"); eq(r[k++], 5, "scalar"); eq(r.length, k, "length"); b[Symbol.isConcatSpreadable] = false; check([].concat(b)[0] === b, "array not spread"); });
scenario("join", function () { var k = conc(symInt("k", 0, 6)), a = symInt("a", -9, 9), v = [a, undefined, null, [a, [2]], "s", {}, , ][k], h = k === 6 ? [1, , 2] : [1, v, 2], t = k === 0 ? "" + a : k === 3 ? a + ",2" : k === 4 ? "s" : k === 5 ? "[object Object]" : ""; eq(h.join(), "1," + t + ",2", "join"); eq(h.join(""), "1" + t + "2", "empty"); eq(h.join("--"), "1--" + t + "--2", "separator"); eq(String(h), "1," + t + ",2", "toString"); eq([].join(), "", "none"); eq([null].join(), "", "single"); eq(h.join(undefined), "1," + t + ",2", "undefined separator"); });
scenario("flat", function () { var d = symInt("d", -1, 4), a = [1, [2, [3, [4, [5]]]], , [], [[]]], r = a.flat(d), n = 0; var go = function (x, k) { for (var i = 0; i < x.length; i++) if (i in x) { if (k > 0 && Array.isArray(x[i])) go(x[i], k - 1); else { eq(r[n], x[i], "item"); n++ } } }; go(a, d); eq(r.length, n, "length"); eq(a.flat(Infinity).length, 5, "infinity"); eq(a.flat().length, 4, "default 1"); eq([1, 2].flatMap(function (x) { return [x, [x]] }).length, 4, "flatMap one level"); });
scenario("array_like", function () { var n = symInt("n", -2, 4), o = { length: n, 0: 10, 1: 11, 2: 12, 3: 13, 4: 14 }, m = n < 0 ? 0 : n; eq(Array.prototype.slice.call(o).length, m, "length clamps"); eq(Array.from(o).length, m, "from"); var r = Array.prototype.map.call(o, function (x) { return x * 2 }); eq(r.length, m, "map"); if (m) eq(r[m - 1], 18 + 2 * m, "last"); eq(Array.prototype.indexOf.call(o, 12), m > 2 ? 2 : -1, "indexOf respects length"); eq(Array.prototype.push.call(o, 7), m + 1, "push"); eq(o[m], 7, "pushed"); eq(o.length, m + 1, "length set"); eq(Array.prototype.pop.call(o), 7, "pop"); eq(o.length, m, "length back"); eq(m in o, false, "deleted"); });
scenario("length_limits", function () { var k = conc(symInt("k", 0, 4)), l = [9007199254740991, 9007199254740992, Infinity, NaN, "3"][k], o = { length: l }, r; try { r = Array.prototype.push.call(o, 1) } catch (e) { r = e instanceof TypeError ? "T" : "X" } eq(r, k < 3 ? "T" : k === 3 ? 1 : 4, "push past 2^53-1"); eq(Array.prototype.push.call({ length: 9007199254740990 }, 1), 9007199254740991, "push to the limit"); try { r = Array.prototype.unshift.call({ length: 9007199254740991 }, 1) } catch (e) { r = e instanceof TypeError } eq(r, true, "unshift"); try { r = [1].concat({ length: 9007199254740991, [Symbol.isConcatSpreadable]: true }) } catch (e) { r = e instanceof TypeError } eq(r, true, "concat"); });
scenario("mutating_callback", function () { var k = conc(symInt("k", 0, 3)), p = conc(symInt("p", 0, 3)), a = [0, 1, 2, 3], log = ""; a.forEach(function (x, i) { log += x; if (i === p) { if (k === 0) a.push(9); if (k === 1) a.length = 2; if (k === 2) delete a[3]; if (k === 3) a.shift() } }); var e = k === 0 ? "0123" : k === 1 ? (p < 2 ? "01" : p === 2 ? "012" : "0123") : k === 2 ? (p < 3 ? "012" : "0123") : p === 0 ? "023" : p === 1 ? "013" : p === 2 ? "012" : "0123"; eq(log, e, "visited"); log = ""; a = [0, 1, 2, 3]; var c = 0; for (var x of a) { log += x; if (x === p && c++ < 1) { if (k === 0) a.push(9); if (k === 1) a.length = 2; if (k === 2) delete a[3]; if (k === 3) a.shift() } } e = k === 0 ? "01239" : k === 1 ? (p < 2 ? "01" : p === 2 ? "012" : "0123") : k === 2 ? (p < 3 ? "012undefined" : "0123") : p === 0 ? "023" : p === 1 ? "013" : p === 2 ? "012" : "0123"; eq(log, e, "for-of"); });
scenario("from_of", function () { var n = conc(symInt("n", 0, 3)), v = symInt("v"), s = []; for (var i = 0; i < n; i++) s.push(v + i); var it = { [Symbol.iterator]() { var i = 0; return { next() { return i < n ? { value: v + i++, done: false } : { done: true } } } } }; var r = Array.from(it, function (x, i) { return x - i }); eq(r.length, n, "length"); for (i = 0; i < n; i++) eq(r[i], v, "mapped"); r = Array.from("a\ud83d\ude00b"); eq(r.length, 3, "code points"); eq(r[1], "\ud83d\ude00", "pair"); r = Array.of.apply(null, s); eq(r.length, n, "of"); r = Array(7); eq(r.length, 7, "Array(n)"); eq(0 in r, false, "holes"); eq(Array.of(7).length, 1, "of(7)"); eq(Array(v, 2)[0], v, "Array(a,b)"); r = [...it, ...s]; eq(r.length, 2 * n, "spread"); });
scenario("from_close", function () { var k = conc(symInt("k", 0, 3)), closed = 0, it = { [Symbol.iterator]() { return { next() { return { value: 1, done: false } }, return() { closed++; return {} } } } }, r, c = 0; try { Array.from(it, function () { if (c++ === k) throw "stop"; return 1 }) } catch (e) { r = e } eq(r, "stop", "propagates"); eq(closed, 1, "closed once"); eq(c, k + 1, "calls"); });
scenario("entries", function () { var a = mkConc(3, 7), i = 0; for (var e of a.entries()) { eq(e[0], i, "index"); eq(e[1], a[i], "value"); i++ } eq(i, a.length, "count"); i = 0; for (var k of a.keys()) eq(k, i++, "key"); var v = a.values(); a.push(5); i = 0; while (!v.next().done) i++; eq(i, a.length, "sees growth"); a.push(6); eq(v.next().done, true, "stays done"); });
scenario("species", function () { var k = conc(symInt("k", 0, 3)), n = conc(symInt("n", 0, 3)), log = []; class A extends Array { constructor(...x) { super(...x); log.push(x.length === 1 ? x[0] : -1) } } var a = A.from([1, 2, 3]); log = []; var r = k === 0 ? a.slice(0, n) : k === 1 ? a.map(ident) : k === 2 ? a.filter(function (x) { return x <= n }) : a.splice(0, n); check(r instanceof A, "species instance"); eq(r.length, k === 1 ? 3 : n, "length"); eq(log.length, 1, "one construction"); eq(log[0], k === 1 ? 3 : k === 2 ? 0 : n, "argument"); A[Symbol.species]; class B extends Array { static get [Symbol.species]() { return Array } } r = B.of(1, 2).map(ident); check(!(r instanceof B), "species override"); });
scenario("to_string_tags", function () { var k = conc(symInt("k", 0, 5)); var v = [[], {}, function () { }, null, undefined, new Date(0)][k]; eq(Object.prototype.toString.call(v), "[object " + ["Array", "Object", "Function", "Null", "Undefined", "Date"][k] + "]", "tag"); eq(Array.isArray(v), k === 0, "isArray"); eq(Array.isArray(new Proxy([], {})), true, "proxy"); var un = Array.prototype[Symbol.unscopables]; eq(un.flat, true, "unscopables"); });
// Any Number as a position behaves as the small integer it clamps to.
["slice", "at", "includes", "indexOf", "lastIndexOf", "fill", "splice", "copyWithin"].forEach(function (m) {
  scenario("number_position_" + m, function () { var v = symNum("v"), w = ladder(v), a = [7, 8, 7], b = [7, 8, 7], k = conc(symInt("k", 0, m === "copyWithin" ? 2 : m === "slice" || m === "subarray" || m === "fill" || m === "splice" || m === "set" ? 1 : 0)), r, x;
    function op(a, v) { return m === "slice" ? k ? a.slice(k, v) : a.slice(v) : m === "fill" ? k ? a.fill(1, k, v) : a.fill(1, v) : m === "splice" ? k ? a.splice(k, v, 5) : a.splice(v, 1, 5, 6) : m === "copyWithin" ? k === 0 ? a.copyWithin(v, 0) : k === 1 ? a.copyWithin(0, v) : a.copyWithin(0, 1, v) : m === "at" ? a.at(v) : a[m](7, v) }
    r = op(a, v); x = op(b, w); if (typeof r === "object") same(r, x, m + " result"); else eq(r, x, m); same(a, b, m); }, 2);
});
