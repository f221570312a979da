// Sorting: order, permutation, stability, comparator protocol.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function cnt(a, v) { var n = 0; for (var i = 0; i < a.length; i++) if (a[i] === v) n++; return n }
scenario("numbers_3", function () { var a = [symInt("a"), symInt("b"), symInt("c")], b = a.slice(), r = b.sort(function (x, y) { return x < y ? -1 : x > y ? 1 : 0 }); check(r === b, "returns the array"); check(b[0] <= b[1] && b[1] <= b[2], "ordered"); for (var i = 0; i < 3; i++) eq(cnt(b, a[i]), cnt(a, a[i]), "permutation"); });
scenario("numbers_4", function () { var a = [symInt("a", 0, 6), symInt("b", 0, 6), symInt("c", 0, 6), symInt("d", 0, 6)], b = a.slice().sort(function (x, y) { return x - y }); for (var i = 1; i < 4; i++) check(b[i - 1] <= b[i], "ordered"); for (i = 0; i < 4; i++) eq(cnt(b, a[i]), cnt(a, a[i]), "permutation"); }, 4);
scenario("stable_4", function () { var a = [], i; for (i = 0; i < 4; i++) a.push({ k: symInt("k" + i, 0, 2), i: i }); a.sort(function (x, y) { return x.k - y.k }); for (i = 1; i < 4; i++) { check(a[i - 1].k <= a[i].k, "ordered"); if (a[i - 1].k === a[i].k) check(a[i - 1].i < a[i].i, "stable") } }, 4);
scenario("stable_6", function () { var a = [], i; for (i = 0; i < 6; i++) a.push({ k: symInt("k" + i, 0, 1), i: i }); a.sort(function (x, y) { return x.k - y.k }); for (i = 1; i < 6; i++) { check(a[i - 1].k <= a[i].k, "ordered"); if (a[i - 1].k === a[i].k) check(a[i - 1].i < a[i].i, "stable") } }, 4);
scenario("stable_9", function () { var a = [], i; for (i = 0; i < 9; i++) a.push({ k: conc(symInt("k" + i, 0, 1)), i: i }); a.sort(function (x, y) { return y.k - x.k }); for (i = 1; i < 9; i++) { check(a[i - 1].k >= a[i].k, "ordered"); if (a[i - 1].k === a[i].k) check(a[i - 1].i < a[i].i, "stable") } }, 4);
scenario("sizes", function () { var n = conc(symInt("n", 0, 40)), s = conc(symInt("s", 0, 5)), a = [], i; for (i = 0; i < n; i++) a.push({ v: (i * [1, 7, 13, -1, 0, 5][s] + 400) % [100, 17, 10, 1000, 3, 4][s], i: i }); var b = a.slice().sort(function (x, y) { return x.v - y.v }); eq(b.length, n, "length"); var seen = []; for (i = 0; i < n; i++) { seen[b[i].i] = 1; if (i) { check(b[i - 1].v <= b[i].v, "ordered"); if (b[i - 1].v === b[i].v) check(b[i - 1].i < b[i].i, "stable") } } for (i = 0; i < n; i++) eq(seen[i], 1, "permutation"); });
scenario("default_order_numbers", function () { var a = symInt("a", 0, 120), b = symInt("b", 0, 120), r = [a, b].sort(), sa = String(a), sb = String(b); eq(r[0], sb < sa ? b : a, "compares as strings"); eq(r[1], sb < sa ? a : b, "second"); }, 4);
scenario("default_order_strings", function () { var a = symStr("a", 2, "ac"), b = symStr("b", 2, "ac"), r = [a, b].sort(); check(r[0] <= r[1], "ordered"); eq(r[0] === a ? r[1] : r[0] , r[0] === a ? b : b, "permutation"); });
scenario("default_code_units", function () { var a = symStr("a", 1, "\u0001\uffff"), b = symStr("b", 1, "\u0001\uffff"), r = [a, b].sort(); check(r[0].charCodeAt(0) <= r[1].charCodeAt(0), "code unit order"); eq(r[0].charCodeAt(0) + r[1].charCodeAt(0), a.charCodeAt(0) + b.charCodeAt(0), "permutation"); r = ["\ud83d\ude00", "\uff5e"].sort(); eq(r[0], "\ud83d\ude00", "units not code points"); });
scenario("holes_undefined", function () { var a = [], i, n = 4, und = 0, hol = 0, v = []; for (i = 0; i < n; i++) { var k = conc(symInt("k" + i, 0, 3)); if (k === 0) { a[i] = undefined; und++ } else if (k === 1) { a.length = i + 1; hol++ } else { a[i] = k * 10 - i; v.push(k * 10 - i) } } var calls = 0; a.sort(function (x, y) { calls++; check(x !== undefined && y !== undefined, "undefined is never compared"); return x - y }); eq(a.length, n, "length"); for (i = 0; i < n; i++) { eq(i in a, i < n - hol, "holes last"); if (i < v.length) { check(a[i] !== undefined, "values first"); if (i) check(a[i - 1] <= a[i], "ordered") } else eq(a[i], undefined, "undefined after values") } if (v.length < 2) eq(calls, 0, "nothing to compare"); });
scenario("comparator_coercion", function () { var k = conc(symInt("k", 0, 7)), r = ["1", true, NaN, undefined, { valueOf() { return -1 } }, 0.1, -0, "x"][k], a = [1, 2].sort(function (x, y) { return x === 1 && y === 2 ? r : x === 2 && y === 1 ? (typeof r === "object" ? 1 : -r) : 0 }); var swap = k === 0 || k === 1 || k === 5; eq(a[0], swap ? 2 : 1, "result converted to Number"); eq(a[1], swap ? 1 : 2, "second"); });
scenario("comparator_type", function () { var k = conc(symInt("k", 0, 6)), c = [undefined, null, 1, "f", {}, function () { return 0 }, []][k], ok = k === 0 || k === 5; eq(err(function () { [2, 1].sort(c) }), ok ? "none" : "TypeError", "comparator"); eq(err(function () { [].sort(c) }), ok ? "none" : "TypeError", "checked first"); });
scenario("comparator_throws", function () { var n = conc(symInt("n", 1, 5)), c = 0, a = [3, 1, 2, 5, 4], r = err(function () { a.sort(function (x, y) { if (++c === n) throw new RangeError("x"); return x - y }) }); eq(r, c < n ? "none" : "RangeError", "propagates"); eq(c <= n, true, "stops"); eq(a.length, 5, "length"); if (r !== "none") for (var i = 1; i <= 5; i++) eq(cnt(a, i), 1, "nothing lost"); });
scenario("inconsistent", function () { var i, a = [], n = conc(symInt("n", 2, 5)), bits = conc(symInt("bits", 0, 63)), c = 0; for (i = 0; i < n; i++) a.push(i); a.sort(function () { return (bits >> c++ % 6 & 1) ? 1 : -1 }); eq(a.length, n, "length"); for (i = 0; i < n; i++) eq(cnt(a, i), 1, "still a permutation"); check(c < 100, "terminates"); });
scenario("mutating_comparator", function () { var k = conc(symInt("k", 0, 3)), a = [3, 1, 2], c = 0; a.sort(function (x, y) { if (c++ === 0) { if (k === 0) a.length = 0; if (k === 1) a.push(9); if (k === 2) a[0] = 77; if (k === 3) delete a[1] } return x - y }); eq(a[0], 1, "sorts the values read at the start"); eq(a[1], 2, "1"); eq(a[2], 3, "2"); eq(a.length, k === 1 ? 4 : 3, "length"); if (k === 1) eq(a[3], 9, "extra"); });
scenario("array_like", function () { var n = symInt("n", 0, 3), o = { length: n, 0: 3, 1: 2, 2: 1 }; Array.prototype.sort.call(o); eq(o[0], n === 0 ? 3 : n === 1 ? 3 : n === 2 ? 2 : 1, "0"); eq(o[2], n === 3 ? 3 : 1, "2"); eq(o.length, n, "length"); });
scenario("accessors", function () { var log = [], v = { 0: 3, 1: 1 }, o = { length: 2, get 0() { log.push("g0"); return v[0] }, set 0(x) { log.push("s0:" + x); v[0] = x }, get 1() { log.push("g1"); return v[1] }, set 1(x) { log.push("s1:" + x); v[1] = x } }, d = symBool("d"); Array.prototype.sort.call(o, function (a, b) { return d ? b - a : a - b }); eq(log.join(), d ? "g0,g1,s0:3,s1:1" : "g0,g1,s0:1,s1:3", "each element is read and written once"); });
scenario("frozen", function () { var p = conc(symInt("p", 0, 2)), a = [3, 2, 1]; Object.defineProperty(a, p, { writable: false }); eq(err(function () { a.sort() }), "TypeError", "read-only"); }, 1);
scenario("reverse_sorted", function () { var n = conc(symInt("n", 0, 30)), m = conc(symInt("m", 0, 2)), a = [], i; for (i = 0; i < n; i++) a.push(m === 0 ? n - i : m === 1 ? i : 5); a.sort(function (x, y) { return x - y }); for (i = 0; i < n; i++) eq(a[i], m === 0 ? i + 1 : m === 1 ? i : 5, "sorted"); });
scenario("mixed_default", function () { var k = conc(symInt("k", 0, 5)), a = [[true, 1], [null, "nulk"], [10, 9], [-1, -2], ["B", "a"], [[2], 10]][k].sort(); eq(String(a[0]), ["1", "nulk", "10", "-1", "B", "10"][k], "first"); eq(err(function () { [Symbol(), 1].sort() }), "TypeError", "symbols"); });
scenario("typed_default", function () { var a = symInt("a", -100, 100), b = symInt("b", -100, 100), t = new Int8Array([a, b]).sort(); check(t[0] <= t[1], "numeric order"); eq(t[0] + t[1], a + b, "kept"); });
