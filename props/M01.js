// Map and Set as finite maps with insertion order: histories of operations against an array model.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function same(a, b) { return a === b || a !== a && b !== b }
function find(m, k) { for (var i = 0; i < m.length; i++) if (same(m[i][0], k)) return i; return -1 }
function mset(m, k, v) { var i = find(m, k); if (i < 0) m.push([k === 0 ? 0 : k, v]); else m[i][1] = v }
function mdel(m, k) { var i = find(m, k); if (i < 0) return false; m.splice(i, 1); return true }
function agree(M, m, keys) { var i, a = [], it = M.entries(), s; eq(M.size, m.length, "size"); while (!(s = it.next()).done) { a.push(s.value); check(a.length <= m.length, "iterates too long") } eq(a.length, m.length, "iterated"); for (i = 0; i < m.length; i++) { eq(a[i][0], m[i][0], "key " + i); eq(a[i][1], m[i][1], "value " + i) } for (i = 0; i < keys.length; i++) { var j = find(m, keys[i]); eq(M.has(keys[i]), j >= 0, "has"); eq(M.get(keys[i]), j >= 0 ? m[j][1] : undefined, "get") } }
function agreeSet(S, m, keys) { var i, a = []; S.forEach(function (v, k, t) { eq(v, k, "forEach key"); check(t === S, "forEach target"); a.push(v) }); eq(S.size, m.length, "size"); eq(a.length, m.length, "iterated"); for (i = 0; i < m.length; i++) eq(a[i], m[i][0], "member " + i); for (i = 0; i < keys.length; i++) eq(S.has(keys[i]), find(m, keys[i]) >= 0, "has") }
function step(M, m, k, op, i) { if (op === 0) { check(M.set(k, i) === M, "set returns the map"); mset(m, k, i) } else if (op === 1) eq(M.delete(k), mdel(m, k), "delete result"); else { eq(M.clear(), undefined, "clear"); m.length = 0 } }
var obj = {}, sy = Symbol("s"), fn = function () {};
var POOL = [0, NaN, "0", obj, -0, undefined, 1n, sy, null, "", false, fn, 1.5, "a", true, 4294967296];
scenario("history_4", function () { var M = new Map, m = [], i; for (i = 0; i < 4; i++) step(M, m, POOL[conc(symInt("k" + i, 0, 2))], conc(symInt("o" + i, 0, 2)), i); agree(M, m, POOL); }, 4);
scenario("history_6", function () { var M = new Map, m = [], i; for (i = 0; i < 6; i++) step(M, m, conc(symInt("k" + i, 0, 1)), conc(symInt("o" + i, 0, 1)), i); agree(M, m, [0, 1]); }, 4);
scenario("symbolic_numbers", function () { var M = new Map, m = [], i, k, ks = []; for (i = 0; i < 3; i++) { k = symInt("k" + i, -2, 2); ks.push(k); M.set(k, i); mset(m, k, i) } k = symInt("d", -3, 3); eq(M.delete(k), mdel(m, k), "delete"); agree(M, m, ks); }, 3);
scenario("any_numbers", function () { var a = symInt("a"), b = symInt("b"), M = new Map([[a, 1]]); M.set(b, 2); eq(M.size, a === b ? 1 : 2, "size"); eq(M.get(a), a === b ? 2 : 1, "get a"); eq(M.get(b), 2, "get b"); eq(new Set([a, b, a, b]).size, a === b ? 1 : 2, "set"); });
scenario("halves", function () { var a = symInt("a", -6, 6) / 2, b = symInt("b", -6, 6) / 4, S = new Set([a]); eq(S.has(b), a === b, "fractions"); S.add(b); eq(S.size, a === b ? 1 : 2, "size"); }, 2);
scenario("string_keys", function () { var a = symStr("a", 2, "ab"), b = symStr("b", 2, "ab"), c = symStr("c", 1, "ab"), M = new Map([[a, 1], [b, 2], [c, 3]]); eq(M.size, a === b ? 2 : 3, "size"); eq(M.get(a[0] + a[1]), a === b ? 2 : 1, "by content"); eq(M.get(c + ""), 3, "short"); eq(M.has(a + c), false, "longer"); eq(M.has(a[0]), a[0] === c, "prefix"); }, 2);
scenario("key_kinds", function () { var i, j = conc(symInt("j", 0, POOL.length - 1)), k = conc(symInt("k", 0, POOL.length - 1)), M = new Map([[POOL[j], "j"]]); M.set(POOL[k], "k"); var s = same(POOL[j], POOL[k]); eq(M.size, s ? 1 : 2, "SameValueZero"); eq(M.get(POOL[j]), s ? "k" : "j", "value"); eq(M.delete(POOL[k]), true, "delete"); eq(M.has(POOL[j]), !s, "other key"); eq([...M.keys()].length, s ? 0 : 1, "left"); });
scenario("bigint_keys", function () { var a = symInt("a", -3, 3), b = symInt("b", -3, 3), S = new Set([BigInt(a)]); eq(S.has(BigInt(b)), a === b, "by value"); eq(S.has(a), false, "not the Number"); eq(S.has(BigInt(a) + 18446744073709551616n), false, "wide"); });
scenario("bigint_wide", function () { var a = symInt("a", 0, 3), b = symInt("b", 0, 3), x = 18446744073709551616n * BigInt(a + 1), y = 18446744073709551616n * BigInt(b + 1), M = new Map([[x, 1]]); eq(M.has(y), a === b, "wide values"); eq(M.has(-x), false, "sign"); });
scenario("negative_zero", function () { var k = conc(symInt("k", 0, 1)), z = [0, -0][k], M = new Map([[z, 1]]), S = new Set([z]); eq(M.keys().next().value, 0, "stored as +0"); eq(S.values().next().value, 0, "Set too"); S = new Set; S.add(z); eq([...S][0], 0, "add"); eq(M.has(-z), true, "both zeros"); });
scenario("zero_keys", function () { var n = conc(symInt("n", 0, 4)), z = conc(symInt("z", 0, 3)), o = conc(symInt("o", 0, 3)), i, M = new Map, S = new Set, k = [-0, 0, -0, 0][z]; for (i = 1; i <= n; i++) { M.set(i, i); S.add(i) } if (o & 1) { M.set(z & 2 ? -0 : 0, "x"); S.add(z & 2 ? -0 : 0) } if (o & 2) { M.delete(0); S.delete(-0) } M.set(k, "y"); S.add(k); eq(M.size, n + 1, "size"); eq([...M.keys()][n], 0, "stored as +0"); eq([...S][n], 0, "Set stores +0"); eq(S.size, n + 1, "set size"); eq(M.get(-k), "y", "either zero"); M.forEach(function (v, q) { if (v === "y") eq(q, 0, "forEach key") }); eq([...M.entries()][n][0], 0, "entries"); eq([...S.entries()][n][1], 0, "set entries"); });
scenario("history_zero", function () { var M = new Map, m = [], i; for (i = 0; i < 3; i++) step(M, m, POOL[[0, 4, 3][conc(symInt("k" + i, 0, 2))]], conc(symInt("o" + i, 0, 2)), i); agree(M, m, POOL); }, 2);
scenario("set_history", function () { var S = new Set, m = [], i, k, o; for (i = 0; i < 4; i++) { k = POOL[conc(symInt("k" + i, 0, 2))]; o = conc(symInt("o" + i, 0, 2)); if (o === 0) { check(S.add(k) === S, "add returns the set"); mset(m, k, 1) } else if (o === 1) eq(S.delete(k), mdel(m, k), "delete"); else { S.clear(); m.length = 0 } } agreeSet(S, m, POOL); }, 4);
scenario("order_after_delete", function () { var d = conc(symInt("d", 0, 4)), M = new Map, i; for (i = 0; i < 5; i++) M.set(i, i); M.delete(d); M.set(d, 9); var a = [...M.keys()]; for (i = 0; i < 4; i++) eq(a[i], i < d ? i : i + 1, "order"); eq(a[4], d, "re-added last"); M.set(0, 7); eq([...M.keys()][d === 0 ? 4 : 0], 0, "update keeps the place"); });
scenario("growth", function () { var n = conc(symInt("n", 0, 70)), s = conc(symInt("s", 1, 3)), M = new Map, i; for (i = 0; i < n; i++) M.set(i * s, i); for (i = 0; i < n; i += 2) eq(M.delete(i * s), true, "delete"); eq(M.size, n >> 1, "size"); for (i = 0; i < n; i++) { eq(M.has(i * s), i % 2 === 1, "has"); eq(M.get(i * s), i % 2 ? i : undefined, "get") } i = 1; for (var e of M) { eq(e[0], i * s, "order"); i += 2 } for (i = 0; i < n; i++) M.set(i * s, -i); eq(M.size, n, "refilled"); }, 2);
scenario("string_growth", function () { var n = conc(symInt("n", 0, 60)), S = new Set, i; for (i = 0; i < n; i++) S.add("k" + i); for (i = 0; i < n; i++) { S.add("k" + i); eq(S.has("k" + i), true, "has") } eq(S.size, n, "size"); eq(S.has("k" + n), false, "absent"); i = 0; for (var v of S) eq(v, "k" + i++, "order"); });
scenario("object_keys", function () { var n = conc(symInt("n", 1, 12)), d = conc(symInt("d", 0, 11)), os = [], M = new Map, i; assume(d < n); for (i = 0; i < n; i++) { os.push({}); M.set(os[i], i) } for (i = 0; i < n; i++) eq(M.get(os[i]), i, "identity"); eq(M.has({}), false, "a different object"); M.delete(os[d]); for (i = 0; i < n; i++) eq(M.has(os[i]), i !== d, "after delete"); gc(); for (i = 0; i < n; i++) eq(M.get(os[i]), i !== d ? i : undefined, "after collection"); });
scenario("constructor_iterable", function () { var k = conc(symInt("k", 0, 8)), src = [undefined, null, [], [[1, 2], [1, 3]], new Map([[1, 2]]), [[1]], [[]], "", new Set([[5, 6]])][k], M = new Map(src), e = [0, 0, 0, 1, 1, 1, 1, 0, 1][k]; eq(M.size, e, "entries"); if (k === 3) eq(M.get(1), 3, "last wins"); if (k === 5) { eq(M.has(1), true, "short entry"); eq(M.get(1), undefined, "undefined value") } if (k === 6) eq(M.has(undefined), true, "empty entry"); });
scenario("constructor_errors", function () { var k = conc(symInt("k", 0, 5)), bad = [5, {}, [1], ["ab"], [null], [[1, 2], 3]][k]; eq(err(function () { new Map(bad) }), "TypeError", "Map"); if (k < 2) eq(err(function () { new Set(bad) }), "TypeError", "Set"); eq(err(function () { Map([]) }), "TypeError", "needs new"); eq(err(function () { Set() }), "TypeError", "Set needs new"); });
scenario("constructor_close", function () { var n = conc(symInt("n", 0, 3)), c = 0, i = 0, it = { next() { return i < 4 ? { done: false, value: i++ === n ? 7 : [i, i] } : { done: true } }, return() { c++; return {} }, [Symbol.iterator]() { return this } }; eq(err(function () { new Map(it) }), "TypeError", "bad entry"); eq(c, 1, "iterator closed"); eq(i, n + 1, "stopped"); });
scenario("constructor_adder", function () { var k = symBool("k"), log = [], f = Map.prototype.set, g = Set.prototype.add; Map.prototype.set = function (a, b) { log.push(a); return f.call(this, a, b) }; Set.prototype.add = k ? 5 : function (a) { log.push(a); return g.call(this, a) }; try { new Map([[1, 2], [3, 4]]); eq(log.join(), "1,3", "uses set"); new Map; eq(err(function () { new Set([8]) }), k ? "TypeError" : "none", "adder must be callable"); eq(err(function () { new Set }), "none", "not needed"); eq(log.join(), k ? "1,3" : "1,3,8", "uses add") } finally { Map.prototype.set = f; Set.prototype.add = g } });
scenario("brand", function () { var k = conc(symInt("k", 0, 4)), v = [{}, new Set, [], null, new WeakMap][k], w = [{}, new Map, [], null, new WeakSet][k]; ["get", "set", "has", "delete", "clear", "forEach", "keys", "values", "entries"].forEach(function (n) { eq(err(function () { Map.prototype[n].call(v, ident) }), "TypeError", "Map " + n) }); ["add", "has", "delete", "clear", "forEach", "values", "entries"].forEach(function (n) { eq(err(function () { Set.prototype[n].call(w, ident) }), "TypeError", "Set " + n) }); var g = Object.getOwnPropertyDescriptor(Map.prototype, "size").get, h = Object.getOwnPropertyDescriptor(Set.prototype, "size").get; eq(err(function () { g.call(v) }), "TypeError", "Map size"); eq(err(function () { h.call(w) }), "TypeError", "Set size"); });
scenario("callbacks", function () { var k = conc(symInt("k", 0, 3)), f = [undefined, {}, 5, ident][k], M = new Map([[1, 2]]); eq(err(function () { M.forEach(f) }), k < 3 ? "TypeError" : "none", "callable"); var t = {}, n = 0; M.forEach(function (v, key, m) { n++; check(this === t, "this"); eq(v, 2, "value first"); eq(key, 1, "key second"); check(m === M, "map") }, t); eq(n, 1, "once"); });
scenario("aliases", function () { var k = conc(symInt("k", 0, 2)); if (k === 0) check(Set.prototype.keys === Set.prototype.values && Set.prototype[Symbol.iterator] === Set.prototype.values, "Set aliases"); if (k === 1) check(Map.prototype[Symbol.iterator] === Map.prototype.entries, "Map alias"); if (k === 2) { check(Map[Symbol.species] === Map, "species"); eq(new Set([4]).entries().next().value.join(), "4,4", "Set entries"); eq(Map.length + Set.length, 0, "length") } });
scenario("subclass", function () { var n = conc(symInt("n", 0, 4)), log = 0; class M2 extends Map { set(k, v) { log++; return super.set(k, v * 2) } } var a = [], i; for (i = 0; i < n; i++) a.push([i, i]); var M = new M2(a); eq(log, n, "set called"); for (i = 0; i < n; i++) eq(M.get(i), 2 * i, "value"); check(M instanceof Map && M instanceof M2, "prototype"); eq(M.size, n, "size"); });
scenario("independence", function () { var a = symInt("a", 0, 2), A = new Map([[0, 0], [1, 1]]), B = new Map(A); B.set(a, 9); eq(A.size, 2, "copy"); eq(A.get(0), 0, "value"); eq(B.size, a === 2 ? 3 : 2, "copied size"); A.clear(); eq(B.get(a), 9, "not shared"); });
scenario("weak_map", function () { var n = conc(symInt("n", 1, 8)), d = conc(symInt("d", 0, 7)), os = [], W = new WeakMap, i; assume(d < n); for (i = 0; i < n; i++) { os.push({}); check(W.set(os[i], i) === W, "set returns") } eq(W.delete(os[d]), true, "delete"); eq(W.delete(os[d]), false, "twice"); for (i = 0; i < n; i++) { eq(W.has(os[i]), i !== d, "has"); eq(W.get(os[i]), i === d ? undefined : i, "get") } gc(); for (i = 0; i < n; i++) eq(W.get(os[i]), i === d ? undefined : i, "kept"); W.set(os[0], 77); eq(W.get(os[0]), 77, "update"); });
scenario("weak_keys", function () { var k = conc(symInt("k", 0, 6)), v = [1, "a", null, undefined, true, 1n, NaN][k], W = new WeakMap, S = new WeakSet; eq(err(function () { W.set(v, 1) }), "TypeError", "WeakMap set"); eq(err(function () { S.add(v) }), "TypeError", "WeakSet add"); eq(W.has(v), false, "has"); eq(W.get(v), undefined, "get"); eq(W.delete(v), false, "delete"); eq(S.has(v), false, "WeakSet has"); eq(S.delete(v), false, "WeakSet delete"); });
scenario("weak_set", function () { var m = conc(symInt("m", 0, 31)), os = [], S = new WeakSet, i; for (i = 0; i < 5; i++) { os.push([]); if (m >> i & 1) check(S.add(os[i]) === S, "add returns") } for (i = 0; i < 5; i++) eq(S.has(os[i]), !!(m >> i & 1), "has"); for (i = 0; i < 5; i++) eq(S.delete(os[i]), !!(m >> i & 1), "delete"); });
