// Map and Set iteration while the collection changes, against the specification's entry list with empty slots.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function Model() { this.e = [] }                                     // entries: [key, value, live]
Model.prototype.find = function (k) { for (var i = 0; i < this.e.length; i++) if (this.e[i][2] && this.e[i][0] === k) return i; return -1 };
Model.prototype.set = function (k, v) { var i = this.find(k); if (i < 0) this.e.push([k, v, 1]); else this.e[i][1] = v };
Model.prototype.delete = function (k) { var i = this.find(k); if (i < 0) return false; this.e[i][2] = 0; return true };
Model.prototype.clear = function () { for (var i = 0; i < this.e.length; i++) this.e[i][2] = 0 };
Model.prototype.iter = function () { return { i: 0, done: false, m: this, next: function () { if (this.done) return -1; while (this.i < this.m.e.length) { var e = this.m.e[this.i++]; if (e[2]) return e[0] } this.done = true; return -1 } } };
function both(n) { var M = new Map, m = new Model, i; for (i = 0; i < n; i++) { M.set(i, i * 10); m.set(i, i * 10) } return { M: M, m: m } }
function op(M, m, o, k, v) { if (o === 0) { M.set(k, v); m.set(k, v) } else if (o === 1) eq(M.delete(k), m.delete(k), "delete") ; else if (o === 2) { M.clear(); m.clear() } }
function nx(it, mi, msg) { var s = it.next(), k = mi.next(); eq(s.done, k < 0, msg + " done"); eq(s.value, k < 0 ? undefined : k, msg + " key") }
scenario("one_iterator", function () { var b = both(3), it = b.M.keys(), mi = b.m.iter(), i; for (i = 0; i < 4; i++) { var o = conc(symInt("o" + i, 0, 3)), k = o < 2 ? conc(symInt("k" + i, 0, 3)) : 0; op(b.M, b.m, o, k, i); nx(it, mi, "step " + i) } for (i = 0; i < 4; i++) nx(it, mi, "rest"); }, 6);
scenario("step_then_change", function () { var b = both(3), it = b.M.keys(), mi = b.m.iter(), s = conc(symInt("s", 0, 4)), i; for (i = 0; i < s; i++) nx(it, mi, "before"); for (i = 0; i < 3; i++) { var o = conc(symInt("o" + i, 0, 2)), k = o < 2 ? conc(symInt("k" + i, 0, 3)) : 0; op(b.M, b.m, o, k, i) } for (i = 0; i < 5; i++) nx(it, mi, "after"); }, 6);
scenario("two_iterators", function () { var b = both(3), a = [b.M.keys(), b.M.keys()], mi = [b.m.iter(), b.m.iter()], i; for (i = 0; i < 5; i++) { var o = conc(symInt("o" + i, 0, 5)); if (o < 2) nx(a[o], mi[o], "step"); else if (o === 2) op(b.M, b.m, 2); else if (o === 3) op(b.M, b.m, 1, 0); else if (o === 4) op(b.M, b.m, 1, 1); else op(b.M, b.m, 0, i + 5, 0) } for (i = 0; i < 4; i++) { nx(a[0], mi[0], "rest 0"); nx(a[1], mi[1], "rest 1") } }, 6);
scenario("delete_current_and_readd", function () { var b = both(4), it = b.M.keys(), mi = b.m.iter(), s = conc(symInt("s", 1, 4)), i; for (i = 0; i < s; i++) nx(it, mi, "before"); var d = conc(symInt("d", 0, 3)), r = symBool("r"); op(b.M, b.m, 1, d); if (r) op(b.M, b.m, 0, d, 1); for (i = 0; i < 5; i++) nx(it, mi, "after"); });
scenario("clear_and_refill", function () { var b = both(4), it = b.M.keys(), mi = b.m.iter(), s = conc(symInt("s", 0, 5)), n = conc(symInt("n", 0, 4)), i; for (i = 0; i < s; i++) nx(it, mi, "before"); op(b.M, b.m, 2); for (i = 0; i < n; i++) op(b.M, b.m, 0, i, 7); for (i = 0; i < 6; i++) nx(it, mi, "after"); });
scenario("exhausted_stays_done", function () { var n = conc(symInt("n", 0, 3)), b = both(n), it = b.M.keys(), mi = b.m.iter(), i; for (i = 0; i <= n; i++) nx(it, mi, "run"); var o = conc(symInt("o", 0, 2)); op(b.M, b.m, o, 9, 9); for (i = 0; i < 3; i++) nx(it, mi, "finished"); });
scenario("for_each", function () { var b = both(3), seen = [], want = [], mi = b.m.iter(), at = conc(symInt("at", 0, 2)), o = conc(symInt("o", 0, 3)), k = conc(symInt("k", 0, 3)), c = 0; b.M.forEach(function (v, key) { seen.push(key); if (key === at && c++ < 2) { if (o === 3) { b.M.delete(at); b.M.set(at, 1) } else op(b.M, new Model, 9); if (o === 0) b.M.set(k, 5); if (o === 1) b.M.delete(k); if (o === 2) b.M.clear() } }); c = 0; for (var key; (key = mi.next()) >= 0;) { want.push(key); if (key === at && c++ < 2) { if (o === 3) { b.m.delete(at); b.m.set(at, 1) } if (o === 0) b.m.set(k, 5); if (o === 1) b.m.delete(k); if (o === 2) b.m.clear() } } eq(seen.join(), want.join(), "visited"); }, 2);
scenario("set_for_each", function () { var S = new Set([0, 1, 2]), m = new Model, seen = [], want = [], at = conc(symInt("at", 0, 2)), o = conc(symInt("o", 0, 2)), k = conc(symInt("k", 0, 4)); for (var i = 0; i < 3; i++) m.set(i, 0); S.forEach(function (v) { seen.push(v); if (v === at) { if (o === 0) S.add(k); if (o === 1) S.delete(k); if (o === 2) { S.clear(); S.add(k + 10) } } }); var mi = m.iter(); for (var key; (key = mi.next()) >= 0;) { want.push(key); if (key === at) { if (o === 0) m.set(k, 0); if (o === 1) m.delete(k); if (o === 2) { m.clear(); m.set(k + 10, 0) } } } eq(seen.join(), want.join(), "visited"); });
scenario("for_of", function () { var S = new Set([0, 1, 2, 3]), m = new Model, seen = [], want = [], i, d = []; for (i = 0; i < 4; i++) { m.set(i, 0); d.push(conc(symInt("d" + i, 0, 4))) } for (var v of S) { seen.push(v); if (v < 4) { if (d[v] < 4) S.delete(d[v]); else S.add(v + 10) } } var mi = m.iter(); for (var key; (key = mi.next()) >= 0;) { want.push(key); if (key < 4) { if (d[key] < 4) m.delete(d[key]); else m.set(key + 10, 0) } } eq(seen.join(), want.join(), "visited"); }, 3);
scenario("growing_while_iterating", function () { var n = conc(symInt("n", 0, 40)), S = new Set([0]), c = 0; for (var v of S) { eq(v, c, "in order"); c++; if (v < n) S.add(v + 1) } eq(c, n + 1, "sees every added value"); });
scenario("delete_everything_behind", function () { var n = conc(symInt("n", 1, 30)), S = new Set, i, c = 0; for (i = 0; i < n; i++) S.add(i); for (var v of S) { eq(v, c++, "order"); S.delete(v) } eq(c, n, "visited all"); eq(S.size, 0, "empty"); });
scenario("requeue", function () { var n = conc(symInt("n", 1, 5)), r = conc(symInt("r", 0, 6)), S = new Set, i, seen = []; for (i = 0; i < n; i++) S.add(i); for (var v of S) { seen.push(v); if (seen.length <= r) { S.delete(v); S.add(v) } check(seen.length < 40, "terminates") } eq(seen.length, n + r, "each re-add is visited again"); for (i = 0; i < seen.length; i++) if (i < r + n) eq(seen[i], i < n || i < n + r ? seen[i] : 0, "defined"); });
scenario("values_live", function () { var b = both(3), s = conc(symInt("s", 0, 2)), k = conc(symInt("k", 0, 2)), it = b.M.values(), i; for (i = 0; i < s; i++) eq(it.next().value, i * 10, "before"); b.M.set(k, "new"); for (; i < 3; i++) eq(it.next().value, i === k ? "new" : i * 10, "value read when reached"); });
scenario("entry_arrays_fresh", function () { var M = new Map([[1, 2]]), a = M.entries().next().value, b = M.entries().next().value; var w = symBool("w"); check(a !== b, "fresh arrays"); if (w) a[1] = 9; eq(M.get(1), 2, "not connected"); eq(b[1], 2, "other"); });
scenario("iterator_protocol", function () { var k = conc(symInt("k", 0, 3)), it = [new Map([[1, 2]]).keys(), new Set([1]).values(), new Map([[1, 2]])[Symbol.iterator](), new Set([1]).entries()][k]; check(it[Symbol.iterator]() === it, "iterable"); eq(Object.prototype.toString.call(it), k % 2 ? "[object Set Iterator]" : "[object Map Iterator]", "tag"); var p = Object.getPrototypeOf(it); eq(err(function () { p.next.call({}) }), "TypeError", "brand"); eq(err(function () { p.next.call((k % 2 ? new Map : new Set).keys()) }), "TypeError", "other kind"); eq(it.next().done, false, "first"); eq(it.next().done, true, "end"); eq(it.next().done, true, "stays"); });
scenario("break_leaves_usable", function () { var b = conc(symInt("b", 0, 3)), S = new Set([0, 1, 2]), it = S.values(), c = 0; for (var v of it) { if (c++ === b) break } eq(it.next().value, b < 2 ? b + 1 : undefined, "continues"); });
scenario("nested_iteration", function () { var S = new Set([0, 1, 2]), d = conc(symInt("d", 0, 2)), out = []; for (var a of S) for (var b of S) { out.push(a * 10 + b); if (a === 0 && b === 0) S.delete(d) } var want = d === 0 ? "0,1,2,11,12,21,22" : d === 1 ? "0,2,20,22" : "0,1,10,11"; eq(out.join(), want, "pairs"); });
scenario("collection_mid_iteration", function () { var b = both(4), it = b.M.keys(), mi = b.m.iter(), s = conc(symInt("s", 0, 4)), d = conc(symInt("d", 0, 3)), i; for (i = 0; i < s; i++) nx(it, mi, "before"); op(b.M, b.m, 1, d); gc(); for (i = 0; i < 5; i++) { nx(it, mi, "after"); gc() } });
scenario("dropped_iterators", function () { var n = conc(symInt("n", 0, 4)), M = new Map([[0, 0], [1, 1]]), i; for (i = 0; i < n; i++) { var it = M.keys(); it.next(); it = null; if (i & 1) gc() } M.delete(0); M.set(2, 2); M.clear(); M.set(3, 3); gc(); eq([...M.keys()].join(), "3", "state"); });
scenario("copy_while_changing", function () { var k = conc(symInt("k", 0, 2)), M = new Map([[1, 1], [2, 2], [3, 3]]), c = 0, src = { [Symbol.iterator]() { var it = M.entries(); return { next() { if (c++ === 1) { if (k === 0) M.delete(2); if (k === 1) M.set(4, 4); if (k === 2) M.clear() } return it.next() } } } }, N = new Map(src); eq([...N.keys()].join(), ["1,3", "1,2,3,4", "1"][k], "copied"); });
