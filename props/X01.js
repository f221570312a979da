// Proxy: traps, forwarding and every invariant against a transcription of the specification.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var G1 = function () { return 1 }, S1 = function () { };
var fromDesc = function (d) { return d };
function target() { var t = {}, k = conc(symInt("tk", 0, 3)), c = symBool("tc"), e = symBool("te"), cur; if (k === 1) cur = { value: 1, writable: symBool("tw"), enumerable: e, configurable: c }; if (k === 2) cur = { get: symBool("tg") ? G1 : undefined, set: symBool("ts") ? S1 : undefined, enumerable: e, configurable: c }; if (k === 3) cur = { value: 1, writable: true, enumerable: true, configurable: true }; if (cur) Object.defineProperty(t, "p", cur); if (!symBool("tx")) Object.preventExtensions(t); return { t: t, cur: cur, ext: Object.isExtensible(t) } }
scenario("get_invariant", function () { var T = target(), v = conc(symInt("v", 0, 2)), r = [1, 2, undefined][v], p = new Proxy(T.t, { get() { return r } }), c = T.cur, bad = c && !c.configurable && ("value" in c ? !c.writable && r !== c.value : c.get === undefined && r !== undefined); eq(err(function () { eq(p.p, r, "trap result") }), bad ? "TypeError" : "none", "get"); eq(err(function () { eq(p.q, r, "other key") }), "none", "other key"); }, 2);
scenario("set_invariant", function () { var T = target(), v = conc(symInt("v", 1, 2)), r = symBool("r"), p = new Proxy(T.t, { set() { return r } }), c = T.cur, bad = r && c && !c.configurable && ("value" in c ? !c.writable && v !== c.value : c.set === undefined); eq(err(function () { eq(Reflect.set(p, "p", v), r, "result") }), bad ? "TypeError" : "none", "set"); eq(err(function () { "use strict"; p.p = v }), bad || !r ? "TypeError" : "none", "strict"); }, 2);
scenario("has_invariant", function () { var T = target(), r = symBool("r"), p = new Proxy(T.t, { has() { return r } }), c = T.cur, bad = !r && c && (!c.configurable || !T.ext); eq(err(function () { eq("p" in p, r, "result"); }), bad ? "TypeError" : "none", "has"); eq(Reflect.has(new Proxy(T.t, {}), "p"), !!c, "forwarded"); });
scenario("delete_invariant", function () { var T = target(), r = symBool("r"), p = new Proxy(T.t, { deleteProperty() { return r } }), c = T.cur, bad = r && c && (!c.configurable || !T.ext); eq(err(function () { eq(Reflect.deleteProperty(p, "p"), r, "result") }), bad ? "TypeError" : "none", "delete"); eq(Object.hasOwn(T.t, "p"), !!c, "target kept"); eq(Reflect.deleteProperty(new Proxy(T.t, {}), "p"), !c || c.configurable, "forwarded"); });
function compatible(ext, d, cur) { if (!cur) return ext; var t = {}; Object.defineProperty(t, "p", cur); return Reflect.defineProperty(t, "p", d) }
scenario("gopd_invariant", function () { var T = target(), k = conc(symInt("rk", 0, 3)), c = T.cur, rc = symBool("rc"), r = k === 0 ? undefined : k === 1 ? { value: 1, writable: symBool("rw"), enumerable: true, configurable: rc } : k === 2 ? { get: G1, enumerable: true, configurable: rc } : 5, p = new Proxy(T.t, { getOwnPropertyDescriptor() { return r } }), bad; if (k === 3) bad = true; else if (k === 0) bad = c && (!c.configurable || !T.ext); else { var full = k === 1 ? r : { get: G1, set: undefined, enumerable: true, configurable: rc }; bad = !compatible(T.ext, full, c); if (!rc && (!c || c.configurable)) bad = true; if (!rc && c && "writable" in full && !full.writable && c.writable) bad = true } eq(err(function () { var d = Object.getOwnPropertyDescriptor(p, "p"); if (k === 0) eq(d, undefined, "absent"); else { eq(d.configurable, rc, "configurable"); if (k === 1) eq(d.writable, r.writable, "writable"); if (k === 2) eq(d.get, G1, "getter") } }), bad ? "TypeError" : "none", "getOwnPropertyDescriptor"); }, 3);
scenario("define_invariant", function () { var T = target(), r = symBool("r"), c = T.cur, d = {}; if (symBool("dv")) d.value = conc(symInt("v", 1, 2)); if (symBool("dw")) d.writable = symBool("w"); if (symBool("dc")) d.configurable = symBool("c"); var p = new Proxy(T.t, { defineProperty() { return r } }), sc = "configurable" in d && !d.configurable, bad; if (!r) bad = false; else if (!c) bad = !T.ext || sc; else { bad = !compatible(T.ext, d, c) || sc && c.configurable; if ("value" in c && !c.configurable && c.writable && "writable" in d && !d.writable) bad = true } eq(err(function () { eq(Reflect.defineProperty(p, "p", d), r, "result") }), bad ? "TypeError" : "none", "defineProperty"); }, 3);
scenario("own_keys_invariant", function () { var t = {}, ext = symBool("x"), ca = symBool("ca"), cb = symBool("cb"), m = conc(symInt("m", 0, 7)), dup = symBool("dup"), r = [], n = ["a", "b", "z"], i; Object.defineProperty(t, "a", { value: 1, configurable: ca }); Object.defineProperty(t, "b", { value: 1, configurable: cb }); if (!ext) Object.preventExtensions(t); for (i = 0; i < 3; i++) if (m >> i & 1) r.push(n[i]); if (dup && r.length) r.push(r[0]); var p = new Proxy(t, { ownKeys() { return r } }), bad = dup && m !== 0 || !ca && !(m & 1) || !cb && !(m & 2) || !ext && m !== 3; eq(err(function () { eq(Reflect.ownKeys(p).join(), r.join(), "keys") }), bad ? "TypeError" : "none", "ownKeys"); }, 2);
scenario("own_keys_types", function () { var k = conc(symInt("k", 0, 8)), r = [[], ["a", Symbol.iterator], [1], [null], [{}], "ab", null, { length: 2, 0: "x", 1: "y" }, [undefined]][k], ok = k === 0 || k === 1 || k === 7; eq(err(function () { eq(Reflect.ownKeys(new Proxy({}, { ownKeys() { return r } })).length, r.length, "length") }), ok ? "none" : "TypeError", "list of keys"); });
scenario("prototype_invariant", function () { var P = {}, Q = {}, ext = symBool("x"), k = conc(symInt("k", 0, 4)), r = [P, Q, null, undefined, 5][k], t = Object.create(P); if (!ext) Object.preventExtensions(t); var p = new Proxy(t, { getPrototypeOf() { return r } }), bad = k > 2 || !ext && k !== 0; eq(err(function () { eq(Object.getPrototypeOf(p), r, "result") }), bad ? "TypeError" : "none", "getPrototypeOf"); });
scenario("set_prototype_invariant", function () { var P = {}, Q = {}, ext = symBool("x"), v = symBool("v") ? P : Q, r = conc(symInt("r", 0, 4)), rv = [true, false, 0, "x", undefined][r], t = Object.create(P); if (!ext) Object.preventExtensions(t); var p = new Proxy(t, { setPrototypeOf() { return rv } }), bad = !!rv && !ext && v !== P; eq(err(function () { eq(Reflect.setPrototypeOf(p, v), !!rv, "result") }), bad ? "TypeError" : "none", "setPrototypeOf"); eq(Object.getPrototypeOf(t), P, "target kept"); if (!rv) eq(err(function () { Object.setPrototypeOf(p, v) }), "TypeError", "false throws"); });
scenario("extensible_invariant", function () { var ext = symBool("x"), r = conc(symInt("r", 0, 3)), rv = [true, false, 0, "x"][r], t = {}; if (!ext) Object.preventExtensions(t); var p = new Proxy(t, { isExtensible() { return rv }, preventExtensions() { return rv } }); eq(err(function () { eq(Object.isExtensible(p), ext, "result") }), !!rv === ext ? "none" : "TypeError", "isExtensible"); eq(err(function () { eq(Reflect.preventExtensions(p), !!rv, "result") }), rv && ext ? "TypeError" : "none", "preventExtensions"); });
scenario("forwarding", function () { var k = conc(symInt("k", 0, 12)), n = conc(symInt("n", 0, 2)), t = { a: 1, f() { return this }, get g() { return this } }, h = [{}, { get: undefined, set: undefined, has: null, ownKeys: null, getOwnPropertyDescriptor: undefined, defineProperty: null, deleteProperty: undefined, getPrototypeOf: null, setPrototypeOf: null, isExtensible: null, preventExtensions: null }, Object.create(null)][n], p = new Proxy(t, h); if (k === 0) eq(p.a, 1, "get"); if (k === 1) { p.b = 2; eq(t.b, 2, "set") } if (k === 2) eq("a" in p, true, "has"); if (k === 3) { delete p.a; eq("a" in t, false, "delete") } if (k === 4) eq(Object.keys(p).join(), "a,f,g", "keys"); if (k === 5) { Object.defineProperty(p, "c", { value: 3 }); eq(t.c, 3, "define") } if (k === 6) eq(Object.getOwnPropertyDescriptor(p, "a").value, 1, "descriptor"); if (k === 7) eq(Object.getPrototypeOf(p), Object.prototype, "prototype"); if (k === 8) { Object.setPrototypeOf(p, null); eq(Object.getPrototypeOf(t), null, "set prototype") } if (k === 9) { Object.freeze(p); eq(Object.isFrozen(t), true, "freeze") } if (k === 10) { eq(p.f(), p, "this is the proxy"); eq(p.g, p, "getter receiver") } if (k === 11) { var r = []; for (var x in p) r.push(x); eq(r.join(), "a,f,g", "for-in") } if (k === 12) eq(JSON.stringify(new Proxy({ a: [1], b: 2 }, h)), '{"a":[1],"b":2}', "json"); }, 1);
scenario("trap_arguments", function () { var k = conc(symInt("k", 0, 10)), t = {}, h = {}, p = new Proxy(t, h), seen, n = ["get", "set", "has", "deleteProperty", "ownKeys", "getOwnPropertyDescriptor", "defineProperty", "getPrototypeOf", "setPrototypeOf", "isExtensible", "preventExtensions"][k]; h[n] = function () { seen = [].slice.call(arguments); check(this === h, "this is the handler"); return k === 4 ? [] : k === 5 ? undefined : k === 7 ? null : k === 9 ? true : k === 10 ? false : k !== 2 && k !== 6 || true }; var d = { value: 5, junk: 1 }; [function () { p.x }, function () { p.x = 7 }, function () { "x" in p }, function () { delete p.x }, function () { Object.keys(p) }, function () { Object.getOwnPropertyDescriptor(p, "x") }, function () { Reflect.defineProperty(p, "x", d) }, function () { Object.getPrototypeOf(p) }, function () { Reflect.setPrototypeOf(p, null) }, function () { Object.isExtensible(p) }, function () { Reflect.preventExtensions(p) }][k](); eq(seen[0], t, "target"); eq(seen.length, [3, 4, 2, 2, 1, 2, 3, 1, 2, 1, 1][k], "argument count"); if (seen.length > 1 && k !== 8) eq(seen[1], "x", "key"); if (k === 0) eq(seen[2], p, "receiver"); if (k === 1) { eq(seen[2], 7, "value"); eq(seen[3], p, "receiver") } if (k === 6) { eq(seen[2].value, 5, "descriptor"); eq(Object.keys(seen[2]).join(), "value", "only descriptor fields") } });
scenario("trap_type", function () { var k = conc(symInt("k", 0, 5)), v = [undefined, null, 5, "f", {}, function () { return true }][k], p = new Proxy({}, { has: v, get: v }); var ok = k < 2 || k === 5; eq(err(function () { "x" in p }), ok ? "none" : "TypeError", "has"); eq(err(function () { p.x }), ok ? "none" : "TypeError", "get"); });
scenario("call_construct", function () { var k = conc(symInt("k", 0, 3)), T = [function (a) { "use strict"; return new.target ? undefined : this }, class { }, () => 7, {}][k], call = k === 0 || k === 2, cons = k < 2, p = new Proxy(T, {}); eq(typeof p, k < 3 ? "function" : "object", "typeof"); eq(err(function () { p() }), call ? "none" : "TypeError", "call"); eq(err(function () { new p }), cons ? "none" : "TypeError", "construct"); if (k === 0) { var o = { p: p }; eq(o.p(), o, "this") } });
scenario("apply_trap", function () { var n = conc(symInt("n", 0, 3)), seen, T = function () { }, p = new Proxy(T, { apply(t, th, args) { seen = args; eq(t, T, "target"); return args.length } }), a = [1, 2, 3].slice(0, n), o = {}; eq(p.apply(o, a), n, "apply"); eq(seen.join(), a.join(), "arguments"); eq(Array.isArray(seen), true, "array"); eq(p(...a), n, "call"); eq(Reflect.apply(p, o, a), n, "Reflect"); });
scenario("construct_trap", function () { var k = conc(symInt("k", 0, 4)), r = [{}, [], 5, undefined, null][k], T = function () { }, N = function () { }, seen, p = new Proxy(T, { construct(t, args, nt) { seen = nt; eq(args.length, 1, "arguments"); return r } }); eq(err(function () { eq(new p(1), r, "result") }), k < 2 ? "none" : "TypeError", "must return an object"); if (k < 2) { eq(seen, p, "newTarget is the proxy"); Reflect.construct(p, [1], N); eq(seen, N, "given newTarget") } });
scenario("revoked", function () { var k = conc(symInt("k", 0, 14)), f = symBool("f"), r = Proxy.revocable(f ? function () { } : {}, {}), p = r.proxy; r.revoke(); r.revoke(); eq(err([function () { p.x }, function () { p.x = 1 }, function () { "x" in p }, function () { delete p.x }, function () { Object.keys(p) }, function () { Object.getOwnPropertyDescriptor(p, "x") }, function () { Object.defineProperty(p, "x", {}) }, function () { Object.getPrototypeOf(p) }, function () { Object.setPrototypeOf(p, null) }, function () { Object.isExtensible(p) }, function () { Object.preventExtensions(p) }, function () { p() }, function () { new p }, function () { Array.isArray(p) }, function () { for (var i in p); }][k]), "TypeError", "every operation throws"); eq(typeof p, f ? "function" : "object", "typeof is kept"); eq(err(function () { new Proxy(p, {}); new Proxy({}, p) }), "none", "may be wrapped"); });
scenario("revoked_in_trap", function () { var k = conc(symInt("k", 0, 3)), r = Proxy.revocable({ x: 1 }, { get(t, n) { r.revoke(); return 5 }, has() { r.revoke(); return true }, ownKeys() { r.revoke(); return ["x"] }, set() { r.revoke(); return true } }), p = r.proxy; if (k === 0) eq(p.y, 5, "get completes"); if (k === 1) eq("y" in p, true, "has completes"); if (k === 2) eq(Reflect.ownKeys(p).join(), "x", "ownKeys completes"); if (k === 3) eq(Reflect.set(p, "y", 1), true, "set completes"); eq(err(function () { p.z }), "TypeError", "then revoked"); });
scenario("constructor_arguments", function () { var i = conc(symInt("i", 0, 4)), j = conc(symInt("j", 0, 4)), V = [{}, null, 1, "s", undefined], ok = i === 0 && j === 0; eq(err(function () { new Proxy(V[i], V[j]) }), ok ? "none" : "TypeError", "new"); eq(err(function () { Proxy.revocable(V[i], V[j]) }), ok ? "none" : "TypeError", "revocable"); eq(err(function () { Proxy({}, {}) }), "TypeError", "needs new"); });
scenario("chained", function () { var n = conc(symInt("n", 1, 6)), t = { x: 0 }, p = t, i, c = 0; for (i = 0; i < n; i++) p = new Proxy(p, { get(a, k, r) { c++; return Reflect.get(a, k, r) + 1 }, has(a, k) { c += 100; return Reflect.has(a, k) } }); eq(p.x, n, "each layer"); eq(c, n, "once each"); eq("x" in p, true, "has"); eq(c, 101 * n, "has layers"); });
scenario("array_proxy", function () { var p = new Proxy([3, 1, 2], {}), v = symInt("v", 0, 5); eq(Array.isArray(p), true, "isArray"); p.push(v); eq(p.length, 4, "push"); eq([].concat(p).length, 4, "concat spreads"); eq(p.indexOf(2), 2, "indexOf"); p.length = 1; eq(p[1], undefined, "length"); eq(JSON.stringify(p), "[3]", "JSON"); eq(Object.prototype.toString.call(p), "[object Array]", "tag"); });
scenario("keys_via_gopd", function () { var m = conc(symInt("m", 0, 15)), n = ["a", "b"], log = "", p = new Proxy({}, { ownKeys() { log += "k"; return n }, getOwnPropertyDescriptor(t, k) { var i = n.indexOf(k); log += k; return m >> i & 1 ? { value: i, enumerable: !!(m >> (i + 2) & 1), configurable: true } : undefined }, get(t, k) { log += "g" + k; return k } }), w = n.filter(function (k, i) { return m >> i & 1 && m >> (i + 2) & 1 }); eq(Object.keys(p).join(), w.join(), "keys"); eq(log, "kab", "order"); log = ""; eq(Object.values(p).join(), w.join(), "values"); log = ""; var c = Object.assign({}, p); eq(Object.keys(c).join(), w.join(), "assign"); eq(log, "k" + n.map(function (k) { return k + (w.indexOf(k) >= 0 ? "g" + k : "") }).join(""), "assign order"); log = ""; c = { ...p }; eq(log, "k" + n.map(function (k) { return k + (w.indexOf(k) >= 0 ? "g" + k : "") }).join(""), "spread order"); });
scenario("set_through_receiver", function () { var log = "", t = {}, p = new Proxy(t, { getOwnPropertyDescriptor(a, k) { log += "g"; return Reflect.getOwnPropertyDescriptor(a, k) }, defineProperty(a, k, d) { log += "d" + Object.keys(d).length; return Reflect.defineProperty(a, k, d) } }), k = symBool("k"); if (k) t.x = 1; p.x = 5; eq(log, k ? "gd1" : "gd4", "set defines on the receiver"); eq(t.x, 5, "value"); });
scenario("trap_exceptions", function () { var k = conc(symInt("k", 0, 5)), h = new Proxy({}, { get(t, n) { throw new RangeError(n) } }), p = new Proxy(function () { }, h); eq(err([function () { p.x }, function () { p.x = 1 }, function () { "x" in p }, function () { p() }, function () { new p }, function () { Object.keys(p) }][k]), "RangeError", "handler lookup errors propagate"); });
scenario("instanceof_proxy", function () { function F() { } var k = symBool("k"), p = new Proxy(F, k ? { get(t, n) { return n === "prototype" ? Array.prototype : Reflect.get(t, n) } } : {}); eq([] instanceof p, k, "get trap for prototype") ; eq(new F instanceof p, !k, "forwarded"); }, 1);
