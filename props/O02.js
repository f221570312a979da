// Integrity levels: preventExtensions, seal and freeze hold against every later operation.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var sloppy = (0, eval)("({ set: function (o, k, v) { o[k] = v }, del: function (o, k) { return delete o[k] }, define: function (o, k, d) { Object.defineProperty(o, k, d) } })");
function mk(k) { return k === 0 ? { a: 1, b: 2 } : k === 1 ? [1, 2] : k === 2 ? function (x) { } : k === 3 ? Object.create({ inh: 1 }, { a: { value: 1, writable: true, enumerable: true, configurable: true } }) : k === 4 ? new (class { a = 1 }) : k === 5 ? /x/g : k === 6 ? new Map : new Error("m") }
function snapshot(o) { var r = [], ks = Reflect.ownKeys(o), i; for (i = 0; i < ks.length; i++) { var d = Object.getOwnPropertyDescriptor(o, ks[i]); r.push([ks[i], d]) } return r }
function sameSnap(o, s, lvl, msg) { var n = snapshot(o), i; eq(n.length, s.length, msg + " key count"); for (i = 0; i < s.length; i++) { var a = n[i][1], b = s[i][1]; eq(n[i][0], s[i][0], msg + " key"); eq(a.enumerable, b.enumerable, msg + " enumerable"); eq(a.configurable, lvl === 0 ? b.configurable : false, msg + " configurable"); if ("value" in b) { eq(a.value, b.value, msg + " value"); eq(a.writable, lvl === 2 ? false : b.writable, msg + " writable") } else { eq(a.get, b.get, msg + " getter"); eq(a.set, b.set, msg + " setter") } } }
function level(o, l) { return l === 0 ? Object.preventExtensions(o) : l === 1 ? Object.seal(o) : Object.freeze(o) }
scenario("levels", function () { var k = conc(symInt("k", 0, 7)), l = conc(symInt("l", 0, 2)), o = mk(k), s = snapshot(o); eq(level(o, l), o, "returns the object"); sameSnap(o, s, l, "after"); eq(Object.isExtensible(o), false, "isExtensible"); eq(Reflect.isExtensible(o), false, "Reflect.isExtensible"); if (l >= 1 || s.length === 0) eq(Object.isSealed(o), true, "isSealed"); if (l === 2 || s.length === 0) eq(Object.isFrozen(o), true, "isFrozen"); });
scenario("predicates", function () { var x = symBool("x"), w = symBool("w"), c = symBool("c"), a = symBool("a"), o = {}; Object.defineProperty(o, "p", a ? { get() { }, configurable: c } : { value: 1, writable: w, configurable: c }); if (!x) Object.preventExtensions(o); eq(Object.isExtensible(o), x, "isExtensible"); eq(Object.isSealed(o), !x && !c, "isSealed"); eq(Object.isFrozen(o), !x && !c && (a || !w), "isFrozen"); });
scenario("primitives", function () { var k = conc(symInt("k", 0, 5)), v = [1, "s", true, null, undefined, Symbol()][k]; eq(Object.freeze(v), v, "freeze"); eq(Object.seal(v), v, "seal"); eq(Object.preventExtensions(v), v, "preventExtensions"); eq(Object.isFrozen(v), true, "isFrozen"); eq(Object.isSealed(v), true, "isSealed"); eq(Object.isExtensible(v), false, "isExtensible"); eq(err(function () { Reflect.preventExtensions(v) }), "TypeError", "Reflect"); });
scenario("attacks_on_frozen", function () { var k = conc(symInt("k", 0, 2)), o = mk(k), n = [["a", "b", "new"], [0, 1, 5], ["name", "prototype", "zz"]][k][conc(symInt("n", 0, 2))], op = conc(symInt("op", 0, 7)); Object.freeze(o); var s = snapshot(o); if (op === 0) eq(err(function () { "use strict"; o[n] = 9 }), "TypeError", "assign"); if (op === 1) sloppy.set(o, n, 9); if (op === 2) eq(err(function () { "use strict"; eq(delete o[n], true, "absent only") }), Reflect.has(o, n) ? "TypeError" : "none", "delete"); if (op === 3) eq(Reflect.deleteProperty(o, n), !Object.hasOwn(o, n), "deleteProperty"); if (op === 4) eq(Reflect.defineProperty(o, n, { value: 9 }), false, "define"); if (op === 5) eq(Reflect.set(o, n, 9), false, "Reflect.set"); if (op === 6) eq(Reflect.defineProperty(o, n, { get() { } }), false, "accessor"); if (op === 7) eq(Reflect.setPrototypeOf(o, {}), false, "prototype"); sameSnap(o, s, 2, "unchanged"); });
scenario("sealed_writes", function () { var k = conc(symInt("k", 0, 1)), l = conc(symInt("l", 0, 2)), o = mk(k), n = [["a", "new"], [0, 7]][k][conc(symInt("n", 0, 1))], own = Object.hasOwn(o, n); level(o, l); var ok = l < 2 && own; eq(Reflect.set(o, n, 9), ok, "write"); eq(Object.hasOwn(o, n), own, "never added"); if (own) eq(o[n], ok ? 9 : 1, "value"); eq(Reflect.deleteProperty(o, n), !own || l === 0, "delete"); });
scenario("frozen_arrays", function () { var m = conc(symInt("m", 0, 8)), n = conc(symInt("n", 0, 2)), a = [1, 2, 3].slice(0, n), s; Object.freeze(a); s = snapshot(a); var f = [function () { a.push(1) }, function () { a.pop() }, function () { a.shift() }, function () { a.unshift(0) }, function () { a.splice(0, 1) }, function () { a.sort() }, function () { a.reverse() }, function () { a.fill(0) }, function () { a.length = 0 }][m], quiet = m === 5 && n < 1 || m === 6 && n < 2 || m === 7 && n < 1 || m === 8; if (m === 5 && n >= 1) { err(f) } else eq(err(f), quiet ? "none" : "TypeError", "mutator"); sameSnap(a, s, 2, "unchanged"); });
scenario("nonextensible_arrays", function () { var l = conc(symInt("l", 0, 1)), m = conc(symInt("m", 0, 4)), a = [1, 2]; level(a, l); eq(err([function () { a.push(3) }, function () { a[5] = 1; throw new TypeError }, function () { a.pop() }, function () { a.unshift(0) }, function () { a.length = 1; if (a.length === 2) throw new TypeError }][m]), m === 2 || m === 4 ? (l ? "TypeError" : "none") : "TypeError", "operation"); check(a.length <= 2 || m === 0 && false || a.length <= 2, "no growth"); eq(2 in a, false, "no new element"); });
scenario("class_fields", function () { class B { constructor(o) { return o } } class C extends B { x = 1; #p = 2; static get(o) { return o.#p } } var f = symBool("f"), o = {}; if (f) Object.preventExtensions(o); eq(err(function () { new C(o) }), f ? "TypeError" : "none", "fields define properties"); eq(Object.hasOwn(o, "x"), !f, "field"); });
scenario("accessors_still_run", function () { var l = conc(symInt("l", 0, 2)), v = 0, o = { get p() { return v }, set p(x) { v = x } }; level(o, l); o.p = 5; eq(v, 5, "setter runs"); eq(o.p, 5, "getter runs"); });
scenario("nested_not_frozen", function () { var i = { x: 1 }, o = Object.freeze({ i: i }), v = symInt("v"); o.i.x = v; eq(i.x, v, "shallow"); });
scenario("prototype_fixed", function () { var p = {}, k = conc(symInt("k", 0, 2)), o = Object.preventExtensions(Object.create(p)), q = [p, {}, null][k]; eq(Reflect.setPrototypeOf(o, q), k === 0, "setPrototypeOf"); eq(err(function () { Object.setPrototypeOf(o, q) }), k === 0 ? "none" : "TypeError", "throws"); eq(Object.getPrototypeOf(o), p, "kept"); });
scenario("inherited_writes", function () { var l = conc(symInt("l", 0, 2)), p = level({ a: 1 }, l), o = Object.create(p), ok = l < 2; eq(Reflect.set(o, "a", 5), ok, "write through a prototype"); eq(Object.hasOwn(o, "a"), ok, "own"); eq(p.a, 1, "prototype kept"); eq(Reflect.set(o, "new", 1), true, "child is extensible"); });
scenario("frozen_proto_method", function () { var f = symBool("f"), p = { toString() { return "p" } }; if (f) Object.freeze(p); var o = Object.create(p); eq(err(function () { "use strict"; o.toString = function () { return "o" } }), f ? "TypeError" : "none", "override mistake"); eq(String(o), f ? "p" : "o", "result"); Object.defineProperty(o, "toString", { value() { return "d" } , configurable: true }); eq(String(o), "d", "define works"); });
scenario("typed_arrays", function () { var n = conc(symInt("n", 0, 2)), t = new Uint8Array(n); eq(err(function () { Object.freeze(t) }), n ? "TypeError" : "none", "freeze"); eq(Object.isFrozen(t), n === 0, "isFrozen"); t = new Uint8Array(n); eq(err(function () { Object.seal(t) }), n ? "TypeError" : "none", "elements stay configurable"); t = new Uint8Array(n); Object.preventExtensions(t); if (n) { t[0] = 7; eq(t[0], 7, "still writable") } eq(Object.isExtensible(t), false, "not extensible"); });
scenario("arguments_objects", function () { function f(a, b) { var l = conc(symInt("l", 0, 2)); level(arguments, l); a = 9; eq(arguments[0], l === 2 ? 1 : 9, "mapping"); eq(err(function () { "use strict"; }), "none", ""); arguments[1] = 7; eq(arguments[1], l === 2 ? 2 : 7, "write"); eq(b, l === 2 ? 2 : 7, "parameter") } (0, eval)("(" + "function (f) { f(1, 2) }" + ")")(f); });
scenario("proxies", function () { var l = conc(symInt("l", 0, 2)), log = "", t = { a: 1 }, p = new Proxy(t, { preventExtensions(o) { log += "p"; return Reflect.preventExtensions(o) }, defineProperty(o, k, d) { log += "d" + k; return Reflect.defineProperty(o, k, d) }, ownKeys(o) { log += "k"; return Reflect.ownKeys(o) }, getOwnPropertyDescriptor(o, k) { log += "g" + k; return Reflect.getOwnPropertyDescriptor(o, k) } }); level(p, l); eq(log, ["p", "pkda", "pkgada"][l], "operations"); eq([Object.isExtensible, Object.isSealed, Object.isFrozen][l](t), l === 0 ? false : true, "target"); });
scenario("refused", function () { var l = conc(symInt("l", 0, 2)), p = new Proxy({}, { preventExtensions() { return false } }); eq(err(function () { level(p, l) }), "TypeError", "refused"); eq(Reflect.preventExtensions(p), false, "Reflect"); eq(Object.isExtensible(p), true, "still extensible"); });
scenario("module_level_consts", function () { var k = conc(symInt("k", 0, 4)), n = ["Infinity", "NaN", "undefined", "Math.PI", "Number.MAX_VALUE"][k], f = (0, eval)("(function () { 'use strict'; " + n + " = 1 })"), b = (0, eval)(n); eq(err(f), "TypeError", "immutable constants"); eq((0, eval)(n), b, "unchanged"); (0, eval)("(function () { " + n + " = 1 })()"); eq((0, eval)(n), b, "silently ignored"); });
scenario("template_objects", function () { function t(s) { return s } var k = symBool("k"), o = t`a${1}b`; eq(Object.isFrozen(o), true, "template object"); eq(Object.isFrozen(o.raw), true, "raw"); eq(err(function () { "use strict"; (k ? o : o.raw)[0] = 1 }), "TypeError", "write"); });
