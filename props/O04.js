// Prototype chains: lookup, shadowing, accessors, setPrototypeOf, constructors and instanceof.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
scenario("lookup_depth", function () { var n = conc(symInt("n", 1, 8)), m = conc(symInt("m", 0, 255)), o = null, i, want; for (i = 0; i < n; i++) { o = Object.create(o); if (m >> i & 1) { o.p = i; want = i } } assume(m < 1 << n); eq(o.p, want, "nearest value"); eq("p" in o, want !== undefined, "in"); eq(Reflect.get(o, "p"), want, "Reflect.get"); eq(Object.hasOwn(o, "p"), !!(m >> (n - 1) & 1), "own"); });
scenario("write_shadows", function () { var d = conc(symInt("d", 0, 3)), w = conc(symInt("w", 0, 3)), c = [{ p: 0 }], i; for (i = 1; i < 4; i++) c.push(Object.create(c[i - 1])); c[d].p = "d"; c[w].p = "w"; for (i = 0; i < 4; i++) eq(c[i].p, i >= w && (w >= d || i < d) ? "w" : i >= d ? "d" : 0, "value at " + i); if (w !== d) for (i = 0; i < 4; i++) eq(Object.hasOwn(c[i], "p"), i === 0 || i === d || i === w, "own at " + i); });
scenario("change_later", function () { var p = { x: 1 }, q = { x: 2 }, o = Object.create(p), k = conc(symInt("k", 0, 3)), i; for (i = 0; i < 3; i++) { eq(o.x, 1, "before") } if (k === 0) p.x = 5; if (k === 1) Object.setPrototypeOf(o, q); if (k === 2) delete p.x; if (k === 3) o.x = 7; eq(o.x, [5, 2, undefined, 7][k], "after"); function get(v) { return v.x } eq(get(o), [5, 2, undefined, 7][k], "again"); });
scenario("inline_site_polymorphic", function () { function get(v) { return v.f } function put(v, x) { v.f = x } var os = [{ f: 1 }, Object.create({ f: 2 }), { get f() { return 3 } }, [], Object.create(null), "s", function f() { }, { a: 0, f: 4 }], w = [1, 2, 3, undefined, undefined, undefined, undefined, 4], i; for (i = 0; i < 4; i++) { var k = conc(symInt("k" + i, 0, 7)); eq(get(os[k]), w[k], "read"); if (symBool("p" + i)) { put(os[k], 9); if (k !== 2 && k !== 5) w[k] = 9; if (k === 2) eq(os[2].f, 3, "getter only") } } }, 5);
scenario("cycles", function () { var n = conc(symInt("n", 1, 5)), t = conc(symInt("t", 0, 4)), c = [{}], i; assume(t < n); for (i = 1; i < n; i++) c.push(Object.create(c[i - 1])); eq(err(function () { Object.setPrototypeOf(c[t], c[n - 1]) }), "TypeError", "cycle rejected"); eq(Reflect.setPrototypeOf(c[t], c[n - 1]), false, "Reflect"); eq(Object.getPrototypeOf(c[t]), t ? c[t - 1] : Object.prototype, "kept"); eq(err(function () { c[t].__proto__ = c[n - 1] }), "TypeError", "__proto__"); });
scenario("set_prototype_arguments", function () { var k = conc(symInt("k", 0, 7)), v = [null, {}, undefined, 1, "s", true, Symbol(), function () { }][k], ok = k < 2 || k === 7, o = {}; eq(err(function () { Object.setPrototypeOf(o, v) }), ok ? "none" : "TypeError", "prototype value"); if (ok) eq(Object.getPrototypeOf(o), v, "set"); eq(err(function () { Object.create(v) }), ok ? "none" : "TypeError", "create"); o = { __proto__: v }; eq(Object.getPrototypeOf(o), ok ? v : Object.prototype, "literal"); eq(Object.hasOwn(o, "__proto__"), false, "no own property"); });
scenario("literal_proto_forms", function () { var p = { z: 1 }, __proto__ = p, k = conc(symInt("k", 0, 5)), o = [{ __proto__: p }, { "__proto__": p }, { ["__proto__"]: p }, { __proto__ }, { __proto__() { } }, { get __proto__() { return 5 } }][k]; eq(Object.getPrototypeOf(o), k < 2 ? p : Object.prototype, "prototype"); eq(Object.hasOwn(o, "__proto__"), k >= 2, "own"); eq(err(function () { (0, eval)("({ __proto__: null, '__proto__': null })") }), "SyntaxError", "duplicate"); eq(err(function () { (0, eval)("({ __proto__: null, ['__proto__']: null, __proto__() {} })") }), "none", "other forms"); });
scenario("primitive_receivers", function () { var k = conc(symInt("k", 0, 4)), P = [Number, String, Boolean, Symbol, BigInt][k].prototype, v = [1, "s", true, Symbol.iterator, 2n][k], seen; Object.defineProperty(P, "who", { get: function () { "use strict"; return this }, set: function (x) { "use strict"; seen = [this, x] }, configurable: true }); try { eq(v.who, v, "strict getters see the primitive"); v.who = 5; eq(seen[0], v, "strict setters too"); eq(err(function () { "use strict"; v.other = 1 }), "TypeError", "no properties on primitives"); v.other = 1; eq(v.other, undefined, "ignored") } finally { delete P.who } });
scenario("null_undefined", function () { var u = symBool("u"), v = u ? undefined : null, k = conc(symInt("k", 0, 5)); eq(err([function () { v.p }, function () { v.p = 1 }, function () { v.p() }, function () { delete v.p }, function () { v["x" + 1] }, function () { v?.p; throw new TypeError }][k]), "TypeError", "no object"); eq(v?.p, undefined, "?."); eq(v?.[0].x.y, undefined, "?.[]"); eq(v?.(), undefined, "?.()"); });
scenario("accessor_receiver", function () { var log = [], p = { get x() { log.push(this.id); return this.id * 2 }, set x(v) { log.push(v); this.y = v } }, o = Object.create(p), q = Object.create(o), v = symInt("v", -5, 5), d = symBool("d"), t = d ? q : o; t.id = 4; eq(t.x, 8, "getter this"); t.x = v; eq(t.y, v, "setter this"); eq(Object.hasOwn(t, "y"), true, "stored on the receiver"); eq(Object.hasOwn(t, "x"), false, "no shadow"); eq(log.length, 2, "calls"); });
scenario("instanceof_chain", function () { function A() { } function B() { } B.prototype = Object.create(A.prototype); var k = conc(symInt("k", 0, 5)), v = [new A, new B, {}, Object.create(B.prototype), 5, null][k]; eq(v instanceof A, k === 0 || k === 1 || k === 3, "A"); eq(v instanceof B, k === 1 || k === 3, "B"); eq(A.prototype.isPrototypeOf(v), k === 0 || k === 1 || k === 3, "isPrototypeOf"); B.prototype = {}; eq(v instanceof B, false, "replaced prototype"); });
scenario("instanceof_hooks", function () { var k = conc(symInt("k", 0, 6)), r = [true, false, 0, 1, "", "x", null][k], C = { [Symbol.hasInstance](v) { return r } }; eq({} instanceof C, !!r, "hasInstance result"); eq(err(function () { ({}) instanceof {} }), "TypeError", "not callable"); eq(err(function () { ({}) instanceof 5 }), "TypeError", "not an object"); var b = (function F() { }).bind(); eq({} instanceof b, false, "bound"); eq(err(function () { ({}) instanceof (() => 1) }), "TypeError", "no prototype"); eq(5 instanceof (() => 1), false, "primitive first"); });
scenario("bound_instanceof", function () { function F() { } var n = conc(symInt("n", 0, 3)), b = F, i; for (i = 0; i < n; i++) b = b.bind(); eq(new F instanceof b, true, "through bound functions"); eq(Object.getPrototypeOf(new b), F.prototype, "construct"); });
scenario("new_prototype", function () { function F() { } var k = conc(symInt("k", 0, 4)), P = [{ a: 1 }, null, 5, undefined, function () { }][k]; F.prototype = P; var o = new F; eq(Object.getPrototypeOf(o), k === 0 || k === 4 ? P : Object.prototype, "non-object prototypes fall back"); });
scenario("constructor_return", function () { var k = conc(symInt("k", 0, 5)), x = {}, r = [undefined, 5, null, x, "s", function () { }][k]; function F() { this.p = 1; return r } var o = new F; check(k === 3 || k === 5 ? o === r : o.p === 1, "constructor result"); });
scenario("reflect_construct", function () { var k = conc(symInt("k", 0, 3)), T = [function T() { }, class T { }, Array, Map][k], N = function N() { }, o = Reflect.construct(T, [], N); eq(Object.getPrototypeOf(o), N.prototype, "newTarget decides the prototype"); eq(Array.isArray(o), k === 2, "kind of the target"); if (k === 3) eq(Map.prototype.set.call(o, 1, 2) === o, true, "map slots"); eq(err(function () { Reflect.construct(T, [], () => 1) }), "TypeError", "newTarget must construct"); eq(err(function () { Reflect.construct(() => 1, []) }), "TypeError", "target must construct"); });
scenario("new_target", function () { var seen; function F() { seen = new.target } var k = conc(symInt("k", 0, 3)), G = function () { }; [function () { F() }, function () { new F }, function () { Reflect.construct(F, [], G) }, function () { F.call({}) }][k](); eq(seen, [undefined, F, G, undefined][k], "new.target"); });
scenario("builtin_subclass_proto", function () { var k = conc(symInt("k", 0, 7)), C = [Array, Map, Set, Error, Promise, RegExp, Date, Uint8Array][k], f = function () { }; f.prototype = { tag: 1 }; var o = Reflect.construct(C, k === 4 ? [function () { }] : [], f); eq(o.tag, 1, "custom prototype"); eq(Object.getPrototypeOf(o), f.prototype, "exact"); f.prototype = null; o = Reflect.construct(C, k === 4 ? [function () { }] : [], f); eq(Object.getPrototypeOf(o), C.prototype, "fallback"); });
scenario("proto_accessor", function () { var k = conc(symInt("k", 0, 3)), d = Object.getOwnPropertyDescriptor(Object.prototype, "__proto__"); if (!d) return; var v = [1, "s", null, undefined][k]; if (k < 2) eq(d.get.call(v), Object.getPrototypeOf(Object(v)), "get"); else eq(err(function () { d.get.call(v) }), "TypeError", "get null"); eq(err(function () { d.set.call(v, {}) }), k < 2 ? "none" : "TypeError", "set"); var o = {}; o.__proto__ = 5; eq(Object.getPrototypeOf(o), Object.prototype, "ignored"); var n = Object.create(null); n.__proto__ = 5; eq(n.__proto__, 5, "ordinary property without Object.prototype"); });
scenario("method_lookup_order", function () { var log = "", o = { get f() { log += "f"; return function (a) { log += "c" } } }, k = conc(symInt("k", 0, 1)); function arg() { log += "a"; return 1 } if (k) o.f(arg()); else { var u = { get f() { log += "f"; return undefined } }; eq(err(function () { u.f(arg()) }), "TypeError", "not callable") } eq(log, k ? "fac" : "fa", "lookup, arguments, call"); });
scenario("setter_on_chain_stops", function () { var k = conc(symInt("k", 0, 2)), hit = 0, g = { set p(v) { hit = "g" } }, p = k === 0 ? Object.create(g) : k === 1 ? Object.create(g, { p: { value: 1, writable: true } }) : Object.create(g, { p: { set(v) { hit = "p" } } }), o = Object.create(p); o.p = 5; eq(hit, ["g", 0, "p"][k], "first found decides"); eq(Object.hasOwn(o, "p"), k === 1, "own"); });
scenario("array_proto", function () { var n = symInt("n", 0, 3), a = [, 1], P = { __proto__: Array.prototype, 0: "z", 5: "y" }; Object.setPrototypeOf(a, P); eq(a[n], n === 0 ? "z" : n === 1 ? 1 : undefined, "holes read the chain"); eq(a[5], "y", "beyond the length"); eq(a.length, 2, "length"); eq(n in a, n < 2, "in"); });
scenario("symbol_prototypes", function () { var s = Symbol("k"), p = { [s]: 1 }, o = Object.create(p), v = symInt("v"); eq(o[s], 1, "inherited"); o[s] = v; eq(o[s], v, "own"); eq(p[s], 1, "kept"); delete o[s]; eq(o[s], 1, "visible again"); });
scenario("proxy_in_chain", function () { var log = "", k = conc(symInt("k", 0, 3)), p = new Proxy({}, { get(t, n, r) { log += "g"; check(r === o, "receiver"); return 7 }, set(t, n, v, r) { log += "s"; check(r === o, "receiver"); return true }, has() { log += "h"; return true }, getPrototypeOf() { log += "p"; return null } }), o = Object.create(p); if (k === 0) eq(o.x, 7, "get"); if (k === 1) { o.x = 1; eq(Object.hasOwn(o, "x"), false, "set trapped") } if (k === 2) eq("x" in o, true, "has"); if (k === 3) { o.x; Object.defineProperty(o, "x", { value: 2 }); eq(o.x, 2, "own first") } eq(log, ["g", "s", "h", "g"][k], "traps"); });
// OrdinarySet and OrdinaryGet with any receiver: the holder of the property, its kind and the state of the receiver are free.
scenario("set_receiver", function () {
  var log = "", key = ["p", "0", Symbol.iterator][conc(symInt("key", 0, 2))], depth = conc(symInt("depth", 0, 2)), hk = conc(symInt("hk", 0, 5)), rk = conc(symInt("rk", 0, 9)), v = symInt("v", -3, 3), o, h = {}, d, i;
  function put(x, k) { if (k === 1) Object.defineProperty(x, key, { value: 1, writable: true, enumerable: false, configurable: true }); if (k === 2) Object.defineProperty(x, key, { value: 1, writable: false, configurable: true }); if (k === 3) Object.defineProperty(x, key, { set: function (y) { "use strict"; log += "S"; check(this === r, "this of the setter"); eq(y, v, "argument of the setter") }, configurable: true }); if (k === 4) Object.defineProperty(x, key, { get() { return 5 }, configurable: true }); if (k === 5) Object.defineProperty(x, key, { value: 1, writable: true, configurable: false }) }
  put(h, hk); o = h; for (i = 0; i < depth; i++) o = Object.create(o);
  var r = rk === 0 ? o : rk === 1 ? 5 : rk === 2 ? "str" : rk === 9 ? [7] : {}, st = 0; // state of the receiver's own property
  if (rk > 2 && rk < 8) { st = rk - 2; put(r, st) }
  if (rk === 8) Object.preventExtensions(r);
  if (rk === 0) st = depth === 0 ? hk : 0;
  var e, el = "", own = rk === 2 || rk === 1 ? undefined : Object.getOwnPropertyDescriptor(r, key);
  if (hk === 2 || hk === 4) e = false;
  else if (hk === 3) { e = true; el = "S" }
  else if (rk === 1 || rk === 2) e = false;
  else if (own) e = "value" in own && own.writable; else e = rk !== 8;
  eq(Reflect.set(o, key, v, r), e, "result"); eq(log, el, "setter calls");
  if (rk !== 1 && rk !== 2) {
    d = Object.getOwnPropertyDescriptor(r, key);
    if (!e || el) { eq(d === undefined, own === undefined, "own property kept"); if (d) { eq(d.value, own.value, "value kept"); eq(d.set, own.set, "setter kept"); eq(d.get, own.get, "getter kept"); eq(d.writable, own.writable, "writable kept") } }
    else { eq(d.value, v, "stored"); eq(d.writable, true, "writable"); eq(d.enumerable, own ? own.enumerable : true, "enumerable"); eq(d.configurable, own ? own.configurable : true, "configurable") }
  }
  if (r !== o && depth + hk > 0) { d = Object.getOwnPropertyDescriptor(h, key); if (d && "value" in d) eq(d.value, 1, "holder unchanged") }
  for (i = o; i !== h; i = Object.getPrototypeOf(i)) if (i !== r) eq(Object.hasOwn(i, key), false, "objects between unchanged");
}, 4);
