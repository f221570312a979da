// Property descriptors: [[DefineOwnProperty]] and friends against a direct transcription of ValidateAndApplyPropertyDescriptor.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var G1 = function () { return 1 }, G2 = function () { return 2 }, S1 = function (v) {}, S2 = function (v) {};
function has(o, k) { return Object.prototype.hasOwnProperty.call(o, k) }
function isAcc(d) { return has(d, "get") || has(d, "set") }
function isData(d) { return has(d, "value") || has(d, "writable") }
// the model: cur is undefined or a complete descriptor; returns the new complete descriptor or null when rejected
function apply(cur, d, ext) {
    if (!cur) { if (!ext) return null; var n = { enumerable: !!d.enumerable, configurable: !!d.configurable }; if (isAcc(d)) { n.get = d.get; n.set = d.set } else { n.value = d.value; n.writable = !!d.writable } return n }
    if (!cur.configurable) { if (d.configurable) return null; if (has(d, "enumerable") && !!d.enumerable !== cur.enumerable) return null }
    var ca = has(cur, "get"), r = { enumerable: has(d, "enumerable") ? !!d.enumerable : cur.enumerable, configurable: has(d, "configurable") ? !!d.configurable : cur.configurable };
    if (!isAcc(d) && !isData(d)) { if (ca) { r.get = cur.get; r.set = cur.set } else { r.value = cur.value; r.writable = cur.writable } return r }
    if (isAcc(d) !== ca) { if (!cur.configurable) return null; if (ca) { r.value = d.value; r.writable = !!d.writable } else { r.get = d.get; r.set = d.set } return r }
    if (ca) { if (!cur.configurable) { if (has(d, "get") && d.get !== cur.get) return null; if (has(d, "set") && d.set !== cur.set) return null } r.get = has(d, "get") ? d.get : cur.get; r.set = has(d, "set") ? d.set : cur.set; return r }
    if (!cur.configurable && !cur.writable) { if (d.writable) return null; if (has(d, "value") && !Object.is(d.value, cur.value)) return null }
    r.value = has(d, "value") ? d.value : cur.value; r.writable = has(d, "writable") ? !!d.writable : cur.writable; return r;
}
function sameDesc(a, b, msg) { if (!b) { eq(a, undefined, msg + " absent"); return } check(a !== undefined, msg + " present"); eq(a.enumerable, b.enumerable, msg + " enumerable"); eq(a.configurable, b.configurable, msg + " configurable"); eq(has(a, "get"), has(b, "get"), msg + " kind"); if (has(b, "get")) { eq(a.get, b.get, msg + " get"); eq(a.set, b.set, msg + " set") } else { eq(a.value, b.value, msg + " value"); eq(a.writable, b.writable, msg + " writable") } }
function dataDesc(p, v) { var d = {}; if (symBool(p + "hv")) d.value = v; if (symBool(p + "hw")) d.writable = symBool(p + "w"); if (symBool(p + "he")) d.enumerable = symBool(p + "e"); if (symBool(p + "hc")) d.configurable = symBool(p + "c"); return d }
function accDesc(p, g, s) { var d = {}; if (symBool(p + "hg")) d.get = g; if (symBool(p + "hs")) d.set = s; if (symBool(p + "he")) d.enumerable = symBool(p + "e"); if (symBool(p + "hc")) d.configurable = symBool(p + "c"); return d }
function run(o, k, cur, d, ext, msg) { var m = apply(cur, d, ext), r = Reflect.defineProperty(o, k, d); eq(r, m !== null, msg + " result"); sameDesc(Object.getOwnPropertyDescriptor(o, k), m === null ? cur : m, msg); eq(k in o, !!(m || cur), msg + " in"); return m === null ? cur : m }
scenario("new_property", function () { var o = {}, ext = symBool("x"), a = symBool("acc"); if (!ext) Object.preventExtensions(o); run(o, "p", undefined, a ? accDesc("d", G1, S1) : dataDesc("d", 5), ext, "new"); }, 2);
scenario("data_over_data", function () { var o = {}, cur = { value: 1, writable: symBool("w"), enumerable: symBool("e"), configurable: symBool("c") }; Object.defineProperty(o, "p", cur); run(o, "p", cur, dataDesc("d", symInt("v", 0, 2)), true, "redefine"); }, 4);
scenario("accessor_over_data", function () { var o = {}, cur = { value: 1, writable: symBool("w"), enumerable: symBool("e"), configurable: symBool("c") }; Object.defineProperty(o, "p", cur); run(o, "p", cur, accDesc("d", G1, S1), true, "redefine"); }, 4);
scenario("data_over_accessor", function () { var o = {}, cur = { get: symBool("g") ? G1 : undefined, set: symBool("s") ? S1 : undefined, enumerable: symBool("e"), configurable: symBool("c") }; Object.defineProperty(o, "p", cur); run(o, "p", cur, dataDesc("d", 5), true, "redefine"); }, 4);
scenario("accessor_over_accessor", function () { var o = {}, cur = { get: symBool("g") ? G1 : undefined, set: symBool("s") ? S1 : undefined, enumerable: symBool("e"), configurable: symBool("c") }, i = conc(symInt("i", 0, 2)); Object.defineProperty(o, "p", cur); run(o, "p", cur, accDesc("d", [G1, G2, undefined][i], symBool("same") ? S1 : S2), true, "redefine"); }, 4);
scenario("special_values", function () { var a = conc(symInt("a", 0, 5)), b = conc(symInt("b", 0, 5)), V = [0, -0, NaN, undefined, "x", 1], o = {}, cur = { value: V[a], writable: false, enumerable: true, configurable: false }; Object.defineProperty(o, "p", cur); run(o, "p", cur, { value: V[b] }, true, "SameValue decides"); });
scenario("sequence", function () { var o = {}, cur, i; for (i = 0; i < 3; i++) cur = run(o, "p", cur, symBool("a" + i) ? accDesc("d" + i, G1, S1) : { value: i, configurable: symBool("c" + i), writable: symBool("w" + i) }, true, "step " + i); }, 4);
scenario("array_elements", function () { var o = [7], cur = { value: 7, writable: symBool("w"), enumerable: symBool("e"), configurable: symBool("c") }; Object.defineProperty(o, 0, cur); var n = run(o, 0, cur, symBool("acc") ? accDesc("d", G1, S1) : dataDesc("d", 8), true, "element"); eq(o.length, 1, "length"); if (has(n, "value")) eq(o[0], n.value, "read"); }, 4);
scenario("array_append", function () { var o = [], i = conc(symInt("i", 0, 3)), lw = symBool("lw"); if (!lw) Object.defineProperty(o, "length", { writable: false }); var d = dataDesc("d", 8), m = lw ? apply(undefined, d, true) : null; eq(Reflect.defineProperty(o, i, d), m !== null, "result"); sameDesc(Object.getOwnPropertyDescriptor(o, i), m === null ? undefined : m, "element"); eq(o.length, lw ? i + 1 : 0, "length"); }, 2);
scenario("string_indices", function () { var s = new String("ab"), i = conc(symInt("i", 0, 2)), cur = i < 2 ? { value: "ab"[i], writable: false, enumerable: true, configurable: false } : undefined; sameDesc(Object.getOwnPropertyDescriptor(s, i), cur, "before"); run(s, String(i), cur, dataDesc("d", symBool("same") ? "ab"[i] : "z"), true, "index"); });
scenario("typed_elements", function () { var t = new Uint8Array(2), i = conc(symInt("i", -1, 2)), d = dataDesc("d", 9), ok = i >= 0 && i < 2 && !(has(d, "configurable") && !d.configurable) && !(has(d, "enumerable") && !d.enumerable) && !(has(d, "writable") && !d.writable); eq(Reflect.defineProperty(t, i, d), ok, "result"); if (i >= 0 && i < 2) { sameDesc(Object.getOwnPropertyDescriptor(t, i), { value: ok && has(d, "value") ? 9 : 0, writable: true, enumerable: true, configurable: true }, "element") } else eq(Object.getOwnPropertyDescriptor(t, i), undefined, "absent"); eq(Reflect.defineProperty(t, 0, { get: G1 }), false, "no accessors"); }, 2);
scenario("function_properties", function () { var k = conc(symInt("k", 0, 2)), n = ["length", "name", "prototype"][k], f = function g(a, b) {}, cur = [{ value: 2, writable: false, enumerable: false, configurable: true }, { value: "g", writable: false, enumerable: false, configurable: true }, { value: f.prototype, writable: true, enumerable: false, configurable: false }][k]; run(f, n, cur, dataDesc("d", 1), true, n); }, 2);
scenario("arguments_map", function () { function f(a) { var cur = { value: 1, writable: true, enumerable: true, configurable: true }, d = dataDesc("d", 5), m; m = run(arguments, "0", cur, d, true, "element"); eq(a, has(d, "value") ? 5 : 1, "parameter follows"); var x = conc(symInt("x", 6, 7)), mapped = !(has(d, "writable") && !d.writable); a = x; eq(arguments[0], mapped ? x : m.value, "still mapped"); } f(1); }, 2);
scenario("global_object", function () { var n = "O01prop", cur = undefined, d = dataDesc("d", 4); run(globalThis, n, cur, d, true, "global"); if (d.configurable) { eq(delete globalThis[n], true, "delete") } });
scenario("to_descriptor_errors", function () { var k = conc(symInt("k", 0, 7)), d = [undefined, 1, { get: 1 }, { set: {} }, { get: G1, value: 1 }, { set: S1, writable: false }, { get: undefined, set: undefined }, { get: undefined }][k], o = {}; eq(err(function () { Object.defineProperty(o, "p", d) }), k < 6 ? "TypeError" : "none", "validated"); eq("p" in o, k >= 6, "nothing defined on error"); eq(err(function () { Reflect.defineProperty(o, "q", d) }), k < 6 ? "TypeError" : "none", "Reflect"); });
scenario("descriptor_read_order", function () { var log = "", m = conc(symInt("m", 0, 63)), all = "enumerable configurable value writable get set".split(" "), d = new Proxy({}, { has(t, k) { log += "h" + k[0]; return !!(m >> all.indexOf(k) & 1) }, get(t, k) { log += "g" + k[0]; return k === "get" || k === "set" ? undefined : 0 } }), want = ""; for (var i = 0; i < 6; i++) want += "h" + all[i][0] + (m >> i & 1 ? "g" + all[i][0] : ""); err(function () { Object.defineProperty({}, "p", d) }); eq(log, want, "fields are read in order"); });
scenario("inherited_fields", function () { var e = symBool("e"), c = symBool("c"), d = Object.create({ value: 3, enumerable: e, configurable: c }), o = Object.defineProperty({}, "p", d); sameDesc(Object.getOwnPropertyDescriptor(o, "p"), { value: 3, writable: false, enumerable: e, configurable: c }, "inherited fields count"); });
scenario("truthy_fields", function () { var k = conc(symInt("k", 0, 7)), v = [0, 1, "", "x", null, undefined, NaN, {}][k], o = Object.defineProperty({}, "p", { value: 1, writable: v, enumerable: v, configurable: v }), b = !!v; sameDesc(Object.getOwnPropertyDescriptor(o, "p"), { value: 1, writable: b, enumerable: b, configurable: b }, "ToBoolean"); });
scenario("assignment", function () { var k = conc(symInt("k", 0, 4)), w = symBool("w"), o = {}, x = 0, ok; if (k === 0) { Object.defineProperty(o, "p", { value: 1, writable: w, configurable: true }); ok = w } else if (k === 1) { Object.defineProperty(o, "p", { get() { return 1 }, set: w ? function (v) { x = v } : undefined, configurable: true }); ok = w } else if (k === 2) { o = Object.create(Object.defineProperty({}, "p", { value: 1, writable: w })); ok = w } else if (k === 3) { o = Object.create(Object.defineProperty({}, "p", { get() { return 1 }, set: w ? function (v) { x = v } : undefined })); ok = w } else { if (!w) Object.preventExtensions(o); ok = w } eq(Reflect.set(o, "p", 9), ok, "Reflect.set"); eq(err(function () { "use strict"; o.p = 8 }), ok ? "none" : "TypeError", "strict assignment"); eq(err(function () { (0, eval)("(function (o) { o.p = 7 })")(o) }), "none", "sloppy assignment"); if (k === 1 || k === 3) eq(x, ok ? 7 : 0, "setter saw the value"); else eq(o.p, ok ? 7 : k === 4 ? undefined : 1, "value"); eq(has(o, "p"), k < 2 || ok && k !== 3, "own property"); if (k === 2 && ok) sameDesc(Object.getOwnPropertyDescriptor(o, "p"), { value: 7, writable: true, enumerable: true, configurable: true }, "created"); });
scenario("deletion", function () { var c = symBool("c"), a = symBool("a"), o = {}; Object.defineProperty(o, "p", a ? { get: G1, configurable: c } : { value: 1, configurable: c }); eq(Reflect.deleteProperty(o, "p"), c, "deleteProperty"); eq(has(o, "p"), !c, "present"); eq(err(function () { "use strict"; delete o.p }), c ? "none" : "TypeError", "strict delete"); eq(delete o.q, true, "absent"); });
scenario("literal_properties", function () { var k = conc(symInt("k", 0, 4)), n = "n", o = [{ p: 1 }, { get p() { return 1 } }, { p() { } }, { ["p"]: 1 }, { set p(v) { } }][k], d = Object.getOwnPropertyDescriptor(o, "p"); eq(d.enumerable && d.configurable, true, "flags"); eq(has(d, "value"), k !== 1 && k !== 4, "kind"); if (has(d, "value")) eq(d.writable, true, "writable"); class C { m() { } static s() { } get g() { return 1 } } d = Object.getOwnPropertyDescriptor(C.prototype, "m"); eq(d.enumerable, false, "method enumerable"); eq(d.writable && d.configurable, true, "method flags"); eq(Object.getOwnPropertyDescriptor(C.prototype, "g").enumerable, false, "accessor enumerable"); });
scenario("accessor_pairs", function () { var k = conc(symInt("k", 0, 5)), o = [{ get p() { return 1 }, set p(v) { } }, { set p(v) { }, get p() { return 1 } }, { get p() { return 1 }, p: 2 }, { p: 2, get p() { return 1 } }, { p: 2, set p(v) { } }, { get p() { return 1 }, get p() { return 3 } }][k], d = Object.getOwnPropertyDescriptor(o, "p"); eq(typeof d.get, k === 2 || k === 4 ? "undefined" : "function", "getter"); eq(typeof d.set, k === 0 || k === 1 || k === 4 ? "function" : "undefined", "setter"); eq(o.p, [1, 1, 2, 1, undefined, 3][k], "value"); });
scenario("define_properties", function () { var k = conc(symInt("k", 0, 3)), o = {}, src = { a: { value: 1 }, b: k === 1 ? 5 : { value: 2 }, c: { value: 3, enumerable: symBool("e") } }; if (k === 2) Object.defineProperty(src, "b", { enumerable: false }); if (k === 3) src[Symbol.iterator] = { value: 4 }; eq(err(function () { Object.defineProperties(o, src) }), k === 1 ? "TypeError" : "none", "result"); eq(o.a, k === 1 ? undefined : 1, "all descriptors are read first"); eq(o.b, k === 0 || k === 3 ? 2 : undefined, "b"); eq(o[Symbol.iterator], k === 3 ? 4 : undefined, "symbols"); });
scenario("get_own_descriptors", function () { var w = symBool("w"), e = symBool("e"), c = symBool("c"), s = Symbol(), o = {}; Object.defineProperty(o, "a", { value: 1, writable: w, enumerable: e, configurable: c }); Object.defineProperty(o, s, { get: G1, enumerable: e }); var d = Object.getOwnPropertyDescriptors(o); sameDesc(d.a, { value: 1, writable: w, enumerable: e, configurable: c }, "a"); sameDesc(d[s], { get: G1, set: undefined, enumerable: e, configurable: false }, "symbol"); var q = Object.defineProperties({}, d); sameDesc(Object.getOwnPropertyDescriptor(q, "a"), d.a, "clone"); });
scenario("reflection", function () { var e = symBool("e"), own = symBool("own"), p = Object.defineProperty({}, "x", { value: 1, enumerable: e, configurable: true }), o = own ? p : Object.create(p); eq(o.hasOwnProperty("x"), own, "hasOwnProperty"); eq(Object.hasOwn(o, "x"), own, "hasOwn"); eq(o.propertyIsEnumerable("x"), own && e, "propertyIsEnumerable"); eq("x" in o, true, "in"); eq(Object.keys(o).length, own && e ? 1 : 0, "keys"); eq(Object.getOwnPropertyNames(o).length, own ? 1 : 0, "names"); var c = 0; for (var k in o) c++; eq(c, e ? 1 : 0, "for-in"); eq(Object.assign({}, o).x, own && e ? 1 : undefined, "assign"); eq({ ...o }.x, own && e ? 1 : undefined, "spread"); eq(JSON.stringify(o), own && e ? '{"x":1}' : "{}", "JSON"); });
scenario("receiver", function () { var k = conc(symInt("k", 0, 4)), t = { p: 1 }, r = [{}, { p: 2 }, Object.defineProperty({}, "p", { value: 3, writable: false }), Object.defineProperty({}, "p", { get: G1, set: S1 }), 5][k]; eq(Reflect.set(t, "p", 9, r), k < 2, "Reflect.set with a receiver"); eq(t.p, 1, "target kept"); if (k < 2) eq(r.p, 9, "written to the receiver"); if (k === 2) eq(r.p, 3, "read-only receiver"); if (k === 1) sameDesc(Object.getOwnPropertyDescriptor(r, "p"), { value: 9, writable: true, enumerable: true, configurable: true }, "flags kept"); var o = { get q() { return this } }, z = {}; eq(Reflect.get(o, "q", z), z, "getter receiver"); });
