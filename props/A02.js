// Typed array methods: relative indices, element order, copying between views and species.
var TA = [Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array];
function ty() { return TA[conc(symInt("ty", 0, 8))] }
function ty3() { return [Int8Array, Uint16Array, Float64Array][conc(symInt("ty", 0, 2))] }
function mk(T, n) { var a = new T(n); for (var i = 0; i < n; i++) a[i] = i + 10; return a }
function is(a, b, msg) { eq(a.length, b.length, msg + " length"); for (var i = 0; i < b.length; i++) eq(a[i], b[i], msg + " [" + i + "]") }
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
scenario("slice", function () { var n = conc(symInt("n", 0, 3)), s = symInt("s", -6, 6), e = symInt("e", -6, 6), a = mk(ty3(), n), x = clampRel(s, n), y = clampRel(e, n), r = a.slice(s, e); eq(r.length, y > x ? y - x : 0, "length"); for (var i = 0; i < r.length; i++) eq(r[i], x + i + 10, "item"); check(r.buffer !== a.buffer, "copy"); if (r.length) { r[0] = 1; eq(a[x], x + 10, "independent") } }, 4);
scenario("subarray", function () { var n = conc(symInt("n", 0, 3)), s = symInt("s", -6, 6), e = symInt("e", -6, 6), T = ty3(), b = mk(T, n + 1), a = new T(b.buffer, T.BYTES_PER_ELEMENT, n), x = clampRel(s, n), y = clampRel(e, n), r = a.subarray(s, e); eq(r.length, y > x ? y - x : 0, "length"); for (var i = 0; i < r.length; i++) eq(r[i], x + i + 11, "item"); check(r.buffer === a.buffer, "same buffer"); eq(r.byteOffset, (1 + x) * T.BYTES_PER_ELEMENT, "offset"); if (r.length) { r[0] = 1; eq(a[x], 1, "shared") } eq(a.subarray(s).length, n - x, "open end"); }, 6);
scenario("set_array", function () { var n = conc(symInt("n", 0, 4)), k = conc(symInt("k", 0, 3)), o = symInt("o", -2, 6), a = mk(ty(), n), src = [1, 2, 3].slice(0, k), r = err(function () { a.set(src, o) }); eq(r, o < 0 || o + k > n ? "RangeError" : "none", "range"); for (var i = 0; i < n; i++) eq(a[i], r === "none" && i >= o && i < o + k ? i - o + 1 : i + 10, "element"); }, 4);
scenario("set_typed", function () { var S = ty(), D = TA[conc(symInt("td", 0, 8))], o = conc(symInt("o", 0, 2)), v = symInt("v", -300, 70000), s = new S([v, 5]), d = new D(4); d.set(s, o); var c = new D(1); c[0] = s[0]; eq(d[o], c[0], "converted"); eq(d[o + 1], 5, "second"); eq(d[(o + 2) % 4], 0, "others"); }, 5);
scenario("set_overlap", function () { var a = new Uint8Array(8), i, o = conc(symInt("o", 0, 4)), s = conc(symInt("s", 0, 4)), k = conc(symInt("k", 0, 4)), w = [], t = conc(symInt("t", 0, 1)); for (i = 0; i < 8; i++) a[i] = w[i] = i + 1; var src = t ? new Uint8Array(a.buffer, s, k) : new Int8Array(a.buffer, s, k); a.set(src, o); for (i = 0; i < k; i++) w[o + i] = s + i + 1; is(a, w, "as if copied first"); var b = new Uint16Array(new ArrayBuffer(8)), bb = new Uint8Array(b.buffer); for (i = 0; i < 8; i++) bb[i] = i + 1; b.set(new Uint8Array(b.buffer, s, 4)); for (i = 0; i < 4; i++) eq(b[i], s + i + 1, "widening overlap"); });
scenario("copyWithin", function () { var n = conc(symInt("n", 0, 3)), t = symInt("t", -5, 5), s = symInt("s", -5, 5), e = symInt("e", -5, 5), a = mk(ty3(), n), w = [], to = clampRel(t, n), from = clampRel(s, n), fin = clampRel(e, n), c = fin - from, i; if (c > n - to) c = n - to; for (i = 0; i < n; i++) w[i] = i + 10; for (i = 0; i < c; i++) w[to + i] = from + i + 10; check(a.copyWithin(t, s, e) === a, "returns itself"); is(a, w, "copyWithin"); }, 8);
scenario("fill", function () { var n = conc(symInt("n", 0, 3)), s = symInt("s", -6, 6), e = symInt("e", -6, 6), v = symInt("v", -300, 300), T = ty3(), a = mk(T, n), c = new T([v]), x = clampRel(s, n), y = clampRel(e, n); check(a.fill(v, s, e) === a, "returns itself"); for (var i = 0; i < n; i++) eq(a[i], i >= x && i < y ? c[0] : i + 10, "item"); }, 5);
scenario("search", function () { var T = ty3(), a = new T([symInt("a", 0, 3), symInt("b", 0, 3), symInt("c", 0, 3)]), f = symInt("f", -5, 5), v = symInt("v", 0, 3), x = f < 0 ? (f + 3 < 0 ? 0 : f + 3) : f, r = -1, i; for (i = x; i < 3; i++) if (a[i] === v) { r = i; break } eq(a.indexOf(v, f), r, "indexOf"); eq(a.includes(v, f), r >= 0, "includes"); r = -1; for (i = f < 0 ? f + 3 : f > 2 ? 2 : f; i >= 0; i--) if (a[i] === v) { r = i; break } eq(a.lastIndexOf(v, f), r, "lastIndexOf"); }, 6);
scenario("search_special", function () { var f = conc(symInt("f", 0, 1)), T = f ? Float64Array : Float32Array, p = conc(symInt("p", 0, 2)), a = new T(3); a[p] = NaN; eq(a.indexOf(NaN), -1, "indexOf NaN"); eq(a.includes(NaN), true, "includes NaN"); a[p] = -0; eq(a.indexOf(0), 0, "zeros equal"); eq(a.lastIndexOf(-0), 2, "zeros equal"); eq(a.indexOf("0"), -1, "no coercion"); eq(a.includes(undefined), false, "undefined"); eq(Object.is(a[p], -0), true, "keeps -0"); });
scenario("sort", function () { var T = ty3(), a = [symInt("a", 0, 4), symInt("b", 0, 4), symInt("c", 0, 4), symInt("d", 0, 4)], t = new T(a), r = t.sort(); check(r === t, "returns itself"); for (var i = 1; i < 4; i++) check(t[i - 1] <= t[i], "ascending"); eq(t[0] + t[1] + t[2] + t[3], a[0] + a[1] + a[2] + a[3], "sum kept"); eq(t[0] * t[0] + t[1] * t[1] + t[2] * t[2] + t[3] * t[3], a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], "squares kept"); t.sort(function (x, y) { return y - x }); for (var i = 1; i < 4; i++) check(t[i - 1] >= t[i], "descending"); }, 8);
scenario("sort_special", function () { var p = conc(symInt("p", 0, 119)), v = [NaN, -0, 0, -Infinity, 5], a = [], w = v.slice(), k, f = [24, 6, 2, 1, 1]; for (var i = 0; i < 5; i++) { k = Math.floor(p / f[i]) % (5 - i); a.push(w.splice(k, 1)[0]) } var t = new Float64Array(a).sort(); eq(t[0], -Infinity, "least"); eq(t[1], -0, "minus zero first"); eq(t[2], 0, "zero"); eq(t[3], 5, "five"); eq(t[4], NaN, "NaN last"); eq(err(function () { t.sort(1) }), "TypeError", "comparator"); });
scenario("signed_sort", function () { var v = symInt("v", -128, 127), w = symInt("w", -128, 127), a = new Int8Array([v, w]).sort(), b = new Uint8Array([v, w]).sort(); check(a[0] <= a[1], "signed order"); check(b[0] <= b[1], "unsigned order"); eq(a[0] + a[1], v + w, "kept"); });
scenario("callbacks", function () { var T = ty3(), a = new T([symInt("a", 0, 4), symInt("b", 0, 4), symInt("c", 0, 4)]), t = symInt("t", 0, 5), i, f = -1, n = 0, s = 0; for (i = 0; i < 3; i++) if (a[i] >= t) { if (f < 0) f = i; n++; s = s * 7 + a[i] } eq(a.findIndex(function (x, i, o) { if (o !== a) fail("array"); return x >= t }), f, "findIndex"); eq(a.find(function (x) { return x >= t }), f < 0 ? undefined : a[f], "find"); eq(a.some(function (x) { return x >= t }), f >= 0, "some"); eq(a.every(function (x) { return x < t }), f < 0, "every"); var g = a.filter(function (x) { return x >= t }); eq(g.length, n, "filter"); check(g instanceof T, "same type"); eq(g.reduce(function (p, x) { return p * 7 + x }, 0), s, "reduce"); var m = a.map(function (x) { return x + 1 }); check(m instanceof T, "map type"); eq(m[2], a[2] + 1, "map"); eq(a.reduceRight(function (p, x) { return p * 7 + x }, 0), (a[2] * 7 + a[1]) * 7 + a[0], "reduceRight"); var l = ""; a.forEach(function (x, i) { l += i }); eq(l, "012", "forEach"); }, 8);
scenario("reverse_join", function () { var n = conc(symInt("n", 0, 5)), T = ty(), a = mk(T, n), e = ""; for (var i = 0; i < n; i++) e += (i ? "-" : "") + (10 + i); eq(a.join("-"), e, "join"); check(a.reverse() === a, "returns itself"); for (var i = 0; i < n; i++) eq(a[i], n - 1 - i + 10, "reversed"); eq(a.toString(), Array.prototype.slice.call(a).toString(), "toString"); eq(a.at(-1), n ? 10 : undefined, "at"); });
scenario("iteration", function () { var n = conc(symInt("n", 0, 4)), a = mk(ty(), n), i = 0; for (var e of a.entries()) { eq(e[0], i, "index"); eq(e[1], i + 10, "value"); i++ } eq(i, n, "count"); i = 0; for (var k of a.keys()) eq(k, i++, "key"); i = 0; for (var v of a) eq(v, 10 + i++, "value"); i = 0; for (var k in a) eq(k, String(i++), "for-in"); eq(i, n, "count"); eq(Object.keys(a).length, n, "keys"); check(a[Symbol.iterator] === a.values, "iterator is values"); });
scenario("species", function () { var k = conc(symInt("k", 0, 3)), log = ""; class U extends Uint8Array { constructor(...x) { super(...x); log += x.length } } var a = new U([1, 2, 3]); log = ""; var r = [function () { return a.slice(1) }, function () { return a.subarray(1) }, function () { return a.map(ident) }, function () { return a.filter(function (x) { return x > 1 }) }][k](); check(r instanceof U, "species"); eq(r[r.length - 1], 3, "content"); eq(log, k === 1 ? "3" : "1", "constructor arguments"); class V extends Uint8Array { static get [Symbol.species]() { return Float64Array } } r = new V([1, 2]).map(function () { return 1.5 }); eq(r[0], 1.5, "other species"); class W extends Uint8Array { static get [Symbol.species]() { return function () { return new Uint8Array(1) } } } eq(err(function () { new W([1, 2]).map(ident) }), "TypeError", "species too short"); class Z extends Uint8Array { static get [Symbol.species]() { return Array } } eq(err(function () { new Z([1, 2]).map(ident) }), "TypeError", "species not typed"); });
scenario("receiver", function () { var k = conc(symInt("k", 0, 11)), m = ["slice", "subarray", "set", "fill", "copyWithin", "indexOf", "sort", "map", "join", "reverse", "at", "entries"][k], v = [[], {}, new ArrayBuffer(4), new DataView(new ArrayBuffer(4)), null]; for (var i = 0; i < 5; i++) eq(err(function () { Uint8Array.prototype[m].call(v[i], ident) }), "TypeError", "receiver"); eq(err(function () { Uint8Array(3) }), "TypeError", "call"); eq(err(function () { new (Object.getPrototypeOf(Uint8Array))() }), "TypeError", "abstract"); var g = Object.getOwnPropertyDescriptor(Object.getPrototypeOf(Uint8Array.prototype), Symbol.toStringTag).get; eq(g.call(v[i % 4]), undefined, "tag of others"); eq(g.call(new Int16Array(1)), "Int16Array", "tag"); });
scenario("slice_types", function () { var S = ty(), D = TA[conc(symInt("td", 0, 8))]; class X extends S { static get [Symbol.species]() { return D } } var v = symInt("v", -200, 300), a = new X([7, v, 9]), r = a.slice(1), c = new D([a[1]]); check(r instanceof D, "type"); eq(r[0], c[0], "converted"); eq(r[1], 9, "last"); }, 4);
scenario("properties", function () { var T = ty(), n = conc(symInt("n", 0, 3)), a = mk(T, n), d; if (n) { d = Object.getOwnPropertyDescriptor(a, "0"); eq(d.value, 10, "value"); eq(d.writable && d.enumerable && d.configurable, true, "attributes"); eq(err(function () { Object.defineProperty(a, "0", { value: 3, writable: false }) }), "TypeError", "non-writable"); eq(err(function () { Object.defineProperty(a, "0", { get() { } }) }), "TypeError", "accessor"); eq(Reflect.defineProperty(a, "0", { value: 3 }), true, "value"); eq(a[0], 3, "stored") } eq(Reflect.defineProperty(a, String(n), { value: 3, writable: true, enumerable: true, configurable: true }), false, "out of range"); eq(err(function () { Object.freeze(a) }), n ? "TypeError" : "none", "freeze"); Object.preventExtensions(a); eq(Object.isFrozen(a), n === 0, "isFrozen"); eq(T.BYTES_PER_ELEMENT, a.BYTES_PER_ELEMENT, "element size"); eq(a.byteLength, n * T.BYTES_PER_ELEMENT, "bytes"); });
scenario("length_independent", function () { var k = conc(symInt("k", 0, 4)), a = new Uint8Array([1, 2, 3]); Object.defineProperty(a, "length", { value: 1 }); eq([a.indexOf(3), a.slice().length, a.map(ident).length, a.join("").length, Array.from(a.values()).length][k], [2, 3, 3, 3, 3][k], "uses the real length"); });
scenario("arg_mutation", function () { var k = conc(symInt("k", 0, 3)), a = new Uint8Array([1, 2, 3, 4]), n = symInt("n", -2, 5), s = { valueOf() { a[0] = 9; return n } }; if (k === 0) { var r = a.slice(s), x = clampRel(n, 4); eq(r.length, 4 - x, "length"); if (x === 0) eq(r[0], 9, "argument evaluated first") } else if (k === 1) { a.fill(7, s); var x = clampRel(n, 4); eq(a[0], x === 0 ? 7 : 9, "first") } else if (k === 2) { eq(a.indexOf(9, s), n <= 0 && (n === 0 || n + 4 <= 0) ? 0 : -1, "search after conversion") } else { a.copyWithin(s, 0); var x = clampRel(n, 4); if (x < 4) eq(a[x], 9, "copied after conversion") } });
// Any Number as a position behaves as the small integer it clamps to.
["slice", "subarray", "at", "includes", "indexOf", "lastIndexOf", "fill", "copyWithin", "set"].forEach(function (m) {
  scenario("number_position_" + m, function () { var v = symNum("v"), w = ladder(v), T = conc(symInt("T", 0, 1)) ? Uint8Array : Float64Array, a = T.of(7, 8, 7), b = T.of(7, 8, 7), k = conc(symInt("k", 0, m === "copyWithin" ? 2 : m === "slice" || m === "subarray" || m === "fill" || m === "splice" || m === "set" ? 1 : 0)), r, x;
    function op(a, v) { try { return m === "set" ? (k ? a.set([5], v) : a.set(T.of(5, 6), v), 0) : m === "slice" || m === "subarray" ? k ? a[m](k, v) : a[m](v) : m === "fill" ? k ? a.fill(1, k, v) : a.fill(1, v) : m === "copyWithin" ? k === 0 ? a.copyWithin(v, 0) : k === 1 ? a.copyWithin(0, v) : a.copyWithin(0, 1, v) : m === "at" ? a.at(v) : a[m](7, v) } catch (e) { return e.name } }
    r = op(a, v); x = op(b, w); if (typeof r === "object") is(r, x, m + " result"); else eq(r, x, m); is(a, b, m); }, 2);
});
