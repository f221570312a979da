// Typed arrays, array buffers and DataView: element conversion, bounds and byte order.
var TA = [Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array], SZ = [1, 1, 1, 2, 2, 4, 4, 4, 8];
function wrap(v, bits, sg) { var m = Math.pow(2, bits); v = v % m; if (v < 0) v += m; if (sg && v >= m / 2) v -= m; return v + 0 }
function store(T, v) { var a = new T(3); a[1] = v; eq(a[0], 0, "neighbour below"); eq(a[2], 0, "neighbour above"); return a[1] }
scenario("store_int_8", function () { var v = symInt("v", -2147483648, 2147483647); eq(store(Int8Array, v), ref("i8", v), "Int8"); eq(store(Uint8Array, v), ref("u8", v), "Uint8"); });
scenario("store_int_16", function () { var v = symInt("v", -2147483648, 2147483647); eq(store(Int16Array, v), ref("i16", v), "Int16"); eq(store(Uint16Array, v), ref("u16", v), "Uint16"); });
scenario("store_int_32", function () { var v = symInt("v", -2147483648, 2147483647), w = v + 2147483648; eq(store(Int32Array, w), ref("i32", w), "Int32"); eq(store(Uint32Array, v), ref("u32", v), "Uint32"); });
scenario("store_num_8", function () { var v = symNum("v"); eq(store(Int8Array, v), ref("i8", refInt32(v)), "Int8"); });
scenario("store_num_u16", function () { var v = symNum("v"); eq(store(Uint16Array, v), ref("u16", refInt32(v)), "Uint16"); });
scenario("store_num_32", function () { var v = symNum("v"); eq(store(Int32Array, v), refInt32(v), "Int32"); });
scenario("store_num_u32", function () { var v = symNum("v"); eq(store(Uint32Array, v), refInt32(v, 1), "Uint32"); });
scenario("store_clamped", function () { var h = symInt("h", -1300, 1300), v = h / 4; var e, f = Math.floor(v), d = v - f; if (v <= 0) e = 0; else if (v >= 255) e = 255; else if (d < 0.5) e = f; else if (d > 0.5) e = f + 1; else e = f % 2 === 0 ? f : f + 1; eq(store(Uint8ClampedArray, v), e, "clamp rounds half to even"); });
scenario("store_clamped_special", function () { var k = conc(symInt("k", 0, 5)); var v = [NaN, Infinity, -Infinity, -0, 1e300, -1e-300][k]; eq(store(Uint8ClampedArray, v), [0, 255, 0, 0, 255, 0][k], "special"); });
scenario("store_f64", function () { var v = symNum("v"); eq(store(Float64Array, v), v, "Float64"); var d = new DataView(new ArrayBuffer(12)); d.setFloat64(3, v); eq(d.getFloat64(3), v, "view big endian"); d.setFloat64(2, v, true); eq(d.getFloat64(2, true), v, "view little endian"); });
scenario("store_f32", function () { var v = symInt("v", -40000000, 40000000); eq(store(Float32Array, v), Math.fround(v), "Float32"); });
scenario("index_bounds", function () { var i = symInt("i", -3, 9), n = conc(symInt("n", 0, 5)), a = new Int16Array(n); for (var k = 0; k < n; k++) a[k] = k + 10; var ok = i >= 0 && i < n; eq(a[i], ok ? i + 10 : undefined, "read"); eq(i in a, ok, "in"); eq(Object.prototype.hasOwnProperty.call(a, i), ok, "own"); a[i] = 99; for (var k = 0; k < n; k++) eq(a[k], k === i ? 99 : k + 10, "write affects one element"); eq(a.length, n, "length fixed"); eq(Reflect.set(a, i, 5), true, "set is accepted"); eq(Reflect.deleteProperty(a, i), !ok, "delete"); eq(a.at(i), i < 0 ? (n + i >= 0 ? (n + i === i ? 5 : n + i + 10) : undefined) : ok ? 5 : undefined, "at"); });
scenario("canonical_index", function () { var k = conc(symInt("k", 0, 9)); var s = ["-0", "0.5", "1.0", "01", "NaN", "Infinity", "-1", "1e3", "+1", "2"][k]; var a = new Uint8Array(3); a[s] = 7; var canon = [1, 1, 0, 0, 1, 1, 1, 0, 0, 1][k]; eq(a[s], k === 9 ? 7 : canon ? undefined : 7, "canonical numeric strings are never ordinary properties"); eq(s in a, k === 9 || !canon, "in"); eq(a[0] + a[1], 0, "no element written"); });
scenario("dataview_bytes", function () { var v = symInt("v", -2147483648, 2147483647), le = symBool("le"), d = new DataView(new ArrayBuffer(8)); d.setInt32(2, v, le); var u = ref("u32", v), b = [u % 256, Math.floor(u / 256) % 256, Math.floor(u / 65536) % 256, Math.floor(u / 16777216)]; for (var i = 0; i < 4; i++) eq(d.getUint8(2 + i), le ? b[i] : b[3 - i], "byte " + i); eq(d.getUint8(1) + d.getUint8(6), 0, "neighbours"); eq(d.getInt32(2, le), v, "int32"); eq(d.getUint32(2, le), u, "uint32"); eq(d.getInt16(2, le), ref("i16", le ? b[0] + 256 * b[1] : b[2] * 1 + 256 * b[3]), "int16"); });
scenario("dataview_uint16", function () { var a = symInt("a", 0, 255), b = symInt("b", 0, 255), d = new DataView(new ArrayBuffer(4), 1, 3); d.setUint8(0, a); d.setUint8(1, b); eq(d.getUint16(0), a * 256 + b, "be"); eq(d.getUint16(0, true), b * 256 + a, "le"); eq(d.getInt16(0), ref("i16", a * 256 + b), "be signed"); eq(d.getInt8(1), b > 127 ? b - 256 : b, "int8"); eq(new Uint8Array(d.buffer)[1], a, "byteOffset"); });
scenario("dataview_range", function () { var n = conc(symInt("n", 0, 9)), o = symInt("o", -2, 11), sz = conc(symInt("t", 0, 3)), d = new DataView(new ArrayBuffer(9), 0, n); var g = ["getInt8", "getUint16", "getFloat32", "getFloat64"][sz], s = ["setInt8", "setUint16", "setFloat32", "setFloat64"][sz], w = [1, 2, 4, 8][sz], ok = o >= 0 && o + w <= n, r; try { d[g](o); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } eq(r, ok ? 0 : 1, "get range"); try { d[s](o, 1); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } eq(r, ok ? 0 : 1, "set range"); });
scenario("dataview_args", function () { var o = symInt("o", -2, 12), l = symInt("l", -2, 12), b = new ArrayBuffer(9), r; try { var d = new DataView(b, o, l); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } var ok = o >= 0 && o <= 9 && l >= 0 && o + l <= 9; eq(r, ok ? 0 : 1, "constructor range"); if (ok) { eq(d.byteOffset, o, "byteOffset"); eq(d.byteLength, l, "byteLength") } });
scenario("view_args", function () { var t = conc(symInt("t", 0, 8)), T = TA[t], z = SZ[t], o = symInt("o", -1, 20), l = symInt("l", -1, 5), b = new ArrayBuffer(16), r; try { var a = new T(b, o, l); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } var ok = o >= 0 && l >= 0 && o % z === 0 && o + l * z <= 16; eq(r, ok ? 0 : 1, "constructor range"); if (ok) { eq(a.length, l, "length"); eq(a.byteOffset, o, "byteOffset"); eq(a.byteLength, l * z, "byteLength") } try { a = new T(b, o); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } ok = o >= 0 && o % z === 0 && o <= 16; eq(r, ok ? 0 : 1, "open-ended range"); if (ok) eq(a.length, (16 - o) / z, "open-ended length"); try { new T(new ArrayBuffer(15), 0); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } eq(r, z === 1 ? 0 : 1, "unaligned buffer length"); }, 6);
scenario("aliasing", function () { var b = new ArrayBuffer(8), v = symInt("v", -2147483648, 2147483647) + 2147483648, i = conc(symInt("i", 0, 1)); var u = new Uint32Array(b), h = new Uint16Array(b), c = new Uint8Array(b, i * 4, 4); u[i] = v; eq(h[2 * i], v % 65536, "low half"); eq(h[2 * i + 1], Math.floor(v / 65536), "high half"); eq(c[0], v % 256, "first byte"); eq(c[3], Math.floor(v / 16777216), "last byte"); eq(u[1 - i], 0, "other element"); c[1] = 0xab; eq(u[i], v - (Math.floor(v / 256) % 256) * 256 + 0xab00, "write through the byte view"); });
scenario("float_bits", function () { var x = symNum("x"), f = new Float64Array([x]), u = new Uint32Array(f.buffer), d = new DataView(new ArrayBuffer(8)); d.setUint32(4, u[0]); d.setUint32(0, u[1]); eq(d.getFloat64(0), x, "rebuilt from halves"); assume(x === x); eq(u[1] >>> 31, x < 0 || 1 / x < 0 ? 1 : 0, "sign bit"); });
scenario("from_array", function () { var t = conc(symInt("t", 0, 8)), T = TA[t], v = symInt("v", -300, 70000), a = new T([1, v, 3]), b = new T(1); b[0] = v; eq(a.length, 3, "length"); eq(a[0], 1, "0"); eq(a[1], b[0], "converted like an element store"); eq(a[2], 3, "2"); var c = T.of(v, 2); eq(c[0], b[0], "of"); c = T.from({ length: 2, 0: v, 1: 9 }); eq(c[0], b[0], "from"); eq(c[1], 9, "from 1"); c = new T(new Set([v])); eq(c[0], b[0], "iterable"); });
scenario("from_typed", function () { var s = conc(symInt("s", 0, 8)), t = conc(symInt("t", 0, 8)), v = symInt("v", -200, 40000), a = new TA[s](2); a[1] = v; var b = new TA[t](a), c = new TA[t](2); c[1] = a[1]; eq(b[1], c[1], "element conversion"); eq(b[0], 0, "0"); check(b.buffer !== a.buffer, "new buffer"); a[1] = 0; eq(b[1], c[1], "independent"); }, 8);
scenario("buffer_slice", function () { var n = conc(symInt("n", 0, 6)), s = symInt("s", -8, 8), e = symInt("e", -8, 8), b = new ArrayBuffer(n), u = new Uint8Array(b); for (var i = 0; i < n; i++) u[i] = i + 1; var x = clampRel(s, n), y = clampRel(e, n), c = b.slice(s, e), l = y > x ? y - x : 0; eq(c.byteLength, l, "length"); u = new Uint8Array(c); for (var i = 0; i < l; i++) eq(u[i], x + i + 1, "byte"); });
scenario("length_arg", function () { var n = symInt("n", -3, 6), t = conc(symInt("t", 0, 8)), r; try { var a = new TA[t](n); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } eq(r, n < 0 ? 1 : 0, "negative length"); if (n >= 0) { eq(a.length, n, "length"); eq(a.byteLength, n * SZ[t], "byteLength"); for (var i = 0; i < a.length; i++) eq(a[i], 0, "zeroed") } try { var b = new ArrayBuffer(n); r = 0 } catch (e) { r = e instanceof RangeError ? 1 : 2 } eq(r, n < 0 ? 1 : 0, "buffer"); if (n >= 0) eq(b.byteLength, n, "buffer length"); });
scenario("bigint_elements", function () { var v = symInt("v", -5, 5), k = conc(symInt("k", 0, 3)), m = [0n, 9223372036854775807n, -9223372036854775808n, 18446744073709551615n][k], x = m + BigInt(v); var a = new BigInt64Array(2), b = new BigUint64Array(2); a[0] = x; b[1] = x; eq(a[0], BigInt.asIntN(64, x), "Int64"); eq(b[1], BigInt.asUintN(64, x), "Uint64"); eq(a[1], 0n, "neighbour"); var d = new DataView(new ArrayBuffer(10)); d.setBigInt64(1, x); eq(d.getBigUint64(1), b[1], "view"); eq(d.getBigInt64(1), a[0], "view signed"); eq(d.getUint8(8), Number(BigInt.asUintN(8, x)), "big endian low byte"); var r; try { a[0] = 1; r = 0 } catch (e) { r = e instanceof TypeError } eq(r, true, "Number into BigInt array"); });
scenario("conversion_order", function () { var a = new Int8Array(2), log = "", i = symInt("i", -1, 3), v = symInt("v", -200, 200); a[i] = { valueOf() { log += "v"; return v } }; eq(log, "v", "value converted once even out of range"); if (i >= 0 && i < 2) eq(a[i], ref("i8", v), "stored"); var r; try { a[i] = Symbol(); r = 0 } catch (e) { r = 1 } eq(r, 1, "symbol"); });
