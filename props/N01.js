// Number -> 32 bit integer conversions and the bitwise operators, for every double.
function R(x) { return refInt32(x) }
function U(x) { return refInt32(x, 1) }
scenario("to_int32_or", function () { var x = symNum("x"); eq(x | 0, R(x), "x|0"); });
scenario("to_int32_not", function () { var x = symNum("x"); eq(~x, -1 - R(x), "~x"); });
scenario("to_uint32", function () { var x = symNum("x"); eq(x >>> 0, U(x), "x>>>0"); });
scenario("xor0", function () { var x = symNum("x"); eq(x ^ 0, R(x), "x^0"); eq(x & -1, R(x), "x&-1"); });
scenario("shift_count_num", function () { var x = symNum("x"); eq(1 << x, 1 << (U(x) % 32), "1<<x"); eq(-2147483648 >>> x, -2147483648 >>> (U(x) % 32), ">>>"); eq(-2147483648 >> x, -2147483648 >> (U(x) % 32), ">>"); });
scenario("shl", function () { var a = symInt("a"), n = conc(symInt("n", 0, 31)); eq(a << n, ref("shl", a, n), "a<<n"); });
scenario("shr", function () { var a = symInt("a"), n = conc(symInt("n", 0, 31)); eq(a >> n, ref("shr", a, n), "a>>n"); });
scenario("ushr", function () { var a = symInt("a"), n = conc(symInt("n", 0, 31)); eq(a >>> n, ref("ushr", a, n), "a>>>n"); });
scenario("shift_mask", function () { var a = symInt("a"), n = symInt("n", -40, 80); var m = ((n % 32) + 32) % 32; eq(a << n, a << m, "<<"); eq(a >> n, a >> m, ">>"); eq(a >>> n, a >>> m, ">>>"); });
scenario("and_or_xor", function () {
  var a = symInt("a"), b = symInt("b");
  eq(a & b, ref("and", a, b), "&"); eq(a | b, ref("or", a, b), "|"); eq(a ^ b, ref("xor", a, b), "^"); eq(~a, ref("not", a), "~");
});
scenario("bit_identities", function () {
  var a = symInt("a"), b = symInt("b");
  eq((a & b) + (a | b), a + b, "and+or"); eq((a ^ b) + 2 * (a & b), a + b, "xor+2and"); eq(~a, -a - 1, "not"); eq(a ^ b ^ b, a, "xor twice");
});
scenario("compound_assign", function () {
  var a = symInt("a"), b = symInt("b"), x;
  x = a; x &= b; eq(x, a & b, "&="); x = a; x |= b; eq(x, a | b, "|="); x = a; x ^= b; eq(x, a ^ b, "^=");
  x = a; x <<= b; eq(x, a << b, "<<="); x = a; x >>= b; eq(x, a >> b, ">>="); x = a; x >>>= b; eq(x, a >>> b, ">>>=");
  var o = { p: a }; o.p &= b; eq(o.p, a & b, "o.p&="); o.p = a; o["p"] >>>= b; eq(o.p, a >>> b, "o[p]>>>=");
});
scenario("imul", function () { var a = symInt("a"), b = symInt("b", -1023, 1023); eq(Math.imul(a, b), ref("imul", a, b), "imul"); });
scenario("imul_num", function () { var x = symNum("x"); eq(Math.imul(x, 1), R(x), "imul(x,1)"); eq(Math.imul(3, x), Math.imul(3, R(x)), "imul(3,x)"); });
scenario("clz32_num", function () { var x = symNum("x"); eq(Math.clz32(x), Math.clz32(U(x)), "clz32 of the uint32"); });
scenario("clz32", function () { var x = symInt("x"); eq(Math.clz32(x), ref("clz", x), "clz32"); });
scenario("from_string_operand", function () { var a = symInt("a", -150, 150); eq(("" + a) | 0, a, "string|0"); eq(~("" + a), ~a, "~string"); eq(("" + a) >>> 1, a >>> 1, "string>>>1"); });
scenario("fractions", function () { var a = symInt("a", -1000000, 1000000), d = symInt("d", 1, 7); var q = a / 8 + d / 16; var t = a >= 0 ? Math.floor(q) : Math.ceil(q); if (q >= 0) t = Math.floor(q); else t = -Math.floor(-q); eq(q | 0, t === 0 ? 0 : t, "frac|0"); });
scenario("bool_null_operand", function () { var b = symBool("b"), a = symInt("a"); eq(a | b, a | (b ? 1 : 0), "a|bool"); eq(a ^ null, a, "a^null"); eq(a & undefined, 0, "a&undefined"); eq(a << true, a << 1, "a<<true"); });
scenario("stores_ui32", function () { var x = symNum("x"); var t = new Uint32Array(1), s = new Int32Array(1); t[0] = x; s[0] = x; eq(t[0], U(x), "Uint32Array"); eq(s[0], R(x), "Int32Array"); });
scenario("stores_16_8", function () { var x = symNum("x"); var u = U(x); var a = new Uint16Array(1), b = new Int16Array(1), c = new Uint8Array(1), d = new Int8Array(1); a[0] = x; b[0] = x; c[0] = x; d[0] = x;
  var h = u % 65536, l = u % 256; eq(a[0], h, "Uint16Array"); eq(b[0], h >= 32768 ? h - 65536 : h, "Int16Array"); eq(c[0], l, "Uint8Array"); eq(d[0], l >= 128 ? l - 256 : l, "Int8Array"); });
scenario("stores_clamped", function () { var x = symNum("x"); var c = new Uint8ClampedArray(1); c[0] = x; var r;
  if (!(x > 0)) r = 0; else if (x >= 255) r = 255; else { var f = Math.floor(x); var d = x - f; r = d > 0.5 ? f + 1 : d < 0.5 ? f : f & 1 ? f + 1 : f } eq(c[0], r, "Uint8ClampedArray"); });
scenario("fromCharCode", function () { var x = symNum("x"); eq(String.fromCharCode(x).charCodeAt(0), U(x) % 65536, "fromCharCode"); });
scenario("operand_order", function () {
  var a = symInt("a"), b = symInt("b"), log = "";
  function v(n, x) { return { valueOf: function () { log += n; return x } } }
  eq(v("p", a) & v("q", b), a & b, "objects"); eq(v("p", a) << v("q", b), a << b, "objects <<"); eq(v("p", a) >>> v("q", b), a >>> b, "objects >>>"); eq(log, "pqpqpq", "conversion order");
});
