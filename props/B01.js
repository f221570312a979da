// BigInt arithmetic: values are built from and read back through DataView words, and compared with word arithmetic on Numbers.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var dv = new DataView(new ArrayBuffer(32));
function mk(hi, lo) { dv.setUint32(0, hi); dv.setUint32(4, lo); return dv.getBigUint64(0) }      // unsigned 64 bits
function mks(hi, lo) { dv.setUint32(0, hi); dv.setUint32(4, lo); return dv.getBigInt64(0) }      // signed 64 bits
function word(x, i) { dv.setBigUint64(8, BigInt.asUintN(64, x >> BigInt(i & ~1) * 32n)); return dv.getUint32(i & 1 ? 8 : 12) }
function u(name) { return symInt(name) >>> 0 }
function sx(a) { return mks(a < 0 ? -1 : 0, a) }                                                  // a small signed value, without Number to BigInt
function is(x, v, msg) { var h = Math.floor(v / 4294967296); eq(word(x, 0), v - h * 4294967296, msg + " low"); eq(word(x, 1), h < 0 ? h + 4294967296 : h, msg + " high"); eq(x < 0n, v < 0, msg + " sign") }
var BASE = [0n, 2147483648n, 4611686018427387904n, 18446744073709551616n, 79228162514264337593543950336n];
function near(name, d) { var k = conc(symInt(name + "k", 0, BASE.length - 1)), s = symBool(name + "s"), v = BASE[k] + sx(symInt(name + "d", -d, d)); return s ? -v : v }
scenario("from_number", function () { var a = symInt("a"), x = BigInt(a); eq(Number(x), a, "round trip"); eq(x < 0n, a < 0, "sign"); eq(x === 0n, a === 0, "zero"); eq(typeof x, "bigint", "type"); eq(-x === BigInt(-a), true, "negation"); eq(x == a, true, "mixed equality"); });
scenario("add_small", function () { var a = symInt("a"), b = symInt("b"); is(sx(a) + sx(b), a + b, "+"); }, 2);
scenario("sub_small", function () { var a = symInt("a"), b = symInt("b"); is(sx(a) - sx(b), a - b, "-"); }, 2);
scenario("compare_small", function () { var a = symInt("a"), b = symInt("b"), x = sx(a), y = sx(b); eq(x < y, a < b, "<"); eq(x > y, a > b, ">"); eq(x <= y, a <= b, "<="); eq(x >= y, a >= b, ">="); eq(x === y, a === b, "==="); eq(x == y, a == b, "=="); });
scenario("mul_16", function () { var a = symInt("a", -300, 300), c = conc(symInt("c", 0, 7)), b = [0, 1, -1, 2, 65536, 65537, 2147483647, -2147483648][c]; is(sx(a) * sx(b), a * b + 0, "*"); is(sx(b) * sx(a), a * b + 0, "* swapped"); });
scenario("mul_small", function () { var a = symInt("a", -9, 9), b = symInt("b", -9, 9); is(sx(a) * sx(b), a * b + 0, "*"); });
scenario("div_small", function () { var a = symInt("a", -40, 40), c = conc(symInt("c", 0, 7)), b = [1, -1, 2, -3, 7, 65536, 2147483647, -2147483648][c]; is(sx(a) / sx(b), ref("div", a, b), "/ truncates"); is(sx(a) % sx(b), ref("mod", a, b), "% has the sign of the dividend"); }, 2);
scenario("div_by_sym", function () { var c = conc(symInt("c", 0, 5)), a = [100, -100, 7, -1, 0, 2147483647][c], b = conc(symInt("b", -12, 12)); assume(b !== 0); is(sx(a) / sx(b), ref("div", a, b), "/"); is(sx(a) % sx(b), ref("mod", a, b), "%"); });
scenario("words_unsigned", function () { var h = u("h"), l = u("l"), x = mk(h, l); eq(word(x, 0), l, "low"); eq(word(x, 1), h, "high"); eq(word(x, 2), 0, "nothing above"); check(x >= 0n, "never negative"); });
scenario("words_signed", function () { var h = u("h"), l = u("l"), x = mks(h, l); eq(word(x, 0), l, "low"); eq(word(x, 1), h, "high"); eq(x < 0n, h >= 2147483648, "sign"); eq(word(x, 2), h >= 2147483648 ? 4294967295 : 0, "sign extension"); });
scenario("add_words", function () { var ah = u("ah"), al = u("al"), bh = u("bh"), bl = u("bl"), x = mk(ah, al) + mk(bh, bl), lo = al + bl, c = lo > 4294967295 ? 1 : 0, hi = ah + bh + c, d = hi > 4294967295 ? 1 : 0; eq(word(x, 0), c ? lo - 4294967296 : lo, "low word"); eq(word(x, 1), d ? hi - 4294967296 : hi, "high word"); eq(word(x, 2), d, "carry out"); }, 3);
scenario("sub_words", function () { var ah = u("ah"), al = u("al"), bh = u("bh"), bl = u("bl"), x = mk(ah, al) - mk(bh, bl), lo = al - bl, c = lo < 0 ? 1 : 0, hi = ah - bh - c, d = hi < 0 ? 1 : 0; eq(word(x, 0), c ? lo + 4294967296 : lo, "low word"); eq(word(x, 1), d ? hi + 4294967296 : hi, "high word"); eq(x < 0n, d === 1, "sign"); }, 3);
scenario("compare_words", function () { var ah = u("ah"), al = u("al"), bh = u("bh"), bl = u("bl"), x = mk(ah, al), y = mk(bh, bl), lt = ah < bh || ah === bh && al < bl, same = ah === bh && al === bl; eq(x < y, lt, "<"); eq(x === y, same, "==="); eq(x >= y, !lt, ">="); eq(-x > -y, lt, "negated"); }, 2);
scenario("compare_signed", function () { var ah = u("ah"), al = u("al"), bh = u("bh"), bl = u("bl"), x = mks(ah, al), y = mks(bh, bl), lt = (ah | 0) < (bh | 0) || ah === bh && al < bl; eq(x < y, lt, "<"); eq(x <= y, lt || ah === bh && al === bl, "<="); }, 2);
scenario("negate_words", function () { var h = u("h"), l = u("l"), x = -mk(h, l); var lo = l === 0 ? 0 : 4294967296 - l, hi = (l === 0 ? (h === 0 ? 0 : 4294967296 - h) : 4294967295 - h); eq(word(x, 0), lo, "low"); eq(word(x, 1), hi, "high"); eq(-x === mk(h, l), true, "twice"); }, 2);
scenario("inc_dec", function () { var h = u("h"), l = u("l"), x = mks(h, l), y = x, z = x; y++; --z; eq(y - x === 1n, true, "++"); eq(x - z === 1n, true, "--"); eq(y === x + 1n, true, "+1"); eq(word(y, 0), l === 4294967295 ? 0 : l + 1, "low"); eq(word(z, 0), l === 0 ? 4294967295 : l - 1, "low-"); }, 2);
scenario("inc_edges", function () { var x = near("x", 2), y = x; eq(y++ === x, true, "old value"); eq(y - 1n === x, true, "inc"); y = x; eq(--y === x - 1n, true, "new value"); eq(y + 1n === x, true, "dec"); });
scenario("add_sub_inverse", function () { var x = near("x", 3), y = near("y", 3); eq(x + y - y === x, true, "x+y-y"); eq(x - y + y === x, true, "x-y+y"); eq(x + y === y + x, true, "commutes"); eq(x - y === -(y - x), true, "antisymmetric"); }, 3);
scenario("compare_edges", function () { var x = near("x", 3), y = near("y", 3), d = x - y; eq(x < y, d < 0n, "<"); eq(x > y, d > 0n, ">"); eq(x === y, d === 0n, "==="); eq(Object.is(x, y), d === 0n, "Object.is"); }, 3);
scenario("division_law", function () { var x = near("x", 2), k = conc(symInt("k", 1, 4)), y = BASE[k] + BigInt(conc(symInt("e", -1, 1))), q = x / y, r = x % y; eq(q * y + r === x, true, "x = q*y + r"); var ar = r < 0n ? -r : r; check(ar < y, "|r| < |y|"); check(r === 0n || (r < 0n) === (x < 0n), "sign of r"); eq(x / -y === -q, true, "negative divisor"); eq(x % -y === r, true, "remainder ignores the divisor's sign"); }, 3);
scenario("division_words", function () { var c = conc(symInt("c", 0, 4)), h = symInt("h", 0, 3) + [0, 0, 2147483640, 65534, 4294967292][c], l = symInt("l", -3, 3) >>> 0, y = [2n, 3n, 10n, 65536n, 4294967296n][c], x = mk(h, l), q = x / y, r = x % y; eq(q * y + r === x, true, "law"); check(r >= 0n && r < y, "range"); if (c === 4) { eq(Number(q), h, "high word"); eq(Number(r), l, "low word") } }, 3);
scenario("mul_words", function () { var h = u("h"), l = u("l"), c = conc(symInt("c", 0, 5)), m = [1, 2, 3, 65536, 5, 4096][c], x = mk(h, l) * BigInt(m), lo = l * m, c1 = Math.floor(lo / 4294967296), hi = h * m + c1; eq(word(x, 0), lo - c1 * 4294967296, "low"); eq(word(x, 1), hi - Math.floor(hi / 4294967296) * 4294967296, "high"); eq(word(x, 2), Math.floor(hi / 4294967296), "carry"); }, 3);
scenario("mul_power_of_two", function () { var n = conc(symInt("n", 0, 100)), x = near("x", 1), p = 2n ** BigInt(n); eq(x * p === x << BigInt(n), true, "shift"); eq(x * p / p === x, true, "inverse"); }, 2);
scenario("distributive", function () { var x = near("x", 1), y = near("y", 1), c = conc(symInt("c", 0, 4)), z = [3n, -1n, 4294967295n, -4294967296n, 18446744073709551615n][c]; eq((x + y) * z === x * z + y * z, true, "distributes"); eq(x * z === z * x, true, "commutes"); }, 3);
scenario("square", function () { var x = near("x", 1), y = x < 0n ? -x : x; eq(x * x === x ** 2n, true, "square"); eq((x + 1n) * (x - 1n) === x * x - 1n, true, "difference of squares"); if (x !== 0n) { eq(x * x / x === x, true, "exact division"); eq((x * x + y - 1n) / x === x, true, "truncation"); eq((x * x + y - 1n) % y === y - 1n, true, "remainder") } }, 3);
scenario("long_division", function () { // q digits that need correction
  var a = conc(symInt("a", 0, 4)), b = conc(symInt("b", 0, 4)), d = sx(conc(symInt("d", -2, 2))), e = BigInt(conc(symInt("e", -1, 1))), y = (1n << [31n, 62n, 63n, 64n, 93n][a]) + e, q = (1n << [1n, 31n, 32n, 62n, 64n][b]) + d, x = y * q; eq(x / y === q, true, "exact"); eq(x % y, 0n, "no remainder"); eq((x - 1n) / y === (q > 0n ? q - 1n : q), true, "below"); eq((x + y - 1n) / y === (q >= 0n ? q : q + 1n), true, "above"); }, 3);
scenario("power", function () { var b = conc(symInt("b", -3, 3)), e = conc(symInt("e", 0, 40)), r = 1n, x = sx(b), i; for (i = 0; i < e; i++) r = r * x; eq(x ** BigInt(e) === r, true, "repeated product"); }, 2);
scenario("power_edges", function () { var e = symInt("e", -5, 5), k = conc(symInt("k", 0, 4)), b = [0n, 1n, -1n, 2n, -7n][k]; eq(err(function () { b ** BigInt(e) }), e < 0 ? "RangeError" : "none", "negative exponent"); if (e === 0) eq(b ** BigInt(e), 1n, "x ** 0"); if (e === 1) eq(b ** BigInt(e), b, "x ** 1"); });
scenario("division_by_zero", function () { var x = near("x", 2), z = sx(symInt("z", -1, 1)); eq(err(function () { x / z }), z === 0n ? "RangeError" : "none", "/"); eq(err(function () { x % z }), z === 0n ? "RangeError" : "none", "%"); if (z !== 0n) eq(x % z, 0n, "unit"); });
scenario("mixed_types", function () { var k = conc(symInt("k", 0, 10)), a = symInt("a", -3, 3), n = symBool("n"), x = BigInt(a), f = [function (p, q) { return p + q }, function (p, q) { return p - q }, function (p, q) { return p * q }, function (p, q) { return p / q }, function (p, q) { return p % q }, function (p, q) { return p ** q }, function (p, q) { return p & q }, function (p, q) { return p | q }, function (p, q) { return p ^ q }, function (p, q) { return p << q }, function (p, q) { return p >> q }][k]; eq(err(function () { n ? f(x, 1) : f(1, x) }), "TypeError", "mixing BigInt and Number"); eq(err(function () { f(x, null) }), "TypeError", "null"); if (k) eq(err(function () { f(x, "1") }), "TypeError", "string"); eq(err(function () { x >>> 1n }), "TypeError", ">>>"); eq(err(function () { +x }), "TypeError", "unary plus"); if (k) eq(err(function () { f({ valueOf() { return x } }, 1n) }), "none", "objects convert"); });
scenario("sums", function () { var i, s = 0n, t = 0, n = conc(symInt("n", 0, 3)); for (i = 0; i < n; i++) { var v = symInt("v" + i, -2000000000, 2000000000); s += sx(v); t += v } is(s, t, "sum"); });
scenario("immutable", function () { var x = near("x", 2), y = x, z; z = x + 1n; z = x * 3n; z = -x; z = x << 5n; z = x & 255n; z = ~x; z = x / 3n; z = x - 1n; y += 0n; eq(x === y, true, "operands never change"); var c = x; c++; eq(c - x === 1n, true, "copy"); }, 2);
scenario("truthiness", function () { var h = u("h"), l = u("l"), x = mks(h, l), z = h === 0 && l === 0; eq(!x, z, "!"); eq(x ? 1 : 2, z ? 2 : 1, "?:"); eq((x && 7) === 7, !z, "&&"); eq(x || 7, z ? 7 : x, "||"); eq(Boolean(x), !z, "Boolean"); });
scenario("keys", function () { var a = symInt("a", -3, 12), o = {}; o[BigInt(a)] = 1; eq(Object.keys(o)[0], String(a), "property key"); var m = new Map([[BigInt(a), 5]]); eq(m.get(BigInt(a)), 5, "map key by value"); eq(m.has(a), false, "not a number"); eq([1n, 5n, BigInt(a)].indexOf(BigInt(a)), a === 1 ? 0 : a === 5 ? 1 : 2, "indexOf"); });
