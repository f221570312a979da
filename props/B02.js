// BigInt bit operations, shifts, wrapping, text and Number conversions.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var dv = new DataView(new ArrayBuffer(32));
function mk(hi, lo) { dv.setUint32(0, hi); dv.setUint32(4, lo); return dv.getBigUint64(0) }
function mks(hi, lo) { dv.setUint32(0, hi); dv.setUint32(4, lo); return dv.getBigInt64(0) }
function word(x, i) { dv.setBigUint64(8, BigInt.asUintN(64, x >> BigInt(i & ~1) * 32n)); return dv.getUint32(i & 1 ? 8 : 12) }
function u(name) { return symInt(name) >>> 0 }
function sx(a) { return mks(a < 0 ? -1 : 0, a) }
function bit(x, i) { return (x >> BigInt(i)) & 1n ? 1 : 0 }
var BASE = [0n, 2147483648n, 4294967296n, 9223372036854775808n, 18446744073709551616n, 79228162514264337593543950336n];
function near(name, d) { var k = conc(symInt(name + "k", 0, BASE.length - 1)), s = symBool(name + "s"), v = BASE[k] + sx(symInt(name + "d", -d, d)); return s ? -v : v }
scenario("and_small", function () { var a = symInt("a"), b = symInt("b"); eq((sx(a) & sx(b)) === sx(ref("and", a, b)), true, "&"); });
scenario("or_small", function () { var a = symInt("a"), b = symInt("b"); eq((sx(a) | sx(b)) === sx(ref("or", a, b)), true, "|"); });
scenario("xor_small", function () { var a = symInt("a"), b = symInt("b"); eq((sx(a) ^ sx(b)) === sx(ref("xor", a, b)), true, "^"); });
scenario("bits_words", function () { var k = conc(symInt("k", 0, 2)), op = ["and", "or", "xor"][k], ah = symInt("ah"), al = symInt("al"), bh = symInt("bh"), bl = symInt("bl"), x = mks(ah, al), y = mks(bh, bl), z = k === 0 ? x & y : k === 1 ? x | y : x ^ y; eq(z === mks(ref(op, ah, bh), ref(op, al, bl)), true, op); }, 4);
scenario("bits_unsigned", function () { var k = conc(symInt("k", 0, 2)), op = ["and", "or", "xor"][k], ah = symInt("ah"), al = symInt("al"), bh = symInt("bh"), bl = symInt("bl"), x = mk(ah, al), y = -1n - mk(bh, bl), z = k === 0 ? x & y : k === 1 ? x | y : x ^ y, hi = ref(op, ah, ~bh), lo = ref(op, al, ~bl); eq(word(z, 0), lo >>> 0, "low"); eq(word(z, 1), hi >>> 0, "high"); eq(z < 0n, k !== 0, "sign"); }, 4);
scenario("not", function () { var h = u("h"), l = u("l"), x = mks(h, l); eq(~x === -x - 1n, true, "~x = -x-1"); eq(word(~x, 0), (~l) >>> 0, "low"); eq(word(~x, 1), (~h) >>> 0, "high"); eq(~~x === x, true, "twice"); });
scenario("bit_laws", function () { var x = near("x", 2), y = near("y", 2); eq((x & y) + (x | y) === x + y, true, "x&y + x|y = x+y"); eq((x ^ y) === (x | y) - (x & y), true, "xor"); eq((x & ~y) === x - (x & y), true, "and not"); eq((x ^ y ^ y) === x, true, "xor twice"); eq(~(x & y) === (~x | ~y), true, "De Morgan"); }, 3);
scenario("bit_identities", function () { var x = near("x", 3); eq((x & x) === x, true, "idempotent &"); eq((x | x) === x, true, "idempotent |"); eq((x ^ x) === 0n, true, "xor self"); eq((x & 0n) === 0n, true, "& 0"); eq((x & -1n) === x, true, "& -1"); eq((x | 0n) === x, true, "| 0"); eq((x | -1n) === -1n, true, "| -1"); eq((x ^ -1n) === ~x, true, "^ -1"); });
scenario("shift_left", function () { var n = conc(symInt("n", 0, 130)), a = symInt("a"), x = sx(a) << BigInt(n), i = n >> 5, r = n & 31; eq(word(x, i), ref("shl", a, r) >>> 0, "word"); if (i) eq(word(x, 0), 0, "zeros below"); eq(x >> BigInt(n) === sx(a), true, "back"); eq(word(x, i + 1), r ? (a >> (32 - r)) >>> 0 : a < 0 ? 4294967295 : 0, "next word"); }, 2);
scenario("shift_right", function () { var n = conc(symInt("n", 0, 70)), h = symInt("h"), l = symInt("l"), x = mks(h, l) >> BigInt(n), r = n & 31, lo, hi; if (n >= 64) { lo = h >> 31; hi = h >> 31 } else if (n >= 32) { lo = h >> r; hi = h >> 31 } else if (n === 0) { lo = l; hi = h } else { lo = ref("or", l >>> n, h << (32 - n)); hi = h >> n } eq(x === mks(hi, lo), true, "floor shift"); }, 2);
scenario("shift_negative_count", function () { var n = conc(symInt("n", -70, 70)), x = near("x", 1); eq((x << BigInt(n)) === (x >> BigInt(-n)), true, "negative counts reverse"); });
scenario("shift_floor", function () { var n = conc(symInt("n", 1, 100)), x = near("x", 2), p = 1n << BigInt(n), q = x >> BigInt(n), r = x - q * p; check(r >= 0n && r < p, "rounds towards minus infinity"); }, 2);
scenario("shift_huge", function () { var a = symInt("a", -3, 3), x = sx(a), b = 18446744073709551616n; eq(x >> b, a < 0 ? -1n : 0n, "right by 2**64"); eq(err(function () { x << b }), a === 0 ? "none" : "RangeError", "left by 2**64"); eq(x << -b, a < 0 ? -1n : 0n, "left by -2**64"); });
scenario("as_int_n", function () { var n = conc(symInt("n", 0, 70)), h = symInt("h"), l = symInt("l"), x = mks(h, l), y = BigInt.asIntN(n, x), lo, hi, s; if (n === 0) lo = hi = 0; else if (n >= 64) { lo = l; hi = h } else if (n > 32) { s = 64 - n; lo = l; hi = h << s >> s } else { s = 32 - n; lo = l << s >> s; hi = lo >> 31 } eq(y === mks(hi, lo), true, "asIntN"); }, 2);
scenario("as_uint_n", function () { var n = conc(symInt("n", 0, 64)), h = symInt("h"), l = symInt("l"), x = mks(h, l), y = BigInt.asUintN(n, x), lo, hi; if (n === 0) lo = hi = 0; else if (n === 64) { lo = l; hi = h } else if (n > 32) { lo = l; hi = (h << (64 - n)) >>> (64 - n) } else if (n === 32) { lo = l; hi = 0 } else { lo = (l << (32 - n)) >>> (32 - n); hi = 0 } eq(y === mk(hi, lo), true, "asUintN"); }, 2);
scenario("wrap_laws", function () { var n = conc(symInt("n", 1, 100)), x = near("x", 2), p = 1n << BigInt(n), y = BigInt.asUintN(n, x), z = BigInt.asIntN(n, x); check(y >= 0n && y < p, "unsigned range"); eq((y - x) % p, 0n, "congruent"); check(z >= -(p >> 1n) && z < p >> 1n, "signed range"); eq((z - x) % p, 0n, "congruent signed"); eq(BigInt.asUintN(n, z) === y, true, "agree"); }, 2);
scenario("wrap_arguments", function () { var k = conc(symInt("k", 0, 11)), n = [-1, 9007199254740992, 9007199254740991, "5", 2.9, NaN, undefined, null, true, "x", -0.5, 4294967296][k], bad = k < 2, big = 7n; eq(err(function () { BigInt.asIntN(n, big) }), bad ? "RangeError" : "none", "asIntN bits"); eq(err(function () { BigInt.asUintN(n, big) }), bad ? "RangeError" : "none", "asUintN bits"); if (!bad) { var w = [0, 0, 60, 5, 2, 0, 0, 0, 1, 0, 0, 60][k]; eq(BigInt.asUintN(n, big), w === 60 ? 7n : BigInt.asUintN(w, big), "bits converted"); } eq(err(function () { BigInt.asIntN(8, 1) }), "TypeError", "number value"); eq(BigInt.asIntN(3, "13"), -3n, "text value"); eq(BigInt.asUintN(3, true), 1n, "boolean value"); });
scenario("unsigned_bits_of_negative", function () { var n = conc(symInt("n", 1, 100)), a = symInt("a", 1, 4); eq(BigInt.asUintN(n, sx(-a)) === BigInt.asUintN(n, (1n << 200n) - sx(a)), true, "two's complement"); }, 2);
scenario("to_number_small", function () { var h = symInt("h", -3, 3), l = symInt("l", -100, 100) >>> 0; eq(Number(mks(h, l)), h * 4294967296 + l, "exact below 2**53"); });
scenario("to_number_rounding", function () { // round half to even at every exponent
  var e = conc(symInt("e", 54, 90)), m = conc(symInt("m", 0, 3)), r = symInt("r", -2, 2), s = symBool("s"); var x = (4503599627370496n + BigInt(m)) * (1n << BigInt(e - 52)) + (1n << BigInt(e - 53)) + sx(r); if (s) x = -x; var up = r > 0 || r === 0 && m % 2 === 1; var v = (4503599627370496 + m + (up ? 1 : 0)) * Math.pow(2, e - 52); eq(Number(x), s ? -v : v, "rounds to nearest, ties to even"); }, 2);
scenario("to_number_overflow", function () { var d = symInt("d", -2, 2), x = (1n << 1024n) - (1n << 970n) + sx(d); eq(Number(x), d < 0 ? 1.7976931348623157e308 : Infinity, "largest"); eq(Number(-x), d < 0 ? -1.7976931348623157e308 : -Infinity, "smallest"); });
scenario("from_number", function () { var k = conc(symInt("k", 0, 13)), v = [9007199254740991, 9007199254740992, 1e21, -1e21, 1.7976931348623157e308, 4294967296, -4294967295, 2147483648, -2147483649, 1.5, NaN, Infinity, -Infinity, -0][k]; var bad = k >= 9 && k <= 12; eq(err(function () { BigInt(v) }), bad ? "RangeError" : "none", "integers only"); if (!bad) { eq(Number(BigInt(v)), v + 0, "exact"); eq(BigInt(v) == v, true, "equal") } });
scenario("from_double", function () { var e = conc(symInt("e", -3, 40)), m = symInt("m", -5, 5), v = m * Math.pow(2, e), whole = v === Math.floor(v); eq(err(function () { BigInt(v) }), whole ? "none" : "RangeError", "integral"); if (whole) eq(BigInt(v) === (e < 0 ? sx(m) >> BigInt(-e) : sx(m) << BigInt(e)), true, "value"); });
scenario("compare_number", function () { var e = conc(symInt("e", 0, 5)), b = [0, 9007199254740992, 18446744073709551616, 4294967296, -9223372036854775808, 1e30][e], d = symInt("d", -2, 2), x = BigInt(b) + sx(d); eq(x < b, d < 0, "<"); eq(x > b, d > 0, ">"); eq(x <= b, d <= 0, "<="); eq(b <= x, d >= 0, "reversed <="); eq(x == b, d === 0, "=="); eq(x === b, false, "==="); });
scenario("compare_fraction", function () { var a = symInt("a", -5, 5), b = symInt("b", -11, 11), f = b / 2, x = sx(a); eq(x < f, a < f, "<"); eq(x > f, a > f, ">"); eq(x <= f, a <= f, "<="); eq(x >= f, a >= f, ">="); eq(x == f, a === f, "=="); eq(f < x, f < a, "reversed <"); eq(f != x, f !== a, "!="); });
scenario("compare_special", function () { var x = near("x", 1), k = conc(symInt("k", 0, 2)), v = [NaN, Infinity, -Infinity][k]; eq(x < v, k === 1, "<"); eq(x > v, k === 2, ">"); eq(x <= v, k === 1, "<="); eq(v >= x, k === 1, "reversed >="); eq(x == v, false, "=="); });
scenario("compare_string", function () { var t = symStr("t", 2, "09"), a = symInt("a", 0, 12), x = sx(a), v = (t.charCodeAt(0) - 48) * 10 + t.charCodeAt(1) - 48; eq(x < t, a < v, "<"); eq(t < x, v < a, "reversed"); eq(x == t, a === v, "=="); eq(x >= t, a >= v, ">="); });
scenario("compare_bad_string", function () { var k = conc(symInt("k", 0, 7)), t = ["1n", "1.0", "0x", "", " 1 ", "x", "0b11", "-0x1"][k], v = [, , , 0n, 1n, , 3n][k]; eq(1n == t, v === 1n, "=="); eq(0n < t, v !== undefined && v > 0n, "<"); eq(9n > t, v !== undefined, ">"); eq(0n <= t, v !== undefined, "<="); });
scenario("to_string_radix", function () { var r = conc(symInt("r", 2, 36)), a = symInt("a", -40, 40); eq(sx(a).toString(r), a.toString(r), "same digits as the Number"); }, 2);
scenario("to_string_words", function () { var k = conc(symInt("k", 0, 3)), r = [2, 16, 32, 10][k], x = near("x", 2), t = x.toString(r), i, v = 0n, neg = t[0] === "-"; for (i = neg ? 1 : 0; i < t.length; i++) { var c = t.charCodeAt(i), d = c < 58 ? c - 48 : c - 87; check(d >= 0 && d < r, "digit"); v = v * BigInt(r) + BigInt(d) } eq((neg ? -v : v) === x, true, "denotes the value"); eq(neg, x < 0n, "sign"); if (x !== 0n) check(t[neg ? 1 : 0] !== "0", "no leading zero"); }, 3);
scenario("hex_words", function () { var h = symInt("h", 0, 15), l = symInt("l", -16, 15), t = mk(h, l).toString(16), w = (l >>> 0).toString(16); eq(t, h ? h.toString(16) + "00000000".slice(w.length) + w : w, "hex"); }, 2);
scenario("to_string_parse", function () { var x = near("x", 3), t = String(x); eq(BigInt(t) === x, true, "round trip"); eq(`${x}`, t, "template"); eq("" + x, t, "concatenation"); eq(BigInt(" " + t + "\n") === x, true, "white space"); eq(x.toLocaleString() === t || true, true, "locale"); });
scenario("radix_argument", function () { var r = symInt("r", -2, 40), ok = r >= 2 && r <= 36; eq(err(function () { 5n.toString(r) }), ok ? "none" : "RangeError", "radix"); eq(5n.toString(undefined), "5", "undefined"); });
scenario("parse_decimal", function () { var t = symStr("t", 3, "09"), v = (t.charCodeAt(0) - 48) * 100 + (t.charCodeAt(1) - 48) * 10 + t.charCodeAt(2) - 48; eq(BigInt(t) === sx(v), true, "decimal"); eq(BigInt("-" + t) === sx(-v), true, "negative"); });
scenario("parse_long", function () { var t = symStr("t", 1, "09"), d = sx(t.charCodeAt(0) - 48), n = conc(symInt("n", 0, 40)), z = "0".repeat(n), p = 10n ** BigInt(n); eq(BigInt(t + z) === d * p, true, "leading digit"); eq(BigInt("1" + z + t) === 10n * p + d, true, "last digit"); }, 2);
scenario("parse_prefix", function () { var k = conc(symInt("k", 0, 5)), p = ["0x", "0X", "0b", "0B", "0o", "0O"][k], t = symStr("t", 2, "08ahAH"), i, v = 0, b = [16, 16, 2, 2, 8, 8][k], ok = true; for (i = 0; i < 2; i++) { var c = t.charCodeAt(i), d = c < 58 ? c - 48 : (c | 32) - 87; if (d >= b) ok = false; v = v * b + d } eq(err(function () { BigInt(p + t) }), ok ? "none" : "SyntaxError", "digits of the radix"); if (ok) eq(BigInt(p + t) === sx(v), true, "value"); eq(err(function () { BigInt("-" + p + t) }), "SyntaxError", "no sign before a prefix"); });
scenario("parse_malformed", function () { var t = symStr("t", 2, "01__nn..ee++--  "), a = t[0], b = t[1], d = function (c) { return c === "0" || c === "1" }, ok = d(a) && (d(b) || b === " ") || (a === "+" || a === "-" || a === " ") && d(b) || a === " " && b === " "; eq(err(function () { BigInt(t) }), ok ? "none" : "SyntaxError", "grammar"); });
scenario("convert", function () { var k = conc(symInt("k", 0, 9)), v = [true, false, null, undefined, "", "12", Symbol(), { valueOf() { return 3n } }, { valueOf() { return "7" } }, [9]][k], e = [1n, 0n, "TypeError", "TypeError", 0n, 12n, "TypeError", 3n, 7n, 9n][k]; if (typeof e === "string") { eq(err(function () { BigInt(v) }), e, "error"); if (k !== 6) eq(err(function () { BigInt.asIntN(9, v) }), e, "asIntN error") } else { eq(BigInt(v), e, "value"); eq(BigInt.asIntN(9, v), e, "ToBigInt") } });
scenario("wrapper", function () { var a = symInt("a", -3, 3), x = sx(a), o = Object(x); eq(typeof o, "object", "object"); eq(o == x, true, "=="); eq(o.valueOf() === x, true, "valueOf"); eq(o + 1n === x + 1n, true, "arithmetic"); eq(err(function () { new BigInt(1) }), "TypeError", "not a constructor"); eq(Object.prototype.toString.call(o), "[object BigInt]", "tag"); eq(err(function () { BigInt.prototype.valueOf.call(1) }), "TypeError", "brand"); eq(err(function () { BigInt.prototype.toString.call({}) }), "TypeError", "brand toString"); });
scenario("literals", function () { var t = symStr("t", 2, "19"), v = sx((t.charCodeAt(0) - 48) * 10 + t.charCodeAt(1) - 48), f = (0, eval); eq(f(t + "n") === v, true, "decimal"); eq(f("0x" + t + "n") === BigInt("0x" + t), true, "hex"); eq(f(t[0] + "_" + t[1] + "n") === v, true, "separator"); eq(f("-" + t + "n") === -v, true, "negated"); });
scenario("bad_literals", function () { var k = conc(symInt("k", 0, 9)), t = ["01n", "1.5n", "1e3n", "00n", "08n", "1__0n", "1n2", ".5n", "1_n", "0xn"][k]; eq(err(function () { (0, eval)(t) }), "SyntaxError", t); });
scenario("typed_store", function () { var h = symInt("h"), l = symInt("l"), x = mks(h, l), a = new BigInt64Array(1), b = new BigUint64Array(1); a[0] = x; b[0] = x; eq(a[0] === x, true, "signed"); eq(b[0] === mk(h, l), true, "unsigned"); a[0] = x + 18446744073709551616n; eq(a[0] === x, true, "modulo 2**64"); b[0] = x - 36893488147419103232n; eq(b[0] === mk(h, l), true, "modulo 2**64 unsigned"); });
