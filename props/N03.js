// Math functions and number predicates.
function n0(x) { return x === 0 && 1 / x < 0 }
function fin(x) { return x === x && x !== Infinity && x !== -Infinity }
scenario("abs_sign", function () { var x = symNum("x"); var a = Math.abs(x), s = Math.sign(x); if (x !== x) { check(a !== a, "abs NaN"); check(s !== s, "sign NaN") } else { eq(a, x < 0 ? -x : n0(x) ? 0 : x, "abs"); eq(s, x > 0 ? 1 : x < 0 ? -1 : x, "sign"); } });
scenario("floor", function () { var x = symNum("x"), f = Math.floor(x); if (!fin(x) || x === 0) eq(f, x, "special"); else { check(f <= x, "f<=x"); check(x < f + 1 || f === x, "x<f+1"); if (x >= 4503599627370496 || x <= -4503599627370496) eq(f, x, "large"); } });
scenario("floor_quarter", function () { var a = symInt("a", -100000, 100000), x = a / 4; eq(Math.floor(x), a === 0 ? 0 : ref("fdiv", a, 4), "floor"); var c = -ref("fdiv", -a, 4); eq(Math.ceil(x), c === 0 ? (a < 0 ? -0 : 0) : c, "ceil"); var t = ref("div", a, 4); eq(Math.trunc(x), t === 0 ? (a < 0 ? -0 : 0) : t, "trunc"); var r = ref("fdiv", a + 2, 4); eq(Math.round(x), r === 0 ? (a < 0 ? -0 : 0) : r, "round"); });
scenario("ceil_neg_floor", function () { var x = symNum("x"); eq(Math.ceil(x), -Math.floor(-x), "ceil(x) == -floor(-x)"); eq(Math.trunc(x), x < 0 || n0(x) ? Math.ceil(x) : Math.floor(x), "trunc"); });
scenario("round_sixteenth", function () { var a = symInt("a", -200, 200), x = a / 16; var r = ref("fdiv", a + 8, 16); eq(Math.round(x), r === 0 ? (a < 0 ? -0 : 0) : r, "round"); });
scenario("round_num", function () { var x = symNum("x"), r = Math.round(x); if (!fin(x) || x === 0) eq(r, x, "special"); else if (x < 0.5 && x >= -0.5) eq(r, x < 0 ? -0 : 0, "small"); else if (x >= 4503599627370496 || x <= -4503599627370496) eq(r, x, "large"); else { check(r - x <= 0.5 && r - x > -0.5, "within half"); eq(Math.floor(r), r, "integer"); } });
scenario("max_min", function () {
  var x = symNum("x"), y = symNum("y"), M = Math.max(x, y), m = Math.min(x, y);
  if (x !== x || y !== y) { check(M !== M && m !== m, "NaN"); }
  else if (x === 0 && y === 0) { eq(M, n0(x) && n0(y) ? -0 : 0, "max zero"); eq(m, n0(x) || n0(y) ? -0 : 0, "min zero"); }
  else { eq(M, x > y ? x : y, "max"); eq(m, x < y ? x : y, "min"); }
});
scenario("max_min_many", function () { var a = symInt("a", -9, 9), b = symInt("b", -9, 9), c = symInt("c", -9, 9), d = symNum("d"); var M = a; if (b > M) M = b; if (c > M) M = c; var m = a; if (b < m) m = b; if (c < m) m = c; eq(Math.max(a, b, c), M, "max3"); eq(Math.min(a, b, c), m, "min3"); eq(Math.max(), -Infinity, "max()"); eq(Math.min(), Infinity, "min()"); eq(Math.max(d), d, "max1"); eq(Math.min(d), d, "min1"); var q = Math.max(a, NaN, b); check(q !== q, "NaN wins"); q = Math.min(NaN, a); check(q !== q, "NaN wins"); eq(Math.max(String(a), b), a > b ? a : b, "converted"); });
scenario("max_conv_order", function () { var log = ""; function v(n, x) { return { valueOf: function () { log += n; return x } } } var a = symInt("a", -5, 5); Math.max(v("a", NaN), v("b", a), v("c", 1)); Math.min(v("d", NaN), v("e", a)); Math.hypot(v("f", Infinity), v("g", a)); eq(log, "abcdefg", "every argument converted in order"); });
scenario("sqrt", function () { var a = symInt("a", 0, 3000); eq(Math.sqrt(a * a), a, "sqrt of square"); var n = symInt("n", -50, -1); var s = Math.sqrt(n); check(s !== s, "negative"); eq(Math.sqrt(-0), -0, "-0"); eq(Math.sqrt(Infinity), Infinity, "inf"); });
scenario("fround", function () { var a = symInt("a", -16777216, 16777216); eq(Math.fround(a), a, "exact"); eq(Math.fround(a / 4), a / 4, "exact quarter"); var x = symNum("x"), f = Math.fround(x); eq(Math.fround(f), f, "idempotent"); if (x !== x) check(f !== f, "NaN"); if (x === 0) eq(f, x, "zero"); });
scenario("fround_ties", function () { var a = symInt("a", 0, 40); var b = 16777216 + a, r = a % 4 === 1 ? a - 1 : a % 4 === 3 ? a + 1 : a; eq(Math.fround(b), 16777216 + r, "ties to even"); eq(Math.fround(-b), -16777216 - r, "negative"); });
scenario("isInteger", function () { var x = symNum("x"); var i = fin(x) && Math.floor(x) === x; eq(Number.isInteger(x), i, "isInteger"); eq(Number.isSafeInteger(x), i && x <= 9007199254740991 && x >= -9007199254740991, "isSafeInteger"); });
scenario("isFinite_isNaN", function () { var x = symNum("x"); eq(isNaN(x), x !== x, "isNaN"); eq(Number.isNaN(x), x !== x, "Number.isNaN"); eq(isFinite(x), fin(x), "isFinite"); eq(Number.isFinite(x), fin(x), "Number.isFinite"); var s = "" + symInt("i", -9, 9); eq(Number.isInteger(s), false, "string"); eq(Number.isFinite(s), false, "string"); eq(isFinite(s), true, "coerced"); eq(Number.isNaN("x"), false, "x"); eq(isNaN("x"), true, "x"); });
scenario("atan2_special", function () { var k = conc(symInt("k", 0, 15)); var v = [0, -0, 1, -1][k >> 2], w = [0, -0, 1, -1][k & 3], P = Math.PI; var e = [[0, P, 0, P], [-0, -P, -0, -P], [P / 2, P / 2, P / 4, 3 * P / 4], [-P / 2, -P / 2, -P / 4, -3 * P / 4]][k >> 2][k & 3]; eq(Math.atan2(v, w), e, "atan2"); });
scenario("special_values", function () {
  var k = conc(symInt("k", 0, 3)), v = [NaN, Infinity, -Infinity, -0][k], N = NaN;
  var t = { sin: [N, N, N, -0], cos: [N, N, N, 1], tan: [N, N, N, -0], exp: [N, Infinity, 0, 1], expm1: [N, Infinity, -1, -0], log: [N, Infinity, N, -Infinity], log2: [N, Infinity, N, -Infinity], log10: [N, Infinity, N, -Infinity], log1p: [N, Infinity, N, -0], sinh: [N, Infinity, -Infinity, -0], cosh: [N, Infinity, Infinity, 1], tanh: [N, 1, -1, -0], asinh: [N, Infinity, -Infinity, -0], acosh: [N, Infinity, N, N], atanh: [N, N, N, -0], asin: [N, N, N, -0], acos: [N, N, N, Math.PI / 2], atan: [N, Math.PI / 2, -Math.PI / 2, -0], cbrt: [N, Infinity, -Infinity, -0], sqrt: [N, Infinity, N, -0], abs: [N, Infinity, Infinity, 0], floor: [N, Infinity, -Infinity, -0], ceil: [N, Infinity, -Infinity, -0], round: [N, Infinity, -Infinity, -0], trunc: [N, Infinity, -Infinity, -0], sign: [N, 1, -1, -0], fround: [N, Infinity, -Infinity, -0] };
  var names = Object.keys(t); for (var i = 0; i < names.length; i++) eq(Math[names[i]](v), t[names[i]][k], names[i]);
});
scenario("exact_points", function () { var n = conc(symInt("n", 0, 20)), p = 1, t = 1, i; for (i = 0; i < n; i++) { p *= 2; t *= 10 } eq(Math.log2(p), n, "log2"); eq(Math.log10(t), n, "log10"); check(Math.abs(Math.cbrt(n * n * n) - n) < 1e-9, "cbrt"); check(Math.abs(Math.cbrt(-(n * n * n)) + n) < 1e-9, "cbrt neg"); eq(Math.hypot(3 * n, 4 * n), 5 * n, "hypot"); eq(Math.hypot(n, 0), n, "hypot0"); });
scenario("hypot", function () { var a = symInt("a", -20, 20); eq(Math.hypot(a), a < 0 ? -a : a, "hypot1"); eq(Math.hypot(), 0, "none"); eq(Math.hypot(NaN, -Infinity), Infinity, "inf wins"); var h = Math.hypot(NaN, 1); check(h !== h, "NaN"); eq(Math.hypot(1, 1, 1, 1), 2, "four"); eq(Math.hypot(-0, 0), 0, "zero"); });
scenario("random_range", function () { for (var i = 0; i < 3; i++) { var r = Math.random(); check(r >= 0 && r < 1, "range") } });
scenario("string_args", function () { var a = symInt("a", -30, 30); eq(Math.abs(String(a)), a < 0 ? -a : a, "abs"); eq(Math.floor(String(a) + ".5"), a < 0 ? a - 1 : a, "floor"); eq(Math.max(true, a), a > 1 ? a : 1, "bool"); eq(Math.abs(null), 0, "null"); var u = Math.abs(undefined); check(u !== u, "undefined"); u = Math.max(a, undefined); check(u !== u, "undefined"); eq(Math.trunc([a]), a, "array"); });
