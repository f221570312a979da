// Arithmetic, comparison and update operators on numbers.
function isNeg0(x) { return x === 0 && 1 / x < 0 }
function num(v) { return { valueOf: function () { return v } } }
scenario("add_sub_mul_int", function () { var a = symInt("a"), b = symInt("b"); eq(a + b, ref("add", a, b), "a+b"); eq(a - b, a === b ? 0 : ref("sub", a, b), "a-b"); });
scenario("mul_small", function () { var a = symInt("a", -40000, 40000), b = symInt("b", -300, 300); var r = ref("mul", a, b); if (r === 0) { check(a * b === 0, "zero product"); eq(isNeg0(a * b), (a < 0) !== (b < 0) && true, "sign of zero product") } else eq(a * b, r, "a*b"); });
scenario("neg_zero_mul", function () { var a = symInt("a", -3, 3); eq(Object.is(a * 0, -0), a < 0, "a*0"); eq(Object.is(a * -0, -0), !(a < 0), "a*-0"); eq(Object.is(0 / a, -0), a < 0, "0/a"); });
scenario("mod_int", function () { var a = symInt("a", -100000, 100000), b = symInt("b", -50, 50); var m = a % b; if (b === 0) check(m !== m, "mod 0 is NaN"); else { var r = ref("mod", a, b); eq(m, r === 0 && a < 0 ? -0 : r, "a%b"); } });
scenario("mod_special", function () { var x = symNum("x"); var m = x % Infinity; if (x !== x || x === Infinity || x === -Infinity) check(m !== m, "NaN"); else eq(m, x, "x%Infinity"); var n = x % 0; check(n !== n, "x%0"); var k = Infinity % x; check(k !== k, "Infinity%x"); });
scenario("div_int", function () { var a = symInt("a", -5000, 5000), b = conc(symInt("b", -9, 9)); var q = a / b; if (b === 0) { if (a === 0) check(q !== q, "0/0"); else eq(q, a > 0 ? Infinity : -Infinity, "a/0") } else { var p = a * b; eq(p / b, p === 0 ? (b < 0) === (p === 0 && 1 / p < 0) ? 0 : -0 : a, "(a*b)/b"); } });
scenario("div_neg_zero", function () { var a = symInt("a", -4, 4); var q = a / -0; if (a === 0) check(q !== q, "0/-0"); else eq(q, a > 0 ? -Infinity : Infinity, "a/-0"); });
scenario("identities", function () { var x = symNum("x"); eq(x * 1, x, "x*1"); eq(x / 1, x, "x/1"); eq(-(-x), x, "-(-x)"); eq(+x, x, "+x"); eq(x - 0, x, "x-0"); eq(0 + x, isNeg0(x) ? 0 : x, "0+x"); eq(x + -0, x, "x+-0"); });
scenario("identities2", function () { var x = symNum("x"); var d = x - x; if (x !== x || x === Infinity || x === -Infinity) check(d !== d, "NaN"); else eq(d, 0, "x-x"); eq(x * -1, -x, "x*-1"); eq(0 - x, x === 0 ? (isNeg0(x) ? 0 : 0) : -x, "0-x"); });
scenario("trichotomy", function () {
  var x = symNum("x"), y = symNum("y"); var lt = x < y, gt = x > y, e = x == y, n = x !== x || y !== y;
  eq((lt ? 1 : 0) + (gt ? 1 : 0) + (e ? 1 : 0), n ? 0 : 1, "exactly one"); eq(x <= y, lt || e, "<="); eq(x >= y, gt || e, ">="); eq(x === y, e, "==="); eq(x != y, !e, "!="); eq(x !== y, !e, "!=="); eq(y > x, lt, "swap");
});
scenario("int_compare", function () { var a = symInt("a"), b = symInt("b"); eq(a < b, ref("lt", a, b) === 1, "<"); eq(a >= b, ref("lt", a, b) === 0, ">="); eq(a > b, ref("lt", b, a) === 1, ">"); eq(a <= b, ref("lt", b, a) === 0, "<="); });
scenario("not_transforms", function () { var x = symNum("x"), y = symInt("y", -2, 2); eq(!(x < y), x !== x || x >= y, "!(x<y)"); if (!(x >= y)) check(x < y || x !== x, "if !(>=)"); var c = 0; while (c < 3 && !(x <= y)) { c++; } eq(c, x <= y ? 0 : 3, "loop"); eq(x > y ? 1 : 2, x > y ? 1 : 2, "cond"); });
scenario("object_is", function () { var x = symNum("x"), y = symNum("y"); var s = Object.is(x, y); if (x !== x) eq(s, y !== y, "NaN"); else if (x === 0) eq(s, y === 0 && 1 / x === 1 / y, "zero"); else eq(s, x === y, "other"); });
scenario("pow", function () {
  var n = conc(symInt("n", -30, 62)), r = 1, i; for (i = 0; i < n; i++) r = r * 2; for (i = 0; i > n; i--) r = r / 2;
  eq(2 ** n, r, "2**n"); eq(Math.pow(2, n), r, "Math.pow"); eq((-2) ** n, n % 2 === 0 ? r : -r, "(-2)**n"); var v = 2; v **= n; eq(v, r, "**=");
});
scenario("pow_special", function () { var x = symNum("x"); eq(x ** 0, 1, "x**0"); eq(x ** -0, 1, "x**-0"); var y = x ** NaN; check(y !== y, "x**NaN"); var k = conc(symInt("k", 0, 7)); var u = [Infinity, -Infinity, NaN, 1, -1, 0, -0, 2][k];
  var e = [NaN, NaN, NaN, 1, -1, 0, -0, 8][k]; if (k < 2) e = [Infinity, -Infinity][k]; eq(u ** 3, e, "u**3"); var w = 1 ** u; if (k < 3) check(w !== w, "1**u"); else eq(w, 1, "1**u"); w = (-1) ** u; if (k < 3) check(w !== w, "(-1)**u"); eq((-0) ** -3, -Infinity, "-0**-3"); eq((-0) ** -2, Infinity, "-0**-2"); eq((-8) ** (1 / 3), NaN, "root"); eq(2 ** 3 ** 2, 512, "right assoc"); });
scenario("pow_int", function () { var b = conc(symInt("b", -7, 7)), n = conc(symInt("n", 0, 9)), r = 1; for (var i = 0; i < n; i++) r *= b; eq(b ** n, r, "b**n"); });
scenario("incdec_var", function () { var a = symInt("a"), v; v = a; eq(v++, a, "v++ value"); eq(v, a + 1, "v++"); v = a; eq(++v, a + 1, "++v"); eq(v, a + 1, "++v var"); v = a; eq(v--, a, "v-- value"); eq(v, a - 1, "v--"); v = a; eq(--v, a - 1, "--v"); eq(v, a - 1, "--v var"); });
scenario("incdec_prop", function () { var a = symInt("a"), o = { p: a }, k = "p", arr = [a, a]; eq(o.p++, a, "o.p++"); eq(o.p, a + 1, ".p"); eq(o[k]--, a + 1, "o[k]--"); eq(o.p, a, ".p"); eq(++arr[0], a + 1, "++arr[0]"); eq(arr[1]--, a, "arr[1]--"); eq(arr[1], a - 1, "arr[1]"); eq(--o[k], a - 1, "--o[k]"); eq(arr[0], a + 1, "arr[0]"); });
scenario("incdec_num", function () { var x = symNum("x"), v = x; eq(v++, x, "old"); eq(v, x + 1, "new"); var w = "" + conc(symInt("k", -3, 12)), n = +w; var old = w++; eq(old, n, "string old"); eq(w, n + 1, "string new"); var u; u++; check(u !== u, "undefined++"); var t = true; eq(++t, 2, "++true"); var nl = null; eq(nl--, 0, "null--"); eq(nl, -1, "null--"); });
scenario("incdec_once", function () { var a = symInt("a", -5, 5), n = 0, o = { v: a, get p() { n++; return this.v }, set p(x) { n += 10; this.v = x } }; eq(o.p++, a, "old"); eq(n, 11, "one get, one set"); eq(o.v, a + 1, "stored"); var i = 0, arr = [a, a]; arr[i++] += 2; eq(i, 1, "index evaluated once"); eq(arr[0], a + 2, "+="); arr[i--]++; eq(i, 0, "index once"); eq(arr[1], a + 1, "++"); });
scenario("compound", function () { var a = symInt("a", -30000, 30000), b = symInt("b", -200, 200), x; x = a; x += b; eq(x, ref("add", a, b), "+="); x = a; x -= b; eq(x, a - b, "-="); x = a; x *= b; eq(x, a * b, "*="); x = a; x %= b; eq(x, a % b, "%="); x = a; x /= b; eq(x, a / b, "/="); var o = { p: a }; o.p += b; o["p"] -= 1; eq(o.p, a + b - 1, "o.p"); });
scenario("logical_assign", function () { var a = symInt("a", -2, 2), k = conc(symInt("k", 0, 3)), v = [undefined, null, 0, a][k], x, n = 0; function f() { n++; return 7 }
  x = v; x ||= f(); eq(x, v ? v : 7, "||="); eq(n, v ? 0 : 1, "||= short"); n = 0; x = v; x &&= f(); eq(x, v ? 7 : v, "&&="); eq(n, v ? 1 : 0, "&&= short"); n = 0; x = v; x ??= f(); eq(x, k < 2 ? 7 : v, "??="); eq(n, k < 2 ? 1 : 0, "??= short"); var o = { p: v }; n = 0; o.p ??= f(); eq(o.p, k < 2 ? 7 : v, "o.p ??="); o.p = v; o.p ||= f(); eq(o.p, v ? v : 7, "o.p||="); o.p = v; o["p"] &&= f(); eq(o.p, v ? 7 : v, "o.p&&="); });
scenario("logical", function () { var a = symInt("a", -1, 1), b = symNum("b"); eq(a && b, a === 0 ? a : b, "&&"); eq(a || b, a === 0 ? b : a, "||"); eq(!b, b !== b || b === 0, "!b"); eq(b ? 1 : 2, b !== b || b === 0 ? 2 : 1, "cond"); eq(b ?? 5, b, "??"); eq(undefined ?? a, a, "undefined??"); eq(null ?? a, a, "null??"); eq(!!b, !(b !== b || b === 0), "!!"); });
scenario("operand_conv_order", function () { var log = "", a = symInt("a", -9, 9); function mk(n, v) { return { valueOf: function () { log += n; return v }, toString: function () { log += n + "s"; return "x" } } }
  eq(mk("a", a) + mk("b", 1), a + 1, "+"); eq(mk("c", a) - mk("d", 1), a - 1, "-"); eq(mk("e", a) < mk("f", 1), a < 1, "<"); eq(mk("g", a) > mk("h", 1), a > 1, ">"); eq(mk("i", a) <= mk("j", 1), a <= 1, "<="); eq(mk("k", a) >= mk("l", 1), a >= 1, ">="); eq(mk("m", a) * mk("n", 2), a * 2, "*"); eq(mk("o", 8) / mk("p", 2), 4, "/"); eq(mk("q", a) % mk("r", 3), a % 3, "%"); eq(mk("s", 2) ** mk("t", 3), 8, "**"); eq(log, "abcdefghijklmnopqrst", "order"); });
scenario("string_plus", function () { var a = symInt("a", -20, 20), s = symStr("s", 2, "az"); eq(s + a, s + String(a), "s+n"); eq(a + s, String(a) + s, "n+s"); eq((s + a).length, 2 + String(a).length, "length"); eq(s + true + null + undefined, s + "truenullundefined", "others"); eq(a + true, a + 1, "n+true"); eq(a + null, a, "n+null"); var u = a + undefined; check(u !== u, "n+undefined"); eq(1 + 2 + s, "3" + s, "left assoc"); eq(s + 1 + 2, s + "12", "left assoc 2"); });
scenario("string_minus", function () { var a = symInt("a", -50, 50); eq(String(a) - 1, a - 1, "'n'-1"); eq(String(a) * "2", a * 2 === 0 ? 0 : a * 2, "*"); eq(-String(a), a === 0 ? -0 : -a, "-'n'"); eq(+(" " + a + "\n"), a, "trim"); eq(+"", 0, "empty"); var z = "x" - a; check(z !== z, "NaN"); });
scenario("string_compare", function () { var s = symStr("s", 2, "ac\u0000\u0001"), t = symStr("t", 2, "ac"); var r = 0; for (var i = 0; i < 2 && !r; i++) { var p = s.charCodeAt(i), q = t.charCodeAt(i); r = p < q ? -1 : p > q ? 1 : 0 } eq(s < t, r < 0, "<"); eq(s > t, r > 0, ">"); eq(s <= t, r <= 0, "<="); eq(s >= t, r >= 0, ">="); eq(s === t, r === 0, "==="); eq(s < t + "a", r <= 0, "prefix"); eq(s + "a" <= t, r < 0, "prefix 2"); });
scenario("mixed_compare", function () { var a = symInt("a", -30, 30), b = symInt("b", 0, 30); eq(a < String(b), a < b, "n<s"); eq(String(b) > a, b > a, "s>n"); check(!(a < "x") && !(a >= "x") && !(undefined < a) && !(a <= undefined), "NaN compare"); eq(null < a, 0 < a, "null<a"); eq(a >= true, a >= 1, ">=true"); eq(null >= 0, true, "null>=0"); eq("10" < "9", true, "string compare"); eq(10 < "9", false, "number compare"); });
scenario("precedence", function () { var a = symInt("a", -50, 50), b = symInt("b", -50, 50), c = symInt("c", 1, 9); eq(a + b * c, a + (b * c), "+*"); eq(a - b - c, (a - b) - c, "--"); eq(a * c % 7, (a * c) % 7, "*%"); eq(-a + b, (-a) + b, "unary"); eq(a < b == c > 4, (a < b) == (c > 4), "<=="); eq(a + b << 1, (a + b) << 1, "+<<"); eq(a & b == c, a & (b == c ? 1 : 0), "&=="); eq(a | b ^ c & a, a | (b ^ (c & a)), "bit"); eq(a ? b : c ? 1 : 2, a ? b : (c ? 1 : 2), "?:"); eq((a, b), b, "comma"); eq(!a + 1, a === 0 ? 2 : 1, "!+"); eq(typeof a + b, "number" + b, "typeof"); eq(a || b && c, a ? a : (b ? c : b), "||&&"); });
scenario("pow_zero_inf_base", function () { var k = conc(symInt("k", 0, 3)), n = conc(symInt("n", -9, 9)); var b = [0, -0, Infinity, -Infinity][k]; if (n === 0) { eq(b ** n, 1, "**0"); return } var odd = n % 2 !== 0, big = (k < 2) === (n < 0), neg = k % 2 === 1 && odd; eq(b ** n, big ? (neg ? -Infinity : Infinity) : (neg ? -0 : 0), "special base, integer exponent"); eq(Math.pow(b, n + (n > 0 ? 0.5 : -0.5)), big ? Infinity : 0, "special base, fractional exponent"); });
scenario("pow_unit_base", function () { var k = conc(symInt("k", 0, 5)); var b = [1, -1, 1.5, -1.5, 0.5, -0.5][k], h = k === 2 || k === 3, u = k < 2; var p = b ** Infinity, m = Math.pow(b, -Infinity); if (u) { check(p !== p, "NaN"); check(m !== m, "NaN") } else { eq(p, h ? Infinity : 0, "**Infinity"); eq(m, h ? 0 : Infinity, "**-Infinity") } var f = (-1 - k) ** 0.5; check(f !== f, "fractional power of a negative number"); });
