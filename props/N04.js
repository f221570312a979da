// Numbers to text and text to numbers.
function dig(s, i) { return s.charCodeAt(i) - 48 }
function istr(n) { var neg = n < 0, r = ""; if (neg) n = -n; do { r = String.fromCharCode(48 + n % 10) + r; n = Math.floor(n / 10) } while (n > 0); return neg ? "-" + r : r }
function rstr(n, b) { var neg = n < 0, r = ""; if (neg) n = -n; do { var d = n % b; r = String.fromCharCode(d < 10 ? 48 + d : 87 + d) + r; n = (n - d) / b } while (n > 0); return neg ? "-" + r : r }
scenario("int_to_string", function () { var a = symInt("a", -1200, 1200); eq(String(a), istr(a), "String"); eq("" + a, istr(a), "concat"); eq(a.toString(), istr(a), "toString"); eq(`${a}`, istr(a), "template"); });
scenario("int_roundtrip", function () { var a = symInt("a", -100000, 100000); eq(Number(String(a)), a, "Number(String)"); });
scenario("int32_roundtrip", function () { var a = symInt("a"); eq(Number(String(a)), a, "Number(String)"); });
scenario("pow10_text", function () { var n = conc(symInt("n", -8, 24)), v = 1, i, r; for (i = 0; i < n; i++) v *= 10; if (n < 0) v = +("1e" + n); if (n >= 21) r = "1e+" + n; else if (n >= 0) { r = "1"; for (i = 0; i < n; i++) r += "0" } else if (n >= -6) { r = "0."; for (i = -1; i > n; i--) r += "0"; r += "1" } else r = "1e-" + -n; eq(String(v), r, "10**n"); eq(String(-v), "-" + r, "-10**n"); });
scenario("sci_text", function () { var d = conc(symInt("d", 1, 9)), n = conc(symInt("n", -9, 23)); var v = Number(d + "." + d + "e" + n); var t; if (n >= 21) t = d + "." + d + "e+" + n; else if (n >= 1) { t = "" + d + d; for (var i = 1; i < n; i++) t += "0" } else if (n === 0) t = d + "." + d; else if (n >= -6) { t = "0."; for (var j = -1; j > n; j--) t += "0"; t += "" + d + d } else t = d + "." + d + "e-" + -n; eq(String(v), t, "text"); });
scenario("fraction_text", function () { var a = symInt("a", 0, 799), n = a % 8; var f = ["", ".125", ".25", ".375", ".5", ".625", ".75", ".875"][conc(n)]; eq(String(a / 8), istr((a - n) / 8) + f, "eighths"); });
scenario("fraction_roundtrip", function () { var a = symInt("a", -3000, 3000); var x = a / 16; eq(Number(String(x)), x, "sixteenths"); });
scenario("special_text", function () { var k = conc(symInt("k", 0, 5)); eq(String([NaN, Infinity, -Infinity, 0, -0, 9007199254740993][k]), ["NaN", "Infinity", "-Infinity", "0", "0", "9007199254740992"][k], "special"); eq((-0).toString(2), "0", "-0 base 2"); eq((1e21).toString(), "1e+21", "1e21"); eq((123456789012345680000).toString(), "123456789012345680000", "1.2e20"); eq(String(5e-324), "5e-324", "min"); eq(String(1.7976931348623157e308), "1.7976931348623157e+308", "max"); eq(String(0.1 + 0.2), "0.30000000000000004", "0.3"); eq(String(1e-7), "1e-7", "1e-7"); eq(String(0.000001), "0.000001", "1e-6"); });
scenario("radix_int", function () { var b = conc(symInt("b", 2, 36)), a = symInt("a", -3000, 3000); eq(a.toString(b), rstr(a, b), "toString(radix)"); }, 4);
scenario("radix_pow2", function () { var b = 1 << conc(symInt("b", 1, 5)), a = symInt("a", 0, 70000); eq(parseInt(a.toString(b), b), a, "roundtrip"); });
scenario("radix_range", function () { var b = symInt("b", -5, 60), e = 0; try { (10).toString(b) } catch (x) { e = x instanceof RangeError ? 1 : 2 } eq(e, b < 2 || b > 36 ? 1 : 0, "RangeError"); eq((255).toString(undefined), "255", "undefined"); });
scenario("parseInt_digits", function () { var s = symStr("s", 4, "09"); eq(parseInt(s), dig(s, 0) * 1000 + dig(s, 1) * 100 + dig(s, 2) * 10 + dig(s, 3), "4 digits"); eq(parseInt("-" + s), -(dig(s, 0) * 1000 + dig(s, 1) * 100 + dig(s, 2) * 10 + dig(s, 3)), "neg"); eq(parseInt("  +" + s + "px"), parseInt(s), "trim, sign, tail"); });
scenario("parseInt_any", function () {
  var s = symStr("s", 3, "09azAZ  +-"), b = conc(symInt("b", 0, 4)); b = [10, 16, 2, 36, 8][b];
  var i = 0, neg = false, v = 0, n = 0; while (i < 3 && s.charCodeAt(i) === 32) i++; if (i < 3 && (s[i] === "-" || s[i] === "+")) { neg = s[i] === "-"; i++ }
  if (b === 16 && i + 1 < 3 && s[i] === "0" && (s[i + 1] === "x" || s[i + 1] === "X")) i += 2;
  for (; i < 3; i++) { var c = s.charCodeAt(i), d = c >= 48 && c <= 57 ? c - 48 : c >= 97 && c <= 122 ? c - 87 : c >= 65 && c <= 90 ? c - 55 : 99; if (d >= b) break; v = v * b + d; n++ }
  var r = parseInt(s, b); if (!n) check(r !== r, "NaN"); else if (v === 0) check(r === 0, "0"); else eq(r, neg ? -v : v, "value");
});
scenario("parseInt_radix", function () { var b = symInt("b", -3, 40); var r = parseInt("11", b); if (b === 0) eq(r, 11, "0 means 10"); else if (b < 2 || b > 36) check(r !== r, "NaN"); else eq(r, b + 1, "11 in base b"); eq(parseInt("0x1F"), 31, "hex"); eq(parseInt("0X1f", 16), 31, "hex 16"); eq(parseInt("0x1F", 10), 0, "hex base 10"); eq(parseInt("010"), 10, "no octal"); eq(parseInt("0b11"), 0, "no binary"); eq(parseInt("9007199254740993"), 9007199254740992, "big"); var e = parseInt(""); check(e !== e, "empty"); eq(parseInt("12", undefined), 12, "undefined radix"); eq(parseInt("12", 4294967298), 1, "radix mod 2^32 is 2"); eq(parseInt(null, 36), 1112745, "null"); eq(parseInt("1_000"), 1, "underscore"); });
scenario("parseInt_no_exponent", function () { var d = conc(symInt("d", 1, 9)), n = conc(symInt("n", 0, 9)); eq(parseInt(d + "e" + n), d, "exponent"); eq(parseInt(d + "." + n), d, "point"); });
scenario("parseFloat", function () { var a = symInt("a", 0, 99), f = symInt("f", 0, 9); eq(parseFloat(a + "." + f + "x"), (a * 10 + f) / 10, "value"); eq(parseFloat("  -" + a + "."), a === 0 ? -0 : -a, "neg"); eq(parseFloat("." + f), f / 10, ".f"); eq(parseFloat(f + "e2z"), f * 100, "exp"); eq(parseFloat(f + "e+"), f, "bad exp"); eq(parseFloat(f + "e"), f, "bad exp"); eq(parseFloat("Infinityx"), Infinity, "Infinity"); eq(parseFloat("-Infinity"), -Infinity, "-Infinity"); eq(parseFloat("0x10"), 0, "no hex"); var e = parseFloat("x"); check(e !== e, "NaN"); e = parseFloat("."); check(e !== e, "dot"); e = parseFloat("-"); check(e !== e, "-"); e = parseFloat("inf"); check(e !== e, "inf"); eq(parseFloat("1_0"), 1, "_"); });
scenario("Number_any", function () {
  var s = symStr("s", 3, "09..++--ee  xx"); var r = Number(s), i = 0, j = 3, v = 0, ok = true, n = 0;
  while (i < j && s[i] === " ") i++; while (j > i && s[j - 1] === " ") j--;
  var t = s.slice(i, j), u = t, sg = 1; if (u[0] === "-") { sg = -1; u = u.slice(1) } else if (u[0] === "+") u = u.slice(1);
  var D = function (c) { return c >= "0" && c <= "9" };
  if (t === "") { eq(r, 0, "blank"); return }
  if (u.length === 1 && D(u[0])) v = dig(u, 0);
  else if (u.length === 2 && D(u[0]) && D(u[1])) v = dig(u, 0) * 10 + dig(u, 1);
  else if (u.length === 3 && D(u[0]) && D(u[1]) && D(u[2])) v = dig(u, 0) * 100 + dig(u, 1) * 10 + dig(u, 2);
  else if (u.length === 2 && D(u[0]) && u[1] === ".") v = dig(u, 0);
  else if (u.length === 2 && D(u[1]) && u[0] === ".") v = dig(u, 1) / 10;
  else if (u.length === 3 && D(u[0]) && D(u[1]) && u[2] === ".") v = dig(u, 0) * 10 + dig(u, 1);
  else if (u.length === 3 && D(u[0]) && u[1] === "." && D(u[2])) v = (dig(u, 0) * 10 + dig(u, 2)) / 10;
  else if (u.length === 3 && u[0] === "." && D(u[1]) && D(u[2])) v = (dig(u, 1) * 10 + dig(u, 2)) / 100;
  else if (u.length === 3 && D(u[0]) && u[1] === "e" && D(u[2])) v = Number(conc(u));
  else if (t.length === 3 && t[0] === "0" && t[1] === "x" && D(t[2])) v = dig(t, 2);
  else if (t.length === 3 && t[0] === "0" && t[1] === "x" && t[2] === "e") v = 14;
  else ok = false;
  if (!ok) check(r !== r, "NaN expected"); else eq(r, sg < 0 ? -v : v, "value");
}, 8);
scenario("Number_prefixes", function () { var s = symStr("s", 2, "09afAF"); var h = 0, ok = true; for (var i = 0; i < 2; i++) { var c = s.charCodeAt(i); h = h * 16 + (c <= 57 ? c - 48 : c >= 97 ? c - 87 : c - 55) } eq(Number("0x" + s), h, "0x"); eq(Number(" 0X" + s + " "), h, "0X"); var n = Number("-0x" + s); check(n !== n, "-0x"); var b = Number("0b1" + s), ob = s[0] <= "1" && s[1] <= "1"; if (ob) eq(b, 4 + dig(s, 0) * 2 + dig(s, 1), "0b"); else check(b !== b, "0b NaN"); var o = Number("0o" + s), oo = s[0] <= "7" && s[1] <= "7"; if (oo) eq(o, dig(s, 0) * 8 + dig(s, 1), "0o"); else check(o !== o, "0o NaN"); n = Number("0x"); check(n !== n, "0x"); eq(Number("Infinity"), Infinity, "Inf"); n = Number("infinity"); check(n !== n, "infinity"); eq(Number("\ufeff12\u2029"), 12, "ws"); n = Number("1_0"); check(n !== n, "1_0"); n = Number("1n"); check(n !== n, "1n"); eq(Number("010"), 10, "010"); n = Number("1 2"); check(n !== n, "1 2"); });
scenario("toFixed", function () { var a = symInt("a", -800, 800), x = a / 8, d = conc(symInt("d", 0, 3)), m = a < 0 ? -a : a, neg = a < 0; var sc = [1, 10, 100, 1000][d]; var t = m * sc, q = (t - t % 8) / 8, r = t % 8; var F = function (q) { return (neg ? "-" : "") + istr((q - q % sc) / sc) + (d ? "." + istr(q % sc + sc).slice(1) : "") };
  var got = x.toFixed(d); eq(got, F(r >= 4 ? q + 1 : q), "toFixed"); }, 6);
scenario("toFixed_range", function () { var d = symInt("d", -5, 120), e = 0; try { (1).toFixed(d) } catch (x) { e = x instanceof RangeError ? 1 : 2 } eq(e, d < 0 || d > 100 ? 1 : 0, "RangeError"); eq((1e21).toFixed(2), "1e+21", "large"); eq(NaN.toFixed(2), "NaN", "NaN"); eq((-0).toFixed(1), "0.0", "-0"); eq((1.005).toFixed(2), "1.00", "1.005"); eq((0.000001).toFixed(7), "0.0000010", "small"); eq((123.456).toFixed(2), "123.46", "round"); eq((0.5).toFixed(0), "1", "tie"); eq((2.5).toFixed(0), "3", "tie"); eq((-1.5).toFixed(0), "-2", "-1.5"); eq((-0.25).toFixed(3), "-0.250", "-0.25"); eq((-0.0001).toFixed(2), "-0.00", "rounds to -0"); eq((10).toFixed(), "10", "default"); });
scenario("toPrecision", function () { var p = conc(symInt("p", 1, 7)); eq((123.456).toPrecision(p), ["1e+2", "1.2e+2", "123", "123.5", "123.46", "123.456", "123.4560"][p - 1], "123.456"); eq((0.000012).toPrecision(p), ["0.00001", "0.000012", "0.0000120", "0.00001200", "0.000012000", "0.0000120000", "0.00001200000"][p - 1], "1.2e-5"); eq((1e-7).toPrecision(p), ["1e-7", "1.0e-7", "1.00e-7", "1.000e-7", "1.0000e-7", "1.00000e-7", "1.000000e-7"][p - 1], "1e-7"); eq((0).toPrecision(p), ["0", "0.0", "0.00", "0.000", "0.0000", "0.00000", "0.000000"][p - 1], "0"); eq((99.99).toPrecision(p), ["1e+2", "1.0e+2", "100", "99.99", "99.990", "99.9900", "99.99000"][p - 1], "carry"); var q = symInt("q", -3, 110), e = 0; try { (1).toPrecision(q) } catch (x) { e = x instanceof RangeError ? 1 : 2 } eq(e, q < 1 || q > 100 ? 1 : 0, "RangeError"); eq((12.5).toPrecision(undefined), "12.5", "undefined"); });
scenario("toExponential", function () { var p = conc(symInt("p", 0, 5)); eq((12355).toExponential(p), ["1e+4", "1.2e+4", "1.23e+4", "1.236e+4", "1.2355e+4", "1.23550e+4"][p] .replace("1.23e", p === 2 ? "1.24e" : "1.23e"), "12355"); eq((-0.00016).toExponential(p), ["-2e-4", "-1.6e-4", "-1.60e-4", "-1.600e-4", "-1.6000e-4", "-1.60000e-4"][p], "-1.6e-4"); eq((0).toExponential(p), ["0e+0", "0.0e+0", "0.00e+0", "0.000e+0", "0.0000e+0", "0.00000e+0"][p], "0"); eq((123456).toExponential(), "1.23456e+5", "as many as needed"); eq(NaN.toExponential(200), "NaN", "NaN first"); var q = symInt("q", -3, 110), e = 0; try { (1).toExponential(q) } catch (x) { e = x instanceof RangeError ? 1 : 2 } eq(e, q < 0 || q > 100 ? 1 : 0, "RangeError"); });
scenario("radix_fraction", function () { var a = symInt("a", 1, 15), r = ""; var n = conc(a), v = n / 16; for (var i = 0; i < 4; i++) { n = n * 2; if (n >= 16) { r += "1"; n -= 16 } else r += "0" } r = r.replace(/0+$/, ""); eq(v.toString(2), "0." + r, "binary fraction"); });
scenario("invalid_receiver", function () { var k = conc(symInt("k", 0, 4)), f = [Number.prototype.toString, Number.prototype.toFixed, Number.prototype.toPrecision, Number.prototype.toExponential, Number.prototype.valueOf][k], v = ["1", {}, null, undefined, true]; for (var i = 0; i < 5; i++) { var e = 0; try { f.call(v[i]) } catch (x) { e = x instanceof TypeError ? 1 : 2 } eq(e, 1, "TypeError") } });
scenario("decimal_roundtrip", function () { var k = conc(symInt("k", 0, 11)); var t = ["0.1", "1.1", "123.456", "4.35", "2.2250738585072014e-308", "1.7976931348623157e+308", "5e-324", "9007199254740993", "0.30000000000000004", "1e+23", "123456789.12345678", "4.9406564584124654e-324"][k]; var v = Number(t); eq(Number(String(v)), v, "roundtrip"); eq(Number(v.toString()), v, "roundtrip"); eq(Number(v.toExponential()), v, "toExponential"); eq(Number(v.toPrecision(17)), v, "17 digits"); });
