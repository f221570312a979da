// JSON.parse against a reference reader of the JSON grammar. The engine's reader deliberately also takes
// a superset (trailing commas, +1, 01, 1., .5, raw control characters ...): such texts are the known finding.
function parse(s) { try { return { ok: true, v: JSON.parse(s) } } catch (e) { check(e instanceof SyntaxError, "SyntaxError"); return { ok: false } } }
function dg(c) { return c >= "0" && c <= "9" }
// number text -> 0 not even lenient, 1 lenient only, 2 JSON
function numKind(s) { var i = 0, n = s.length, st = 2, k; if (i < n && (s[i] === "-" || s[i] === "+")) { if (s[i] === "+") st = 1; i++ } k = i; while (i < n && dg(s[i])) i++; var int = i - k; if (int > 1 && s[k] === "0") st = 1; var fr = 0; if (i < n && s[i] === ".") { i++; k = i; while (i < n && dg(s[i])) i++; fr = i - k; if (!fr || !int) st = 1; if (!fr && !int) return 1 } else if (!int) return 0; if (i < n && (s[i] === "e" || s[i] === "E")) { i++; if (i < n && (s[i] === "+" || s[i] === "-")) i++; k = i; while (i < n && dg(s[i])) i++; if (i === k) return 0 } return i === n ? st : 0 }
function settle(kind, r, msg) { if (kind === 2) check(r.ok, msg + ": JSON text rejected"); else if (kind === 0) check(!r.ok, msg + ": accepted"); else checkKnown(!r.ok, "json-lenient") }
scenario("number_grammar", function () { var s = symStr("s", 4, "09..--++eeEE"), k = numKind(s), r = parse(s); settle(k, r, "number"); if (k === 2) { r = JSON.parse("[" + s + "]"); eq(r.length, 1, "in an array"); check(typeof r[0] === "number", "a number") } }, 6);
scenario("integer_value", function () { var n = symInt("n", -999, 999), r = JSON.parse(String(n)); eq(r, n === 0 ? 0 : n, "value"); eq(JSON.parse("[" + n + "]")[0], n, "in array"); eq(JSON.parse('{"a":' + n + "}").a, n, "in object"); });
scenario("digits_value", function () { var a = symInt("a", 0, 9), b = symInt("b", 0, 9), c = symInt("c", 1, 9); var d = function (n) { return String.fromCharCode(48 + n) }; eq(JSON.parse(d(c) + d(a) + d(b)), c * 100 + a * 10 + b, "integer"); eq(JSON.parse("-" + d(c) + "." + d(a)), -(c * 10 + a) / 10, "fraction"); eq(JSON.parse(d(c) + "e" + d(2)), c * 100, "exponent"); eq(JSON.parse(d(c) + "E-1"), c / 10, "negative exponent"); eq(JSON.parse(d(c) + "00E+0"), c * 100, "positive exponent"); eq(JSON.parse("-0"), -0, "-0"); });
scenario("number_extremes", function () { var k = conc(symInt("k", 0, 7)); eq(JSON.parse(["1e400", "-1e400", "5e-324", "9007199254740993", "0.1", "123456789012345678901234567890", "1.7976931348623157e308", "-0.0"][k]), [Infinity, -Infinity, 5e-324, 9007199254740992, 0.1, 123456789012345680000000000000, 1.7976931348623157e308, -0][k], "value"); });
// structure over [ ] , 1
function arrKind(s) { var i = 0, st = 2, bad = false; function val() { if (i < s.length && s[i] === "1") { i++; while (i < s.length && s[i] === "1") i++; return true } if (i < s.length && s[i] === "[") { i++; if (i < s.length && s[i] === "]") { i++; return true } while (true) { if (!val()) return false; if (i >= s.length) return false; if (s[i] === "]") { i++; return true } if (s[i] !== ",") return false; i++; if (i < s.length && s[i] === "]") { st = 1; i++; return true } } } return false } return val() && i === s.length ? st : 0 }
scenario("array_structure", function () { var s = symStr("s", 5, "[[]],,11"); settle(arrKind(s), parse(s), "array text"); }, 6);
scenario("array_structure_inner", function () { var s = "[" + symStr("s", 5, "[[]],,11") + "]"; settle(arrKind(s), parse(s), "array text"); }, 6);
scenario("array_value", function () { var n = conc(symInt("n", 0, 5)), v = symInt("v", 0, 999), t = "[", i; for (i = 0; i < n; i++) t += (i ? "," : "") + (v + i); var r = JSON.parse(t + "]"); check(Array.isArray(r), "array"); eq(r.length, n, "length"); for (i = 0; i < n; i++) eq(r[i], v + i, "item"); eq(Object.keys(r).length, n, "own"); });
// objects over { } : , "a" 1 written as tokens
scenario("object_structure", function () { var T = ["{", "}", ":", ",", '"a"', "1"], n = 5, s = "{", t = [0], i; for (i = 0; i < n; i++) { var k = conc(symInt("t" + i, 0, 5)); t.push(k); s += T[k] } var p = 0, st = 2; function val() { if (t[p] === 5 || t[p] === 4) { var q = t[p++]; return !(q === 5 && t[p] === 5) || (st = 2, true) } if (t[p] !== 0) return false; p++; if (t[p] === 1) { p++; return true } while (true) { if (t[p] !== 4) return false; p++; if (t[p] !== 2) return false; p++; if (!val()) return false; while (t[p] === 5 && t[p - 1] === 5) p++; if (t[p] === 1) { p++; return true } if (t[p] !== 3) return false; p++; if (t[p] === 1) { st = 1; p++; return true } } } var ok = val() && p === t.length; settle(ok ? st : 0, parse(s), "object text"); }, 8);
scenario("object_value", function () { var n = conc(symInt("n", 0, 4)), v = symInt("v", 0, 99), t = "{", i; for (i = 0; i < n; i++) t += (i ? "," : "") + '"' + "zbac"[i] + '":' + (v + i); var r = JSON.parse(t + "}"), k = Object.keys(r); eq(k.length, n, "keys"); for (i = 0; i < n; i++) { eq(k[i], "zbac"[i], "order"); eq(r[k[i]], v + i, "value"); var d = Object.getOwnPropertyDescriptor(r, k[i]); eq(d.writable && d.enumerable && d.configurable, true, "plain") } check(Object.getPrototypeOf(r) === Object.prototype, "prototype"); });
scenario("duplicate_keys", function () { var a = symInt("a", 0, 99), b = symInt("b", 0, 99), r = JSON.parse('{"x":' + a + ',"y":1,"x":' + b + "}"); eq(r.x, b, "last wins"); eq(Object.keys(r).join(), "x,y", "first position"); r = JSON.parse('{"__proto__":[' + a + "]}"); eq(Object.prototype.hasOwnProperty.call(r, "__proto__"), true, "own __proto__"); check(Object.getPrototypeOf(r) === Object.prototype, "prototype untouched"); eq(r.__proto__[0], a, "value"); r = JSON.parse('{"2":1,"1":2,"":3}'); eq(Object.keys(r).join(), "1,2,", "integer keys first"); });
scenario("string_units", function () { var c = symInt("c", 0, 65535); assume(c !== 34 && c !== 92); var r = parse('"' + String.fromCharCode(c) + '"'); if (c < 32) checkKnown(!r.ok, "json-lenient"); else { check(r.ok, "accepted"); eq(r.v.length, 1, "one unit"); eq(r.v.charCodeAt(0), c, "unit") } }, 2);
scenario("string_escapes", function () { var c = symInt("c", 0, 127), r = parse('"\\' + String.fromCharCode(c) + '"'), k = '"\\/bfnrt'.indexOf(String.fromCharCode(c)); if (c === 117) { eq(r.ok, false, "bare \\u"); return } if (c === 34) return; if (k >= 0) { check(r.ok, "accepted"); eq(r.v, '"\\/\b\f\n\r\t'[k], "value") } else if (c !== 120) checkKnown(!r.ok, "json-lenient"); else eq(r.ok, false, "bare \\x"); eq(parse('"\\"').ok, false, "unterminated"); eq(JSON.parse('"\\""'), '"', "quote"); });
scenario("unicode_escape", function () { var c = symInt("c", 0, 65535), h = "", v = c, i, up = symBool("up"); for (i = 0; i < 4; i++) { var d = v % 16; h = String.fromCharCode(d < 10 ? 48 + d : (up ? 55 : 87) + d) + h; v = (v - d) / 16 } var r = JSON.parse('"\\u' + h + '"'); eq(r.length, 1, "one unit"); eq(r.charCodeAt(0), c, "unit"); }, 3);
scenario("unicode_escape_digits", function () { var s = symStr("s", 4, "/09:@AFG`afg"), ok = true; for (var i = 0; i < 4; i++) { var c = s[i]; ok = ok && (dg(c) || c >= "A" && c <= "F" || c >= "a" && c <= "f") } var r = parse('"\\u' + s + '"'); eq(r.ok, ok, "exactly four hex digits"); eq(parse('"\\u' + s.slice(1) + '"').ok, false, "three digits"); }, 3);
scenario("pair_escape", function () { var h = symInt("h", 0xd7ff, 0xdc00), l = symInt("l", 0xdbff, 0xe000), x = function (n) { return "\\u" + n.toString(16) }, r = JSON.parse('"' + x(conc(h)) + x(conc(l % 4 + 0xdc00)) + '"'); eq(r.length, 2, "two units"); eq(r.charCodeAt(0), h, "first"); }, 2);
scenario("literals", function () { var s = symStr("s", 4, "aaeellnnrrttuu"), r = parse(s); if (s === "true") eq(r.v, true, "true"); else if (s === "null") eq(r.v, null, "null"); else eq(r.ok, false, "other words"); eq(JSON.parse("false"), false, "false"); }, 3);
scenario("literal_tail", function () { var c = symInt("c", 0x21, 0x7e), k = conc(symInt("k", 0, 2)), w = ["true", "null", "12"][k], t = w + String.fromCharCode(c); assume(!(k === 2 && (c >= 48 && c <= 57 || c === 46 || c === 95 || c === 110))); if (c === 47) return; eq(parse(t).ok, false, "trailing character"); });
scenario("whitespace", function () { var c = symInt("c", 0, 65535), p = conc(symInt("p", 0, 4)), w = String.fromCharCode(c); if (c === 48 || c >= 49 && c <= 57 || c === 43 || c === 45 || c === 46 || c === 44 || c === 47) return; var s = [w + "[1]", "[1]" + w, "[" + w + "1]", "[1" + w + ",2]", '{"a"' + w + ":1}"][p], r = parse(s), ws = c === 32 || c === 9 || c === 10 || c === 13; if (ws) check(r.ok, "JSON white space"); else if (c === 0x0b || c === 0x0c || c === 0xa0 || c === 0xfeff || c === 0x1680 || c >= 0x2000 && c <= 0x200a || c === 0x2028 || c === 0x2029 || c === 0x202f || c === 0x205f || c === 0x3000) checkKnown(!r.ok, "json-lenient"); else if (c === 110 && p > 2) checkKnown(!r.ok, "json-lenient"); else eq(r.ok, false, "other characters"); }, 3);
scenario("truncated", function () { var t = '{"a":[1,{"b":null},"x\\n"],"c":true}', n = symInt("n", 0, 36); eq(parse(t.slice(0, n)).ok, n >= t.length, "every proper prefix is rejected"); eq(parse(t + t).ok, false, "two values"); eq(parse("").ok, false, "empty"); eq(parse(" ").ok, false, "blank"); });
scenario("damaged", function () { var t = '{"a":[1,{"b":null}],"c":"x"}', n = conc(symInt("n", 0, 27)), c = t[n], u = t.slice(0, n) + t.slice(n + 1), r = parse(u); var opt = c === "1" || c === "a" || c === "b" || c === "c" || c === "x" || n === 15 && false; if (c === "1") { eq(r.ok, false, "[,") } else if (opt) eq(r.ok, true, "shorter text"); else eq(r.ok, false, "one character removed"); });
scenario("reviver_order", function () { var k = conc(symInt("k", 0, 4)), log = "", r = JSON.parse('{"a":[1,2],"b":{"c":3}}', function (n, v) { log += n + ";"; if (n === ["0", "1", "c", "a", "zz"][k]) return undefined; return typeof v === "number" ? v + 10 : v }); eq(log, "0;1;a;c;b;;", "post order"); eq("a" in r, k !== 3, "deleted"); if (k !== 3) { eq(0 in r.a, k !== 0, "array element deleted"); eq(r.a.length, 2, "length"); if (k !== 1) eq(r.a[1], 12, "value") } eq(r.b.c, k === 2 ? undefined : 13, "nested"); eq("c" in r.b, k !== 2, "nested deleted"); });
scenario("reviver_this", function () { var n = symInt("n", 0, 99), holder; var r = JSON.parse("[" + n + "]", function (k, v) { if (k === "0") { check(Array.isArray(this), "holder"); eq(this[0], n, "holder value"); return { w: v } } if (k === "") eq(Object.keys(this).join("|"), "", "root holder"); return v }); eq(r[0].w, n, "replaced"); eq(JSON.parse("5", 7), 5, "not callable"); var e; try { JSON.parse("[1]", function () { throw new RangeError }) } catch (x) { e = x instanceof RangeError } eq(e, true, "throws"); });
scenario("reviver_mutation", function () { var k = conc(symInt("k", 0, 2)), log = "", r = JSON.parse('{"a":1,"b":2,"c":3}', function (n, v) { log += n; if (n === "a") { if (k === 0) delete this.b; if (k === 1) this.b = [7]; if (k === 2) this.d = 4 } return v }); eq(log, k === 1 ? "a0bc" : "abc", "visits"); eq("b" in r, k !== 0, "b"); eq(Object.keys(r).join(""), k === 0 ? "ac" : k === 1 ? "abc" : "abcd", "keys"); });
scenario("depth", function () { var n = conc(symInt("n", 0, 60)), t = "", i; for (i = 0; i < n; i++) t += i % 2 ? '{"k":' : "["; t += "5"; for (i = n - 1; i >= 0; i--) t += i % 2 ? "}" : "]"; var r = JSON.parse(t); for (i = 0; i < n; i++) r = i % 2 ? r.k : r[0]; eq(r, 5, "innermost"); eq(parse(t + "]").ok, false, "extra"); });
scenario("argument", function () { var k = conc(symInt("k", 0, 5)), v = [null, true, 12, ["3"], { toString() { return "[4]" } }, new String("5")][k], r = JSON.parse(v); eq(k === 4 ? r[0] : r, [null, true, 12, 3, 4, 5][k], "converted to text"); var e; try { JSON.parse(undefined) } catch (x) { e = x instanceof SyntaxError } eq(e, true, "undefined"); try { JSON.parse(Symbol()) } catch (x) { e = x instanceof TypeError } eq(e, true, "symbol"); });
