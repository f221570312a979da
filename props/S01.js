// String.prototype methods that take positions or search text, against direct definitions.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function str(n, r) { return symStr("s", conc(symInt("n", 0, n)), r) }
function sub(s, x, y) { var r = ""; for (var i = x; i < y; i++) r += s[i]; return r }
function find(s, p, from) { for (var i = from; i + p.length <= s.length; i++) { var k = 0; while (k < p.length && s[i + k] === p[k]) k++; if (k === p.length) return i } return -1 }
scenario("slice", function () { var s = str(4, "az"), a = symInt("a", -6, 6), b = symInt("b", -6, 6), n = s.length, x = clampRel(a, n), y = clampRel(b, n); eq(s.slice(a, b), sub(s, x, y), "slice"); eq(s.slice(a), sub(s, x, n), "open end"); });
scenario("substring", function () { var s = str(4, "az"), a = symInt("a", -3, 6), b = symInt("b", -3, 6), n = s.length, x = a < 0 ? 0 : a > n ? n : a, y = b < 0 ? 0 : b > n ? n : b; eq(s.substring(a, b), x < y ? sub(s, x, y) : sub(s, y, x), "substring"); eq(s.substring(a), sub(s, x, n), "open end"); });
scenario("position_kinds", function () { var k = conc(symInt("k", 0, 9)), v = [NaN, undefined, null, "2", 1.9, -0.5, Infinity, -Infinity, true, {}][k], s = "abcd", st = [0, 0, 0, 2, 1, 0, 4, 0, 1, 0][k]; eq(s.slice(v), s.slice(k === 7 ? 0 : st), "slice"); eq(s.substring(v), s.slice(st), "substring"); eq(s.charAt(v), k === 6 || k === 7 ? "" : s[st], "charAt"); eq(s.indexOf("", v), st, "indexOf"); eq(s.startsWith(s[st] || "", v), true, "startsWith"); eq(s.slice(0, v), k === 1 ? s : s.slice(0, st), "end"); eq(s.substring(0, v), k === 1 ? s : s.slice(0, st), "end"); eq(s.endsWith(k === 1 ? s : s.slice(0, st), v), true, "endsWith"); });
scenario("char_at", function () { var s = str(3, "\u0000\uffff"), i = symInt("i", -2, 5), n = s.length, ok = i >= 0 && i < n; eq(s.charAt(i), ok ? s[i] : "", "charAt"); eq(s.charCodeAt(i), ok ? s[i].charCodeAt(0) : NaN, "charCodeAt"); eq(s[i], ok ? s.charAt(i) : undefined, "index"); eq(s.at(i), i >= 0 ? (ok ? s[i] : undefined) : i + n >= 0 ? s[i + n] : undefined, "at"); eq(i in Object(s), ok, "in"); eq(s.length, n, "length"); });
scenario("code_point_at", function () { var s = symStr("s", 3, "\ud7ff\ue001"), i = symInt("i", -1, 4), e; if (i < 0 || i > 2) e = undefined; else { var h = s.charCodeAt(i); e = h; if (h >= 0xd800 && h < 0xdc00 && i < 2) { var l = s.charCodeAt(i + 1); if (l >= 0xdc00 && l < 0xe000) e = (h - 0xd800) * 1024 + l - 0xdc00 + 0x10000 } } eq(s.codePointAt(i), e, "codePointAt"); });
scenario("from_code_point", function () { var c = symInt("c", -2, 0x110002), r; try { r = String.fromCodePoint(c) } catch (e) { r = e.name } if (c < 0 || c > 0x10ffff) eq(r, "RangeError", "range"); else { eq(r.length, c > 0xffff ? 2 : 1, "units"); eq(r.codePointAt(0), c, "round trip"); if (c > 0xffff) { eq(r.charCodeAt(0), 0xd800 + Math.floor((c - 0x10000) / 1024), "lead"); eq(r.charCodeAt(1), 0xdc00 + (c - 0x10000) % 1024, "trail") } } eq(err(function () { String.fromCodePoint(1.5) }), "RangeError", "fraction"); eq(String.fromCodePoint(), "", "none"); });
scenario("from_char_code", function () { var c = symInt("c"), r = String.fromCharCode(c); eq(r.length, 1, "one unit"); eq(r.charCodeAt(0), ref("u16", c), "modulo 2^16"); eq(String.fromCharCode(65, 65601, -1).length, 3, "three"); });
scenario("index_of", function () { var s = str(4, "ab"), p = symStr("p", conc(symInt("m", 0, 2)), "ab"), f = symInt("f", -2, 6), n = s.length, x = f < 0 ? 0 : f > n ? n : f; eq(s.indexOf(p, f), find(s, p, x), "indexOf"); eq(s.includes(p, f), find(s, p, x) >= 0, "includes"); eq(s.indexOf(p), find(s, p, 0), "default"); }, 3);
scenario("last_index_of", function () { var s = str(4, "ab"), p = symStr("p", conc(symInt("m", 0, 2)), "ab"), f = symInt("f", -2, 6), n = s.length, x = f < 0 ? 0 : f > n ? n : f, r = -1, i, k; for (i = 0; i <= x; i++) { if (i + p.length > n) break; for (k = 0; k < p.length && s[i + k] === p[k];)k++; if (k === p.length) r = i } eq(s.lastIndexOf(p, f), r, "lastIndexOf"); eq("aXa".lastIndexOf("a", NaN), 2, "NaN means the end"); eq("aXa".lastIndexOf("a", undefined), 2, "undefined"); eq("aXa".lastIndexOf("", 1), 1, "empty"); }, 3);
scenario("starts_ends", function () { var s = str(3, "ab"), p = symStr("p", conc(symInt("m", 0, 2)), "ab"), f = symInt("f", -1, 5), n = s.length, x = f < 0 ? 0 : f > n ? n : f, k, a = x + p.length <= n, b = x - p.length >= 0; for (k = 0; a && k < p.length; k++) a = s[x + k] === p[k]; for (k = 0; b && k < p.length; k++) b = s[x - p.length + k] === p[k]; eq(s.startsWith(p, f), a, "startsWith"); eq(s.endsWith(p, f), b, "endsWith"); eq(s.endsWith(s), true, "whole"); }, 3);
scenario("regexp_argument", function () { var k = conc(symInt("k", 0, 2)), m = ["includes", "startsWith", "endsWith"][k]; eq(err(function () { "a"[m](/a/) }), "TypeError", "regexp rejected"); var r = /a/; r[Symbol.match] = false; eq(err(function () { "a"[m](r) }), "none", "opt out"); eq("/a/"[m](r), true, "as text"); eq("null"[m](null), true, "converted"); eq("undefined"[m](), true, "undefined"); });
scenario("pad", function () { var s = str(3, "az"), w = symInt("w", -1, 8), m = conc(symInt("m", 0, 3)), p = ["", "x", "xy", "xyz"][m], n = s.length, e = s, f = "", i; if (w > n && m) for (i = 0; i < w - n; i++) f += p[i % m]; eq(s.padStart(w, p), f + s, "padStart"); eq(s.padEnd(w, p), s + f, "padEnd"); eq(s.padStart(5).length, 5, "default"); eq("a".padEnd(3), "a  ", "spaces"); eq("a".padEnd(3, undefined), "a  ", "undefined"); });
scenario("repeat", function () { var s = str(2, "az"), c = symInt("c", -2, 5), r = "", i; for (i = 0; i < c; i++) r += s; var g; try { g = s.repeat(c) } catch (e) { g = e.name } eq(g, c < 0 ? "RangeError" : r, "repeat"); eq(err(function () { "a".repeat(Infinity) }), "RangeError", "infinite"); eq("".repeat(1000), "", "empty"); eq("ab".repeat(1.9), "ab", "truncates"); eq("ab".repeat(-0.5), "", "zero"); });
scenario("trim", function () { var s = symStr("s", 3, "\t\u0010  aa\u00a0\u00a0\u2028\u2029"), W = function (c) { return c === 9 || c === 10 || c === 11 || c === 12 || c === 13 || c === 32 || c === 160 || c === 0x2028 || c === 0x2029 }, x = 0, y = 3; while (x < 3 && W(s.charCodeAt(x))) x++; while (y > x && W(s.charCodeAt(y - 1))) y--; eq(s.trim(), sub(s, x, y), "trim"); eq(s.trimStart(), sub(s, x, 3), "trimStart"); y = 3; while (y > 0 && W(s.charCodeAt(y - 1))) y--; eq(s.trimEnd(), sub(s, 0, y), "trimEnd"); });
scenario("trim_all", function () { var c = symInt("c", 0, 65535), s = String.fromCharCode(c), w = c >= 9 && c <= 13 || c === 32 || c === 0xa0 || c === 0x1680 || c >= 0x2000 && c <= 0x200a || c === 0x2028 || c === 0x2029 || c === 0x202f || c === 0x205f || c === 0x3000 || c === 0xfeff; eq((s + "x" + s).trim().length, w ? 1 : 3, "exactly the white space characters"); });
scenario("concat", function () { var a = str(3, "az"), b = symStr("b", conc(symInt("m", 0, 3)), "az"), r = a + b, i; eq(r.length, a.length + b.length, "length"); for (i = 0; i < a.length; i++) eq(r[i], a[i], "left"); for (i = 0; i < b.length; i++) eq(r[a.length + i], b[i], "right"); eq(a.concat(b, 1, null), r + "1null", "concat"); eq(`${a}-${b}`, a + "-" + b, "template"); eq([a, b].join(""), r, "join"); });
scenario("rope", function () { var n = conc(symInt("n", 0, 9)), k = conc(symInt("k", 0, 2)), s = "", e = [], i; for (i = 0; i < n; i++) { var c = String.fromCharCode(97 + i); if (k === 0) { s += c; e.push(c) } else if (k === 1) { s = c + s; e.unshift(c) } else { s = i % 2 ? s + c + c : c + s; if (i % 2) e.push(c, c); else e.unshift(c) } } eq(s.length, e.length, "length"); for (i = 0; i < e.length; i++) eq(s[i], e[i], "char"); eq(s.slice(1) + s[0], n ? e.slice(1).join("") + e[0] : "undefined", "slice"); eq(s.indexOf("c"), e.indexOf("c"), "indexOf"); });
scenario("compare", function () { var a = symStr("a", conc(symInt("n", 0, 2)), "ac"), b = symStr("b", conc(symInt("m", 0, 2)), "ac"), i = 0, l; while (i < a.length && i < b.length && a[i] === b[i]) i++; l = i < a.length && i < b.length ? a.charCodeAt(i) < b.charCodeAt(i) : i < b.length; var e = i === a.length && i === b.length; eq(a < b, l, "<"); eq(a <= b, l || e, "<="); eq(a > b, !l && !e, ">"); eq(a >= b, !l, ">="); eq(a === b, e, "==="); eq(a == b, e, "=="); eq(a !== b, !e, "!=="); eq(Object.is(a, b), e, "is"); });
scenario("compare_units", function () { var a = symStr("a", 1, "\u0000\uffff"), b = symStr("b", 1, "\u0000\uffff"); eq(a < b, a.charCodeAt(0) < b.charCodeAt(0), "by code unit"); eq("\ud83d\ude00" < "\uff5e", true, "not by code point"); });
scenario("split_string", function () { var s = str(4, "ab"), p = symStr("p", conc(symInt("m", 1, 2)), "ab"), r = s.split(p), e = [], q = 0, i = 0; while ((i = find(s, p, q)) >= 0) { e.push(sub(s, q, i)); q = i + p.length } e.push(sub(s, q, s.length)); sameArr(r, e, "split"); eq(r.join(p), s, "join restores"); }, 3);
scenario("split_limit", function () { var l = symInt("l", -1, 6), e = ["a", "b", "c", ""], r = "a,b,c,".split(",", l), n = l < 0 || l > 4 ? 4 : l; eq(r.length, n, "limit"); for (var i = 0; i < n; i++) eq(r[i], e[i], "piece"); r = "abc".split("", l); eq(r.length, l < 0 || l > 3 ? 3 : l, "limit"); eq("".split("").length, 0, "empty by empty"); eq("".split(",").length, 1, "empty"); eq("abc".split().length, 1, "undefined separator"); eq("abc".split(undefined, 0).length, 0, "limit 0"); eq("a,b".split(",", 4294967297).length, 1, "modulo 2^32"); eq("a,b".split(",", undefined).length, 2, "undefined limit"); });
scenario("replace_string", function () { var s = str(4, "ab"), p = symStr("p", conc(symInt("m", 0, 2)), "ab"), i = find(s, p, 0), e = i < 0 ? s : sub(s, 0, i) + "<" + p + ">" + sub(s, i + p.length, s.length); eq(s.replace(p, "<$&>"), e, "first match"); eq(s.replace(p, function (m, o, t) { eq(o, i, "position"); eq(t, s, "subject"); return "<" + m + ">" }), e, "function"); e = ""; var q = 0, x = 0; while ((i = find(s, p, x)) >= 0) { e += sub(s, q, i) + "-"; q = i + p.length; x = p.length ? q : i + 1; } e += sub(s, q, s.length); eq(s.replaceAll(p, "-"), e, "replaceAll"); }, 3);
scenario("replacement_patterns", function () { var k = conc(symInt("k", 0, 8)), c = ["$$", "$&", "$`", "$'", "$1", "$", "$<a>", "$0", "$$1"][k]; eq("xaby".replace("ab", "[" + c + "]"), "x[" + ["$", "ab", "x", "y", "$1", "$", "$<a>", "$0", "$1"][k] + "]y", "pattern"); eq("xaby".replaceAll("ab", "[" + c + "]"), "x[" + ["$", "ab", "x", "y", "$1", "$", "$<a>", "$0", "$1"][k] + "]y", "pattern"); });
scenario("iterator", function () { var s = symStr("s", 3, "\ud7ff\ue000"), r = [], i = 0, e = []; for (var c of s) r.push(c); while (i < 3) { var h = s.charCodeAt(i), l = i < 2 ? s.charCodeAt(i + 1) : 0; if (h >= 0xd800 && h < 0xdc00 && l >= 0xdc00 && l < 0xe000) { e.push(s[i] + s[i + 1]); i += 2 } else e.push(s[i++]) } sameArr(r, e, "code points"); eq([...s].length, e.length, "spread"); eq(Array.from(s).join(""), s, "from"); });
scenario("raw", function () { var a = symInt("a", 0, 9); eq(String.raw`x${a}\n${a + 1}`, "x" + a + "\\n" + (a + 1), "raw"); eq(String.raw({ raw: ["p", "q", "r"] }, a), "p" + a + "qr", "missing substitutions"); eq(String.raw({ raw: { length: 0 } }), "", "empty"); var t = function (s) { return s }; function g() { return t`a${1}b` } check(g() === g(), "one template object per site"); eq(Object.isFrozen(g()), true, "frozen"); eq(g().raw[1], "b", "raw"); });
scenario("receiver", function () { var k = conc(symInt("k", 0, 8)), m = ["slice", "indexOf", "trim", "split", "padStart", "repeat", "at", "concat", "charAt"][k], f = String.prototype[m]; eq(err(function () { f.call(null) }), "TypeError", "null"); eq(err(function () { f.call(undefined) }), "TypeError", "undefined"); eq(err(function () { f.call(Symbol()) }), "TypeError", "symbol"); eq(err(function () { f.call(12, 0) }), "none", "number receiver"); eq(err(function () { String.prototype.toString.call({}) }), "TypeError", "toString"); });
// Any Number as a position behaves as the small integer it clamps to.
["slice", "substring", "at", "charAt", "charCodeAt", "codePointAt"].forEach(function (m) {
  scenario("number_position_" + m, function () { var v = symNum("v"), s = "abc"; eq(s[m](v), s[m](ladder(v)), m); if (m === "slice" || m === "substring") { eq(s[m](1, v), s[m](1, ladder(v)), m + " end"); eq(s[m](2, v), s[m](2, ladder(v)), m + " end") } }, 2);
});
scenario("number_position_search", function () { var v = symNum("v"), w = ladder(v), s = "aba", k = conc(symInt("k", 0, 3)), m = ["indexOf", "includes", "startsWith", "endsWith"][k]; eq(s[m]("a", v), s[m]("a", w), m); if (v === v) eq(s.lastIndexOf("a", v), s.lastIndexOf("a", w), "lastIndexOf") }, 2);
scenario("number_count", function () { var v = symNum("v"), g; function rep(s) { try { return s.repeat(v) } catch (e) { return e.name } } eq(rep(""), v <= -1 || v === Infinity ? "RangeError" : "", "empty text"); eq("abcd".padStart(v, ""), "abcd", "no filler"); assume(!(v > 3) || v >= 4e18); eq(rep("ab"), v <= -1 || v >= 4 ? "RangeError" : v >= 3 ? "ababab" : v >= 2 ? "abab" : v >= 1 ? "ab" : "", "repeat"); try { g = "a".padEnd(v, "xy") } catch (e) { g = e.name } eq(g, v >= 4 ? "RangeError" : v >= 3 ? "axy" : v >= 2 ? "ax" : "a", "padEnd") }, 2);
scenario("pad_order", function () { var n = conc(symInt("n", 0, 3)), w = symInt("w", -1, 4), s = "abc".slice(0, n), log = "", f = { toString: function () { log += "f"; return "-" } }, m = { valueOf: function () { log += "m"; return w } }, r = symBool("e") ? s.padEnd(m, f) : s.padStart(m, f); eq(log, w > n ? "mf" : "m", "the filler is only converted when it is needed"); eq(r.length, w > n ? w : n, "length") });
