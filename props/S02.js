// Character-level text: case mapping, normalization, surrogates, unit storage and conversion to property names.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function up(c) { return c >= 97 && c <= 122 ? c - 32 : c }
scenario("ascii_case", function () { var s = symStr("s", 3, "\u0000\u007f"), u = s.toUpperCase(), l = s.toLowerCase(); eq(u.length, 3, "length"); for (var i = 0; i < 3; i++) { var c = s.charCodeAt(i); eq(u.charCodeAt(i), c >= 97 && c <= 122 ? c - 32 : c, "upper"); eq(l.charCodeAt(i), c >= 65 && c <= 90 ? c + 32 : c, "lower") } eq(s.toLocaleUpperCase(), u, "locale upper"); eq(s.toLocaleLowerCase(), l, "locale lower"); }, 4);
scenario("latin_case", function () { var c = symInt("c", 0xc0, 0xff), s = String.fromCharCode(c); eq(s.toLowerCase().charCodeAt(0), c <= 0xde && c !== 0xd7 && c !== 0xdf ? c + 32 : c, "lower"); var u = s.toUpperCase(); if (c === 0xdf) eq(u, "SS", "sharp s"); else eq(u.charCodeAt(0), c >= 0xe0 && c !== 0xf7 ? (c === 0xff ? 0x178 : c - 32) : c, "upper"); });
scenario("cyrillic_greek_case", function () { var k = symBool("k"), c = k ? symInt("c", 0x410, 0x44f) : symInt("g", 0x391, 0x3a1), s = String.fromCharCode(c); if (k) { eq(s.toLowerCase().charCodeAt(0), c < 0x430 ? c + 32 : c, "lower"); eq(s.toUpperCase().charCodeAt(0), c < 0x430 ? c : c - 32, "upper") } else { eq(s.toLowerCase().charCodeAt(0), c + 32, "greek lower"); eq(String.fromCharCode(c + 32).toUpperCase(), s, "greek upper") } });
scenario("special_case", function () { var k = conc(symInt("k", 0, 10)), s = ["\u0130", "\ufb03", "\u0149", "\u1f80", "\u0345", "A\u03a3", "\u03a3", "A\u03a3B", "\ud801\udc00", "\ud801", "\u1e9e"][k]; eq(s.toLowerCase(), ["i\u0307", "\ufb03", "\u0149", "\u1f80", "\u0345", "a\u03c2", "\u03c3", "a\u03c3b", "\ud801\udc28", "\ud801", "\u00df"][k], "lower"); eq(s.toUpperCase(), ["\u0130", "FFI", "\u02bcN", "\u1f08\u0399", "\u0399", "A\u03a3", "\u03a3", "A\u03a3B", "\ud801\udc00", "\ud801", "\u1e9e"][k], "upper"); });
scenario("deseret_case", function () { var c = symInt("c", 0, 39), s = "\ud801" + String.fromCharCode(0xdc00 + c); eq(s.toLowerCase(), "\ud801" + String.fromCharCode(0xdc28 + c), "lower pair"); eq(s.toLowerCase().toUpperCase(), s, "upper pair"); eq((s + "a").toUpperCase(), s + "A", "neighbours"); });
scenario("surrogate_units_kept", function () { var s = symStr("s", 2, "\ud7ff\ud801\udbff\udc01\udfff\ue000"), t = "a" + s + "b"; eq(t.length, 4, "length"); eq(t.charCodeAt(1), s.charCodeAt(0), "unit 0"); eq(t.charCodeAt(2), s.charCodeAt(1), "unit 1"); eq(t.split("").join(""), t, "split by unit"); var o = {}; o[s] = 5; eq(o[s], 5, "as a property name"); eq(Object.keys(o)[0], s, "name"); eq(s.concat("").trim(), s, "trim"); eq(JSON.parse(JSON.stringify(s)), s, "JSON round trip"); eq(String(s), s, "String"); }, 2);
scenario("nul_units", function () { var s = symStr("s", 3, "\u0000\u0002"), o = {}; o[s] = 1; eq(s.length, 3, "length"); eq(o[s], 1, "key"); eq(Object.keys(o)[0].length, 3, "key length"); eq(s.indexOf("\u0000"), s[0] === "\0" ? 0 : s[1] === "\0" ? 1 : s[2] === "\0" ? 2 : -1, "indexOf"); eq(s === s.slice(0, 2), false, "length matters"); eq(s.split("\u0000").join("\u0000"), s, "split"); eq(new Map([[s, 2]]).get(s + ""), 2, "map key"); });
scenario("normalize", function () { var k = conc(symInt("k", 0, 5)), s = ["\u00c5", "\u212b", "A\u030a", "\ufb01", "\u1e9b\u0323", "\uac00"][k]; eq(s.normalize(), ["\u00c5", "\u00c5", "\u00c5", "\ufb01", "\u1e9b\u0323", "\uac00"][k], "NFC default"); eq(s.normalize("NFC"), s.normalize(), "NFC"); eq(s.normalize("NFD"), ["A\u030a", "A\u030a", "A\u030a", "\ufb01", "\u017f\u0323\u0307", "\u1100\u1161"][k], "NFD"); eq(s.normalize("NFKC"), ["\u00c5", "\u00c5", "\u00c5", "fi", "\u1e69", "\uac00"][k], "NFKC"); eq(s.normalize("NFKD"), ["A\u030a", "A\u030a", "A\u030a", "fi", "s\u0323\u0307", "\u1100\u1161"][k], "NFKD"); eq(err(function () { s.normalize("NFX") }), "RangeError", "form"); eq(s.normalize(undefined), s.normalize(), "undefined"); });
scenario("normalize_hangul", function () { var l = symInt("l", 0, 18), v = symInt("v", 0, 20), t = symInt("t", 0, 27); l = conc(l); v = conc(v % 3); t = conc(t % 3); var s = String.fromCharCode(0xac00 + (l * 21 + v) * 28 + t), d = String.fromCharCode(0x1100 + l, 0x1161 + v) + (t ? String.fromCharCode(0x11a7 + t) : ""); eq(s.normalize("NFD"), d, "decompose"); eq(d.normalize("NFC"), s, "compose"); }, 2);
scenario("normalize_ascii", function () { var s = symStr("s", 2, "\u0000\u0001az~\u007f"); eq(s.normalize(), s, "identity"); eq(s.normalize("NFKD"), s, "identity"); });
scenario("locale_compare", function () { var a = symStr("a", 2, "ac"), b = symStr("b", 2, "ac"), r = a.localeCompare(b); eq(r < 0, a < b, "order of plain letters"); eq(r > 0, a > b, "order of plain letters"); eq(a.localeCompare(a), 0, "reflexive"); eq("\u00c5".localeCompare("A\u030a"), 0, "canonically equivalent"); });
scenario("code_points_roundtrip", function () { var a = symInt("a", 0, 0x10ffff), b = symInt("b", 0x10000, 0x10ffff), s = String.fromCodePoint(a, b), r = []; if (a >= 0xd800 && a < 0xdc00) return; for (var c of s) r.push(c.codePointAt(0)); eq(r.length, 2, "two characters"); eq(r[0], a, "first"); eq(r[1], b, "second"); });
scenario("escape_text", function () { var c = symInt("c", 0, 65535), h = "", v = c, i; for (i = 0; i < 4; i++) { var d = v % 16; h = String.fromCharCode(d < 10 ? 48 + d : 87 + d) + h; v = (v - d) / 16 } eq((0, eval)('"\\u' + h + '"').charCodeAt(0), c, "\\u escape"); eq((0, eval)('"\\u{' + h + '}"').charCodeAt(0), c, "\\u{} escape"); eq((0, eval)("`\\u" + h + "`").charCodeAt(0), c, "template"); if (c < 256) eq((0, eval)("'\\x" + h.slice(2) + "'").charCodeAt(0), c, "\\x escape"); }, 4);
scenario("property_names", function () { var k = conc(symInt("k", 0, 11)), v = [0, -0, 1.5, 1e21, NaN, Infinity, true, null, undefined, "", 10n, -1][k], n = ["0", "0", "1.5", "1e+21", "NaN", "Infinity", "true", "null", "undefined", "", "10", "-1"][k], o = {}; o[v] = 7; eq(Object.keys(o)[0], n, "name"); eq(o[n], 7, "same property"); eq(n in o, true, "in"); eq(`${v}`, n, "template agrees"); eq(({ [v]: 3 })[n], 3, "computed"); });
scenario("string_object", function () { var s = symStr("s", conc(symInt("n", 0, 3)), "az"), o = new String(s); eq(o.length, s.length, "length"); eq(typeof o, "object", "object"); eq(o.valueOf(), s, "value"); eq(o == s, true, "loosely equal"); eq(o + "", s, "text"); eq(Object.keys(o).length, s.length, "index keys"); for (var i = 0; i < s.length; i++) { var d = Object.getOwnPropertyDescriptor(o, String(i)); eq(d.value, s[i], "unit"); eq(d.writable || d.configurable, false, "read-only"); eq(d.enumerable, true, "enumerable") } eq(err(function () { "use strict"; o[0] = "x" }), s.length ? "TypeError" : "none", "strict write"); eq(delete o.length, false, "length stays"); eq(Reflect.ownKeys(o).length, s.length + 1 + (s.length ? 0 : 1), "own keys"); });
scenario("index_keys", function () { var s = "abc", k = conc(symInt("k", 0, 10)), n = ["0", "2", "3", "00", "01", "", " 1", "1.0", "-0", "length", "1e0"][k]; eq(n in Object(s), k < 2 || k === 9, "own property"); eq(s[n], k === 0 ? "a" : k === 1 ? "c" : k === 9 ? 3 : undefined, "value"); });
scenario("char_arith", function () { var c = symInt("c", 0, 25), s = String.fromCharCode(97 + c); eq("abcdefghijklmnopqrstuvwxyz".indexOf(s), c, "position"); eq("abcdefghijklmnopqrstuvwxyz"[c], s, "index"); eq(s.charCodeAt() - 97, c, "code"); eq(parseInt(s, 36), c + 10, "digit"); eq(s > "m", c > 12, "order"); });
scenario("static_cache", function () { var n = symInt("n", 0, 300), a = String(n), b = n + "", o = {}; o[a] = 1; eq(o[n], 1, "number and text name the same property"); eq(o[b], 1, "same"); eq(a === b, true, "same text"); var m = new Map(); m.set(a, 4); eq(m.get(b), 4, "map"); eq([n].indexOf(+a), 0, "numeric"); });
scenario("search_empty_long", function () { var n = conc(symInt("n", 0, 40)), p = symInt("p", 0, 40), s = "ab".repeat(n); eq(s.indexOf("ba", p), p + 1 < 2 * n - 1 ? (p % 2 ? p : p + 1) : p % 2 && p < 2 * n - 1 ? p : -1, "indexOf"); eq(s.lastIndexOf("ab"), n ? 2 * n - 2 : -1, "lastIndexOf"); eq(s.split("b").length, n + 1, "split"); eq(s.replaceAll("a", "").length, n, "replaceAll"); });
