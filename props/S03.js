// encodeURI, decodeURI and their component forms: RFC 3629 UTF-8 in both directions.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function hx(b) { var d = function (n) { return String.fromCharCode(n < 10 ? 48 + n : 55 + n) }; return "%" + d(Math.floor(b / 16)) + d(b % 16) }
function utf8(c) { var f = Math.floor; if (c < 128) return hx(c); if (c < 2048) return hx(192 + f(c / 64)) + hx(128 + c % 64); if (c < 65536) return hx(224 + f(c / 4096)) + hx(128 + f(c / 64) % 64) + hx(128 + c % 64); return hx(240 + f(c / 262144)) + hx(128 + f(c / 4096) % 64) + hx(128 + f(c / 64) % 64) + hx(128 + c % 64) }
function unres(c) { return c >= 48 && c <= 57 || c >= 65 && c <= 90 || c >= 97 && c <= 122 || c === 45 || c === 95 || c === 46 || c === 33 || c === 126 || c === 42 || c === 39 || c === 40 || c === 41 }
function resv(c) { return c === 59 || c === 47 || c === 63 || c === 58 || c === 64 || c === 38 || c === 61 || c === 43 || c === 36 || c === 44 || c === 35 }
scenario("encode_ascii", function () { var c = symInt("c", 0, 127), s = String.fromCharCode(c); eq(encodeURIComponent(s), unres(c) ? s : hx(c), "component"); eq(encodeURI(s), unres(c) || resv(c) ? s : hx(c), "uri"); });
scenario("encode_bmp", function () { var c = symInt("c", 128, 65535), s = String.fromCharCode(c), r; try { r = encodeURIComponent(s) } catch (e) { r = e.name } eq(r, c >= 0xd800 && c < 0xe000 ? "URIError" : utf8(c), "component"); try { r = encodeURI("a" + s) } catch (e) { r = e.name } eq(r, c >= 0xd800 && c < 0xe000 ? "URIError" : "a" + utf8(c), "uri"); });
scenario("encode_pair", function () { var h = symInt("h", 0xd7ff, 0xe000), l = symInt("l", 0xdbff, 0xe000), r; try { r = encodeURIComponent(String.fromCharCode(h, l)) } catch (e) { r = e.name } var H = h >= 0xd800 && h < 0xdc00, L = l >= 0xdc00 && l < 0xe000, S = function (c) { return c >= 0xd800 && c < 0xe000 }; eq(r, H && L ? utf8((h - 0xd800) * 1024 + l - 0xdc00 + 65536) : S(h) || S(l) ? "URIError" : utf8(h) + utf8(l), "surrogates"); });
scenario("decode_ascii", function () { var b = symInt("b", 0, 127), s = hx(b); eq(decodeURIComponent(s), String.fromCharCode(b), "component"); eq(decodeURI(s), resv(b) ? s : String.fromCharCode(b), "uri keeps reserved"); eq(decodeURI(s.toLowerCase()), resv(b) ? s.toLowerCase() : String.fromCharCode(b), "lower case"); });
scenario("decode_hex_digits", function () { var s = symStr("s", 2, "/:@G`g"), V = function (c) { return c >= 48 && c <= 57 ? c - 48 : c >= 65 && c <= 70 ? c - 55 : c >= 97 && c <= 102 ? c - 87 : -1 }, a = V(s.charCodeAt(0)), b = V(s.charCodeAt(1)), r; try { r = decodeURIComponent("%" + s) } catch (e) { r = e.name } if (a < 0 || b < 0) eq(r, "URIError", "not hex"); else if (a < 8) eq(r, String.fromCharCode(a * 16 + b), "byte"); else eq(r, "URIError", "lone byte"); }, 2);
scenario("decode_2", function () { var a = symInt("a", 128, 255), b = symInt("b", 0, 255), r; try { r = decodeURIComponent(hx(a) + hx(b)) } catch (e) { r = e.name } eq(r, a >= 0xc2 && a <= 0xdf && b >= 128 && b < 192 ? String.fromCharCode((a - 192) * 64 + b - 128) : "URIError", "two bytes"); }, 2);
scenario("decode_3", function () { var a = symInt("a", 0xdf, 0xf0), b = symInt("b", 126, 193), c = symInt("c", 126, 193), r; try { r = decodeURIComponent(hx(a) + hx(b) + hx(c)) } catch (e) { r = e.name } var v = (a - 224) * 4096 + (b - 128) * 64 + c - 128, ok = a >= 0xe0 && a <= 0xef && b >= 128 && b < 192 && c >= 128 && c < 192 && v >= 2048 && !(v >= 0xd800 && v < 0xe000); eq(r, ok ? String.fromCharCode(v) : a === 0xdf && b >= 128 && b < 192 && c < 128 ? String.fromCharCode(31 * 64 + b - 128, c) : "URIError", "three bytes"); }, 3);
scenario("decode_4", function () { var a = symInt("a", 0xef, 0xf9), b = symInt("b", 127, 192), c = symInt("c", 127, 192), d = symInt("d", 127, 192), r; assume(a > 0xef); try { r = decodeURIComponent(hx(a) + hx(b) + hx(c) + hx(d)) } catch (e) { r = e.name } var v = (a - 240) * 262144 + (b - 128) * 4096 + (c - 128) * 64 + d - 128, ok = a <= 0xf7 && b >= 128 && b < 192 && c >= 128 && c < 192 && d >= 128 && d < 192 && v >= 65536 && v <= 0x10ffff; eq(r, ok ? String.fromCodePoint(v) : "URIError", "four bytes"); }, 3);
scenario("decode_truncated", function () { var n = conc(symInt("n", 0, 11)), s = "%F0%9F%98%80"; eq(err(function () { decodeURIComponent("x" + s.slice(0, n)) }), n === 0 ? "none" : "URIError", "truncated"); eq(decodeURIComponent(s), "\ud83d\ude00", "whole"); eq(err(function () { decodeURIComponent(s.slice(0, n) + "zz") }), n === 0 ? "none" : "URIError", "interrupted"); eq(err(function () { decodeURI("%") }), "URIError", "lone percent"); eq(err(function () { decodeURI("%4") }), "URIError", "one digit"); });
scenario("roundtrip_component", function () { var s = symStr("s", 2, "\u0000\ud7ff"); eq(decodeURIComponent(encodeURIComponent(s)), s, "inverse"); }, 3);
scenario("roundtrip_uri", function () { var s = symStr("s", 2, "\u0000\ud7ff\ue000\uffff"), t = encodeURI(s); eq(decodeURI(t), s, "inverse"); for (var i = 0; i < t.length; i++) { var c = t.charCodeAt(i); check(unres(c) || resv(c) || c === 37, "only URI characters") } }, 3);
scenario("roundtrip_astral", function () { var c = symInt("c", 0x10000, 0x10ffff), s = String.fromCodePoint(c); eq(encodeURIComponent(s), utf8(c), "utf8"); eq(decodeURIComponent(encodeURIComponent(s)), s, "inverse"); });
scenario("decode_plain", function () { var s = symStr("s", 3, "\u0000$&\uffff"); eq(decodeURIComponent(s), s, "unescaped text is kept"); eq(decodeURI(s), s, "unescaped text is kept"); });
scenario("decode_reserved_mix", function () { var b = symInt("b", 33, 64), r = hx(b); eq(decodeURI("%41" + r + "%42"), "A" + (resv(b) ? r : String.fromCharCode(b)) + "B", "mixed"); eq(decodeURIComponent("%41" + r + "%42"), "A" + String.fromCharCode(b) + "B", "mixed"); });
scenario("arguments", function () { var k = conc(symInt("k", 0, 5)), v = [undefined, null, 12, true, "", ["a b"]][k], e = ["undefined", "null", "12", "true", "", "a%20b"][k]; eq(encodeURI(v), e, "converted"); eq(encodeURIComponent(v), e, "converted"); eq(decodeURI(e), k === 5 ? "a b" : e, "decode"); eq(err(function () { encodeURI(Symbol()) }), "TypeError", "symbol"); });
// Around every boundary of the encoding: generalized UTF-8 forms of one to four bytes of the values next to it.
scenario("decode_edges", function () { var n = conc(symInt("n", 2, 4)), k = conc(symInt("k", 0, 9)), v = [0x80, 0x7ff, 0x800, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff][k] + conc(symInt("d", -2, 2)), r, e; assume(v < [0, 0, 0x800, 0x10000, 0x200000][n]); var B = n === 2 ? [192 + (v >> 6)] : n === 3 ? [224 + (v >> 12), 128 + (v >> 6 & 63)] : [240 + (v >> 18), 128 + (v >> 12 & 63), 128 + (v >> 6 & 63)]; B.push(128 + (v & 63)); var s = B.map(hx).join(""); e = v < [0, 0, 0x80, 0x800, 0x10000][n] || v > 0x10ffff || v >= 0xd800 && v < 0xe000 ? "URIError" : String.fromCodePoint(v); try { r = decodeURIComponent("a" + s + "b") } catch (x) { r = x.name } eq(r, e === "URIError" ? e : "a" + e + "b", "component"); try { r = decodeURI(s) } catch (x) { r = x.name } eq(r, e, "uri"); }, 2);
// Any byte in any position of an otherwise valid sequence.
scenario("decode_position", function () { var n = conc(symInt("n", 1, 4)), p = conc(symInt("p", 0, 3)), c = symInt("c", 0, 255), B = [[0x41], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80]][n - 1], r, e, i; assume(p < n); if (p > 0) { e = c >= 128 && c < 192; B = B.slice(); B[p] = c; var v = B[0] & [0, 31, 15, 7][n - 1]; for (i = 1; i < n; i++) v = v * 64 + (B[i] & 63); if (n === 4 && p === 1 && c < 144) e = false; e = e ? String.fromCodePoint(v) : "URIError" } else { B = B.slice(); B[0] = c; e = n === 1 ? (c < 128 ? String.fromCharCode(c) : "URIError") : n === 2 && c >= 0xc2 && c < 0xe0 ? String.fromCharCode((c & 31) * 64 + 0x29) : n === 3 && c >= 0xe0 && c < 0xf0 && c !== 0xe0 ? ((c & 15) === 13 ? String.fromCharCode((c & 15) * 4096 + 0xac) : String.fromCharCode((c & 15) * 4096 + 2 * 64 + 0x2c)) : n === 4 && c >= 0xf0 && c < 0xf4 ? String.fromCodePoint((c & 7) * 262144 + 0x1f600) : "URIError"; assume(!(n === 3 && c === 0xed)) } try { r = decodeURIComponent(B.map(hx).join("")) } catch (x) { r = x.name } eq(r, e, "byte " + p + " of " + n); }, 2);
