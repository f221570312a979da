// RegExp protocol: lastIndex, sticky, global matching, replacing, splitting, captures, flags, unicode mode.
function err(f) { try { f() } catch (e) { return e && e.name } return "none" }
function subj(n, a) { return symStr("t", conc(symInt("n", 0, n)), a || "ab") }
function all(c, s) { var r = [], i; for (i = 0; i < s.length; i++) if (s[i] === c) r.push(i); return r }
scenario("last_index_exec", function () { var s = subj(4), li = symInt("li", -3, 7), g = symBool("g"), y = symBool("y"), r = new RegExp("a", (g ? "g" : "") + (y ? "y" : "")), from = g || y ? (li < 0 ? 0 : li) : 0, w = -1, i; r.lastIndex = li; if (from <= s.length) for (i = from; i < s.length; i++) { if (s[i] === "a") { w = i; break } if (y) break } var m = r.exec(s); if (w < 0) { eq(m, null, "no match"); eq(r.lastIndex, g || y ? 0 : li, "reset") } else { eq(m.index, w, "index"); eq(r.lastIndex, g || y ? w + 1 : li, "advanced") } });
scenario("last_index_values", function () { var k = conc(symInt("k", 0, 8)), v = [NaN, "2", -Infinity, Infinity, undefined, null, 1.9, { valueOf() { return 1 } }, true][k], f = [0, 2, 0, 1e9, 0, 0, 1, 1, 1][k], r = /a/g, s = "aaaa"; r.lastIndex = v; var m = r.exec(s); if (f > 3) { eq(m, null, "beyond"); eq(r.lastIndex, 0, "reset") } else { eq(m.index, f, "converted"); eq(r.lastIndex, f + 1, "next") } var n = 0, q = /a/; q.lastIndex = { valueOf() { n++; return 3 } }; q.exec("a"); eq(n, 1, "read once without the flags"); eq(typeof q.lastIndex, "object", "not written"); });
scenario("last_index_readonly", function () { var k = conc(symInt("k", 0, 3)), hit = symBool("hit"), r = new RegExp("a", ["", "g", "y", "gy"][k]); r.lastIndex = 0; Object.defineProperty(r, "lastIndex", { writable: false }); var e = err(function () { r.exec(hit ? "a" : "b") }); eq(e, k === 0 ? "none" : "TypeError", "write fails only with g or y"); });
scenario("test_loop", function () { var s = subj(5), r = /a/g, p = [], n = 0; while (r.test(s) && n++ < 9) p.push(r.lastIndex - 1); sameArr(p, all("a", s), "all positions"); eq(r.lastIndex, 0, "reset"); });
scenario("empty_matches", function () { var s = subj(4), r = /a*/g, m = s.match(r), w = [], i = 0, j; while (i <= s.length) { j = i; while (s[j] === "a") j++; w.push(s.slice(i, j)); i = j > i ? j : i + 1; } sameArr(m, w, "match all"); eq(s.replace(/a*/g, "-"), (function () { var o = "", i = 0, j; while (i <= s.length) { j = i; while (s[j] === "a") j++; o += "-"; if (j > i) i = j; else { if (i < s.length) o += s[i]; i++ } } return o })(), "replace"); });
scenario("match_global", function () { var s = subj(5), m = s.match(/a/g), p = all("a", s); if (!p.length) eq(m, null, "null"); else { eq(m.length, p.length, "count"); eq(m.index, undefined, "plain array") } var r = /b/g; r.lastIndex = 3; s.match(r); eq(r.lastIndex, 0, "starts at 0 and ends at 0"); var t = s.match(/(b)(a)?/); if (t) { eq(t.index, s.indexOf("b"), "index"); eq(t.input, s, "input"); eq(t[2], s[t.index + 1] === "a" ? "a" : undefined, "group") } });
scenario("match_all", function () { var s = subj(4), r = /(a)|b/g, li = conc(symInt("li", 0, 4)), i = 0, x; r.lastIndex = li; for (x of s.matchAll(r)) { eq(x.index, li + i, "index"); eq(x[1], s[li + i] === "a" ? "a" : undefined, "group"); eq(r.lastIndex, li, "the original is not advanced"); i++; if (i === 2) r.lastIndex = 0, li = li; if (i === 2) r.lastIndex = li } eq(i, s.length > li ? s.length - li : 0, "count"); eq(err(function () { s.matchAll(/a/) }), "TypeError", "needs g"); });
scenario("search", function () { var s = subj(4), r = new RegExp("b", conc(symInt("f", 0, 1)) ? "g" : ""), li = symInt("li", 0, 5); r.lastIndex = li; eq(s.search(r), s.indexOf("b"), "position"); eq(r.lastIndex, li, "lastIndex restored"); var y = /b/y; eq(s.search(y), s[0] === "b" ? 0 : -1, "sticky"); });
scenario("sticky", function () { var s = subj(4), li = conc(symInt("li", 0, 4)), r = /ab?/y, n = 0, p = li; r.lastIndex = li; while (p < s.length && s[p] === "a") { var l = s[p + 1] === "b" ? 2 : 1; eq(r.test(s), true, "sticks"); p += l; eq(r.lastIndex, p, "position"); } eq(r.test(s), false, "stops"); eq(r.lastIndex, 0, "reset"); eq(s.replace(/a/gy, "x"), (function () { var i = 0; while (s[i] === "a") i++; return "x".repeat(i) + s.slice(i) })(), "replace global sticky"); });
scenario("sticky_multiline", function () { var s = symStr("t", 3, "\n\naa"), li = conc(symInt("li", 0, 3)), r = /^a/my; r.lastIndex = li; eq(r.test(s), li < 3 && s[li] === "a" && (li === 0 || s[li - 1] === "\n"), "^ is not the sticky position"); });
scenario("split_char", function () { var s = subj(4), w = s.split("b"); sameArr(s.split(/b/), w, "same as the string"); sameArr(s.split(/b/y), w, "sticky is ignored"); var c = s.split(/(b)/), i; eq(c.length, w.length * 2 - 1, "separators kept"); for (i = 0; i < w.length; i++) eq(c[2 * i], w[i], "piece"); });
scenario("split_empty", function () { var s = subj(4), l = symInt("l", 0, 6); sameArr(s.split(/(?:)/), s === "" ? [] : s.split(""), "each unit"); sameArr(s.split(/(?:)/, l), s.split("").slice(0, l), "limit"); sameArr(s.split(/a*/), (function () { var o = [], p = 0, q = 0, e; if (s === "") return []; while (q < s.length) { e = q; while (s[e] === "a") e++; if (e === p) q++; else { o.push(s.slice(p, q)); p = e; q = p } } o.push(s.slice(p)); return o })(), "a*"); });
scenario("split_groups", function () { var s = subj(4, "ac"), l = conc(symInt("l", 0, 7)), w = [], p = 0, i; for (i = 0; i < s.length; i++) if (s[i] !== "a") { w.push(s.slice(p, i), s[i] === "b" ? "b" : undefined, s[i] === "c" ? "c" : undefined); p = i + 1 } w.push(s.slice(p)); sameArr(s.split(/(b)|(c)/), w, "captures"); sameArr(s.split(/(b)|(c)/, l), w.slice(0, l), "limit counts captures"); });
scenario("split_limits", function () { var k = conc(symInt("k", 0, 6)), v = [0, 4294967296, -1, undefined, "2", NaN, 4294967297][k], n = [0, 0, 3, 3, 2, 0, 1][k]; eq("aXbXc".split(/X/, v).length, n, "limit"); eq("".split(/x/).length, 1, "empty kept"); eq("".split(/x?/).length, 0, "empty matched"); });
scenario("replace_all_chars", function () { var s = subj(5), i, w = "", u = ""; for (i = 0; i < s.length; i++) { w += s[i] === "a" ? "[a]" : s[i]; } eq(s.replace(/a/g, "[$&]"), w, "global"); eq(s.replaceAll(/a/g, "[$&]"), w, "replaceAll"); i = s.indexOf("a"); eq(s.replace(/a/, "x"), i < 0 ? s : s.slice(0, i) + "x" + s.slice(i + 1), "first"); eq(err(function () { s.replaceAll(/a/, "") }), "TypeError", "replaceAll needs g"); });
scenario("replace_template", function () { var a = symStr("a", 1, "$$09&&`'<>ab"), b = symStr("b", 1, "$$09&&`'<>ab"), s = "xyz", t = "$" + a + b, m = /(y)(q)?/, w = (function () { var caps = ["y", "y", undefined], c = t.charCodeAt(1), d = t.charCodeAt(2), rest = t.slice(2); if (a === "$") return "$" + rest; if (a === "&") return "y" + rest; if (a === "`") return "x" + rest; if (a === "'") return "z" + rest; if (c >= 48 && c <= 57) { if (d >= 48 && d <= 57) { var n = (c - 48) * 10 + d - 48; if (n >= 1 && n <= 2) return n === 1 ? "y" : "" } var k = c - 48; if (k === 1) return "y" + rest; if (k === 2) return rest; return t } if (a === "<") return t; return a === "$" ? t : t })(); if (a !== "$" || b !== "$") eq(s.replace(m, t), "x" + w + "z", "template"); });
scenario("replace_named", function () { var s = subj(3, "ac"), r = /(?<x>a)|(?<y>b)/g, w = "", i; for (i = 0; i < s.length; i++) w += s[i] === "a" ? "(a,)" : s[i] === "b" ? "(,b)" : "c"; eq(s.replace(r, "($<x>,$<y>)"), w, "named"); eq(s.replace(/a/g, "$<x>"), s.replace(/a/g, function () { return "$<x>" }), "no groups: literal"); eq(s.replace(r, "$<zz>"), s.replace(/[ab]/g, ""), "unknown name is empty"); eq(s.replace(r, "$<x"), s.replace(/[ab]/g, function () { return "$<x" }), "unterminated"); });
scenario("replace_function", function () { var s = subj(4), n = 0, p = all("a", s), r = s.replace(/(a)(b)?/g, function (m, x, y, at, whole) { eq(at, p[n], "position"); eq(whole, s, "subject"); eq(x, "a", "group"); eq(y, s[at + 1] === "b" ? "b" : undefined, "optional group"); eq(arguments.length, 5, "argument count"); n++; return "$&" }); eq(n, p.length, "calls"); eq(r, s.replace(/ab?/g, function () { return "$&" }), "not a template"); "a".replace(/(?<k>a)/, function () { eq(arguments.length, 5, "groups argument"); eq(arguments[4].k, "a", "group value") }); });
scenario("replace_reset_callback", function () { var s = subj(4), r = /a/g, v = conc(symInt("v", 0, 4)), n = 0; var o = s.replace(r, function () { if (n++ > 20) fail("endless"); r.lastIndex = v; return "x" }); eq(n, all("a", s).length, "matches are collected first"); eq(o, s.split("a").join("x"), "result"); });
scenario("custom_exec", function () { var i1 = symInt("i1", -2, 6), l1 = conc(symInt("l1", 0, 3)), i2 = symInt("i2", -2, 6), n = 0, s = "abcd", r = /x/g; r.exec = function (q) { n++; return n === 1 ? { index: i1, length: 1, 0: "zzz".slice(0, l1) } : n === 2 ? { index: i2, length: 1, 0: "w" } : null }; var p1 = i1 < 0 ? 0 : i1 > 4 ? 4 : i1, p2 = i2 < 0 ? 0 : i2 > 4 ? 4 : i2, w = s.slice(0, p1) + "1", nx = p1 + l1; if (p2 >= nx) { w += s.slice(nx, p2) + "2"; nx = p2 + 1 } if (nx < 4) w += s.slice(nx); var k = 0; eq(r[Symbol.replace](s, function () { return String(++k) }), w, "positions are clamped and never go back"); eq(k, 2, "every result is used"); });
scenario("custom_exec_types", function () { var k = conc(symInt("k", 0, 5)), r = /a/; r.exec = function () { return [null, {}, 1, undefined, "s", []][k] }; var bad = k === 2 || k === 3 || k === 4; eq(err(function () { eq(r.test("x"), k !== 0, "test") }), bad ? "TypeError" : "none", "object or null"); r.exec = 5; eq(r.test("a"), true, "not callable: built in"); var p = { exec: 5 }; eq(err(function () { RegExp.prototype.test.call(p, "a") }), "TypeError", "not a RegExp"); });
scenario("indices", function () { var s = subj(4), m = /(?<x>a)(b)?/d.exec(s), p = s.indexOf("a"); if (p < 0) { eq(m, null, "none"); return } eq(m.indices.length, 3, "length"); eq(m.indices[0][0], p, "start"); eq(m.indices[0][1], p + m[0].length, "end"); eq(m.indices[1][1], p + 1, "group end"); if (s[p + 1] === "b") eq(m.indices[2][0], p + 1, "second group"); else eq(m.indices[2], undefined, "absent group"); eq(m.indices.groups.x[0], p, "named"); eq(/a/.exec("a").indices, undefined, "only with d"); });
scenario("groups_object", function () { var s = subj(3, "ac"), m = /(?<p>a)|(?<q>b)|(?<r>c)/.exec(s); if (!m) { eq(s, "", "only empty"); return } eq(Object.getPrototypeOf(m.groups), null, "no prototype"); eq(Object.keys(m.groups).join(), "p,q,r", "in pattern order"); eq(m.groups.p, s[0] === "a" ? "a" : undefined, "p"); eq(m.groups.q, s[0] === "b" ? "b" : undefined, "q"); eq(Object.keys(m).join(), "0,1,2,3,index,input,groups", "own keys"); });
scenario("flags", function () { var m = conc(symInt("m", 0, 127)), l = "dgimsuy", f = "", e = "", i; for (i = 6; i >= 0; i--) if (m >> i & 1) f += l[i]; for (i = 0; i < 7; i++) if (m >> i & 1) e += l[i]; var r = new RegExp("a", f); eq(r.flags, e, "sorted"); eq(String(r), "/a/" + e, "text"); eq([r.hasIndices, r.global, r.ignoreCase, r.multiline, r.dotAll, r.unicode, r.sticky].map(Number).join(""), l.split("").map(function (c) { return f.indexOf(c) < 0 ? 0 : 1 }).join(""), "accessors"); eq(new RegExp(r).flags, e, "copied"); eq(new RegExp(r, "i").flags, "i", "replaced"); });
scenario("flag_errors", function () { var a = symStr("a", 2, "azAZ"), ok = /^[dgimsuyv]$/.test(a[0]) && /^[dgimsuyv]$/.test(a[1]) && a[0] !== a[1]; if (a[0] === "v" || a[1] === "v") return; eq(err(function () { new RegExp("x", a) }), ok ? "none" : "SyntaxError", "flags"); });
scenario("constructor", function () { var k = conc(symInt("k", 0, 4)), r = /a\/b/gi; if (k === 0) { eq(RegExp(r), r, "same object"); eq(new RegExp(r) === r, false, "new object"); eq(new RegExp(r).source, "a\\/b", "source") } if (k === 1) { eq(RegExp(r, "m") === r, false, "flags given"); eq(RegExp(undefined).source, "(?:)", "undefined"); eq(RegExp("").source, "(?:)", "empty"); eq(RegExp(null).source, "null", "null") } if (k === 2) { var o = { [Symbol.match]: true, source: "x+", flags: "y", constructor: RegExp }; eq(RegExp(o), o, "pattern like object"); o.constructor = null; eq(String(RegExp(o)), "/x+/y", "converted") } if (k === 3) { r[Symbol.match] = false; eq(RegExp(r) === r, false, "not a pattern"); eq("x/a\\/b/gi".startsWith(r), false, "usable as text"); } if (k === 4) { class X extends RegExp { } var x = new X("a", "g"); eq(x instanceof X && x.test("a"), true, "subclass"); eq(Object.getPrototypeOf(x), X.prototype, "prototype"); eq(x.lastIndex, 1, "state") } });
scenario("source_text", function () { var a = symStr("a", 1, "\u0000\u007f"), c = a.charCodeAt(0), t = "[" + (a === "]" || a === "\\" || a === "^" ? "\\" : "") + a + "]", r = new RegExp(t); eq(r.test(a), true, "itself"); var u = eval(String(r)); eq(u.source, r.source, "evaluates to an equal pattern"); eq(u.test(a), true, "itself"); if (c === 47 || c === 10 || c === 13 || a === "\\") return; eq(r.source, t, "source"); });
scenario("slash_source", function () { eq(RegExp("/").source, "\\/", "escaped"); eq(RegExp("\n").source, "\\n", "line feed"); eq(RegExp("\\/").source, "\\/", "kept"); var s = subj(2, "//aa"), r = new RegExp(s + "x"); eq(eval(String(r)).source, r.source, "round trip"); eq(r.test(s + "x"), true, "matches"); });
scenario("syntax_errors", function () { var l = ["(", ")", "[", "a**", "+", "?", "(?", "(?<a", "(?<1>a)", "(?<a>a)(?<a>b)", "[b-a]", "\\", "a{2,1}", "(?<a>)\\k<b>", "*", "(?=a", "(?<=a", "x|*", "(?:a", "(?a)"], k = conc(symInt("k", 0, 19)), pre = symStr("pre", 1, "ax"); eq(err(function () { new RegExp(l[k]) }), "SyntaxError", l[k]); eq(err(function () { new RegExp(pre + l[k]) }), l[k] === "+" || l[k] === "?" || l[k] === "*" ? "none" : "SyntaxError", "after a character"); });
scenario("unicode_errors", function () { var l = ["{", "}", "]", "a{1", "\\a", "\\c", "\\00", "\\1", "\\u{110000}", "\\u{}", "\\u12", "\\x1", "(?=a)*", "[a-\\d]", "\\-", "\\u{1", "\\k", "\\p{Foo}", "[\\c]", "\\8"], k = conc(symInt("k", 0, 19)); eq(err(function () { new RegExp(l[k], "u") }), "SyntaxError", l[k]); });
scenario("unicode_pairs", function () { var h = symInt("h", 0xd7fe, 0xdc01), l = symInt("l", 0xdbfe, 0xe001), s = String.fromCharCode(h, l), pair = h >= 0xd800 && h <= 0xdbff && l >= 0xdc00 && l <= 0xdfff; eq(/^.$/u.test(s), pair, "one character"); eq(/^.$/.test(s), false, "two units"); eq(/^..$/.test(s), true, "two units"); eq(/^[^x]$/u.test(s), pair, "negated class"); eq(s.match(/(?:)/gu).length, pair ? 2 : 3, "empty positions"); eq(s.split(/(?:)/u).length, pair ? 1 : 2, "split"); eq(s.replace(/(?:)/gu, "-").length, pair ? 4 : 5, "replace"); eq(/^\S$/u.test(s), pair, "class escape"); eq(/(?<=^.)$/u.test(s), pair, "backwards"); });
scenario("unicode_lone", function () { var h = symInt("h", 0xd7ff, 0xdc00), s = String.fromCharCode(h) + "\udc00", lead = h >= 0xd800 && h <= 0xdbff; eq(/\udc00/u.test(s), !lead, "the second half of a pair is not matched alone"); eq(/\udc00/.test(s), true, "without u it is"); eq(/^[\ud800-\udbff]/u.test(s), false, "leading half neither"); eq(/^[\ud800-\udbff]/.test(s), lead, "without u"); eq(/[\ud800-\udbff]$/u.test(String.fromCharCode(h)), lead, "alone"); });
scenario("unicode_escapes", function () { var c = symInt("c", 0x1f5fe, 0x1f602), s = String.fromCodePoint(c); eq(/^[\u{1f600}-\u{1f601}]$/u.test(s), c === 0x1f600 || c === 0x1f601, "range"); eq(/^\u{1f600}$/u.test(s), c === 0x1f600, "code point"); eq(/^\ud83d\ude00$/u.test(s), c === 0x1f600, "escaped pair"); eq(/^\u{1f600}{2}$/u.test(s + s), c === 0x1f600, "quantified as one"); eq(new RegExp("^" + s + "+$", "u").test(s + s), true, "literal"); eq(new RegExp("^" + s + "+$").test(s + s), false, "without u only the last unit repeats"); eq(new RegExp("^[" + s + "]{2}$").test(s), true, "class of units"); });
scenario("unicode_case", function () { var c = symInt("c", 0x10400, 0x1044f), s = String.fromCodePoint(c); eq(/^\u{10400}$/ui.test(s), c === 0x10400 || c === 0x10428, "Deseret"); eq(/^[\u{10400}-\u{10403}]$/ui.test(s), c <= 0x10403 || c >= 0x10428 && c <= 0x1042b, "range"); });
scenario("unicode_case_bmp", function () { var l = [0x73, 0x53, 0x17f, 0x6b, 0x4b, 0x212a, 0x3c3, 0x3c2, 0x3a3, 0xb5, 0x3bc, 0x131, 0x69], g = [1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6], gn = [1, 1, 7, 2, 2, 8, 3, 3, 3, 4, 4, 5, 6], i = conc(symInt("i", 0, 12)), j = conc(symInt("j", 0, 12)), p = String.fromCharCode(l[i]), s = String.fromCharCode(l[j]); eq(new RegExp("^" + p + "$", "iu").test(s), g[i] === g[j], "folded"); eq(new RegExp("^" + p + "$", "i").test(s), gn[i] === gn[j], "upper cased"); eq(new RegExp("^[" + p + "]$", "iu").test(s), g[i] === g[j], "class folded"); eq(/^\w$/iu.test(s), j < 6 || j === 12, "word"); eq(/^\w$/i.test(s), l[j] < 128, "ASCII word"); });
scenario("properties", function () { var c = symInt("c", 0, 127), s = String.fromCharCode(c), U = c >= 65 && c <= 90, L = c >= 97 && c <= 122; eq(/^\p{L}$/u.test(s), U || L, "letter"); eq(/^\p{Lu}$/u.test(s), U, "upper"); eq(/^\P{Lu}$/u.test(s), !U, "not upper"); eq(/^[\p{Nd}_]$/u.test(s), c >= 48 && c <= 57 || c === 95, "class"); eq(/^[^\p{L}]$/u.test(s), !U && !L, "negated"); eq(/^\p{Lu}$/iu.test(s), U || L, "ignoring case"); eq(/^\p{ASCII}$/u.test(s), true, "binary"); eq(/^\p{Script=Latin}$/u.test(s), U || L, "script"); });
scenario("species_split", function () { var k = conc(symInt("k", 0, 2)), s = subj(3, "ac"), fl = ""; class X extends RegExp { static get [Symbol.species]() { return [undefined, RegExp, function (p, f) { fl = f; return new RegExp("c", f) }][k] } } var r = s.split(new X("b", "i")); sameArr(r, s.split(k === 2 ? "c" : "b"), "splitter"); if (k === 2) eq(fl, "iy", "sticky added"); });
scenario("receiver_types", function () { var k = conc(symInt("k", 0, 6)), f = ["exec", "test", "toString", Symbol.match, Symbol.replace, Symbol.search, Symbol.split][k]; eq(err(function () { RegExp.prototype[f].call(1, "a") }), "TypeError", "primitive receiver"); eq(RegExp.prototype.source, "(?:)", "prototype source"); eq(RegExp.prototype.flags, "", "prototype flags"); eq(RegExp.prototype.global, undefined, "prototype flag"); eq(RegExp.prototype.toString.call({ source: 1, flags: null }), "/1/null", "generic text"); });
scenario("string_protocol", function () { var k = conc(symInt("k", 0, 4)), v = symInt("v", 0, 9), sy = [Symbol.match, Symbol.matchAll, Symbol.search, Symbol.split, Symbol.replace][k], m = ["match", "matchAll", "search", "split", "replace"][k], log, o = { [sy](s, x) { log = s + x; return v }, flags: "g" }; eq("ab"[m](o, "q"), v, "delegates"); eq(log, k < 3 ? "abundefined" : "abq", "arguments"); o[sy] = undefined; o.toString = function () { return "b" }; if (k === 0) eq("ab".match(o).index, 1, "converted"); if (k === 2) eq("ab".search(o), 1, "converted"); if (k === 3) eq("ab".split(o).length, 2, "converted"); });
// The replacement of any match that an exec function reports, against a transcription of GetSubstitution.
function substitution(t, s, p, m, c, g) { var o = "", i = 0, j, d, n; while (i < t.length) { if (t[i] !== "$" || i + 1 === t.length) { o += t[i++]; continue } d = t[i + 1]; j = i + 2; if (d === "$") o += "$"; else if (d === "&") o += m; else if (d === "`") o += s.substring(0, p); else if (d === "'") o += s.substring(Math.min(p + m.length, s.length)); else if (d >= "0" && d <= "9") { n = +d; if (t[j] >= "0" && t[j] <= "9" && n * 10 + +t[j] <= c.length) { n = n * 10 + +t[j]; j++ } if (n === 0 || n > c.length) o += t.substring(i, j); else if (c[n - 1] !== undefined) o += c[n - 1] } else if (d === "<" && g !== undefined && t.indexOf(">", j) >= 0) { n = t.indexOf(">", j); d = g[t.substring(j, n)]; if (d !== undefined) o += d; j = n + 1 } else { o += "$"; j = i + 1 } i = j } return o }
scenario("exec_results", function () { var s = "abcd", p = symInt("p", -2, 7), m = ["", "b", "bcdef"][conc(symInt("m", 0, 2))], t = ["[$`|$&|$']", "$1$2$3$01$12", "$<x>$<y>$<", "$0$00$"][conc(symInt("t", 0, 3))], c = [[], ["q"], [undefined, "w"]][conc(symInt("c", 0, 2))], g = [undefined, { x: 5, y: undefined }, "xy"][conc(symInt("g", 0, 2))], f = symBool("f"), r = /a/, x = { index: p, length: c.length + 1, 0: m, groups: g }, i, q, o, e; for (i = 0; i < c.length; i++) x[i + 1] = c[i]; r.exec = function () { return x };
  q = p < 0 ? 0 : p > 4 ? 4 : p; e = s.substring(0, q) + (f ? [m].concat(c.map(function (x) { return "" + x }), [q, s], g === undefined ? [] : ["" + g]).join() : substitution(t, s, q, m, c, g)) + s.substring(Math.min(q + m.length, 4));
  o = s.replace(r, f ? function () { var a = ""; for (var i = 0; i < arguments.length; i++) a += (i ? "," : "") + arguments[i]; return a } : t); eq(o, e, "replacement") }, 2);
scenario("exec_result_order", function () { var k = conc(symInt("k", 0, 2)), f = symBool("f"), l = "", r = /a/, x = new Proxy({ 0: "b", 1: { toString: function () { l += "T"; return "q" } }, 2: undefined, length: k + 1, index: { valueOf: function () { l += "V"; return 1 } } }, { get: function (t, n) { l += n + ","; return t[n] } }); r.exec = function () { return x }; var o = "abc".replace(r, f ? function () { l += "F"; return { toString: function () { l += "S"; return "z" } } } : "[$1]"); eq(o, f ? "azc" : k ? "a[q]c" : "a[$1]c", "result"); eq(l, "length,0,index,V" + (k > 0 ? "1,T" : "") + (k > 1 ? "2," : "") + "groups," + (f ? "FS" : ""), "order") });
