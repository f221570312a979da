// Regular expression matching against the matcher the language defines (continuation passing over an abstract pattern).
function up(c) { return c >= 97 && c <= 122 ? c - 32 : c }
function isw(c) { return c >= 97 && c <= 122 || c >= 65 && c <= 90 || c >= 48 && c <= 57 || c === 95 }
function islt(c) { return c === 10 || c === 13 || c === 0x2028 || c === 0x2029 }
function isws(c) { return c >= 9 && c <= 13 || c === 32 || c === 0xa0 || c === 0xfeff }
// pattern constructors: s = source text, g = groups inside, m(I, fwd) = matcher over the input I
function ch(c) { var k = c.charCodeAt(0); return { s: /[\^$\\.*+?()[\]{}|\/]/.test(c) ? "\\" + c : c, g: 0, m: one(function (x, I) { return x === k || I.i && up(x) === up(k) }) } }
function one(f) { return function (I, fwd) { return function (x, c) { var p = fwd ? x.e : x.e - 1; if (p < 0 || p >= I.n) return null; if (!f(I.t[p], I)) return null; return c({ e: fwd ? p + 1 : p, v: x.v }) } } }
function dot() { return { s: ".", g: 0, m: one(function (x, I) { return I.s || !islt(x) }) } }
function cls(src, f) { return { s: src, g: 0, m: one(f) } }
function seq() { var l = Array.prototype.slice.call(arguments), s = "", g = 0; l.forEach(function (n) { s += n.s; n.b = g; g += n.g }); return { s: s, g: g, m: function (I, fwd, base) { var ms = l.map(function (n) { return n.m(I, fwd, base + n.b) }); if (!fwd) ms.reverse(); return function (x, c) { function go(k, y) { return k === ms.length ? c(y) : ms[k](y, function (z) { return go(k + 1, z) }) } return go(0, x) } } } }
function alt(a, b) { return { s: a.s + "|" + b.s, g: a.g + b.g, m: function (I, fwd, base) { var p = a.m(I, fwd, base), q = b.m(I, fwd, base + a.g); return function (x, c) { return p(x, c) || q(x, c) } } } }
function nc(a) { return { s: "(?:" + a.s + ")", g: a.g, m: a.m } }
function grp(a, name) { return { s: "(" + (name ? "?<" + name + ">" : "") + a.s + ")", g: a.g + 1, m: function (I, fwd, base) { var p = a.m(I, fwd, base + 1); return function (x, c) { return p(x, function (y) { var v = y.v.slice(); v[base] = fwd ? [x.e, y.e] : [y.e, x.e]; return c({ e: y.e, v: v }) }) } } } }
function rep(a, min, max, lazy) { var q = min === 0 && max < 0 ? "*" : min === 1 && max < 0 ? "+" : min === 0 && max === 1 ? "?" : max < 0 ? "{" + min + ",}" : min === max ? "{" + min + "}" : "{" + min + "," + max + "}"; return { s: a.s + q + (lazy ? "?" : ""), g: a.g, m: function (I, fwd, base) { var p = a.m(I, fwd, base); function R(lo, hi, x, c) { if (hi === 0) return c(x); function d(y) { if (lo === 0 && y.e === x.e) return null; return R(lo ? lo - 1 : 0, hi < 0 ? hi : hi - 1, y, c) } var v = x.v.slice(), i; for (i = 0; i < a.g; i++) v[base + i] = undefined; var xr = { e: x.e, v: v }; if (lo) return p(xr, d); if (lazy) return c(x) || p(xr, d); return p(xr, d) || c(x) } return function (x, c) { return R(min, max, x, c) } } } }
function zero(src, f) { return { s: src, g: 0, m: function (I) { return function (x, c) { return f(I, x.e) ? c(x) : null } } } }
function bol() { return zero("^", function (I, e) { return e === 0 || I.m && islt(I.t[e - 1]) }) }
function eol() { return zero("$", function (I, e) { return e === I.n || I.m && islt(I.t[e]) }) }
function wb(not) { return zero(not ? "\\B" : "\\b", function (I, e) { var a = e > 0 && isw(I.t[e - 1]), b = e < I.n && isw(I.t[e]); return (a !== b) === !not }) }
function look(a, fwd, neg) { return { s: "(?" + (fwd ? "" : "<") + (neg ? "!" : "=") + a.s + ")", g: a.g, m: function (I, dir, base) { var p = a.m(I, fwd, base); return function (x, c) { var r = p(x, function (y) { return y }); if (neg) return r ? null : c(x); return r ? c({ e: x.e, v: r.v }) : null } } } }
function br(n, name) { return { s: name ? "\\k<" + name + ">" : "\\" + n + "(?:)", g: 0, m: function (I, fwd) { return function (x, c) { var w = x.v[n - 1], i; if (!w) return c(x); var l = w[1] - w[0], f = fwd ? x.e + l : x.e - l; if (f < 0 || f > I.n) return null; var g = fwd ? x.e : f; for (i = 0; i < l; i++) { var a = I.t[w[0] + i], b = I.t[g + i]; if (a !== b && !(I.i && up(a) === up(b))) return null } return c({ e: f, v: x.v }) } } } }
function ref_exec(p, s, fl, from) { var I = { t: [], n: s.length, i: fl.indexOf("i") >= 0, m: fl.indexOf("m") >= 0, s: fl.indexOf("s") >= 0 }, k, r; for (k = 0; k < s.length; k++) I.t[k] = s.charCodeAt(k); var m = p.m(I, true, 0); for (k = from || 0; k <= s.length; k++) { r = m({ e: k, v: [] }, function (y) { return y }); if (r) { var o = [s.slice(k, r.e)]; for (var j = 0; j < p.g; j++) o[j + 1] = r.v[j] ? s.slice(r.v[j][0], r.v[j][1]) : undefined; o.at = k; return o } if (fl.indexOf("y") >= 0) break } return null }
function cmp(p, s, fl) { fl = fl || ""; var m = new RegExp(p.s, fl).exec(s), w = ref_exec(p, s, fl), i; if (!w) { eq(m, null, "no match /" + p.s + "/" + fl); return } check(m !== null, "match /" + p.s + "/" + fl); eq(m.index, w.at, "index /" + p.s + "/" + fl); eq(m.length, w.length, "groups /" + p.s + "/" + fl); for (i = 0; i < w.length; i++) eq(m[i], w[i], "group " + i + " of /" + p.s + "/" + fl) }
function subj(n, a) { return symStr("t", conc(symInt("n", 0, n)), a) }
var A = function () { return ch("a") }, B = function () { return ch("b") }, C = function () { return ch("c") };
function st(x) { return rep(x, 0, -1) }
function pl(x) { return rep(x, 1, -1) }
function op(x) { return rep(x, 0, 1) }
function fam(name, l, n, alpha, fl) { scenario(name, function () { var k = conc(symInt("k", 0, l.length - 1)); cmp(l[k](), subj(n, alpha || "ac"), fl) }) }
fam("concat_alt", [function () { return seq(A(), B()) }, function () { return alt(A(), B()) }, function () { return seq(nc(alt(A(), seq(A(), B()))), nc(alt(C(), seq(B(), C())))) }, function () { return alt(seq(), A()) }, function () { return alt(A(), seq()) }, function () { return seq(grp(alt(A(), seq(A(), B()))), grp(alt(C(), seq(B(), C()))), grp(st(A()))) }, function () { return grp(alt(grp(A()), grp(B()))) }], 4);
fam("greedy", [function () { return seq(st(A()), B()) }, function () { return seq(pl(A()), pl(B())) }, function () { return seq(op(A()), A()) }, function () { return seq(grp(st(A())), grp(st(A()))) }, function () { return seq(grp(pl(dot())), B()) }, function () { return rep(A(), 2, 3) }, function () { return rep(A(), 2, 2) }, function () { return seq(rep(A(), 2, -1), B()) }], 4);
fam("lazy", [function () { return seq(rep(A(), 0, -1, true), B()) }, function () { return seq(grp(rep(dot(), 0, -1, true)), B()) }, function () { return rep(A(), 1, 3, true) }, function () { return seq(rep(A(), 0, 1, true), B()) }, function () { return seq(grp(rep(A(), 1, -1, true)), grp(st(A()))) }, function () { return seq(rep(nc(seq(A(), op(B()))), 1, 2, true), C()) }, function () { return seq(rep(grp(alt(A(), B())), 0, -1, true), C()) }], 4);
fam("nested_quantifiers", [function () { return st(nc(st(A()))) }, function () { return st(grp(st(A()))) }, function () { return pl(grp(st(A()))) }, function () { return st(grp(op(A()))) }, function () { return rep(grp(st(A())), 2, 3) }, function () { return rep(grp(op(A())), 0, -1, true) }, function () { return seq(rep(grp(op(A())), 0, -1, true), B()) }, function () { return seq(st(nc(alt(st(A()), st(B())))), C()) }, function () { return rep(grp(rep(A(), 0, -1, true)), 3, 3) }, function () { return pl(grp(alt(seq(), A()))) }, function () { return seq(rep(nc(rep(nc(seq()), 2, 2)), 1, 2), A()) }], 3, "ac");
fam("group_reset", [function () { return st(nc(alt(grp(A()), grp(B())))) }, function () { return seq(st(nc(alt(alt(grp(A()), grp(B())), grp(C()))))) }, function () { return pl(nc(seq(grp(A()), op(grp(B()))))) }, function () { return seq(ch("c"), st(grp(seq(op(grp(pl(A()))), op(grp(pl(B()))), grp(C()))))) }, function () { return rep(grp(alt(grp(A()), B())), 2, 2) }, function () { return seq(bol(), rep(nc(seq(grp(A()), op(grp(B())))), 2, 2), eol()) }, function () { return seq(rep(nc(alt(grp(A()), B())), 0, -1, true), eol()) }], 4);
fam("back_references", [function () { return seq(grp(dot()), br(1)) }, function () { return seq(grp(st(A())), B(), br(1)) }, function () { return seq(br(1), grp(A())) }, function () { return grp(seq(A(), br(1))) }, function () { return seq(grp(alt(A(), B())), op(grp(C())), br(2), br(1)) }, function () { return st(nc(seq(br(1), grp(A())))) }, function () { return seq(alt(grp(A()), seq(B(), br(1)))) }, function () { return seq(grp(pl(A())), grp(pl(B())), br(2), br(1)) }, function () { return seq(grp(dot(), "x"), br(1, "x")) }, function () { return seq(br(1, "x"), grp(dot(), "x")) }], 4);
fam("assertions", [function () { return seq(bol(), A()) }, function () { return seq(A(), eol()) }, function () { return seq(bol(), st(A()), eol()) }, function () { return seq(wb(), A()) }, function () { return seq(wb(true), A()) }, function () { return seq(pl(A()), wb()) }, function () { return nc(alt(bol(), B())) }, function () { return seq(nc(alt(bol(), A())), B(), nc(alt(eol(), C()))) }, function () { return pl(nc(wb())) }], 3, "ac  ");
fam("lookahead", [function () { return seq(look(A(), true), dot()) }, function () { return seq(look(A(), true, true), dot()) }, function () { return seq(look(grp(pl(A())), true), st(A()), B(), br(1)) }, function () { return seq(look(grp(st(A())), true), grp(dot())) }, function () { return seq(grp(rep(dot(), 0, -1, true)), A(), look(seq(grp(pl(A())), B(), br(2), C()), true, true), br(2), grp(st(dot()))) }, function () { return st(nc(seq(look(grp(A()), true), A()))) }, function () { return pl(nc(seq(look(grp(B()), true, true), dot()))) }, function () { return seq(look(look(grp(A()), true, true), true, true), br(1), B()) }, function () { return seq(look(alt(A(), seq(A(), B())), true), A(), C()) }, function () { return seq(grp(A()), op(nc(seq(B(), look(grp(C()), true))))) }], 4);
fam("lookbehind", [function () { return seq(look(A(), false), dot()) }, function () { return seq(look(A(), false, true), B()) }, function () { return seq(look(seq(grp(st(A())), grp(st(A()))), false), B()) }, function () { return seq(look(seq(grp(pl(A())), grp(pl(dot()))), false), C()) }, function () { return seq(look(seq(br(1), grp(A())), false), B()) }, function () { return seq(look(seq(grp(A()), br(1)), false), B()) }, function () { return seq(look(alt(A(), seq(B(), B())), false), C()) }, function () { return seq(look(seq(bol(), rep(dot(), 2, 2)), false), A()) }, function () { return seq(look(seq(look(B(), false, true), A()), false), C()) }, function () { return seq(look(st(nc(alt(grp(A()), B()))), false), C()) }, function () { return seq(look(grp(rep(A(), 0, -1, true)), false), B()) }, function () { return seq(look(grp(seq(A(), look(B(), true))), false), dot()) }, function () { return seq(look(eol(), false), op(A())) }], 4);
scenario("ignore_case", function () { var l = [function () { return seq(A(), ch("B")) }, function () { return seq(grp(dot()), br(1)) }, function () { return cls("[a-b]", function (x) { return up(x) === 65 || up(x) === 66 }) }, function () { return cls("[^a-b]", function (x) { return up(x) !== 65 && up(x) !== 66 }) }, function () { return cls("[Z-b]", function (x) { return x >= 90 && x <= 98 || x === 65 || x === 66 || x === 122 }) }, function () { return cls("\\w", isw) }, function () { return cls("[^\\W]", isw) }], k = conc(symInt("k", 0, 6)); cmp(l[k](), symStr("t", conc(symInt("n", 0, 2)), "\u0001\u007f"), "i"); });
scenario("ignore_case_unit", function () { var c = symInt("c", 0, 127), k = conc(symInt("k", 0, 127)); assume(k >= 63 && k <= 66 || k >= 88 && k <= 99 || k > 120); eq(new RegExp("^[" + (k === 93 || k === 94 || k === 92 ? "\\" : "") + String.fromCharCode(k) + "]$", "i").test(String.fromCharCode(c)), up(c) === up(k), "one unit"); });
scenario("ignore_case_latin", function () { var c = symInt("c", 0xc0, 0xff), d = conc(symInt("d", 0, 3)), k = [0xe4, 0xc4, 0xff, 0xd7][d], u = function (x) { return x >= 0xe0 && x <= 0xfe && x !== 0xf7 ? x - 32 : x === 0xff ? 0x178 : x }; eq(new RegExp(String.fromCharCode(k), "i").test(String.fromCharCode(c)), u(c) === u(k), "latin"); eq(/[\u0391-\u03a9]/i.test(String.fromCharCode(c)), false, "greek"); });
scenario("ignore_case_range", function () { var c = symInt("c", 0, 127), lo = conc(symInt("lo", 60, 100)), hi = conc(symInt("hi", 60, 126)), e = false, i; assume(lo <= hi && lo % 5 === 0 && hi % 7 === 0); for (i = lo; i <= hi; i++) if (up(i) === up(c)) e = true; var q = function (x) { return "\\x" + x.toString(16).padStart(2, "0") }, r = "[" + q(lo) + "-" + q(hi) + "]"; eq(new RegExp(r, "i").test(String.fromCharCode(c)), e, r + "i"); eq(new RegExp("[^" + r.slice(1), "i").test(String.fromCharCode(c)), !e, "negated"); eq(new RegExp(r).test(String.fromCharCode(c)), c >= lo && c <= hi, r); });
scenario("classes", function () { var c = symInt("c", 0, 0xffff), s = String.fromCharCode(c); eq(/^\d$/.test(s), c >= 48 && c <= 57, "\\d"); eq(/^\D$/.test(s), !(c >= 48 && c <= 57), "\\D"); eq(/^\w$/.test(s), isw(c), "\\w"); eq(/^\W$/.test(s), !isw(c), "\\W"); eq(/^.$/.test(s), !islt(c), "."); eq(/^.$/s.test(s), true, ". s"); eq(/^[]$/.test(s), false, "[]"); eq(/^[^]$/.test(s), true, "[^]"); eq(/^[\d_-]$/.test(s), c >= 48 && c <= 57 || c === 95 || c === 45, "class dash"); eq(/^[^\d\s]$/.test(s), !(c >= 48 && c <= 57) && !/\s/.test(s), "negated class"); eq(/^[\b]$/.test(s), c === 8, "backspace"); });
scenario("space_class", function () { var c = symInt("c", 0, 0xffff), s = String.fromCharCode(c), w = c >= 9 && c <= 13 || c === 32 || c === 0xa0 || c === 0x1680 || c >= 0x2000 && c <= 0x200a || c === 0x2028 || c === 0x2029 || c === 0x202f || c === 0x205f || c === 0x3000 || c === 0xfeff; eq(/^\s$/.test(s), w, "\\s"); eq(/^\S$/.test(s), !w, "\\S"); }, 2);
scenario("ranges", function () { var c = symInt("c", 0, 0xffff), lo = symInt("lo", 97, 104), hi = symInt("hi", 97, 104); lo = conc(lo); hi = conc(hi); assume(lo <= hi); var r = "[" + String.fromCharCode(lo) + "-" + String.fromCharCode(hi) + "x]"; eq(new RegExp("^" + r + "$").test(String.fromCharCode(c)), c >= lo && c <= hi || c === 120, r); });
scenario("escapes", function () { var c = symInt("c", 0, 127), k = conc(symInt("k", 0, 12)), p = ["\\f", "\\n", "\\r", "\\t", "\\v", "\\0", "\\cA", "\\cz", "\\x41", "\\u0042", "\\.", "\\/", "\\$"][k], v = [12, 10, 13, 9, 11, 0, 1, 26, 65, 66, 46, 47, 36][k], s = String.fromCharCode(c); eq(new RegExp("^" + p + "$").test(s), c === v, p); eq(new RegExp("^[" + p + "]$").test(s), c === v, "[" + p + "]"); eq(new RegExp("^" + p + "$", "u").test(s), c === v, p + " u"); });
scenario("hex_escapes", function () { var a = symStr("a", 1, "09afAFgz"), b = symStr("b", 1, "09afAFgz"), v = parseInt(a + b, 16), ok = /^[0-9a-fA-F]{2}$/.test(a + b), r; try { r = new RegExp("^\\x" + a + b + "$", "u") } catch (e) { eq(e instanceof SyntaxError, true, "SyntaxError"); eq(ok, false, "rejected") ; return } eq(ok, true, "accepted"); eq(r.test(String.fromCharCode(v)), true, "value"); eq(r.test(String.fromCharCode(v ^ 1)), false, "only that value"); });
fam("multiline", [function () { return seq(bol(), A()) }, function () { return seq(A(), eol()) }, function () { return seq(bol(), eol()) }, function () { return seq(eol(), dot()) }, function () { return seq(bol(), st(dot()), eol()) }, function () { return seq(look(bol(), false), A()) }], 3, "\n\naa\r\r", "m");
fam("dot_all", [function () { return dot() }, function () { return seq(A(), dot(), A()) }, function () { return seq(bol(), st(dot()), eol()) }], 3, "\n\naa\r\r", "s");
// any pattern of the grammar: two atoms with symbolic kinds and quantifiers, inside a symbolic frame
function atom(k, nx) { return k === 0 ? A() : k === 1 ? dot() : k === 2 ? grp(A()) : k === 3 ? grp(alt(A(), seq())) : k === 4 ? grp(alt(B(), A())) : k === 5 ? nc(grp(st(A()))) : k === 6 ? grp(rep(A(), 0, -1, true)) : nx }
function quant(a, q) { return q === 0 ? a : q === 1 ? st(a) : q === 2 ? rep(a, 0, -1, true) : q === 3 ? pl(a) : q === 4 ? op(a) : q === 5 ? rep(a, 2, 2) : rep(a, 1, 2, true) }
scenario("any_pair", function () { var x = conc(symInt("x", 0, 6)), p = conc(symInt("p", 0, 6)), y = conc(symInt("y", 0, 6)), q = conc(symInt("q", 0, 6)); cmp(seq(quant(atom(x), p), quant(atom(y), q)), symStr("t", 3, "ab")); }, 4);
scenario("any_nested", function () { var x = conc(symInt("x", 0, 6)), p = conc(symInt("p", 0, 6)), q = conc(symInt("q", 0, 6)), f = conc(symInt("f", 0, 3)), a = quant(atom(x), p), b = f & 1 ? grp(a) : nc(seq(a, op(B()))); cmp(seq(quant(b, q), f & 2 ? eol() : B()), symStr("t", 3, "ab")); }, 4);
scenario("any_look", function () { var x = conc(symInt("x", 0, 6)), p = conc(symInt("p", 0, 6)), f = conc(symInt("f", 0, 7)), a = look(quant(atom(x), p), !(f & 1), !!(f & 2)); cmp(f & 4 ? seq(a, dot()) : seq(dot(), a, op(A())), symStr("t", 3, "ab")); }, 4);
scenario("any_lookbehind_pair", function () { var x = conc(symInt("x", 0, 6)), p = conc(symInt("p", 0, 6)), y = conc(symInt("y", 2, 6)), q = conc(symInt("q", 0, 4)); cmp(seq(look(seq(quant(atom(x), p), quant(atom(y), q)), false), B()), symStr("t", 3, "ab")); }, 3);
scenario("any_reference", function () { var x = conc(symInt("x", 2, 6)), p = conc(symInt("p", 0, 6)), q = conc(symInt("q", 0, 5)), f = conc(symInt("f", 0, 1)), a = quant(atom(x), p), b = quant(nc(br(1)), q); cmp(f ? seq(a, b, B()) : seq(b, a, B()), symStr("t", 3, "ab")); }, 3);
scenario("backtracking_limits", function () { var n = conc(symInt("n", 0, 40)), s = "a".repeat(n); eq(/^(?:a{2})*$/.test(s), n % 2 === 0, "even"); eq(/^(a?){3}(a*)$/.exec(s)[2].length, n > 3 ? n - 3 : 0, "rest"); eq(/^(.*?)(.{0,5})$/.exec(s)[2].length, n < 5 ? n : 5, "lazy then greedy"); eq(/a{5,7}/.exec(s) ? /a{5,7}/.exec(s)[0].length : -1, n < 5 ? -1 : n < 7 ? n : 7, "bounded"); eq(/^(?=(a{3})*$)/.test(s), n % 3 === 0, "lookahead"); });
scenario("long_groups", function () { var n = conc(symInt("n", 1, 30)), p = "", s = "", i; for (i = 0; i < n; i++) { p += "(" + String.fromCharCode(97 + i % 26) + ")" + (i % 3 ? "" : "?"); s += String.fromCharCode(97 + i % 26) } var m = new RegExp("^" + p + "\\" + n + "?$").exec(s); eq(m.length, n + 1, "groups"); for (i = 1; i <= n; i++) eq(m[i], s[i - 1], "group"); eq(new RegExp(p + "\\" + n).exec(s + s[n - 1])[0].length, n + 1, "reference by number"); });
