// JSON.stringify: exact text, filters, and JSON.parse(JSON.stringify(x)) restoring every JSON value.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
function h4(c) { var r = "", i; for (i = 0; i < 4; i++) { var d = c % 16; r = String.fromCharCode(d < 10 ? 48 + d : 87 + d) + r; c = (c - d) / 16 } return r }
function same(a, b) { if (typeof a !== "object" || a === null) return a === b; if (Array.isArray(a) !== Array.isArray(b)) return false; var k = Object.keys(a), m = Object.keys(b); if (k.length !== m.length) return false; for (var i = 0; i < k.length; i++) if (k[i] !== m[i] || !same(a[k[i]], b[k[i]])) return false; return true }
scenario("unit_text", function () { var c = symInt("c", 0, 65535), s = JSON.stringify(String.fromCharCode(c)), k = [8, 9, 10, 12, 13, 34, 92].indexOf(c), e; if (c === 8) e = "\\b"; else if (c === 9) e = "\\t"; else if (c === 10) e = "\\n"; else if (c === 12) e = "\\f"; else if (c === 13) e = "\\r"; else if (c === 34) e = '\\"'; else if (c === 92) e = "\\\\"; else if (c < 32 || c >= 0xd800 && c < 0xe000) e = "\\u" + h4(c); else e = String.fromCharCode(c); eq(s, '"' + e + '"', "quoted"); });
scenario("unit_pair", function () { var s = symStr("s", 2, "\ud7ff\ud801\udbff\udc01\udfff\ue000"), a = s.charCodeAt(0), b = s.charCodeAt(1), S = function (c) { return c >= 0xd800 && c < 0xe000 }, e = a >= 0xd800 && a < 0xdc00 && b >= 0xdc00 && b < 0xe000 ? s : (S(a) ? "\\u" + h4(a) : s[0]) + (S(b) ? "\\u" + h4(b) : s[1]); eq(JSON.stringify(s), '"' + e + '"', "well formed"); });
scenario("string_roundtrip", function () { var s = symStr("s", 2, "\u0000\u0080\ud7f0\ue010\ufff0\uffff"); eq(JSON.parse(JSON.stringify(s)), s, "string"); }, 4);
scenario("key_roundtrip", function () { var s = symStr("s", 1, "\u0000\u0080\ud7fe\ud801\udfff\ue000"), o = {}; o[s] = 1; var r = JSON.parse(JSON.stringify(o)); eq(r[s], 1, "key"); eq(Object.keys(r).length, 1, "one key"); eq(JSON.stringify(o), "{" + JSON.stringify(s) + ":1}", "quoted like a string"); }, 2);
scenario("number_text", function () { var n = symInt("n", -2000, 2000); eq(JSON.stringify(n), String(n), "integer"); eq(JSON.stringify([n, -n]), "[" + String(n) + "," + String(-n) + "]", "array"); });
scenario("eighths", function () { var n = symInt("n", -200, 200), x = n / 8; eq(JSON.parse(JSON.stringify(x)), x === 0 ? 0 : x, "round trip"); });
scenario("scalars", function () { var k = conc(symInt("k", 0, 13)), v = [null, true, false, NaN, Infinity, -Infinity, -0, undefined, function () { }, Symbol(), new Number(3), new String("s"), new Boolean(false), Object(Symbol())][k], e = ["null", "true", "false", "null", "null", "null", "0", undefined, undefined, undefined, "3", '"s"', "false", "{}"][k]; eq(JSON.stringify(v), e, "top"); eq(JSON.stringify([v]), "[" + (e === undefined ? "null" : e) + "]", "in array"); eq(JSON.stringify({ a: v, b: 1 }), e === undefined ? '{"b":1}' : '{"a":' + e + ',"b":1}', "in object"); eq(JSON.stringify({ b: 1, a: v }), e === undefined ? '{"b":1}' : '{"b":1,"a":' + e + "}", "last"); });
scenario("bigint", function () { eq(err(function () { JSON.stringify(1n) }), "TypeError", "bigint"); eq(err(function () { JSON.stringify({ a: [Object(2n)] }) }), "TypeError", "boxed"); BigInt.prototype.toJSON = function () { return "b" + this }; var k = symInt("k", 0, 99); eq(JSON.stringify([BigInt(k)]), '["b' + k + '"]', "toJSON"); delete BigInt.prototype.toJSON; });
// every shape with up to 5 nodes
scenario("shapes", function () { var left = 5; function build(d) { var k = d > 3 || left-- <= 0 ? 0 : conc(symInt("k" + left, 0, 4)); if (k === 0) return 7; if (k === 1) return "s\n"; if (k === 2) { var a = [], n = conc(symInt("n" + left, 0, 2)); for (var i = 0; i < n; i++) a.push(build(d + 1)); return a } if (k === 3) { var o = {}, n = conc(symInt("n" + left, 0, 2)); for (var i = 0; i < n; i++) o["k" + i] = build(d + 1); return o } return null } var v = build(0), t = JSON.stringify(v); check(same(JSON.parse(t), v), "round trip"); eq(JSON.stringify(JSON.parse(t)), t, "fixpoint"); var p = JSON.stringify(v, null, 2); check(same(JSON.parse(p), v), "indented round trip"); }, 12);
scenario("indent", function () { var n = symInt("n", -2, 13), w = n < 0 ? 0 : n > 10 ? 10 : n, g = "", i; for (i = 0; i < w; i++) g += " "; var e = w === 0 ? '{"a":[1,{"b":[]}],"c":{}}' : '{\n' + g + '"a": [\n' + g + g + '1,\n' + g + g + '{\n' + g + g + g + '"b": []\n' + g + g + '}\n' + g + '],\n' + g + '"c": {}\n}'; eq(JSON.stringify({ a: [1, { b: [] }], c: {} }, null, n), e, "indented"); eq(JSON.stringify({ a: [1, { b: [] }], c: {} }, null, new Number(n)), e, "boxed"); });
scenario("gap_string", function () { var n = conc(symInt("n", 0, 12)), g = "-=~abcdefghij".slice(0, n), w = g.slice(0, 10); eq(JSON.stringify([[1]], null, g), w ? "[\n" + w + "[\n" + w + w + "1\n" + w + "]\n]" : "[[1]]", "gap"); eq(JSON.stringify([1], null, new String(g)), w ? "[\n" + w + "1\n]" : "[1]", "boxed"); var k = conc(symInt("k", 0, 3)); eq(JSON.stringify([1], null, [true, null, {}, Symbol()][k]), "[1]", "ignored"); });
scenario("replacer_function", function () { var k = conc(symInt("k", 0, 5)), log = "", holder = null, o = { a: 1, b: [2, 3], c: { d: 4 } }, r = JSON.stringify(o, function (n, v) { log += n + ";"; if (n === "") check(this[""] === o, "root holder"); if (n === "1") check(this === o.b, "array holder"); if (n === ["a", "b", "0", "c", "d", "none"][k]) return undefined; return v }); eq(r, ['{"b":[2,3],"c":{"d":4}}', '{"a":1,"c":{"d":4}}', '{"a":1,"b":[null,3],"c":{"d":4}}', '{"a":1,"b":[2,3]}', '{"a":1,"b":[2,3],"c":{}}', '{"a":1,"b":[2,3],"c":{"d":4}}'][k], "text"); eq(log, k === 1 ? ";a;b;c;d;" : k === 3 ? ";a;b;0;1;c;" : ";a;b;0;1;c;d;", "order"); });
scenario("replacer_replaces", function () { var v = symInt("v", 0, 9), r = JSON.stringify([1, 2], function (n, x) { return n === "0" ? { z: v, y: { w: v } } : n === "z" ? x + 1 : x }); eq(r, '[{"z":' + (v + 1) + ',"y":{"w":' + v + "}},2]", "replacement is visited"); eq(JSON.stringify(1, function () { return undefined }), undefined, "root"); eq(JSON.stringify({ a: 1 }, function (n, x) { return n ? x : 5 }), "5", "root replaced"); });
scenario("replacer_list", function () { var m = conc(symInt("m", 0, 31)), l = [], all = ["b", "a", 1, new String("c"), new Number(2)], nm = ["b", "a", "1", "c", "2"], e = "", i; for (i = 0; i < 5; i++) if (m >> i & 1) { l.push(all[i]); e += (e ? "," : "") + '"' + nm[i] + '":' + [2, 1, 3, 4, 5][i] } eq(JSON.stringify({ a: 1, b: 2, 1: 3, c: 4, 2: 5, zz: 6 }, l), "{" + e + "}", "list order"); eq(JSON.stringify({ a: 1, b: 2 }, ["b", "b", {}, null, true, "a", "b"]), '{"b":2,"a":1}', "duplicates and other values ignored"); eq(JSON.stringify([{ a: 1, b: [{ a: 2, b: 3 }] }], ["a"]), '[{"a":1}]', "nested"); eq(JSON.stringify([4, 5], ["0"]), "[4,5]", "arrays unaffected"); });
scenario("to_json", function () { var k = conc(symInt("k", 0, 5)), n = symInt("n", 0, 99), log = "", o = { toJSON(key) { log += typeof key + ":" + key + ";"; return [n, "s", undefined, null, { toJSON() { return 9 } }, [n]][k] } }, e = [String(n), '"s"', undefined, "null", "{}", "[" + n + "]"][k]; eq(JSON.stringify(o), e, "top"); eq(log, "string:;", "key"); log = ""; eq(JSON.stringify({ p: o }), e === undefined ? "{}" : '{"p":' + e + "}", "property"); eq(log, "string:p;", "key"); log = ""; eq(JSON.stringify([o]), "[" + (e || "null") + "]", "element"); eq(log, "string:0;", "key"); eq(JSON.stringify({ toJSON: 5 }), '{"toJSON":5}', "not callable"); });
scenario("date_to_json", function () { var d = symInt("d", -400, 400); eq(JSON.stringify(new Date(d * 86400000)), '"' + new Date(d * 86400000).toISOString() + '"', "date"); eq(JSON.stringify(new Date(NaN)), "null", "invalid"); });
scenario("cycles", function () { var d = conc(symInt("d", 0, 4)), arr = symBool("arr"), root = arr ? [] : {}, c = root, i; for (i = 0; i < d; i++) { var n = i % 2 ? [] : {}; if (Array.isArray(c)) c[0] = n; else c.k = n; c = n } if (Array.isArray(c)) c[0] = root; else c.k = root; eq(err(function () { JSON.stringify(root) }), "TypeError", "cycle"); var s = { v: 1 }; eq(JSON.stringify([s, s, { s }]), '[{"v":1},{"v":1},{"s":{"v":1}}]', "shared but not cyclic"); });
scenario("property_filter", function () { var e = symBool("e"), p = Object.create({ inh: 1 }); p.own = 2; Object.defineProperty(p, "hid", { value: 3, enumerable: e }); p[Symbol("s")] = 4; eq(JSON.stringify(p), e ? '{"own":2,"hid":3}' : '{"own":2}', "own enumerable string keys"); var g = 0; eq(JSON.stringify({ get x() { g++; return 5 } }), '{"x":5}', "getter"); eq(g, 1, "once"); eq(JSON.stringify({ 2: "b", z: 1, 1: "a" }), '{"1":"a","2":"b","z":1}', "key order"); });
scenario("mutation", function () { var k = conc(symInt("k", 0, 3)), o = { a: { toJSON() { if (k === 0) delete o.b; if (k === 1) o.b = 9; if (k === 2) o.d = 4; if (k === 3) o.c = undefined; return 1 } }, b: 2, c: 3 }; eq(JSON.stringify(o), ['{"a":1,"c":3}', '{"a":1,"b":9,"c":3}', '{"a":1,"b":2,"c":3}', '{"a":1,"b":2}'][k], "keys are listed first, values read late"); });
scenario("proxy", function () { var n = conc(symInt("n", 0, 3)), a = [1, 2, 3].slice(0, n), log = ""; eq(JSON.stringify(new Proxy(a, {})), JSON.stringify(a), "array proxy"); eq(JSON.stringify(new Proxy({ a: 1 }, { get(t, k) { log += String(k) + ";"; return t[k] } })), '{"a":1}', "object proxy"); eq(log, "toJSON;a;", "reads"); var r = Proxy.revocable({}, {}); r.revoke(); eq(err(function () { JSON.stringify(r.proxy) }), "TypeError", "revoked"); });
scenario("boxed_conversion", function () { var n = symInt("n", 0, 9), a = new Number(1), s = new String("x"), b = new Boolean(true); a.valueOf = function () { return n }; s.toString = function () { return "t" + n }; b.valueOf = function () { return false }; eq(JSON.stringify([a, s, b]), "[" + n + ',"t' + n + '",true]', "Number and String are converted, Boolean is not"); });
scenario("arrays", function () { var m = conc(symInt("m", 0, 15)), a = [], e = "", i; a.length = 4; for (i = 0; i < 4; i++) { if (m >> i & 1) a[i] = i; e += (i ? "," : "") + (m >> i & 1 ? i : "null") } a.extra = 1; eq(JSON.stringify(a), "[" + e + "]", "holes are null, extras dropped"); eq(JSON.stringify({ length: 2, 0: 1 }), '{"0":1,"length":2}', "array-likes are objects"); eq(JSON.stringify(new Uint8Array([1, 2])), '{"0":1,"1":2}', "typed array"); eq(JSON.stringify(new Map([[1, 2]])), "{}", "map"); });
scenario("deep", function () { var n = conc(symInt("n", 0, 80)), v = 1, i; for (i = 0; i < n; i++) v = i % 2 ? [v] : { k: v }; var t = JSON.stringify(v), r = JSON.parse(t); for (i = n - 1; i >= 0; i--) r = i % 2 ? r[0] : r.k; eq(r, 1, "restored"); eq(t.length, 1 + 2 * n + 4 * Math.ceil(n / 2), "length"); });
// The whole serialization algorithm (property lists, indentation, skipped values, toJSON) over symbolic trees.
scenario("serializer", function () {
  var left = 5, tag = 0, KEYS = ["a", "b", "1"];
  function build(d) {
    var k = left-- <= 0 || d > 2 ? 0 : conc(symInt("k" + left, 0, 8)), n, i, o;
    if (k === 0) return ++tag;
    if (k === 1) return undefined;
    if (k === 2) return function () { };
    if (k === 3) return Symbol();
    if (k === 4) return { toJSON() { return left & 1 ? undefined : "J" } };
    if (k === 5) return null;
    if (k === 6) { o = [], n = conc(symInt("n" + left, 0, 2)); for (i = 0; i < n; i++) o.push(build(d + 1)); return o }
    o = {}; n = conc(symInt("m" + left, 0, 7)); for (i = 0; i < 3; i++) if (n >> i & 1) o[KEYS[i]] = build(d + 1); return o;
  }
  var gap = ["", " ", "--"][conc(symInt("g", 0, 2))], list = [undefined, ["b", "a"], ["1"], []][conc(symInt("l", 0, 3))];
  function ser(v, ind) {
    var out = [], i, s, deep = ind + gap, keys;
    if (v && typeof v === "object" && v.toJSON) v = v.toJSON();
    if (v === null) return "null";
    if (v === undefined || typeof v === "function" || typeof v === "symbol") return undefined;
    if (typeof v === "number") return String(v);
    if (typeof v === "string") return '"' + v + '"';
    if (Array.isArray(v)) for (i = 0; i < v.length; i++) { s = ser(v[i], deep); out.push(s === undefined ? "null" : s) }
    else {
      keys = list; if (!keys) { keys = []; if ("1" in v) keys.push("1"); if ("a" in v) keys.push("a"); if ("b" in v) keys.push("b") }
      for (i = 0; i < keys.length; i++) { s = ser(v[keys[i]], deep); if (s !== undefined) out.push('"' + keys[i] + '":' + (gap ? " " : "") + s) }
    }
    var A = Array.isArray(v) ? "[" : "{", B = Array.isArray(v) ? "]" : "}";
    if (!out.length) return A + B;
    return gap ? A + "\n" + deep + out.join(",\n" + deep) + "\n" + ind + B : A + out.join(",") + B;
  }
  var v = build(0); eq(JSON.stringify(v, list, gap), ser(v, ""), "text");
}, 12);
scenario("siblings_after", function () {
  var gap = ["", " ", "--"][conc(symInt("g", 0, 2))], list = [undefined, ["a", "b"], ["b", "z"]][conc(symInt("l", 0, 2))], k = conc(symInt("k", 0, 8)), arr = symBool("arr"), nl = gap ? "\n" : "", i1 = gap, i2 = gap + gap, sp = gap ? " " : "";
  var inner = [{}, { x: 1 }, { x: undefined }, { a: undefined }, [], [undefined], { x: function () { } }, { a: {} }, { b: [] }][k];
  var it = k === 7 && !(list && list[0] === "b") ? "{" + nl + i2 + '"a":' + sp + "{}" + nl + i1 + "}" : k === 8 ? "{" + nl + i2 + '"b":' + sp + "[]" + nl + i1 + "}" : k === 1 && !list ? "{" + nl + i2 + '"x":' + sp + "1" + nl + i1 + "}" : k === 4 ? "[]" : k === 5 ? "[" + nl + i2 + "null" + nl + i1 + "]" : "{}";
  if (arr) eq(JSON.stringify([inner, [8]], list, gap), "[" + nl + i1 + it + "," + nl + i1 + "[" + nl + i2 + "8" + nl + i1 + "]" + nl + "]", "array");
  else { var o = { a: inner, b: [8] }, t = '"b":' + sp + "[" + nl + i2 + "8" + nl + i1 + "]"; eq(JSON.stringify(o, list, gap), "{" + nl + (list && list[0] === "b" ? "" : i1 + '"a":' + sp + it + "," + nl) + i1 + t + nl + "}", "object"); }
}, 2);
