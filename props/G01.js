/* G01: a garbage collection at any allocation changes nothing. Every snippet returns a string; it is run once
 * undisturbed and once with a collection at a symbolic allocation. The engine marks memory as freed, so a use of a
 * freed object is reported as an invalid access. */
var SN = {
  arrays: function () {
    var a = [3, 1, 2].map(function (x) { return { v: "v" + x }; });
    a.sort(function (x, y) { return ("" + x.v).localeCompare ? (x.v < y.v ? -1 : 1) : 0; });
    var b = a.concat([{ v: "c" + a.length }], [[1.5, { v: "d" }]]).flat().filter(function (x) { return ("q" + x.v).length > 2; });
    b.splice(1, 1, { v: "s" + b.length }, { v: "t" });
    return b.map(function (x) { return x.v; }).join() + b.reduce(function (s, x) { return { v: s.v + x.v }; }, { v: "" }).v + b.slice(1).reverse().length + Array.from("xyz", function (c) { return c + c; }).join("") + Array.of({}, "y" + b.length).length + b.flatMap(function (x) { return [x.v + 1, [x.v]]; }).join("/") + b.entries().next().value;
  },
  arrayiter: function () {
    var s = "", a = ["a" + 1, "b" + 2, { toString: function () { return "o" + s.length; } }];
    for (var x of a) { s += x; if (a.length < 5) a.push("p" + a.length); }
    for (var [i, v] of a.entries()) s += i + ":" + v;
    a.forEach(function (v, i) { s += [v, i].join("-"); });
    return s + a.find(function (v) { return ("" + v)[0] === "p"; }) + a.copyWithin(0, 1).fill("f" + s.length, 3).join() + a.lastIndexOf("p" + 3) + a.includes("b" + 2) + [..."ab", ...a].length + Array.from({ length: 2, 0: "z" + 1 }, String);
  },
  strings: function () {
    var s = "Hello, " + "World" + 1;
    return s.split("").reverse().join("") + s.split(/[,o]\s*/).join("|") + s.replace("World", function (m) { return m.toUpperCase() + m.length; }) + s.padStart(20, "ab") + s.repeat(2) + s.concat(1, {}, [2, "x"]) + s.slice(2, 5) + s.substring(3) + s.trim().normalize() + `t${s}u${[1, 2]}v` + String.raw`a${1}\n${{}}` + s.at(-1) + s.codePointAt(1) + String.fromCodePoint(97, 0x1F600).length + s.replaceAll("l", "LL$&") + s.localeCompare("Hello") + [...s].length + encodeURIComponent(s + "é") + parseInt("12" + s.length) + parseFloat("1." + s.length);
  },
  regexps: function () {
    var r = new RegExp("(?<y>\\d+)-(?<m>" + "\\d+)", "g"), s = "2020-12 x 2021-" + 11 + " y", o = "", m;
    while ((m = r.exec(s))) o += m.groups.y + m[2] + m.index + JSON.stringify(m);
    for (m of s.matchAll(/(\d)(?=-)/g)) o += m[1] + m.input.length;
    return o + s.replace(/(?<a>\d+)-(\d+)/g, function (a, b, c, d, e, f) { return f.a + "/" + c; }) + s.replace(r, "$<m>.$<y>$`") + s.match(/\d+/g).join() + s.search(/x/) + s.split(/(-)/).join("+") + /a(?<=(.)a)|[^]\1/u.exec("ba") + new RegExp(/x/, "y").flags + RegExp("[" + "a-z]+", "iu").exec(s) + r.toString();
  },
  objects: function () {
    var o = { a: "x" + 1, ["b" + 2]: [1], get c() { return { d: "e" + this.a }; }, ...{ q: "r" + 1 }, ..."hi" };
    var p = Object.assign({}, o, { z: { w: "w" + 2 } }), k;
    Object.defineProperty(p, "acc", { enumerable: true, get: function () { return "g" + this.a; } });
    Object.defineProperties(p, { h1: { value: "v" + 1, enumerable: true }, h2: { value: { t: 1 } } });
    var s = Object.entries(p).join(";") + JSON.stringify(Object.getOwnPropertyDescriptors(p)) + Object.keys(Object.fromEntries([["k" + 1, {}], ["k" + 2, []]])).join();
    for (k in Object.create(p, { own: { value: "n" + 1, enumerable: true } })) s += k;
    var { a, ...rest } = p, { c: { d = "dd" } = {} } = o;
    return s + a + Object.keys(rest) + d + Object.getOwnPropertyNames(Object.freeze(p)) + Object.isFrozen(p) + Object.values(rest).length + delete rest.q + ("q" in rest) + Object.prototype.toString.call(p) + Object.is(p, p) + rest.acc;
  },
  collections: function () {
    var m = new Map([["a" + 1, { v: 1 }], [{ k: 1 }, "o" + 1]]), st = new Set(["x" + 1, "y" + 1, "x1"]), s = "", w = new WeakMap(), ws = new WeakSet(), k = { id: "k" + 1 };
    m.set("b" + 2, [1]).set(NaN, "n" + 1); m.delete("a1"); w.set(k, { v: "w" + 1 }); ws.add(k); w.set({}, { v: "lost" });
    for (var [x, y] of m) { s += String(x) + y; if (m.size < 6) m.set("g" + m.size, { toString: function () { return "G" + s.length; } }); }
    st.forEach(function (v) { s += v; if (st.size < 4) st.add("z" + st.size); });
    return s + [...st].join() + [...m.keys()].length + w.get(k).v + ws.has(k) + w.has({}) + m.get(NaN) + Array.from(m.entries()).length + new Map(m).size + new Set(st.values()).size + m.has("b2");
  },
  json: function () {
    var o = JSON.parse('{"a":[1,{"b":"\\u0041x"},null,"s"],"c":{"d":-1.5e3,"e":[[],{}]}}', function (k, v) { return typeof v === "string" ? v + k : Array.isArray(v) ? v.concat("p" + k) : v; });
    o.t = { toJSON: function (k) { return { k: "T" + k }; } }; o.n = [undefined, function () {}, Symbol("x")]; o.s = new String("w" + 1);
    return JSON.stringify(o) + JSON.stringify(o, null, "  ") + JSON.stringify(o, ["a", "c", "d"]) + JSON.stringify({ a: [{ b: 1 }] }, function (k, v) { return k === "b" ? { w: "z" + v, t: [this.b] } : v; }, 1);
  },
  functions: function () {
    function mk(n) { var loc = "l" + n; return function () { return loc + arguments.length + [].slice.call(arguments).join(""); }; }
    var fs = [1, 2].map(mk), b = fs[0].bind({}, "p" + 1, ["q"]), s = b("x") + fs[1].call(null, {}, "z" + 1) + fs[0].apply(0, ["y" + 1, [2]]);
    function dflt(a, b = a + "d", { c = b + "c", ...r } = { r: "R" + a }, ...rest) { arguments[0] = "chg" + a; return [a, b, c, r.r, rest, arguments[0]].join(); }
    s += dflt("A" + 1) + dflt("B" + 1, "b", {}, "r1" + 1, { t: 1 }) + new Function("a", "b", "return a+b+this.constructor")("n" + 1, []) + eval("(function(x){return x+'ev'})")("q" + 1);
    s += (function f(n) { return n ? { v: f(n - 1).v + n } : { v: "z" + n }; })(4).v + ((a, ...b) => a + b)("ar" + 1, {}, [1]) + mk.toString().length + Reflect.construct(function (x) { this.x = "c" + x; }, ["k" + 1]).x;
    with ({ wv: "wv" + 1 }) { s += wv; }
    for (let i = 0, c = []; i < 2; i++) { c.push(() => i + "i"); s += c[0](); }
    return s;
  },
  classes: function () {
    class A { #p = "p" + 1; static #n = 0; f = { v: "f" + A.#n++ }; ["c" + 1] = "cc" + this.f.v; constructor(x) { this.x = ["x" + x]; } get p() { return this.#p + this.x; } set p(v) { this.#p = v; } #m() { return "m" + this.#p; } m() { return this.#m(); } static s = "st" + A.name; static { this.blk = ["b" + A.s]; } *[Symbol.iterator]() { yield "it" + this.p; yield { v: this.m() }; } }
    class B extends A { g = () => super.m() + this.f.v; constructor() { super({ toString: () => "ts" + 1 }); this.q = new.target.name; } m() { return "B" + super.m() + super.p; } static t() { return super.s + "t"; } }
    var b = new B(), s = b.m() + b.p + b.g() + b.q + B.t() + A.blk + b.c1;
    b.p = "np" + 1; for (var x of b) s += x.v || x;
    class E extends Error { constructor(m) { super(m); this.name = "E" + m; } } class R extends Array { last() { return this[this.length - 1]; } }
    try { throw new E("msg" + 1, { cause: {} }); } catch (e) { s += e + (e instanceof E); }
    return s + R.from([1, "l" + 1]).map(function (x) { return { toString: function () { return "r" + x; } }; }).last() + (class { static x = "anon" + 1; }).x + { __proto__: { z: "z" + 1 }, y() { return super.z; } }.y();
  },
  generators: function () {
    function* g(n) { var loc = { v: "g" + n }; try { var r = yield [loc.v]; loc.v += r; yield* inner(loc); yield loc; } catch (e) { yield "c" + e.m + loc.v; } finally { loc = { v: "fin" + n }; yield loc.v; } return loc; }
    function* inner(l) { yield l.v + "i"; yield { w: l.v }; return ["ret"]; }
    var s = "", a = g(1), x;
    for (x of g(2)) s += JSON.stringify(x);
    s += a.next().value; s += a.next("snt" + 1).value; s += JSON.stringify(a.throw({ m: "thr" + 1 })) + JSON.stringify(a.return({ rv: "rv" + 1 })) + JSON.stringify(a.next());
    var [p, ...q] = inner({ v: "de" + 1 }); s += p + q.length + Array.from(g(3)).length + Math.max(...(function* () { yield 1; yield 2; })()) + [...inner({ v: "sp" + 1 })].length;
    var o = { *[Symbol.iterator]() { try { yield "o" + 1; yield "o" + 2; } finally { s += "cl" + s.length; } } };
    for (x of o) { s += x; break; }
    lbl: for (x of [1, 2]) for (var y of o) { s += x + y; continue lbl; }
    return s;
  },
  exceptions: function () {
    var s = "";
    function f(n) { try { if (n === 0) throw { m: "E" + n }; return f(n - 1) + "r" + n; } catch (e) { s += e.m; if (n < 2) throw { m: e.m + n }; return "c" + e.m; } finally { s += "f" + n; } }
    s += f(3);
    try { null.x; } catch (e) { s += e.name + (e.message.length > 0) + e.constructor.name; }
    try { undefinedVar; } catch ({ name, message: m = "none" }) { s += name + (typeof m); }
    try { eval("var 1"); } catch (e) { s += e.name; }
    try { throw new AggregateError([new RangeError("r" + 1)], "ag" + 1); } catch (e) { s += e.errors[0].message + e; }
    try { decodeURIComponent("%"); } catch (e) { s += e.name; } try { new Array(-1); } catch (e) { s += e.name; } try { "x".repeat(-1); } catch (e) { s += e.name; } try { BigInt("z"); } catch (e) { s += e.name; } try { Symbol() + ""; } catch (e) { s += e.name; }
    try { JSON.parse("{"); } catch (e) { s += e.name; } try { new RegExp("("); } catch (e) { s += e.name; } try { [].reduce(function () {}); } catch (e) { s += e.name; } try { class A extends null { constructor() { super(); } } new A; } catch (e) { s += e.name; }
    return s;
  },
  proxies: function () {
    var log = [], h = {}; ["get", "set", "has", "deleteProperty", "ownKeys", "getOwnPropertyDescriptor", "defineProperty", "getPrototypeOf"].forEach(function (t) { h[t] = function () { log.push(t + arguments.length); return Reflect[t].apply(null, arguments); }; });
    var p = new Proxy({ a: "a" + 1, b: ["b" + 1] }, h), s = p.a + p.b; p.c = { d: "d" + 1 }; delete p.a;
    for (var k in p) s += k;
    s += Object.keys(p) + ("b" in p) + JSON.stringify(p) + Object.entries({ ...p }).join() + (p instanceof Object);
    var f = new Proxy(function (x) { return { v: "f" + x }; }, { apply: function (t, th, a) { return [t.apply(th, a.concat("z"))]; }, construct: function (t, a) { return { c: "c" + a }; } }), r = Proxy.revocable({}, {});
    r.revoke(); try { r.proxy.x; } catch (e) { s += e.name; }
    return s + f(1)[0].v + new f(2).c + log.join() + Reflect.ownKeys(p).length + Reflect.apply(f, 0, ["q" + 1])[0].v;
  },
  typed: function () {
    var b = new ArrayBuffer(16), u = new Uint8Array(b, 2, 6), d = new DataView(b), s = "";
    u.set([1, 2, 300]); u.set(new Uint8Array([7, 8]), 3); d.setFloat64(8, 1.5); d.setBigInt64(0, 5n);
    s += u.join() + u.map(function (x) { return x * 2; }).subarray(1, 3) + Array.from(u.slice(1, 4)) + d.getFloat64(8) + d.getUint16(2) + d.getBigUint64(0);
    s += new Float32Array([1.5, 2.5].map(function (x) { return { valueOf: function () { return x; } }; })).join() + new BigInt64Array([1n, -2n]).join() + Int16Array.from("123", function (x) { return +x; }).sort(function (a, b) { return b - a; }) + u.filter(function (x) { return x > 1; }).length + [...u.entries()].length + b.slice(1, 5).byteLength + u.fill(9, 1, 2) + u.reduceRight(function (a, x) { return a + "." + x; }, "z" + 1);
    return s + new Uint16Array(new Set([1, 2])).length + u.toString() + Uint8Array.of(1, 2).reverse();
  },
  numbers: function () {
    var b = 2n ** 70n + BigInt("12345678901234567890"), s = b.toString() + b.toString(36) + (b * b - b / 7n % 11n) + (-b >> 3n) + (b & 255n) + BigInt.asIntN(20, b) + BigInt.asUintN(66, -b) + (b > 5) + (b == "1180591620717411303424") + typeof -b;
    return s + (1.5).toFixed(3) + (12345.678).toExponential(2) + (0.1 + 0.2).toString() + (255).toString(16) + (0.5).toString(2) + (1e21).toPrecision(5) + Number("0x1f" + 1) + new Number(7) + Math.hypot(3, 4) + Math.max.apply(null, [1, "2" + 1]) + new Date(86400000).toISOString() + new Date(2020, 1, 29, 12).toString() + Date.parse("2020-01-01T00:00:00Z") + new Date(0).toUTCString() + JSON.stringify(new Date(1)) + Date.UTC(2000, 1) + isNaN("x" + 1);
  },
  symbols: function () {
    var y = Symbol("d" + 1), r = Symbol.for("reg" + 1), o = { [y]: "v" + 1, [r]: { t: 1 }, [Symbol.toPrimitive](h) { return "prim" + h; }, get [Symbol.toStringTag]() { return "tag" + 1; } };
    var s = o[y] + `${o}` + (o + "x") + Object.prototype.toString.call(o) + y.toString() + y.description + Symbol.keyFor(r) + (Symbol.for("reg" + 1) === r) + Object.getOwnPropertySymbols(o).length + Reflect.ownKeys(o).length + Object(y).description;
    class Even { static [Symbol.hasInstance](n) { return ("" + n).length % 2 === 0; } } var sp = { [Symbol.isConcatSpreadable]: true, length: 2, 0: "s" + 1, 1: {} };
    class A extends Array { static get [Symbol.species]() { return function (n) { return { length: 0, q: "sp" + n }; }; } }
    return s + ("ab" instanceof Even) + [].concat(sp).length + new A(1, 2, 3).slice(1).q + "abc".replace({ [Symbol.replace](s, r) { return s + r + 1; } }, "rep" + 1) + "a-b".split({ [Symbol.split](s) { return [s + 1]; } }) + [..."ab"[Symbol.iterator]()].join("+");
  },
  evals: function () {
    var s = "", loc = "loc" + 1;
    s += eval("var ev = { v: 'ev' + loc }; ev.v") + ev.v + eval("let le = 'le' + loc; (function () { return le; })")() + (0, eval)("typeof loc") + eval("class Q { static s = 'q' + loc } Q.s") + eval("`t${loc}`") + eval("[...loc].map(x => x + x)") + eval("/" + "l(o)/.exec(loc)[1]");
    s += new Function("a = 'da' + 1", "...r", "{ let x = a + r; return () => x }")(undefined, 1, {})() + eval("function fe() { return arguments.length + 'fe' } fe")(1, 2) + fe(1) + eval("label: for (let i of ['a' + 1, 'b']) { for (;;) { s += i; continue label } }") + eval("switch ('c' + 1) { case 'c1': let z = ['z']; z }");
    return s + eval("(function* () { yield* [1, 'y' + loc] })().next().value") + eval("'use strict'; (() => { try { undeclared = 1 } catch (e) { return e.name } })()") + eval("({ get a() { return 'ga' + loc }, set a(v) {}, ['k' + 1]: 2, async *b() {}, 'q-r': 3 })").a;
  },
  fresharray: function () {
    var n = 0, s = "";
    function fr(x) { return { v: "fr" + x + n++, toString: function () { return "T" + this.v; } }; }
    function al(k) { var o = { get length() { fr("len"); return { valueOf: function () { fr(1); return k; } }; } }; for (let i = 0; i < k; i++) Object.defineProperty(o, i, { get: function () { return fr(i); }, set: function (v) { this["s" + i] = v; }, configurable: true, enumerable: true }); return o; }
    var cb = function (x) { fr("cb"); return fr(x); };
    ["map", "forEach", "filter", "some", "every", "find", "findIndex", "flatMap"].forEach(function (m) { s += m + String(Array.prototype[m].call(al(2), cb)); });
    ["join", "slice", "concat", "reverse", "toString", "indexOf", "lastIndexOf", "includes", "keys", "flat", "at"].forEach(function (m) { if ([][m]) s += m + String(Array.prototype[m].call(al(2), fr("a"), fr("b"))); });
    s += Array.prototype.reduce.call(al(3), function (a, b) { return fr(a.v + b.v); }).v + Array.prototype.reduceRight.call(al(3), function (a, b) { return fr(b.v); }, fr("init")).v;
    s += Array.from(al(2), cb).length + Array.from({ [Symbol.iterator]: function () { var i = 0; return { next: function () { return fr("x"), { value: fr("it"), done: i++ > 2 }; }, return: function () { return fr("r"); } }; } }, cb).map(String).join();
    try { s += Array.prototype.splice.call(al(3), 1, 1, fr("ins")).map(String); } catch (e) { s += e.name; } try { Array.prototype.push.call(al(1), fr("p"), fr("q")); } catch (e) { s += e.name; } try { Array.prototype.sort.call(al(2), function (a, b) { return fr("c").v < b.v ? -1 : 1; }); } catch (e) { s += e.name; }
    return s + String(Reflect.construct(Array, [fr("c"), fr("d")])) + [fr(1), [fr(2), [fr(3)]]].flat(Infinity).join() + Array.prototype.unshift.call({ length: 1, 0: fr("u") }, fr("n"));
  },
  freshstring: function () {
    var n = 0, s = "", S = String.prototype;
    function ts(x) { return { toString: function () { return "s" + x + n++; }, valueOf: function () { return ts(x); } }; }
    ["charAt", "concat", "includes", "indexOf", "lastIndexOf", "localeCompare", "match", "normalize", "padEnd", "padStart", "replace", "search", "slice", "split", "startsWith", "substring", "toUpperCase", "trim", "replaceAll", "codePointAt"].forEach(function (m) { try { s += String(S[m].call(ts(m), ts("a"), ts("b"))); } catch (e) { s += e.name; } });
    s += S.padEnd.call(ts(1), { valueOf: function () { n++; return 12; } }, ts("f")) + "abc".replace({ toString: function () { return "b" + (n++, ""); } }, function (a) { return ts(a); }) + S.split.call(ts(1), "", { valueOf: function () { return "2" + (n++, ""); } }) + String.raw({ raw: { get length() { return ts("") && 3; }, get 0() { return ts("r0"); }, get 1() { return ts("r1"); }, get 2() { return ts("r2"); } } }, ts("x"), ts("y"));
    s += `${ts(1)}-${ts(2)}` + (ts(1) + ts(2)) + (ts(1) < ts(2)) + [ts(1), ts(2)] + Symbol(ts("d")).toString() + ({ [ts("k")]: ts("v") })["sk" + (n - 1)] + parseInt({ toString: function () { return "1" + n + "px"; } }) + Number({ valueOf: function () { return "0x" + (n++, "f"); } }) + encodeURI(ts("é")) + decodeURIComponent(ts("%41")) + new RegExp(ts("["+"]"), { toString: function () { return "g" + "i"; } }).source;
    return s;
  },
  freshregexp: function () {
    var n = 0, s = "", R = RegExp.prototype, rx;
    function res(i) { return { get 0() { return "m" + n++; }, get index() { return { valueOf: function () { return i + (n++, 0); } }; }, get length() { return 2 + (n++, 0); }, get 1() { return { toString: function () { return "cap" + n++; } }; }, get groups() { return { get g() { return "grp" + n++; } }; } }; }
    function mk(k, g) { var i = 0; return { __proto__: R, get flags() { return (g ? "g" : "") + (n++, ""); }, get global() { return g; }, get unicode() { return ""; }, get lastIndex() { return { valueOf: function () { return n++, 0; } }; }, set lastIndex(v) { s += "L"; }, get exec() { return function () { return i++ < k ? res(i) : null; }; } }; }
    s += R[Symbol.replace].call(mk(2, true), "abcdefgh", "[$1$<g>$&]") + R[Symbol.replace].call(mk(1, false), "abcdefgh", function () { n++; return { toString: function () { return "fn" + n; } }; });
    s += R[Symbol.match].call(mk(2, true), "abcdefgh") + R[Symbol.match].call(mk(1, false), "abc").groups.g + R[Symbol.search].call(mk(1, false), "abc") + R.test.call(mk(1), "x");
    rx = /(?<k>[a-c])(?<l>\d)?/g; rx.constructor = function (p, f) { this.q = "q" + n++; rx = new RegExp(p.source + (n++, ""), f); return rx; };
    try { s += R[Symbol.split].call(rx, "1a2b3c", { valueOf: function () { return n++, 5; } }); } catch (e) { s += e.name; }
    for (var m of R[Symbol.matchAll].call(/(?<q>.)(.)/g, { toString: function () { return "wxyz" + n; } })) s += m + m.groups.q;
    return s + "aXbX".replace(/(?<u>X)/g, function () { var a = [].slice.call(arguments); return JSON.stringify(a[a.length - 1]) + n++; }) + "a1b2".split(/(\d)/);
  },
  freshobjects: function () {
    var n = 0, s = "";
    function k(x) { return { toString: function () { return "k" + x + n++; } }; }
    function px() { return new Proxy({}, { ownKeys: function () { return ["a" + n, "b" + n]; }, getOwnPropertyDescriptor: function (t, p) { return { value: { p: p + n++ }, enumerable: true, configurable: true }; }, get: function (t, p) { return typeof p === "symbol" ? undefined : { g: p + n, toString: function () { return "g" + n++; } }; }, has: function () { return !!("" + n++); }, defineProperty: function (t, p, d) { s += p + Object.keys(d); return true; }, deleteProperty: function () { return !!("" + n++); } }); }
    s += JSON.stringify(Object.entries(px())) + Object.keys(Object.assign({}, px())) + Object.values({ ...px() }).join() + JSON.stringify(Object.getOwnPropertyDescriptors(px()));
    for (var x in px()) s += x;
    s += Object.keys(Object.fromEntries({ [Symbol.iterator]: function () { var i = 0; return { get next() { return function () { return { get done() { return i > 2; }, get value() { i++; return { get 0() { return k(i); }, get 1() { return { z: n++ }; } }; } }; }; } }; } }));
    Object.defineProperties(px(), { get q() { return { get value() { return "v" + n++; }, get writable() { return {}; } }; }, get r() { return { get get() { return function () {}; } }; } });
    var o = { get [k("c")]() { return 1; }, set [k("d")](v) {}, [k("e")]() { return k("f"); } };
    s += Object.keys(o) + Reflect.has(o, k("g")) + Reflect.set(o, k("h"), k("i")) + Reflect.get(o, k("j")) + Reflect.defineProperty(o, k("l"), { get value() { return k("m"); } }) + Reflect.deleteProperty(o, k("n")) + (k("o") in o) + o.hasOwnProperty(k("p")) + delete o[k("r")] + Object.prototype.propertyIsEnumerable.call(o, k("t")) + (o[k("u")] ||= k("w"));
    var { [k("x")]: y = k("y"), ...rest } = { a: k("z"), get b() { return k("1"); } }; s += y + Object.values(rest).join();
    var m = new Map({ [Symbol.iterator]: function () { var i = 0; return { next: function () { return { done: i++ > 1, value: [k("m"), k("v")] }; } }; } }), st = new Set((function* () { yield k(1); yield "s" + n++; })()), ws = new WeakMap([[k("w"), k("x")]]); for (x of m) s += x; for (x of st) s += x;
    return s + Object.getOwnPropertyNames(Object.create(k("p"), { a: { value: k("a") }, get b() { return { get enumerable() { return k(1); } }; } })) + JSON.stringify({ get a() { return { toJSON: function () { return { j: "j" + n++ }; } }; }, b: [k(1), { get c() { return ["c" + n++]; } }] }) + JSON.parse('{"a":{"b":["x",1]}}', function (q, v) { return q === "b" ? { r: q + n++ } : v; }).a.b.r;
  },
  freshtyped: function () {
    var n = 0, s = "";
    function v(x) { return { valueOf: function () { return +("" + x + (n++, "")); } }; }
    s += new Uint8Array([v(1), v(2)]).join() + Int8Array.from({ [Symbol.iterator]: function () { var i = 0; return { next: function () { return { value: v(i), done: i++ > 2 }; } }; } }, function (x) { return v(x + 1); }) + Uint8Array.of(v(3), v(4)).map(function (x) { return v(x); }) + new Float64Array({ length: v(2), get 0() { return v(7); }, get 1() { return v(8); } });
    var t = new Int16Array(6); t.set({ get length() { return v(2); }, get 0() { return v(5); }, get 1() { return v(6); } }, v(1)); t.fill(v(9), v(4), v(5));
    s += t + t.subarray(v(1), v(3)) + t.slice(v(0), v(2)) + t.indexOf(5, v(0)) + t.copyWithin(v(0), v(1), v(3)) + t.join({ toString: function () { return "~" + n++; } }) + t.sort(function (a, b) { return v(a - b); });
    var d = new DataView(new ArrayBuffer(v(16)), v(2), v(8)); d.setUint16(v(0), v(513)); d.setBigInt64(v(0), { valueOf: function () { return BigInt("5" + (n++, "")); } }); s += d.getUint8(v(7)) + new BigUint64Array([{ valueOf: function () { return 2n ** 40n + BigInt(n++); } }]);
    class T extends Uint8Array { static get [Symbol.species]() { return function (k) { n++; return new Uint16Array(k + 1); }; } }
    return s + new T([1, 2, 3]).map(function (x) { return x * 300; }).length + new T([1, 2, 3]).filter(function () { return "" + n++; }).length + new ArrayBuffer(8).slice({ valueOf: function () { return n++, 2; } }).byteLength + new Date(v(2020), v(1), v(2)).getFullYear() + Date.UTC(v(2020), v(3)) + Math.max(v(1), v(2)) + Math.hypot(v(3), v(4)) + (5n ** { valueOf: function () { return BigInt("7" + (n++, "")); } }) + BigInt.asIntN(v(70), 3n ** 60n) + (123.456).toFixed(v(2)) + (255n).toString(v(16));
  },
  freshclasses: function () {
    var n = 0, s = "";
    function k(x) { return { toString: function () { return "k" + x + n++; } }; }
    function base() { return class { constructor() { this.b = k("base"); } static get [Symbol.species]() { return Array; } get acc() { return k("acc"); } }; }
    for (var i = 0; i < 2; i++) {
      class C extends (k(1), base()) { [k("f")] = k("val"); static [k("sf")] = k("sval"); #p = { v: k("priv") }; [k("m")]() { return this.#p.v; } static { s += Object.getOwnPropertyNames(this).length; } get [k("g")]() { return super.acc; } static async *[k("ag")]() {} p(o) { return #p in o; } constructor(...a) { super(...a, ...(function* () { yield k("sp"); })()); this.own = new.target.name + k("own"); } }
      var c = new C(k(1)); s += Object.keys(c).length + c.own + c.b + c.p(c) + c.p({}) + Object.getOwnPropertyNames(C.prototype).map(function (q) { return q[0] === "k" ? String(typeof c[q] === "function" ? c[q]() : c[q]) : q; }).join();
    }
    function tag(st, ...v) { return { t: st.raw.join("|") + v.map(String), c: st }; }
    var f = (x) => tag`a${x}b${k("t")}c`, A = f(k("q")), B = f(k("r")); s += A.t + B.t + (A.c === B.c);
    class P extends Promise { constructor(e) { n++; super(e); this.z = "z" + n; } static get [Symbol.species]() { return P; } } s += P.resolve(k(1)).then(function () {}).z;
    class E2 extends AggregateError { constructor() { super((function* () { yield k("e1"); yield k("e2"); })(), k("msg"), { get cause() { return k("cause"); } }); } } s += new E2().errors.map(String) + new E2().message;
    return s + Reflect.construct(function () { this.q = k("c"); }, { get length() { return k("") && 1; }, get 0() { return k("a0"); } }, Object.defineProperty((function () {}).bind(), "prototype", { get: function () { return { m: "pm" + n++ }; } })).m;
  }
};
var ASN = {
  promises: function (out) {
    var p = new Promise(function (r) { setTimeoutLike(function () { r({ v: "p" + 1 }); }); }), t = { then: function (r) { r({ v: "th" + 1 }); } };
    function setTimeoutLike(f) { Promise.resolve().then(f); }
    p.then(function (x) { out.push(x.v); return t; }).then(function (x) { out.push(x.v); throw { m: "err" + 1 }; }).catch(function (e) { out.push(e.m); return ["fin"]; }).finally(function () { out.push("f" + 1); }).then(function (x) { out.push(x[0]); });
    Promise.all([1, p, t, Promise.resolve({ v: "r" + 1 })]).then(function (a) { out.push(JSON.stringify(a)); });
    Promise.allSettled([Promise.reject({ r: "rj" + 1 }), p]).then(function (a) { out.push(JSON.stringify(a)); });
    Promise.race([p, new Promise(function () {})]).then(function (a) { out.push("race" + a.v); });
    Promise.any([Promise.reject(1), Promise.resolve({ v: "any" + 1 })]).then(function (a) { out.push(a.v); });
    Promise.any([Promise.reject({ e: 1 })]).catch(function (e) { out.push(e.name + e.errors.length); });
  },
  asyncs: function (out) {
    async function f(n) { var l = { v: "l" + n }; try { var x = await { then: function (r) { r({ w: "w" + n }); } }; out.push(l.v + x.w); await Promise.reject({ m: "m" + n }); } catch (e) { out.push(e.m + l.v); } finally { l = { v: await ("fin" + n) }; } return l; }
    f(1).then(function (r) { out.push(r.v); });
    (async () => { var r = await Promise.all([f(2), f(3)]); out.push(r[0].v + r[1].v); for await (var x of [Promise.resolve({ v: "fa" + 1 }), "fb" + 1]) out.push(x.v || x); })();
    class A { async m(a = { d: "d" + 1 }) { return [a.d, await this.q]; } q = { q: "q" + 1, toString() { return this.q; } }; }
    new A().m().then(function (r) { out.push(r.join()); });
  },
  asyncgens: function (out) {
    async function* g(n) { var l = { v: "g" + n }; try { var r = yield { y: l.v }; out.push("got" + r); yield* inner(l); yield Promise.resolve({ y: "pr" + n }); } finally { out.push("fin" + l.v); await null; } }
    async function* inner(l) { yield { y: "in" + l.v }; yield { y: await ("aw" + l.v) }; }
    (async function () { for await (var x of g(1)) out.push(x.y); })();
    var a = g(2); a.next().then(function (r) { out.push("n" + r.value.y); }); a.next("snt" + 1).then(function (r) { out.push("n" + r.value.y); }); a.return({ y: "rt" + 1 }).then(function (r) { out.push("r" + r.value.y + r.done); }); a.next().then(function (r) { out.push("e" + r.done); });
    var b = g(3); b.next().then(function () { return b.throw({ m: "th" + 1 }); }).catch(function (e) { out.push(e.m); });
  },
freshpromises: function (out) {
    var n = 0;
    function th(x, bad) { return { get then() { return function (a, b) { var v = { v: x + n++ }; bad ? b(v) : a(v); a(1); b(2); }; } }; }
    function it(a) { return { [Symbol.iterator]: function () { var i = 0; return { next: function () { return { value: a[i], done: i++ >= a.length }; } }; } }; }
    Promise.all(it([th("a"), { v: "p" + n++ }, Promise.resolve(th("b"))])).then(function (r) { out.push(r.map(function (x) { return x.v; }).join()); });
    Promise.allSettled(it([th("c"), th("d", true)])).then(function (r) { out.push(JSON.stringify(r)); });
    Promise.any(it([th("e", true), th("f")])).then(function (r) { out.push(r.v); }); Promise.race(it([th("g"), th("h")])).then(function (r) { out.push(r.v); });
    class P extends Promise { static resolve(x) { n++; return super.resolve(x); } then(a, b) { return super.then(function (x) { return a({ v: "w" + x.v }); }, b); } }
    P.all(it([th("i"), th("j")])).then(function (r) { out.push(r.map ? r.map(function (x) { return x.v; }).join() : r.v); return r; });
    new Promise(function (r) { r(th("k")); }).finally(function () { return th("l"); }).then(function (r) { out.push(r.v); });
    (async function () { try { await th("m", true); } catch (e) { out.push(e.v); } for await (var x of { [Symbol.asyncIterator]: function () { var i = 0; return { next: function () { return th("x") && { then: function (r) { r({ get value() { return { v: "fa" + n++ }; }, done: i++ > 1 }); } }; }, return: function () { return th("ret"); } }; } }) out.push(x.v); return th("n"); })().then(function (r) { out.push(r.v); });
  },
  imports: function (out) {
    import("m1").then(function (ns) { out.push(Object.keys(ns).join() + ns.f("x").v + ns.c.s + ns.default()); return import("m2"); }).then(function (ns) { out.push(ns.a + ns.b.x); return import("m3"); }).catch(function (e) { out.push(e.name); return import("nowhere"); }).catch(function (e) { out.push("E" + e.name); });
  },
  finreg: function (out) {
    var k = { id: "kk" + 1 }, wr = new WeakRef(k), fr = new FinalizationRegistry(function (h) { out.push("?"); }); fr.register(k, { held: "h" + 1 }, k);
    Promise.resolve({ v: "x" + 1 }).then(function (x) { out.push(x.v + wr.deref().id); fr.unregister(k); return k; }).then(function (q) { out.push(q.id + (wr.deref() === k)); });
  }
};
defModule(1, "export function f(x) { return { v: 'f' + x + n } } export class c { static s = 'st' + 1 } let n = ['n'].join(); export { n as 'str' }; export default () => 'def' + n; export * from 'm2'; export * as ns from 'm2'");
defModule(2, "import * as self from 'm2'; import d, { f } from 'm1'; export let a = 'a' + 1, b = { x: 'bx' + a }; export { d as dd, f as ff }; self.a + self.b.x");
defModule(3, "import { missing } from 'm2'; export let z = missing");
/* a program longer than the bound is reported by the snippet count check below */
Object.keys(SN).forEach(function (n) {
  var f = SN[n], want = f();
  scenario(n, function () {
    var got;
    gcAt(4000);
    try { got = f(); } catch (e) { got = "error " + e; }
    gc();
    eq(got, want, n + ": result with a collection");
    if (DEEP) eq(f(), want, n + ": result afterwards");
  });
});
Object.keys(ASN).forEach(function (n) {
  var f = ASN[n], o1 = [], want;
  f(o1);
  scenario(n, function () {
    var out = [];
    gcAt(4000);
    f(out);
    drain();
    gc();
    final(function () { eq(out.join(";"), o1.join(";"), n + ": events with a collection"); });
  });
});
