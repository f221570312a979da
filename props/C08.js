/* C08: functions: receivers, arguments objects, binding, application, construction. */
var GLOB = (function () { return this; })();
/* ---- receiver of a call: function kind x call form x receiver value ---- */
var TH = {
  sloppy: function () { return this; },
  strict: function () { "use strict"; return this; },
  defparam: function (a = this) { return a; },
  evalthis: function () { return eval("this"); },
  arrowin: function () { return (() => (() => this)())(); },
  strictarrow: function () { "use strict"; return (() => { return eval("this"); })(); },
  method: { m() { return this; } }.m,
  strictmethod: class { static m() { return this; } }.m,
  getterish: Object.getOwnPropertyDescriptor({ get x() { return this; } }, "x").get,
  gen: function () { function* g() { yield this; } return g.apply(this, arguments).next().value; },
  bound: (function () { return this; }).bind(GLOB),
  arrow: (function () { return () => this; }).call(GLOB)
};
var THK = Object.keys(TH), THSTRICT = { strict: 1, strictarrow: 1, strictmethod: 1 }, THFIXED = { bound: 1, arrow: 1 };
var CALL = [
  function (f, r) { return [f(), undefined]; },
  function (f, r) { return [f.call(r), r]; },
  function (f, r) { return [f.apply(r, []), r]; },
  function (f, r) { return [Reflect.apply(f, r, [undefined]), r]; },
  function (f, r) { return [f.bind(r)(), r]; },
  function (f, r) { return [f.bind(r).call(5), r]; },
  function (f, r) { var o = { f: f }; return [o.f(), o]; },
  function (f, r) { var o = { f: f }; return [(o.f)(), o]; },
  function (f, r) { var o = { f: f }; return [(0, o.f)(), undefined]; },
  function (f, r) { var o = { f: f }; return [(o.f = o.f)(), undefined]; },
  function (f, r) { var o = { f: f }; return [o?.f(), o]; },
  function (f, r) { var o = { f: f }; return [o.f?.(), o]; },
  function (f, r) { var o = { f: f }; return [(o?.f)(), o]; },
  function (f, r) { var o = { f: f }; return [o["f"](), o]; },
  function (f, r) { var o = { f: f }; with (o) { return [f(), o]; } },
  function (f, r) { var o = [f]; return [o[0](), o]; },
  function (f, r) { if (r === undefined || r === null) return [f(), undefined]; Object.defineProperty(Object.prototype, "zz", { configurable: true, get: function () { return f; } }); try { return [r.zz(), r]; } finally { delete Object.prototype.zz; } },
  function (f, r) { var got; [1].forEach(function () { got = f(); }, r); return [got, undefined]; },
  function (f, r) { var got; [1].some(function () { "use strict"; got = f.apply(this); }, r); return [got, r]; },
  function (f, r) { return [Array.from({ length: 1 }, function () { return f.call(r); }, r)[0], r]; },
  function (f, r) { return [(new Proxy(f, {})).call(r), r]; },
  function (f, r) { class A { static f() { return 0; } } A.f = f; class B extends A { static g() { return super.f(); } } return [B.g(), B]; },
  function (f, r) { var o = { f: f }; return [o.f.call.call(o.f, r), r]; },
  function (f, r) { function F() { this.v = f.call(r); } return [new F().v, r]; }
];
var RECV = [undefined, null, 7, "s", true, { q: 1 }, GLOB, Symbol.iterator, 10n];
scenario("receiver", function () {
  var k = conc(symInt("kind", 0, THK.length - 1)), c = conc(symInt("form", 0, CALL.length - 1)), r = RECV[conc(symInt("recv", 0, RECV.length - 1))];
  var name = THK[k], f = TH[name], x, got, th, msg = name + ", form " + c;
  x = CALL[c](f, r); got = x[0]; th = x[1];
  if (THFIXED[name]) { eq(got, GLOB, msg + ": captured receiver"); return; }
  if (THSTRICT[name]) { eq(got, th, msg + ": strict receiver"); return; }
  if (th === undefined || th === null) { eq(got, GLOB, msg + ": default receiver"); return; }
  if (typeof th === "object" || typeof th === "function") { eq(got, th, msg + ": object receiver"); return; }
  eq(typeof got, "object", msg + ": receiver boxed");
  eq(Object.getPrototypeOf(got) === Object(th).constructor.prototype, true, msg + ": boxed receiver prototype");
  eq(got.valueOf(), th, msg + ": boxed receiver value");
});
/* ---- the arguments object: any history of operations on it and on the parameters ---- */
var ARGF = [
  function (a, b) { return [arguments, function () { return a; }, function (v) { a = v; }, function () { return b; }, function (v) { b = v; }]; },
  function (a, b) { "use strict"; return [arguments, function () { return a; }, function (v) { a = v; }, function () { return b; }, function (v) { b = v; }]; },
  function (a, b = 5) { return [arguments, function () { return a; }, function (v) { a = v; }, function () { return b; }, function (v) { b = v; }]; },
  function (a, b, ...c) { return [arguments, function () { return a; }, function (v) { a = v; }, function () { return b; }, function (v) { b = v; }]; },
  function (a, b, a) { return [arguments, function () { return a; }, function (v) { a = v; }, function () { return b; }, function (v) { b = v; }]; },
  function (a, b) { return [arguments, function () { return eval("a"); }, function (v) { eval("a = v"); }, () => b, v => { b = v; }]; }
];
var ARGN = ["simple", "strict", "default", "rest", "duplicate", "eval"], NOPS = 14;
ARGN.forEach(function (nm, fk) {
  var mapped = fk === 0 || fk === 4 || fk === 5;
  scenario("arguments-" + nm, function () {
    var n = conc(symInt("n", mapped ? 0 : 1, DEEP || fk === 4 ? 3 : 2)), vals = [symInt("v0", 0, 9), 11, 12].slice(0, n);
    var fx = ARGF[fk].apply(null, vals), ar = fx[0];
    /* model: parameters p[0], p[1]; elements el[i] = {v,w,e,c,get} with map[i] = index of the parameter or -1 */
    var p = [n > 0 ? vals[0] : undefined, n > 1 ? vals[1] : fk === 2 ? 5 : undefined], el = [], map = [], i, ext = true;
    if (fk === 4) { p[0] = n > 2 ? vals[2] : undefined; }
    for (i = 0; i < n; i++) { el.push({ v: vals[i], w: true, e: true, c: true, g: 0 }); map.push(-1); }
    if (mapped) { if (fk === 4) { if (n > 1) map[1] = 1; if (n > 2) map[2] = 0; } else { if (n > 0) map[0] = 0; if (n > 1) map[1] = 1; } }
    while (el.length < 4) { el.push(null); map.push(-1); }
    function cur(i) { return map[i] >= 0 ? p[map[i]] : el[i].v; }
    /* [[DefineOwnProperty]] of the model; d has any of v,w,e,c,g */
    function def(i, d) {
      var o = el[i], acc = d.g !== undefined;
      if (!o) {
        if (!ext) return false;
        el[i] = { v: d.v, w: !!d.w, e: !!d.e, c: !!d.c, g: acc ? d.g : 0 };
        return true;
      }
      if (map[i] >= 0) o.v = p[map[i]];
      if (!o.c) {
        if (d.c === true) return false;
        if (d.e !== undefined && d.e !== o.e) return false;
        if (acc !== !!o.g && (acc || d.v !== undefined || d.w !== undefined)) return false;
        if (o.g) { if (acc && d.g !== o.g) return false; }
        else if (!o.w) {
          if (d.w === true) return false;
          if (d.hv && !Object.is(d.v, o.v)) return false;
        }
      }
      if (acc && !o.g) { o.v = undefined; o.w = false; o.g = d.g; }
      else if (acc) o.g = d.g;
      else if ((d.hv || d.w !== undefined) && o.g) { o.g = 0; o.v = undefined; o.w = false; }
      if (d.hv) o.v = d.v;
      if (d.w !== undefined) o.w = d.w;
      if (d.e !== undefined) o.e = d.e;
      if (d.c !== undefined) o.c = d.c;
      if (map[i] >= 0) {
        if (acc) map[i] = -1;
        else {
          if (d.hv) p[map[i]] = d.v;
          if (d.w === false) map[i] = -1;
        }
      }
      return true;
    }
    function get1() { return "got"; }
    var steps = mapped && fk !== 5 ? 3 : DEEP ? 3 : 2;
    for (var s = 0; s < steps; s++) {
      var op = conc(symInt("op" + s, 0, NOPS - 1)), v = symInt("w" + s, 100, 109), t = s === 0 || !DEEP && s !== 2 ? fk === 4 && n > 2 ? 2 : 0 : conc(symInt("t" + s, 0, 1)), got, want, o;
      try {
        if (op === 0) { fx[2](v); got = want = 0; p[0] = v; }
        else if (op === 1) { fx[4](v); got = want = 0; p[1] = v; }
        else if (op === 2) { got = Reflect.set(ar, t, v); o = el[t]; want = o ? o.g ? false : o.w ? def(t, { hv: true, v: v }) : false : def(t, { hv: true, v: v, w: true, e: true, c: true }); }
        else if (op === 3) { got = delete ar[t]; o = el[t]; want = !o || o.c; if (want) { el[t] = null; map[t] = -1; } }
        else if (op === 4) { got = Reflect.defineProperty(ar, t, { writable: false }); want = def(t, { w: false }); }
        else if (op === 5) { got = Reflect.defineProperty(ar, t, { value: v }); want = def(t, { hv: true, v: v }); }
        else if (op === 6) { got = Reflect.defineProperty(ar, t, { value: v, writable: false }); want = def(t, { hv: true, v: v, w: false }); }
        else if (op === 7) { got = Reflect.defineProperty(ar, t, { get: get1 }); want = def(t, { g: get1 }); }
        else if (op === 8) { got = Reflect.defineProperty(ar, t, { enumerable: false, configurable: false }); want = def(t, { e: false, c: false }); }
        else if (op === 9) { Object.freeze(ar); got = want = 0; ext = false; for (i = 0; i < 4; i++) if (el[i]) def(i, el[i].g ? { c: false } : { c: false, w: false }); }
        else if (op === 10) { Object.preventExtensions(ar); got = want = 0; ext = false; }
        else if (op === 11) { var r = Object.create(ar); got = Reflect.set(r, t, v); o = el[t]; want = o ? o.g ? false : o.w : true; if (want) eq(r[t], v, "value set on the heir"); }
        else if (op === 12) { got = Reflect.set(ar, 3, v); o = el[3]; want = o ? o.g ? false : o.w ? def(3, { hv: true, v: v }) : false : def(3, { hv: true, v: v, w: true, e: true, c: true }); }
        else { got = Reflect.defineProperty(ar, t, { value: v, writable: true, enumerable: true, configurable: true }); want = def(t, { hv: true, v: v, w: true, e: true, c: true }); }
      } catch (e) { got = e.name; }
      eq(got, want, nm + " arguments: result of operation " + op);
      eq(fx[1](), p[0], nm + " arguments: first parameter after operation " + op);
      eq(fx[3](), p[1], nm + " arguments: second parameter after operation " + op);
    }
    for (i = 0; i < 4; i++) {
      var d = Object.getOwnPropertyDescriptor(ar, i), m = el[i];
      eq(d !== undefined, m !== null, nm + " arguments: element " + i + " exists");
      if (!m) continue;
      eq(d.enumerable, m.e, nm + " arguments: enumerable"); eq(d.configurable, m.c, nm + " arguments: configurable");
      if (m.g) { eq(d.get, m.g, nm + " arguments: getter"); eq(ar[i], "got", nm + " arguments: getter value"); }
      else { eq(d.value, cur(i), nm + " arguments: value of element " + i); eq(d.writable, m.w, nm + " arguments: writable"); eq(ar[i], cur(i), nm + " arguments: read of element " + i); }
    }
    eq(ar.length, n, nm + " arguments: length");
  });
});
/* ---- bind ---- */
scenario("bind", function () {
  var n0 = conc(symInt("n0", 0, 2)), n1 = conc(symInt("n1", 0, 2)), n2 = conc(symInt("n2", 0, 2)), lk = conc(symInt("lk", 0, 7)), nk = lk < 7 && !DEEP ? 0 : conc(symInt("nk", 0, 3)), mk = conc(symInt("mk", 0, 2));
  var seen, F = function () { seen = [this, new.target].concat([].slice.call(arguments)); }, i, args = [];
  var lv = symInt("len", -3, 6), L = lk === 0 ? lv : lk === 1 ? NaN : lk === 2 ? Infinity : lk === 3 ? -Infinity : lk === 4 ? lv + 0.5 : lk === 5 ? "3" : lk === 6 ? undefined : 0;
  if (lk === 6) delete F.length; else if (lk < 6) Object.defineProperty(F, "length", { value: L });
  if (nk < 3) Object.defineProperty(F, "name", { value: nk === 0 ? "nm" : nk === 1 ? 5 : "" });
  function mlen(l, n) {
    if (typeof l !== "number") return 0;
    if (l === Infinity) return l;
    if (l === -Infinity || l !== l) return 0;
    l = l < 0 ? Math.ceil(l) : Math.floor(l);
    return l > n ? l - n : 0;
  }
  function mk1(b, n, x) { return n === 0 ? F2(b).bind(x) : n === 1 ? F2(b).bind(x, b + "a") : F2(b).bind(x, b + "a", b + "b"); }
  function F2(b) { return b === "p" ? F : B1; }
  var T1 = {}, T2 = {}, B1, B2;
  B1 = mk1("p", n0, T1); B2 = mk1("q", n1, T2);
  var l1 = lk === 6 ? 0 : mlen(lk === 7 ? 0 : L, n0), l2 = mlen(l1, n1);
  eq(B1.length, l1, "length of the bound function"); eq(B2.length, l2, "length of the twice bound function");
  var nm = nk === 0 ? "nm" : nk === 1 ? "" : nk === 2 ? "" : "F";
  eq(B1.name, "bound " + nm, "name of the bound function"); eq(B2.name, "bound bound " + nm, "name of the twice bound function");
  eq(B1.hasOwnProperty("prototype"), false, "bound functions have no prototype");
  for (i = 0; i < n0; i++) args.push(i ? "pb" : "pa"); for (i = 0; i < n1; i++) args.push(i ? "qb" : "qa");
  var ca = []; for (i = 0; i < n2; i++) { args.push("c" + i); ca.push("c" + i); }
  if (mk === 0) { B2.apply({}, ca); eq(seen[0], T1, "bound receiver"); eq(seen[1], undefined, "new.target of a call"); }
  else if (mk === 1) { var r = Reflect.construct(B2, ca); eq(seen[0], r, "constructed object"); eq(seen[1], F, "new.target is the target"); eq(Object.getPrototypeOf(r), F.prototype, "prototype"); }
  else { var NT = function () {}; r = Reflect.construct(B2, ca, NT); eq(seen[1], NT, "explicit new.target"); eq(Object.getPrototypeOf(r), NT.prototype, "prototype from new.target"); }
  eq(seen.length - 2, args.length, "number of arguments");
  for (i = 0; i < args.length; i++) eq(seen[i + 2], args[i], "argument " + i);
  eq(({ __proto__: F.prototype }) instanceof B2, true, "instanceof a bound function");
});
/* ---- apply and array-likes ---- */
scenario("apply", function () {
  var way = conc(symInt("way", 0, 3)), kind = conc(symInt("kind", 0, 5)), len = symInt("len", -1, 4), thr = symInt("thr", -1, 3), log = [], m = [];
  var al = {}, i, seen = null, got, want, n;
  var f = function () { seen = [].slice.call(arguments); return "R"; };
  function mkget(i) { return function () { log.push("g" + i); if (thr === i) throw "T" + i; return "v" + i; }; }
  for (i = 0; i < 4; i++) if (i !== 2) Object.defineProperty(al, i, { get: mkget(i) });
  Object.defineProperty(al, "length", { get: function () { log.push("L"); return kind === 0 ? len : kind === 1 ? conc(len) + 0.9 : kind === 2 ? String(conc(len)) : kind === 3 ? { valueOf: function () { log.push("V"); return len; } } : kind === 4 ? NaN : undefined; } });
  m.push("L"); if (kind === 3) m.push("V");
  n = kind >= 4 ? 0 : len < 0 ? 0 : len;
  want = null;
  for (i = 0; i < n && want === null; i++) { if (i !== 2) { m.push("g" + i); if (thr === i) want = "T" + i; } }
  if (want === null) want = way === 3 ? "O" : "R";
  try { got = way === 0 ? f.apply(null, al) : way === 1 ? Reflect.apply(f, null, al) : way === 2 ? Function.prototype.apply.call(f, null, al) : Reflect.construct(f, al) instanceof f ? "O" : "?"; } catch (e) { got = e; }
  eq(got, want, "result"); eq(log.join(), m.join(), "steps");
  if (want.length === 1) { eq(seen.length, n, "arguments"); for (i = 0; i < n; i++) eq(seen[i], i === 2 ? undefined : "v" + i, "argument " + i); }
});
scenario("apply-kinds", function () {
  var k = conc(symInt("k", 0, 8)), w = conc(symInt("w", 0, 2)), got, want, a = [undefined, null, 5, "ab", [1, 2], { length: 1, 0: 9 }, true, function (a, b, c) {}, Symbol.iterator][k];
  function f() { return [].slice.call(arguments).join("-"); }
  try { got = w === 0 ? f.apply(0, a) : w === 1 ? Reflect.apply(f, 0, a) : Reflect.construct(function () { return { s: f.apply(null, arguments) }; }, a).s; } catch (e) { got = e.name; }
  want = k < 2 ? (w === 0 ? "" : "TypeError") : k === 2 || k === 3 || k === 6 || k === 8 ? "TypeError" : k === 4 ? "1-2" : k === 5 ? "9" : "--";
  eq(got, want, "list from value " + k);
});
/* ---- construction: result kinds, new.target, prototype ---- */
var CT = {
  fn: function (r) { this.t = new.target; this.n = 1; return r; },
  arrowt: function (r) { this.t = (() => (() => new.target)())(); this.n = 1; return r; },
  evalt: function (r) { this.t = eval("new.target"); this.n = 1; return r; },
  base: class { constructor(r) { this.t = new.target; this.n = 1; return r; } },
  derived: class extends class { constructor(x) { this.t = x; this.n = 1; } } { constructor(r) { super(new.target); return r; } },
  derived2: class extends class { constructor() { this.t = new.target; this.n = 1; } } { constructor(r) { var f = () => super(); f(); return r; } },
  nosuper: class extends Object { constructor(r) { return r; } }
};
var CTK = Object.keys(CT), RV = [undefined, null, 5, "s", true, Symbol.iterator, { own: 1 }, function own() {}, 5n, [1]];
scenario("construct", function () {
  var k = conc(symInt("k", 0, CTK.length - 1)), rk = conc(symInt("r", 0, RV.length - 1)), nt = conc(symInt("nt", 0, 4)), pk = conc(symInt("pk", 0, 3)), name = CTK[k], F = CT[name], r = RV[rk], got, want, NT, P = { proto: 1 };
  if (nt === 0) NT = F;
  else if (nt === 1) NT = function () {};
  else if (nt === 2) NT = (function () {}).bind(null);
  else if (nt === 3) NT = class extends Array {};
  else NT = new Proxy(function () {}, { get: function (t, p, rc) { return p === "prototype" ? (pk === 1 ? 5 : P) : t[p]; } });
  var proto = Object.prototype;
  if (nt === 0) proto = F.prototype;
  else if (nt === 1) { if (pk === 1) NT.prototype = 5; else { NT.prototype = P; proto = P; } }
  else if (nt === 2) { if (pk > 1) { NT.prototype = P; proto = P; } }
  else if (nt === 3) proto = NT.prototype;
  else if (pk !== 1) proto = P;
  if (nt === 0 && pk === 1) NT = undefined;
  try { got = nt === 0 ? NT === undefined ? new F(r) : Reflect.construct(F, [r]) : Reflect.construct(F, [r], NT); } catch (e) { got = e.name; }
  if (nt === 0) NT = F;
  var isObj = r !== null && (typeof r === "object" || typeof r === "function"), der = name === "derived" || name === "derived2" || name === "nosuper";
  if (isObj) { eq(got, r, name + ": returned object"); return; }
  if (der && r !== undefined) { eq(got, "TypeError", name + ": primitive result"); return; }
  if (name === "nosuper") { eq(got, "ReferenceError", name + ": this missing"); return; }
  eq(typeof got, "object", name + ": new object"); eq(got.n, 1, name + ": initialized"); eq(got.t, NT, name + ": new.target"); eq(Object.getPrototypeOf(got), proto, name + ": prototype");
});
/* ---- callability and constructability of every function kind ---- */
var KIND = [["function", function () {}, 3], ["strict", function () { "use strict"; }, 3], ["arrow", () => {}, 1], ["method", { m() {} }.m, 1], ["getter", Object.getOwnPropertyDescriptor({ get m() {} }, "m").get, 1], ["setter", Object.getOwnPropertyDescriptor({ set m(v) {} }, "m").set, 1],
  ["generator", function* () {}, 1], ["async", async function () {}, 1], ["asyncgen", async function* () {}, 1], ["asyncarrow", async () => {}, 1], ["class", class {}, 2], ["derived", class extends Object {}, 2], ["classmethod", class { static m() {} }.m, 1], ["genmethod", { *m() {} }.m, 1],
  ["bound", (function () {}).bind(), 3], ["boundarrow", (() => {}).bind(), 1], ["boundclass", (class {}).bind(), 2], ["builtin", Math.max, 1], ["ctor", Map, 2], ["symbol", Symbol, 1], ["bigint", BigInt, 1], ["proxyfn", new Proxy(function () {}, {}), 3], ["proxyarrow", new Proxy(() => {}, {}), 1], ["proxyclass", new Proxy(class {}, {}), 2], ["fproto", Function.prototype, 1], ["dynamic", Function("return 1"), 3], ["promise", Promise, 0], ["eval", eval, 1], ["object", {}, 0]];
var PROTO = { function: 1, strict: 1, generator: 2, asyncgen: 2, class: 3, derived: 3, genmethod: 2, dynamic: 1 };
scenario("kinds", function () {
  var i = conc(symInt("i", 0, KIND.length - 1)), w = conc(symInt("w", 0, 5)), k = KIND[i], f = k[1], got = "ok", t = k[2], want;
  try { if (w === 0) f(); else if (w === 1) f.call({}); else if (w === 2) new f(); else if (w === 3) Reflect.construct(f, []); else if (w === 4) Reflect.construct(Object, [], f); else (class extends f {}); } catch (e) { got = e.name; }
  if (k[0] === "promise") want = "TypeError"; else want = (w < 2 ? t & 1 : t & 2) ? "ok" : "TypeError";
  if (k[0] === "promise" && w >= 4) want = "ok";
  if (k[0] === "object") want = "TypeError";
  if ((k[0] === "symbol" || k[0] === "bigint") && w >= 4) want = "ok";
  if (k[0] === "bigint" && w < 2) want = "TypeError";
  if (k[0] === "bound" && w === 5 || k[0] === "boundclass" && w === 5) want = "TypeError";
  eq(got, want, k[0] + " used in way " + w);
  var p = Object.getOwnPropertyDescriptor(f, "prototype"), pk = PROTO[k[0]];
  if (pk) {
    eq(p !== undefined, true, k[0] + " has a prototype"); eq(p.writable, pk !== 3, k[0] + ": prototype writable"); eq(p.enumerable, false, "enumerable"); eq(p.configurable, false, "configurable");
    eq(p.value.hasOwnProperty("constructor"), pk !== 2, k[0] + ": constructor property");
    if (pk !== 2) eq(p.value.constructor, f, k[0] + ": constructor");
  } else if (i < 16 || k[0] === "builtin" || k[0] === "fproto" || k[0] === "eval") eq(p, undefined, k[0] + " has no prototype");
  if (t) { var l = Object.getOwnPropertyDescriptor(f, "length"); eq(l.writable + "," + l.enumerable + "," + l.configurable, "false,false,true", k[0] + ": length attributes"); }
});
/* ---- names ---- */
var SYM = Symbol("sd"), SY0 = Symbol(), KEYS = ["k", "", "a b", 7, 1.5, SYM, SY0, -0];
function keyName(k) { return typeof k === "symbol" ? k.description === undefined ? "" : "[" + k.description + "]" : String(k); }
var NAMEF = [
  function (k) { return [{ [k]: function () {} }[k], ""]; }, function (k) { return [{ [k]: () => {} }[k], ""]; }, function (k) { return [{ [k]() {} }[k], ""]; }, function (k) { return [Object.getOwnPropertyDescriptor({ get [k]() {} }, k).get, "get "]; },
  function (k) { return [Object.getOwnPropertyDescriptor({ set [k](v) {} }, k).set, "set "]; }, function (k) { return [{ async *[k]() {} }[k], ""]; }, function (k) { return [{ [k]: class {} }[k], ""]; }, function (k) { return [class { static [k] = function () {}; }[k], ""]; },
  function (k) { return [class { static [k]() {} }[k], ""]; }, function (k) { return [Object.getOwnPropertyDescriptor(class { static get [k]() {} }, k).get, "get "]; }, function (k) { return [new (class { [k] = () => {}; })()[k], ""]; }, function (k) { return [{ [k]: class { static name = 1; } }[k], 1]; },
  function (k) { return [{ [k]: class { static name() {} } }[k], 2]; }, function (k) { return [{ [k]: (0, function () {}) }[k], 3]; }, function (k) { return [{ [k]: (function () {}) }[k], ""]; }, function (k) { var o = {}; o[k] = function () {}; return [o[k], 3]; },
  function (k) { var { [k]: f = function () {} } = {}; return [f, 4]; }, function (k) { var f; ({ [k]: f = () => {} } = {}); return [f, 4]; }, function (k) { return [{ [k]: function nm() {} }[k], 5]; }, function (k) { return [{ [k]: async () => {} }[k].bind(), "bound "]; }
];
scenario("names", function () {
  var i = conc(symInt("i", 0, NAMEF.length - 1)), k = KEYS[conc(symInt("k", 0, KEYS.length - 1))], r = NAMEF[i](k), f = r[0], t = r[1], d = Object.getOwnPropertyDescriptor(f, "name");
  if (t === 1) eq(d.value, 1, "static name field");
  else if (t === 2) eq(typeof d.value, "function", "static name method");
  else {
    eq(d.value, t === 3 ? "" : t === 4 ? "f" : t === 5 ? "nm" : t + keyName(k), "name, shape " + i);
    eq(d.writable + "," + d.enumerable + "," + d.configurable, "false,false,true", "name attributes, shape " + i);
  }
});
/* ---- a call in tail position is an ordinary call ---- */
/* each body is compiled twice: with `return f(...)` and with the call's value kept in a variable first */
(function () {
  var PRE = ["", "out.push(() => n);", "out.push(() => arguments.length + ':' + arguments[0]);", "let q = n; out.push(() => q++);", "function g() { return n + (m | 0); } out.push(g);", "class K { static g() { return n; } } out.push(() => K.g());",
    "n = n + 10; out.push(() => arguments[0] + n); n = n - 10;", "var a = arguments; out.push(() => { a[0] = 70; return n; });", "var v; out.push(() => v); if (v) return 'old ' + v; v = n + 1;", "{ let b = n; out.push(() => b); }", "eval('var z = n'); out.push(() => z);", "arguments.length = 1; out.push(() => n);"];
  var CALL = [["f(n - 1, out)", 0], ["f(n - 1, out, n, 5)", 0], ["this.f(n - 1, out)", 1], ["f.call(n, n - 1, out)", 0], ["f(...[n - 1, out, m])", 0], ["f.apply(this, [n - 1, out])", 1], ["f(n = n - 1, out)", 0], ["(m = 3, f(n - 1, out))", 0], ["f?.(n - 1, out, m)", 0]];
  var SHAPE = [["f(n, out, m)", "if (n > 0) RET; return end();"], ["f(n, out, m = n * 2)", "if (n > 0) RET; return end() + m;"], ["f(n, out, m = () => n)", "out.push(m); m = 1; if (n > 0) RET; return end();"], ["f(n, out, ...r)", "var m = r.length; if (n > 0) RET; return end() + m;"],
    ["f(n, out, m)", "for (let i = 0; i < 2; i++) { out.push(() => i); if (n > 0 && i) RET; } return end();"], ["f(n, out, m)", "switch (n) { case 0: return end(); default: let w = n; out.push(() => w); RET; }"], ["f(n, out, m)", "try { if (n > 0) throw n; } catch (e) { out.push(() => e); RET; } return end();"],
    ["f(n, out, m)", "try { if (n > 0) RET; } finally { out.push('fin' + n); } return end();"], ["f(n, out, m)", "for (var x of src(out)) { if (n > 0) RET; return end() + x; }"], ["f(n, out, m)", "for (const k in { a: n }) { out.push(() => k + n); if (n > 0) RET; } return end();"],
    ["f(n, out, m)", "blk: { if (n > 0) RET; break blk; } return end();"]];
  function src(out) { return { [Symbol.iterator]: function () { return { next: function () { out.push("next"); return { value: 4, done: false }; }, return: function () { out.push("closed"); return {}; } }; } }; }
  var V = [], seen = 0;
  function build(s, p, c, tail) {
    var strict = s % 2 && s !== 1 && s !== 3, body = SHAPE[s][1].split("RET").join(tail ? "return " + CALL[c][0] : "{ let rr = " + CALL[c][0] + "; return rr; }");
    if (strict && (p === 10)) return null;
    if (p === 7 && SHAPE[s][0] !== "f(n, out, m)") return null;
    return new Function("src", "return function mk() { function end() { return 'e' } " + (CALL[c][1] ? "var o = { f: f }; function " : "return function ") + SHAPE[s][0] + " { " + (strict ? "'use strict'; " : "") + PRE[p] + " out.push(typeof this + (new.target === undefined)); " + body + " } " + (CALL[c][1] ? "return o;" : "") + " }")(src);
  }
  for (var s = 0; s < SHAPE.length; s++) for (var p = 0; p < PRE.length; p++) {
    var cs = DEEP ? CALL.map(function (x, i) { return i; }) : [(s + p) % CALL.length, (s * 5 + p * 7 + 3) % CALL.length];
    cs.forEach(function (c) { var a = build(s, p, c, true), b = build(s, p, c, false); if (a) V.push([a, b, CALL[c][1], s + "," + p + "," + c]); });
  }
  scenario("tail_calls", function () {
    var k = conc(symInt("k", 0, V.length - 1)), n = conc(symInt("n", 0, DEEP ? 3 : 2)), x = symInt("x", -9, 9), runs = [0, 1].map(function (w) {
      var h = V[k][w](), out = [], r;
      try { r = V[k][2] ? h.f(n, out, x) : h(n, out, x); } catch (e) { r = e.name; }
      return { r: r, out: out.map(function (o) { if (typeof o != "function") return o; try { return o(); } catch (e) { return e.name; } }) };
    });
    eq(runs[0].r, runs[1].r, "result of " + V[k][3]);
    eq(runs[0].out.length, runs[1].out.length, "effects of " + V[k][3]);
    runs[1].out.forEach(function (o, i) { eq(runs[0].out[i], o, "effect " + i + " of " + V[k][3]); });
  });
  scenario("tail_natives", function () {
    var x = symInt("x", -9, 9), y = symInt("y", -9, 9), f = conc(symInt("f", 0, 9));
    function* G(a) { var b = yield a; return b; }
    function t0(o, k) { return Object.getOwnPropertyDescriptor(o, k); }
    function t1(it, v) { return it.next(v); }
    function t2(it, v) { return it.return(v); }
    function t3(it, v) { return it.throw(v); }
    function t4(o, k) { return Reflect.getOwnPropertyDescriptor(o, k); }
    function t5(o, k) { return Reflect.deleteProperty(o, k); }
    function t6(a, v) { return a.find(function (q) { return q === v; }); }
    function t7(m, k) { return m.delete(k); }
    function t8(a) { return a.at(9); }
    function t9(it) { return [...it].length; }
    var n = 0, it = G(x), r;
    function once(g) { return (function (h) { n++; return h(); })(g); }
    if (f === 0) { r = once(function () { return t0({ a: x }, "b"); }); eq(r, undefined, "descriptor"); r = once(function () { return t0({ a: x }, "a"); }); eq(r.value, x, "descriptor value"); }
    else if (f === 1) { r = once(function () { return t1(it); }); eq(r.value, x, "next"); eq(r.done, false, "next"); r = once(function () { return t1(it, y); }); eq(r.value, y, "next 2"); eq(r.done, true, "next 2"); }
    else if (f === 2) { it.next(); r = once(function () { return t2(it, y); }); eq(r.value, y, "return"); eq(r.done, true, "return"); }
    else if (f === 3) { it = (function* () { try { yield x; } catch (e) { yield e; } })(); it.next(); r = once(function () { return t3(it, y); }); eq(r.value, y, "throw"); eq(r.done, false, "throw"); }
    else if (f === 4) { r = once(function () { return t4({}, "z"); }); eq(r, undefined, "Reflect"); }
    else if (f === 5) { r = once(function () { return t5(Object.freeze({ a: 1 }), "a"); }); eq(r, false, "delete"); }
    else if (f === 6) { r = once(function () { return t6([x], y); }); eq(r, x === y ? y : undefined, "find"); }
    else if (f === 7) { r = once(function () { return t7(new Map([[x, 1]]), y); }); eq(r, x === y, "Map delete"); }
    else if (f === 8) { r = once(function () { return t8([x]); }); eq(r, undefined, "at"); }
    else { r = once(function () { return t9(it); }); eq(r, 1, "spread"); }
    check(n >= 1 && n <= 2, "each function ran once");
  });
  scenario("tail_class", function () {
    var x = symInt("x", 0, 2), r;
    class A { constructor(n) { this.n = n; if (n == 1) return A(0); if (n == 2) return new A(0); } }
    try { r = new A(x).n; } catch (e) { r = e.name; }
    eq(r, x == 1 ? "TypeError" : 0, "constructor");
    function F(n, o) { this.q = n; if (n) return F.call(o, n - 1, o); return this; }
    var oo = {}; r = new F(x, oo); eq(r, x ? oo : r, "construct"); check(x ? oo.q === 0 : r instanceof F, "receiver");
  });
})();
