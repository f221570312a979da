/* C07: classes. */
/* Element kinds; each logs its key evaluation (k), static initialization (s) or instance initialization (f). */
var CK = ["K(#)", "K(#)"];
var EL = [
  "p#=I(#);", "static p#=I(#);", "[K(#)]=I(#);", "static [K(#)]=I(#);", "[K(#)](){}", "static [K(#)](){}", "#q#=I(#);static g#(o){return o.#q#}",
  "static #r#=I(#);static h#(){return A.#r#}", "static{I(#)}", "get [K(#)](){return 1}", "#m#(){return 'm#'}static c#(o){return o.#m#()}", "acc#=I(#);", "static async *[K(#)](){}"
];
function clsText(k, i) { return EL[k].split("#").join("\u0001").replace(/\u0001(q|m|r)\u0001/g, "#$1" + i).split("\u0001").join(String(i)); }
["base", "derived"].forEach(function (der) {
  scenario("elements-" + der, function () {
    var n = DEEP ? 4 : 3, ks = [], i, thr = symInt("thr", -1, 2 * n), log = [], ml = [], got, want, src = "";
    for (i = 0; i < n; i++) { ks.push(conc(symInt("k" + i, 0, EL.length - 1))); src += clsText(ks[i], i); }
    function K(i) { log.push("k" + i); if (thr === i) throw "K" + i; return { toString: function () { log.push("t" + i); return "key" + i; } }; }
    function I(i) { log.push("i" + i); if (thr === n + i) throw "I" + i; return "v" + i; }
    function H() { log.push("h"); return function () { log.push("b"); this.base = 1; }; }
    try {
      var A = (0, eval)("(function(K,I,H){class A" + (der === "derived" ? " extends H()" : "") + "{" + src + "constructor(){" + (der === "derived" ? "I(99);super();" : "") + "I(98)}};return A})")(K, I, H);
      log.push("c");
      var a = new A();
      got = Reflect.ownKeys(a).join() + "|" + Reflect.ownKeys(A).filter(function (k) { return k !== "length" && k !== "name" && k !== "prototype"; }).join() + "|" + Reflect.ownKeys(A.prototype).join();
      for (i = 0; i < n; i++) { if (ks[i] === 6) got += A["g" + i](a); if (ks[i] === 7) got += A["h" + i](); if (ks[i] === 10) got += A["c" + i](a); }
    } catch (e) { got = "t" + e; }
    var ok = [], st = [], pr = ["constructor"];
    function mk(i) { ml.push("k" + i); if (thr === i) throw "K" + i; ml.push("t" + i); }
    function mi(i) { ml.push("i" + i); if (thr === n + i) throw "I" + i; }
    try {
      if (der === "derived") ml.push("h");
      for (i = 0; i < n; i++) {
        var k = ks[i];
        if (k === 2 || k === 3 || k === 4 || k === 5 || k === 9 || k === 12) mk(i);
        if (k === 4 || k === 9) pr.push("key" + i);
        if (k === 5 || k === 12) st.push("key" + i);
        if (k === 6) st.push("g" + i);
        if (k === 7) st.push("h" + i);
        if (k === 10) st.push("c" + i);
      }
      for (i = 0; i < n; i++) { k = ks[i]; if (k === 1 || k === 3 || k === 7 || k === 8) mi(i); if (k === 1) st.push("p" + i); if (k === 3) st.push("key" + i); }
      ml.push("c");
      if (der === "derived") { mi(99); ml.push("b"); ok.push("base"); }
      for (i = 0; i < n; i++) { k = ks[i]; if (k === 0 || k === 2 || k === 6 || k === 11) mi(i); if (k === 0) ok.push("p" + i); if (k === 2) ok.push("key" + i); if (k === 11) ok.push("acc" + i); }
      mi(98);
      want = ok.join() + "|" + st.join() + "|" + pr.join();
      for (i = 0; i < n; i++) { if (ks[i] === 6 || ks[i] === 7) want += "v" + i; if (ks[i] === 10) want += "m" + i; }
    } catch (e) { want = "t" + e; }
    eq(log.join(), ml.join(), "class elements (" + der + "): order of evaluation");
    eq(got, want, "class elements (" + der + "): resulting properties or error");
  });
});
/* this and super() in derived constructors: a sequence of steps, directly or from an arrow function. */
scenario("super-this", function () {
  var st = [symInt("s0", 0, 7), symInt("s1", 0, 7), symInt("s2", 0, 7)], ret = symInt("ret", 0, 4), br = symInt("br", 0, 2), log = [], ml = [], nb = 0, mb = 0;
  class B { constructor() { log.push("B" + nb++); if (br === 1) return { other: 1 }; if (br === 2) return 5; } m() { return "m"; } }
  class D extends B {
    f = log.push("F");
    constructor() {
      var ar = () => super(), th = () => typeof this;
      for (var i = 0; i < 3; i++) {
        try {
          switch (st[i]) {
          case 1: super(); log.push("ok"); break;
          case 2: log.push(typeof this); break;
          case 3: ar(); log.push("ok"); break;
          case 4: log.push(th()); break;
          case 5: log.push(super.m()); break;
          case 6: eval("super()"); log.push("ok"); break;
          case 7: log.push(delete this.q); break;
          }
        } catch (e) { log.push(e.name); }
      }
      switch (ret) { case 1: return; case 2: return { own: 1 }; case 3: return 7; case 4: return null; }
    }
  }
  var got, want, init = false, i;
  try { var d = new D(); got = d.own ? "own" : d.other ? "other" : d instanceof D ? "D" : "?"; } catch (e) { got = e.name; }
  for (i = 0; i < 3; i++) switch (st[i]) {
  case 1: case 3: case 6:
    ml.push("B" + mb++);
    if (init) ml.push("ReferenceError"); else { init = true; ml.push("F", "ok"); }
    break;
  case 2: case 4: ml.push(init ? "object" : "ReferenceError"); break;
  case 5: ml.push(init ? "m" : "ReferenceError"); break;
  case 7: ml.push(init ? "true" : "ReferenceError"); break;
  }
  want = ret === 2 ? "own" : ret === 3 || ret === 4 ? "TypeError" : !init ? "ReferenceError" : br === 1 ? "other" : "D";
  eq(log.join(), ml.join(), "derived constructor: effects"); eq(got, want, "derived constructor: result");
});
/* Private names: which receivers have them, and which operations are allowed. */
scenario("private", function () {
  var rc = symInt("rc", 0, 6), op = symInt("op", 0, 11), log = [];
  class A {
    #f = "f"; #m() { return "m"; } get #a() { log.push("ga"); return "a"; } set #a(v) { log.push("sa" + v); } get #g() { return "g"; } set #s(v) { log.push("ss"); }
    static #sf = "sf";
    static op(o, k) {
      switch (k) {
      case 0: return o.#f;
      case 1: return o.#f = "n", o.#f;
      case 2: return o.#m();
      case 3: return o.#m = 1;
      case 4: return o.#a;
      case 5: return o.#a = "v";
      case 6: return o.#g;
      case 7: return o.#g = 1;
      case 8: return o.#s;
      case 9: return o.#s = 1;
      case 10: return #f in o;
      case 11: return o.#f += "+", o.#f;
      }
    }
    static sop(o) { return o.#sf; }
  }
  class B extends A { }
  class R { constructor(o) { return o; } }
  class S extends R { #f = "z"; static has(o) { return #f in o; } }
  var o = rc === 0 ? new A() : rc === 1 ? new B() : rc === 2 ? {} : rc === 3 ? Object.create(new A()) : rc === 4 ? new Proxy(new A(), {}) : rc === 5 ? A : 5, got;
  try { got = A.op(o, op); } catch (e) { got = e.name; }
  var has = rc < 2, want;
  if (!has) want = op === 10 ? rc === 6 ? "TypeError" : false : "TypeError";
  else want = op === 0 ? "f" : op === 1 ? "n" : op === 2 ? "m" : op === 3 ? "TypeError" : op === 4 ? "a" : op === 5 ? "v" : op === 6 ? "g" : op === 7 ? "TypeError" : op === 8 ? "TypeError" : op === 9 ? 1 : op === 10 ? true : "f+";
  eq(got, want, "private name access");
  eq(log.join(), !has ? "" : op === 4 ? "ga" : op === 5 ? "sav" : op === 9 ? "ss" : "", "private accessors called");
  try { got = A.sop(o); } catch (e) { got = e.name; }
  eq(got, rc === 5 ? "sf" : "TypeError", "private static");
  if (rc < 6) {
    new S(o); eq(S.has(o), true, "a private name stamped on another object");
    var er = "none"; try { new S(o); } catch (e) { er = e.name; } eq(er, "TypeError", "a private name cannot be added twice");
    eq(Reflect.ownKeys(o).join(), rc === 5 ? "length,name,prototype,op,sop" : "", "private names are invisible");
  }
});
/* Accessors, statics and prototypes along a chain of classes; redefinition of heritage afterwards. */
scenario("inheritance", function () {
  var ov = symInt("ov", 0, 15), who = symInt("who", 0, 2), rep = symInt("rep", 0, 3), L = [];
  class A { m() { return "A" + this.n; } static s() { return "As" + this.n; } get v() { return "Av" + this.n; } set v(x) { L.push("A" + x); } }
  A.n = "a"; A.prototype.n = "pa";
  var body = (ov & 1 ? "m(){return 'B'+super.m()}" : "") + (ov & 2 ? "static s(){return 'Bs'+super.s()}" : "") + (ov & 4 ? "get v(){return 'Bv'+super.v}" : "") + (ov & 8 ? "set v(x){super.v='b'+x}" : "");
  var B = (0, eval)("(A=>class B extends A{" + body + "})")(A); B.n = "b"; B.prototype.n = "pb";
  class C extends B { m() { return "C" + super.m(); } static s() { return "C" + super.s(); } get v() { return "C" + super.v; } set v(x) { super.v = "c" + x; } }
  C.n = "c"; C.prototype.n = "pc";
  var Z = { m: function () { return "Z" + this.n; }, get v() { return "Zv"; } };
  if (rep === 1) Object.setPrototypeOf(B.prototype, Z);
  if (rep === 2) Object.setPrototypeOf(C, A);
  if (rep === 3) A.prototype.m = function () { return "N" + this.n; };
  var K = [A, B, C][who], o = new K(), n = ["pa", "pb", "pc"][who], sn = "abc"[who];
  var top = rep === 1 && who > 0 ? "Z" : rep === 3 ? "N" : "A";
  eq(o.m(), (who === 2 ? "C" : "") + (who > 0 && ov & 1 ? "B" : "") + top + n, "methods along the chain");
  eq(K.s(), (who === 2 ? "C" : "") + (who > 0 && ov & 2 && !(who === 2 && rep === 2) ? "Bs" : "") + "As" + sn, "static methods along the chain");
  /* an accessor defined with only one half hides the other half */
  var gv;
  if (who === 0) gv = "Av" + n;
  else if (ov & 4) gv = "Bv" + (rep === 1 ? "Zv" : "Av" + n);
  else if (ov & 8) gv = undefined;
  else gv = rep === 1 ? "Zv" : "Av" + n;
  eq(o.v, who === 2 ? "C" + gv : gv, "getters along the chain");
  var er = "none";
  (function () { "use strict"; try { o.v = 1; } catch (e) { er = e.name; } })();
  var sr, se = "none";
  if (who === 0) sr = "A1";
  else {
    var x = who === 2 ? "c1" : "1";
    if (ov & 8) { if (rep === 1) { sr = ""; se = "TypeError"; } else sr = "Ab" + x; }
    else if (ov & 4 || rep === 1) { sr = ""; se = "TypeError"; }
    else sr = "A" + x;
  }
  eq(L.join(), sr, "setters along the chain"); eq(er, se, "setters along the chain: error");
});
/* Heritage values. */
scenario("heritage", function () {
  var k = symInt("k", 0, 9), got, log = [];
  function F() { } F.prototype = null; function G() { } G.prototype = 5;
  var P = new Proxy(class Q { constructor() { this.q = 1; } }, {});
  var H = [null, undefined, 5, {}, () => 1, F, G, Object, (function () { }).bind(), P][k];
  try {
    class A extends H { constructor() { log.push("in"); super(); } }
    got = Object.getPrototypeOf(A) === (k === 0 ? Function.prototype : H) && Object.getPrototypeOf(A.prototype) === (k === 0 || k === 5 ? null : H.prototype);
    try { var a = new A(); got += "," + (Object.getPrototypeOf(a) === A.prototype) + a.q; } catch (e) { got += "," + e.name; }
  } catch (e) { got = e.name; }
  eq(got, k === 0 ? "true,TypeError" : k === 5 ? "true,trueundefined" : k === 7 ? "true,trueundefined" : k === 9 ? "true,true1" : "TypeError", "class heritage");
  eq(log.join(), k === 0 || k === 5 || k === 7 || k === 9 ? "in" : "", "class heritage: constructor entered");
});
/* Subclasses of builtins are exotic like their parents. */
scenario("builtin-subclass", function () {
  var k = symInt("k", 0, 8), C = [Array, Error, Map, Promise, RegExp, Uint8Array, Function, String, Boolean][k];
  class S extends C { f = 1; x() { return "x"; } static y() { return "y"; } }
  class T extends S { }
  var a = k === 3 ? [function () { }] : k === 5 || k === 0 ? [2] : k === 6 ? ["return 5"] : k === 2 ? [[[1, 2]]] : ["s"], o = new T(...a);
  eq(o instanceof S && o instanceof C && Object.getPrototypeOf(o) === T.prototype, true, "subclass instance");
  eq(o.f + o.x() + T.y(), "1xy", "subclass members");
  eq([function () { o[5] = 1; return o.length; }, function () { return o.message; }, function () { return o.get(1); }, function () { return Promise.resolve.call(T, 1) instanceof T; }, function () { return o.test("asa"); },
    function () { o[0] = 300; return o[0] + "," + o.length; }, function () { return o(); }, function () { return o.length + o[0]; }, function () { return o.valueOf(); }][k](),
    [6, "s", 2, true, true, "44,2", 5, "1s", true][k], "subclass keeps the exotic behaviour");
  if (k === 0) eq(o.map(function (x) { return x; }) instanceof T && T.from([1]) instanceof T && o.slice() instanceof T, true, "species of a subclass");
});
