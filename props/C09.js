/* C09: promises. Every program runs twice: on Promise and on a transcription of the specification with its own
   job queue; the order of all effects must agree. */
var mq, MLIVE;
function isObj(x) { return x !== null && (typeof x === "object" || typeof x === "function"); }
function mFuncs(p) {
  var done = false;
  return {
    resolve: function (x) {
      var then;
      if (done) return; done = true;
      if (x === p) return mSettle(p, 2, new TypeError("self"));
      if (!isObj(x)) return mSettle(p, 1, x);
      try { then = x.then; } catch (e) { return mSettle(p, 2, e); }
      if (typeof then !== "function") return mSettle(p, 1, x);
      mq.push(function () { var f = mFuncs(p); try { then.call(x, f.resolve, f.reject); } catch (e) { f.reject(e); } });
    },
    reject: function (x) { if (done) return; done = true; mSettle(p, 2, x); }
  };
}
function mSettle(p, s, v) { var rs = p.rs, i; p.s = s; p.v = v; p.rs = undefined; for (i = 0; i < rs.length; i++) mJob(rs[i], s, v); }
function mJob(r, s, v) {
  mq.push(function () {
    var h = s === 1 ? r.f : r.r, x;
    if (h === undefined) { if (s === 1) r.cap.resolve(v); else r.cap.reject(v); return; }
    try { x = h(v); } catch (e) { r.cap.reject(e); return; }
    r.cap.resolve(x);
  });
}
function mCap(C) {
  var res, rej, p;
  if (typeof C !== "function") throw new TypeError("not a constructor");
  p = new C(function (a, b) { if (res !== undefined || rej !== undefined) throw new TypeError("twice"); res = a; rej = b; });
  if (typeof res !== "function" || typeof rej !== "function") throw new TypeError("capability");
  return { promise: p, resolve: res, reject: rej };
}
function mResolve(C, x) { if (x instanceof M && "s" in x && x.constructor === C) return x; var c = mCap(C); c.resolve(x); return c.promise; }
function mSpecies(o) {
  var C = o.constructor, S;
  if (C === undefined) return M;
  if (!isObj(C)) throw new TypeError("constructor");
  S = C[Symbol.species];
  if (S === undefined || S === null) return M;
  if (typeof S !== "function" || S.prototype === undefined) throw new TypeError("species");
  return S;
}
class M {
  constructor(ex) {
    if (typeof ex !== "function") throw new TypeError("executor");
    this.s = 0; this.v = undefined; this.rs = [];
    var f = mFuncs(this);
    try { ex(f.resolve, f.reject); } catch (e) { f.reject(e); }
  }
  then(f, r) {
    var cap = mCap(mSpecies(this)), k = { cap: cap, f: typeof f === "function" ? f : undefined, r: typeof r === "function" ? r : undefined };
    if (this.s === 0) this.rs.push(k); else mJob(k, this.s, this.v);
    return cap.promise;
  }
  catch(r) { return this.then(undefined, r); }
  finally(f) {
    if (!isObj(this)) throw new TypeError("this");
    var C = mSpecies(this);
    if (typeof f !== "function") return this.then(f, f);
    return this.then(function (v) { var p = mResolve(C, f()); return p.then(function () { return v; }); },
      function (e) { var p = mResolve(C, f()); return p.then(function () { throw e; }); });
  }
  static resolve(x) { if (!isObj(this)) throw new TypeError("this"); return mResolve(this, x); }
  static reject(x) { var c = mCap(this); c.reject(x); return c.promise; }
  static all(it) { return mComb(this, it, 0); }
  static allSettled(it) { return mComb(this, it, 1); }
  static any(it) { return mComb(this, it, 2); }
  static race(it) { return mComb(this, it, 3); }
  static get [Symbol.species]() { return this; }
}
function mComb(C, iterable, kind) {
  var cap = mCap(C), pr, it, next, done = false;
  try {
    pr = C.resolve;
    if (typeof pr !== "function") throw new TypeError("resolve");
    var im = iterable === undefined || iterable === null ? undefined : iterable[Symbol.iterator];
    if (typeof im !== "function") throw new TypeError("iterable");
    it = im.call(iterable);
    if (!isObj(it)) throw new TypeError("iterator");
    next = it.next;
  } catch (e) { cap.reject(e); return cap.promise; }
  try {
    var vals = [], left = 1, idx = 0;
    var finish = function () { if (kind === 2) { var e = new AggregateError(vals); cap.reject(e); } else cap.resolve(vals); };
    var element = function (i, flag, conv) { return function (x) { if (flag.called) return; flag.called = true; vals[i] = conv(x); if (--left === 0) finish(); }; };
    for (;;) {
      var r, d, v;
      try {
        r = next.call(it); if (!isObj(r)) throw new TypeError("result");
        d = r.done;
        if (!d) v = r.value;
      } catch (e) { done = true; throw e; }
      if (d) { done = true; if (kind !== 3 && --left === 0) { if (kind === 2) { var ae = new AggregateError(vals); throw ae; } cap.resolve(vals); } return cap.promise; }
      vals.push(undefined);
      var np = pr.call(C, v), flag = { called: false }, i = idx++;
      if (kind === 3) { np.then(cap.resolve, cap.reject); vals.length = 0; continue; }
      left++;
      if (kind === 0) np.then(element(i, flag, function (x) { return x; }), cap.reject);
      else if (kind === 1) np.then(element(i, flag, function (x) { return { status: "fulfilled", value: x }; }), element(i, flag, function (x) { return { status: "rejected", reason: x }; }));
      else np.then(cap.resolve, element(i, flag, function (x) { return x; }));
    }
  } catch (e) {
    if (!done) { try { var rt = it.return; if (rt !== undefined && rt !== null) rt.call(it); } catch (e2) { } }
    cap.reject(e); return cap.promise;
  }
}
function show(v, C) {
  if (Array.isArray(v)) { var s = "["; for (var i = 0; i < v.length; i++) s += (i ? " " : "") + (i in v ? show(v[i], C) : "-"); return s + "]"; }
  if (v instanceof AggregateError) return "AE" + show(v.errors, C);
  if (v instanceof Error) return v.name;
  if (isObj(v) && "status" in v) return v.status + "=" + ("value" in v ? show(v.value, C) : "!" + show(v.reason, C)) + Object.keys(v).length;
  if (v instanceof C) return "P";
  if (typeof v === "function") return "F";
  if (isObj(v)) return "O" + (v.id === undefined ? "" : v.id);
  return String(v);
}
/* program(C, log): C the constructor; log(text) */
function both(name, program) {
  var a = [], b = [], mode = 0;
  function lg(out) { return function (t) { out.push(t); if (out.length > 400) throw "runaway"; }; }
  program(Promise, lg(a));
  mq = [];
  program(M, lg(b));
  while (mq.length) mq.shift()();
  final(function () { var i; for (i = 0; i < a.length || i < b.length; i++) if (a[i] !== b[i]) { eq(a.join(), b.join(), name); return; } check(true, name); });
}
function watch(C, log, p, n) { p.then(function (v) { log(n + ":f" + show(v, C)); }, function (e) { log(n + ":r" + show(e, C)); }); }
function ticks(C, log, n) { var p = C.resolve(), i; function t(k) { return function () { log("." + k); }; } for (i = 0; i < n; i++) p = p.then(t(i)); }
/* values to resolve with */
var NK = 16;
function mk(C, log, k, id, later) {
  switch (k) {
    case 0: return id;
    case 1: return C.resolve(id);
    case 2: return C.reject(id);
    case 3: return new C(function (f) { later.push(function () { f(id); }); });
    case 4: return { id: id, then: function (f, r) { log("t" + id); f(id); } };
    case 5: return { id: id, then: function (f, r) { log("t" + id); r(id); } };
    case 6: return { id: id, then: function (f, r) { log("t" + id); throw id; } };
    case 7: return { id: id, then: function (f, r) { f(id); log("t" + id); r("no"); f("no"); throw "no"; } };
    case 8: return { id: id, get then() { log("g" + id); throw id; } };
    case 9: return { id: id, get then() { log("g" + id); return 5; } };
    case 10: return new C(function (f, r) { later.push(function () { r(id); }); });
    case 11: return { id: id, then: function (f, r) { later.push(function () { f(C.resolve(id)); r("no"); }); } };
    case 12: return undefined;
    case 13: return C.resolve(C.reject(id));
    case 14: var o = function () { }; o.then = function (f, r) { log("t" + id); f({ then: function (g) { log("u" + id); g(id); } }); throw "no"; }; return o;
    case 15: var q = C.resolve(id); q.then = function (f, r) { log("own" + id); return C.prototype.then.call(this, f, r); }; return q;
  }
}
function run(later) { for (var i = 0; i < later.length; i++) later[i](); }
function after(C, n, f) { var p = C.resolve(), i; for (i = 0; i < n; i++) p = p.then(ident); p.then(f); }

scenario("executor", function () {
  var a = conc(symInt("a", 0, 3)), b = conc(symInt("b", 0, 3)), k = conc(symInt("k", 0, NK - 1)), l = conc(symInt("l", 0, 3)), d = conc(symInt("d", 0, 1));
  both("executor", function (C, log) {
    var later = [], F, R, p = new C(function (f, r) {
      function act(x, kk, id) { if (x === 1) log("r" + show(f(mk(C, log, kk, id, later)), C)); else if (x === 2) r(mk(C, log, kk, id, later)); else if (x === 3) throw mk(C, log, kk, id, later); }
      F = f; R = r; log("e"); act(a, k, "x"); act(b, [0, 1, 4, 10][l], "y");
    });
    watch(C, log, p, "p"); ticks(C, log, 6);
    if (d) { F("late"); R("late"); }
    run(later); log("end");
  });
}, 3);
scenario("then", function () {
  var s = conc(symInt("s", 0, 4)), f = conc(symInt("f", 0, NK + 3)), side = symBool("side");
  both("then", function (C, log) {
    var later = [], p = mk(C, log, [1, 2, 3, 10, 13][s], "s", later);
    function h(n) { return f === NK ? undefined : f === NK + 1 ? 5 : function (v) { log(n + show(v, C)); if (f === NK + 2) throw "h"; if (f === NK + 3) return q; return mk(C, log, f, "h", later); }; }
    var q = side ? p.then(h("F"), h("R")) : p.then(function (v) { log("o"); return v; }).catch(h("C"));
    watch(C, log, p, "p"); watch(C, log, q, "q"); ticks(C, log, 7);
    run(later); after(C, 4, function () { run(later.slice(1)); });
  });
}, 3);
scenario("finally", function () {
  var s = conc(symInt("s", 0, 3)), f = conc(symInt("f", 0, NK + 2));
  both("finally", function (C, log) {
    var later = [], p = mk(C, log, [1, 2, 3, 10][s], "s", later);
    var q = p.finally(f === NK ? undefined : f === NK + 1 ? 5 : function () { log("L" + arguments.length); if (f === NK + 2) throw "h"; return mk(C, log, f, "h", later); });
    watch(C, log, q, "q"); ticks(C, log, 9);
    run(later); after(C, 4, function () { run(later.slice(1)); });
  });
}, 2);
var COMB = ["all", "allSettled", "any", "race"];
scenario("combinators", function () {
  var m = conc(symInt("m", 0, 3)), n = conc(symInt("n", 0, 2)), ks = [], i;
  for (i = 0; i < n; i++) ks.push(conc(symInt("k" + i, 0, NK - 1)));
  both(COMB[m], function (C, log) {
    var later = [], a = [], i;
    for (i = 0; i < n; i++) a.push(mk(C, log, ks[i], "v" + i, later));
    watch(C, log, C[COMB[m]](a), "c"); ticks(C, log, 8); run(later); log("end");
  });
}, 4);
scenario("combinator_orders", function () {
  var m = conc(symInt("m", 0, 3)), n = 3, ks = [], o = conc(symInt("o", 0, 5)), i;
  for (i = 0; i < n; i++) ks.push(conc(symInt("k" + i, 0, 3)));
  both(COMB[m], function (C, log) {
    var later = [[], [], []], a = [], i;
    for (i = 0; i < n; i++) a.push(mk(C, log, [0, 3, 10, 11][ks[i]], "v" + i, later[i]));
    watch(C, log, C[COMB[m]](a), "c");
    var P = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][o];
    after(C, 2, function () { for (i = 0; i < 3; i++) after(C, i, (function (j) { return function () { run(later[P[j]]); }; })(i)); });
    ticks(C, log, 10);
  });
}, 3);
/* what the combinators call, and how they stop */
scenario("combinator_protocol", function () {
  var m = conc(symInt("m", 0, 3)), w = conc(symInt("w", 0, 15)), n = conc(symInt("n", 0, 2)), rt = conc(symInt("rt", 0, 3));
  both(COMB[m] + " protocol " + w, function (C, log) {
    class D extends C { static resolve(x) { log("S" + x + (this === D)); if (w === 1 && x === n) throw "sr"; if (w === 2 && x === n) return { get then() { throw "tg"; } }; if (w === 3 && x === n) return { then: function () { log("th"); throw "tt"; } }; if (w === 4 && x === n) return { then: 5 }; if (w === 5) return { then: function (f, r) { log("T" + x + (typeof f) + (typeof r) + f.length + r.length); f(x); f("again"); r("again"); } }; if (w === 13) return { then: function (f, r) { r(x); f("again"); r("again"); } }; if (w === 14 && x === n) return 7; return super.resolve(x); } }
    if (w === 6) D.resolve = undefined;
    if (w === 12) Object.defineProperty(D, "resolve", { get: function () { log("gr"); return function (x) { log("R" + x); return C.resolve(x); }; } });
    var i = 0, it = { get next() { log("gn"); return function () { log("n" + (this === it)); if (w === 7 && i === n) throw "nx"; if (w === 8 && i === n) return 3; if (w === 9 && i === n) return { get done() { throw "dn"; } }; if (w === 10 && i === n) return { done: false, get value() { throw "vl"; } }; return i < 3 ? { done: false, value: i++ } : { done: true, get value() { log("late value"); } }; }; } };
    if (rt) it.return = function () { log("ret" + arguments.length); if (rt === 2) throw "rt"; return rt === 3 ? 5 : {}; };
    var src = w === 11 ? [undefined, null, 5, {}][n + (rt === 1)] : { [Symbol.iterator]: function () { log("it"); if (w === 15) { if (n) throw "its"; return 4; } return it; } };
    var p = C[COMB[m]].call(D, src);
    log(p instanceof D);
    watch(C, log, p, "c"); ticks(C, log, 6);
  });
}, 3);
/* any history of creating, settling and chaining */
scenario("history", function () {
  var n = DEEP ? 4 : 3, ops = [], i;
  for (i = 0; i < n; i++) ops.push([conc(symInt("o" + i, 0, 7)), conc(symInt("a" + i, 0, i)), conc(symInt("b" + i, 0, 1))]);
  both("history", function (C, log) {
    var ps = [], fs = [], rs = [], i;
    function add(p) { ps.push(p); fs.push(function () { }); rs.push(function () { }); }
    function def() { var F, R; ps.push(new C(function (f, r) { F = f; R = r; })); fs.push(F); rs.push(R); }
    def();
    function step(i) {
      if (i === n) return;
      var o = ops[i], t = o[1] < ps.length ? o[1] : 0, p = ps[t], nm = "s" + i, last = ps[ps.length - 1];
      switch (o[0]) {
        case 0: def(); watch(C, log, ps[ps.length - 1], nm); break;
        case 1: fs[t](o[2] ? last : nm); break;
        case 2: rs[t](nm); break;
        case 3: add(p.then(function (v) { log(nm + "F" + show(v, C)); return o[2] ? last : v; }, o[2] ? undefined : function (e) { log(nm + "R" + show(e, C)); return e; })); break;
        case 4: add(C.resolve(p)); log(ps[ps.length - 1] === p); watch(C, log, p, nm); break;
        case 5: add(p.finally(function () { log(nm + "L"); return o[2] ? last : 1; })); watch(C, log, ps[ps.length - 1], nm); break;
        case 6: C.resolve().then(function () { fs[t](o[2] ? ps[0] : nm); }); break;
        case 7: add(new C(function (f) { f(p); })); watch(C, log, ps[ps.length - 1], nm); if (o[2]) { C.resolve().then(function () { step(i + 1); }); return; } break;
      }
      step(i + 1);
    }
    step(0);
    log("sync"); ticks(C, log, 5);
  });
}, 6);
scenario("species", function () {
  var w = conc(symInt("w", 0, 9)), m = conc(symInt("m", 0, 2)), s = symBool("s");
  both("species", function (C, log) {
    class D extends C { constructor(x) { log("new"); super(x); } }
    var p = s ? D.resolve("v") : C.resolve("v"), q;
    switch (w) {
      case 1: p.constructor = undefined; break;
      case 2: p.constructor = 5; break;
      case 3: p.constructor = { [Symbol.species]: null }; break;
      case 4: p.constructor = { [Symbol.species]: D }; break;
      case 5: p.constructor = { [Symbol.species]: 5 }; break;
      case 6: p.constructor = { get [Symbol.species]() { log("sp"); return function (ex) { ex(function (v) { log("cr" + show(v, C)); }, function (v) { log("cj" + show(v, C)); }); }; } }; break;
      case 7: p.constructor = { [Symbol.species]: function (ex) { ex(undefined, undefined); ex(function () { log("2nd"); }, function () { }); } }; break;
      case 8: p.constructor = { [Symbol.species]: function (ex) { ex(function () { }, undefined); } }; break;
      case 9: Object.defineProperty(p, "constructor", { get: function () { log("gc"); return D; } }); break;
    }
    try {
      q = m === 0 ? p.then(function (v) { log("h" + v); return "w"; }) : m === 1 ? p.catch(function () { log("no"); }) : p.finally(function () { log("L"); });
      log((q instanceof D) + "" + (q instanceof C));
      if (q instanceof C) watch(C, log, q, "q");
    } catch (e) { log("x" + show(e, C)); }
    log(C.resolve(p) === p); log(D.resolve(p) === p);
    ticks(C, log, 6);
  });
});
scenario("capability", function () {
  var w = conc(symInt("w", 0, 7)), m = conc(symInt("m", 0, 5));
  both("capability", function (C, log) {
    function K(ex) {
      log("K"); function f(v) { log("f" + show(v, C)); } function r(v) { log("r" + show(v, C)); }
      switch (w) { case 0: ex(f, r); break; case 1: break; case 2: ex(undefined, undefined); ex(f, r); break; case 3: ex(f, r); ex(f, r); break; case 4: ex(null, r); break; case 5: ex(f, 5); break; case 6: throw "kx"; case 7: log("len" + ex.length); ex(function (v) { log("f" + show(v, C)); throw "cap"; }, r); break; }
    }
    K.resolve = function (v) { return { then: function (f, r) { log("then"); f(v); } }; };
    try { var q = m === 0 ? C.resolve.call(K, "v") : m === 1 ? C.reject.call(K, "v") : C[COMB[m - 2]].call(K, m === 4 ? [] : ["a"]); log(q instanceof K); } catch (e) { log("x" + show(e, C)); }
  });
});
scenario("receivers", function () {
  var k = conc(symInt("k", 0, 6)), m = conc(symInt("m", 0, 9)), v = [undefined, null, 5, "s", {}, [], ident][k];
  function err(f) { try { var r = f(); return r === undefined ? "none" : "v"; } catch (e) { return isObj(e) ? e.name : e; } }
  if (m === 0) eq(err(function () { return Promise.prototype.then.call(v); }), "TypeError", "then on another value");
  else if (m === 1) eq(err(function () { return new Promise(v); }), k === 6 ? "v" : "TypeError", "executor");
  else if (m === 2) eq(err(function () { return Promise(v); }), "TypeError", "without new");
  else if (m === 3) eq(err(function () { return Promise.resolve.call(v, 1); }), "TypeError", "resolve needs a constructor");
  else if (m === 4) eq(err(function () { return Promise.prototype.catch.call(v); }), "TypeError", "catch calls then");
  else if (m === 5) eq(err(function () { return Promise.prototype.finally.call(v); }), "TypeError", "finally calls then");
  else if (m === 6) { var got, o = { then: function (a, b) { got = [this === o, arguments.length, a, b]; return 9; } }; eq(Promise.prototype.catch.call(o, v), 9, "catch returns what then returns"); eq(got[0], true, "this"); eq(got[1], 2, "two arguments"); eq(got[2], undefined, "first"); eq(got[3], v, "second"); }
  else if (m === 7) { var got, o = { then: function (a, b) { got = [arguments.length, a, b]; return 9; } }; eq(Promise.prototype.finally.call(o, v), 9, "finally returns what then returns"); eq(got[0], 2, "two arguments"); if (k === 6) { eq(typeof got[1], "function", "wrapped"); eq(got[1].length, 1, "length"); eq(got[1] !== got[2], true, "two functions"); } else { eq(got[1], v, "passed"); eq(got[2], v, "passed"); } }
  else if (m === 8) { var F; new Promise(function (f, r) { F = [f, r]; }); eq(F[0].length, 1, "resolve length"); eq(F[1].length, 1, "reject length"); eq(F[0].name, "", "no name"); eq(F[0](v), undefined, "returns nothing"); eq(F[1](v), undefined, "returns nothing"); eq(err(function () { return new F[0](); }), "TypeError", "no constructor"); eq("prototype" in F[0], false, "no prototype"); }
  else { eq(Promise.length, 1, "length"); eq(Promise.all.length, 1, "all"); eq(Promise.prototype.then.length, 2, "then"); eq(Promise.prototype[Symbol.toStringTag], "Promise", "tag"); eq(Promise[Symbol.species], Promise, "species"); eq(Object.getOwnPropertyDescriptor(Promise, "prototype").writable, false, "prototype"); }
});
