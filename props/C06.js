/* C06: async generators */
var G = [
  ["plain", ["seq", ["h", 0], ["log", 1], ["h", 1]]],
  ["try", ["seq", ["try", ["seq", ["h", 0], ["log", 1]], ["h", 1], ["h", 2]], ["log", 2]], 2],
  ["loop-finally", ["seq", ["loop", "for", "a", ["try", ["h", 0], null, ["h", 1]]], ["log", 2]], 1],
  ["for-await", ["seq", ["of", "p", "a", ["seq", ["h", 0], ["log", 1]], "x", true], ["log", 2]], 2],
  ["for-of", ["seq", ["of", "p", "a", ["try", ["h", 0], null, ["log", 1]]], ["log", 2]], 2]
];
G.forEach(function (f) {
  ctlPrep(f[1], "agen");
  scenario("agen-" + f[0], function () {
    var env = ctlMk(f[1], "agen", "", true);
    ctlAGen("async generator", f[1], env, [symInt("o0", 0, 3), symInt("o1", 0, 3), f[2] === 1 && !DEEP ? 0 : symInt("o2", 0, 3)], [symBool("l0"), f[2] && !DEEP ? false : symBool("l1"), false]);
  });
});
/* yield* in async generators: the delegate answers in every way it can; the model handles the requests one by one. */
(function () {
  var AS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12], SS = [0, 1, 5, 6, 7, 8, 9, 11, 12];   /* kinds of answers of an async and of a sync delegate */
  function val(k, x, L) {
    L("v" + x);
    switch (k) {
    case 0: return { value: x, done: false };
    case 1: return { value: x, done: true };
    case 2: return Promise.resolve({ value: x, done: false });
    case 3: return Promise.resolve({ value: x, done: true });
    case 4: return Promise.reject("rj" + x);
    case 5: return 7;
    case 6: throw "th" + x;
    case 7: return { value: Promise.resolve("pv" + x), done: false };
    case 8: return { value: Promise.reject("pr" + x), done: false };
    case 9: return { value: Promise.resolve("dv" + x), done: true };
    case 10: return Promise.resolve(8);
    case 11: return { get done() { L("gd"); return false }, get value() { L("gv"); throw "gv" + x } };
    }
    return { get done() { L("gd"); throw "gd" + x } };
  }
  /* what an answer means: [t, value] with t "y" (goes on), "d" (done) or "t" (throws) */
  function meaning(k, x, sync, L) {
    L("v" + x);
    switch (k) {
    case 0: case 2: return ["y", x];
    case 1: case 3: return ["d", x];
    case 4: return ["t", "rj" + x];
    case 5: case 10: return ["t", "TypeError"];
    case 6: return ["t", "th" + x];
    case 7: return ["y", sync ? "pv" + x : "P"];
    case 8: return ["t", "pr" + x];
    case 9: return ["d", sync ? "dv" + x : "P"];
    case 11: L("gd"); L("gv"); return ["t", "gv" + x];
    }
    L("gd"); return ["t", "gd" + x];
  }
  function nm(e) { return e && e.name || e }
  function show(v) { return v instanceof Promise ? "P" : v }
  ["plain", "try"].forEach(function (shape) {
    [false, true].forEach(function (sync) {
      scenario("delegate-" + shape + (sync ? "-sync" : ""), function () {
        var KS = sync ? SS : AS, log = [], ml = [], n = 0, L = function (x) { log.push(x) }, M = function (x) { ml.push(x) };
        var N = [KS[conc(symInt("n0", 0, KS.length - 1))], KS[conc(symInt("n1", 0, KS.length - 1))]], R = conc(symInt("ret", -3, KS.length - 1)), T = conc(symInt("thr", -1, KS.length - 1));
        var it = { next: function (a) { L("n" + a); n++; return val(n > 2 ? 1 : N[n - 1], "n" + n, L) } };
        if (R >= 0) it.return = function (a) { L("r" + (arguments.length ? a : "")); return val(KS[R], "R", L) };
        if (R === -2) it.return = 5;
        if (R === -3) Object.defineProperty(it, "return", { get: function () { throw "GR" } });
        if (T >= 0) it.throw = function (a) { L("t" + a); return val(KS[T], "T", L) };
        var d = {}; d[sync ? Symbol.iterator : Symbol.asyncIterator] = function () { return it };
        var g = shape === "plain" ? async function* () { var x = yield* d; L("x" + show(x)); yield "aft" } : async function* () { try { var x = yield* d; L("x" + show(x)); yield "aft" } catch (e) { L("c" + nm(e)); yield "cau" } };
        var state = "start", mn = 0;
        function abrupt(e) { if (shape === "try" && state !== "cau") { M("c" + e); state = "cau"; return "cau,false" } state = "done"; return "!" + e }
        function closed(v, vj) { if (vj) return null; state = "done"; return v + ",true" }
        function finish(a) { M("x" + a); state = "aft"; return "aft,false" }
        function inner(a, ret) {
          if (a[0] === "t") return abrupt(a[1]);
          if (a[0] === "y") { state = "deleg"; return a[1] + ",false" }
          if (ret) { state = "done"; return a[1] + ",true" }
          return finish(a[1]);
        }
        /* op 0 next, 1 throw, 2 return, 3 return of a rejected promise, 4 return of a promise */
        function request(op, q) {
          if (state === "done" || state === "start" && op) { state = "done"; return op === 0 ? "undefined,true" : op === 1 ? "!" + q : op === 3 ? "!j" + q : (op === 4 ? "p" + q : q) + ",true" }
          if (state === "start") { state = "deleg"; M("n" + undefined); mn++; return inner(meaning(N[0], "n1", sync, M)) }
          if (op === 3) { op = 1; q = "j" + q } else if (op === 4) q = "p" + q;
          if (state !== "deleg") { if (op === 0) { state = "done"; return "undefined,true" } if (op === 1) return abrupt(q); state = "done"; return q + ",true" }
          if (op === 0) { M("n" + q); mn++; return inner(meaning(mn > 2 ? 1 : N[mn - 1], "n" + mn, sync, M)) }
          if (op === 1) {
            if (T >= 0) { M("t" + q); return inner(meaning(KS[T], "T", sync, M)) }
            if (sync) return abrupt(q);
            /* no throw method: the delegate is closed and a TypeError is thrown */
            if (R === -3) return abrupt("GR");
            if (R === -2 || R === -1) return abrupt("TypeError");
            M("r"); M("vR"); var k = KS[R]; return abrupt(k === 4 ? "rjR" : k === 6 ? "thR" : "TypeError");
          }
          if (R === -3) return abrupt("GR");
          if (R === -2) return abrupt("TypeError");
          if (R === -1) { state = "done"; return q + ",true" }
          M("r" + q); return inner(meaning(KS[R], "R", sync, M), true);
        }
        var i = g(), atOnce = symBool("once"), ops = [0, conc(symInt("o1", 0, 4)), conc(symInt("o2", 0, 4)), DEEP ? conc(symInt("o3", 0, 4)) : 0], res = [], k;
        ops.forEach(function (op, j) {
          var q = "q" + j, p = op === 0 ? i.next(q) : op === 1 ? i.throw(q) : i.return(op === 3 ? Promise.reject("j" + q) : op === 4 ? Promise.resolve("p" + q) : q);
          p.then(function (x) { res.push(show(x.value) + "," + x.done) }, function (e) { res.push("!" + nm(e)) });
          if (!atOnce) drain();
        });
        drain();
        var exp = ops.map(function (op, j) { return request(op, "q" + j) });
        eq(res.join(" "), exp.join(" "), "answers"); eq(log.join(), ml.join(), "steps");
      }, 2);
    });
  });
})();
