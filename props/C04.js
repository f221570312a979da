/* C04: generators. The program trees of C01 with yields in the holes, driven by a symbolic sequence of
 * next/throw/return; plus delegation (yield*) to an iterator with symbolic behaviour. */
var G = [
  ["try", ["seq", ["try", ["seq", ["h", 0], ["log", 1]], ["h", 1], ["h", 2]], ["log", 2]]],
  ["loop-finally", ["seq", ["loop", "for", "a", ["try", ["h", 0], null, ["h", 1]]], ["log", 2]], 1],
  ["nested", ["seq", ["try", ["try", ["h", 0], null, ["h", 1]], ["h", 2], ["log", 1]], ["log", 2]]],
  ["of-close", ["seq", ["of", "p", "a", ["seq", ["h", 0], ["log", 1]]], ["log", 2]]],
  ["of-of", ["seq", ["of", "p", "a", ["try", ["of", "q", null, ["h", 0]], null, ["seq", ["log", 1], ["h", 1]]]], ["log", 2]], 1],
  ["let-scopes", ["seq", ["loop", "let", "a", ["let", ["try", ["h", 0], ["let", ["h", 1]], null]]], ["log", 2]]],
  ["switch-with", ["seq", ["sw", "a", [[0, ["with", null, ["h", 0]]], [1, ["let", ["h", 1]]], [null, ["log", 1]]]], ["log", 2]]],
  ["for-in", ["seq", ["loop", "in", "a", ["seq", ["h", 0], ["log", 1]]], ["log", 2]]]
];
G.forEach(function (f) {
  ctlPrep(f[1], "gen");
  scenario("gen-" + f[0], function () {
    var env = ctlMk(f[1], "gen", "", f[2]);
    ctlGen("generator", f[1], env, [symInt("o0", 0, 2), symInt("o1", 0, 2), symInt("o2", 0, 2), f[2] && !DEEP ? 0 : symInt("o3", 0, 2)]);
  });
});
/* Delegation. nk[i]: 0 not done, 1 done, 2 throws, 3 not an object; tk/rk: 0 no method, 1 not done, 2 done, 3 throws, 4 not an object. */
scenario("delegate", function () {
  var nk = [symInt("n0", 0, 3), symInt("n1", 0, 3), 1, 1, 1], tk = symInt("tk", 0, 4), rk = symInt("rk", 0, 4);
  var ops = [0, symInt("o1", 0, 2), symInt("o2", 0, 2), 0], uv = conc(symInt("uv", 0, 2)), log = [], m = [];
  function res(k, x) { if (k === 3) throw "E" + x; return k === 4 ? 5 : { value: x, done: k === 2 }; }
  var nn = 0, inner = { next: function (v) { var i = nn++; log.push("n" + v); if (nk[i] === 2) throw "N" + i; return nk[i] === 3 ? 5 : { value: "i" + i, done: nk[i] === 1 }; } };
  inner[Symbol.iterator] = function () { return inner; };
  if (tk) inner.throw = function (v) { log.push("t" + v); return res(tk, "th"); };
  if (rk) inner.return = function (v) { log.push("r" + v); return res(rk, "rt"); };
  var g = (function* () { try { var r = yield* inner; log.push("R" + r); return "E"; } catch (e) { log.push("x" + (e && e.name || e)); } finally { log.push("f"); } })();
  /* model */
  var mn = 0, st = 0;      /* 0 running, 1 finished */
  function end(c, v) {     /* completion of the delegation: n value, t error, r return value -> step result */
    st = 1;
    if (c === "n") { m.push("R" + v); m.push("f"); return "E,true"; }
    if (c === "t") { m.push("x" + v); m.push("f"); return "undefined,true"; }
    m.push("f"); return v + ",true";
  }
  function step(op, v) {
    if (st === 1) return op === 0 ? "undefined,true" : op === 1 ? "t" + v : v + ",true";
    if (op === 0) {
      var i = mn++;
      m.push("n" + v);
      return nk[i] === 2 ? end("t", "N" + i) : nk[i] === 3 ? end("t", "TypeError") : nk[i] === 1 ? end("n", "i" + i) : "i" + i + ",false";
    }
    if (op === 1) {
      if (tk === 0) {
        if (rk) m.push("rundefined");
        return end("t", rk === 3 ? "Ert" : "TypeError");
      }
      m.push("t" + v);
      return tk === 1 ? "th,false" : tk === 2 ? end("n", "th") : end("t", tk === 3 ? "Eth" : "TypeError");
    }
    if (rk === 0) return end("r", v);
    m.push("r" + v);
    return rk === 1 ? "rt,false" : rk === 2 ? end("r", "rt") : end("t", rk === 3 ? "Ert" : "TypeError");
  }
  for (var i = 0; i < ops.length; i++) {
    var v = uv === 0 ? "V" + i : uv === 1 ? undefined : i, got, want = step(ops[i], i ? v : undefined);
    try { var r = ops[i] === 0 ? g.next(v) : ops[i] === 1 ? g.throw(v) : g.return(v); got = String(r.value) + "," + r.done; } catch (e) { got = "t" + (e && e.name || e); }
    eq(got, want, "delegate: result of step " + i);
    eq(log.join(), m.join(), "delegate: effects up to step " + i);
  }
});
/* Consumers of a generator object close it exactly when they stop early, whatever stops them. */
scenario("consumers", function () {
  var n = symInt("n", 0, 3), stop = symInt("stop", 0, 4), how = symInt("how", 0, 4), log = [], got, want, ml = [];
  var f = (0, eval)("(function*(n,log){try{for(var i=0;i<n;i++){log.push('p'+i);yield i}return 'R'}finally{log.push('f')}})");
  var g = f(n, log), seen = [];
  try {
    switch (how) {
    case 0: for (var x of g) { if (seen.length === stop) break; seen.push(x); } break;
    case 1: var a, b; [a, b] = g; seen.push(a, b); break;
    case 2: seen = [...g]; break;
    case 3: seen = Array.from(g, function (v, i) { if (i === stop) throw "S"; return v; }); break;
    case 4: new Map((function* () { })()); seen = [].concat(Array.from(new Set(g))); break;
    }
    got = seen.join();
  } catch (e) { got = "t" + e; }
  var k, upto = how === 0 || how === 3 ? (stop < n ? stop + 1 : n) : how === 1 ? (n < 2 ? n : 2) : n;
  for (k = 0; k < upto; k++) ml.push("p" + k);
  ml.push("f");
  var all = []; for (k = 0; k < n; k++) all.push(k);
  want = how === 0 ? all.slice(0, stop < n ? stop : n).join() : how === 1 ? [n > 0 ? 0 : undefined, n > 1 ? 1 : undefined].join() : how === 3 && stop < n ? "tS" : all.join();
  eq(log.join(), ml.join(), "consumer: the generator runs exactly as far as needed and is closed once");
  eq(got, want, "consumer: result");
  eq(g.next().done, true, "consumer: exhausted afterwards");
});
scenario("reentry", function () {
  var op = symInt("op", 0, 2), at = symInt("at", 0, 1), g, e1 = "none";
  g = (0, eval)("(function*(f){if(f.at===0)f();yield 1;if(f.at===1)f();yield 2})")(Object.assign(function () {
    try { if (op === 0) g.next(); else if (op === 1) g.throw(3); else g.return(4); } catch (e) { e1 = e.name; }
  }, { at: at }));
  eq(g.next().value, 1, "reentry: first"); eq(g.next().value, 2, "reentry: a running generator is not disturbed"); eq(g.next().done, true, "reentry: end");
  eq(e1, "TypeError", "reentry: a running generator cannot be resumed");
});
