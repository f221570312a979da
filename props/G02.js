/* G02: weak collections, weak references and finalization. Objects live in S; a collection in a later job must keep
 * exactly what is reachable. Model: the set of objects still held in S, closed over strong links and weak map entries. */
function mkObjs(n) { var S = [], i; for (i = 0; i < n; i++) S.push({ id: i }); return S; }
function mkRefs(S) { return S.map(function (o) { return new WeakRef(o); }); }
function later() { drain(); gc(); drain(); }
function refAlive(R, i) { var d = R[i].deref(); if (d !== undefined && d.id !== i) return "wrong object"; return d !== undefined; }
function dropObj(S, i) { S[i] = null; }
/* ---- weak map values live exactly as long as their keys (and the map) do ---- */
scenario("ephemerons", function () {
  var n = DEEP ? 5 : 4, S = mkObjs(n), R = mkRefs(S), M = [new WeakMap()], i, j, lk = [], kind = [], keep = [], mapKept = symBool("map");
  for (i = 0; i < n; i++) { lk.push(conc(symInt("link" + i, -1, n - 1))); kind.push(lk[i] < 0 || i > 1 && !DEEP ? 0 : conc(symInt("strong" + i, 0, 1))); }
  (function () { for (var i = 0; i < n; i++) if (lk[i] >= 0) { if (kind[i]) S[i].link = S[lk[i]]; else M[0].set(S[i], { v: S[lk[i]], own: "own" + i }); } })();
  for (i = 0; i < n; i++) { keep.push(i < 2 ? conc(symInt("keep" + i, 0, 1)) : 0); if (!keep[i]) dropObj(S, i); }
  if (!mapKept) M[0] = null;
  later();
  var live = keep.slice(), ch = true;
  while (ch) { ch = false; for (i = 0; i < n; i++) if (live[i] && lk[i] >= 0 && (kind[i] || mapKept) && !live[lk[i]]) { live[lk[i]] = 1; ch = true; } }
  for (i = 0; i < n; i++) eq(refAlive(R, i), !!live[i], "object " + i + " alive");
  for (i = 0; i < n; i++) if (keep[i] && mapKept && lk[i] >= 0 && !kind[i]) { var e = M[0].get(S[i]); eq(e && e.own, "own" + i, "entry of a live key"); eq(e && e.v && e.v.id, lk[i], "value of a live key"); }
});
/* ---- any history of weak map and weak set operations with collections in between ---- */
["WeakMap", "WeakSet"].forEach(function (kind) {
  scenario("history-" + kind, function () {
    var S = mkObjs(3), isMap = kind === "WeakMap", w = isMap ? new WeakMap() : new WeakSet(), m = [undefined, undefined, undefined], nn = 0, i, steps = DEEP ? 5 : isMap ? 4 : 3;
    for (var s = 0; s < steps; s++) {
      var op = conc(symInt("op" + s, 0, 4)), k = op === 4 ? 0 : s === 0 ? 0 : conc(symInt("k" + s, 0, s === 1 ? 1 : 2)), got, want;
      if (op === 0) { nn++; got = isMap ? w.set(S[k], { n: "v" + nn }) : w.add(S[k]); want = w; m[k] = "v" + nn; }
      else if (op === 1) { got = w.delete(S[k]); want = m[k] !== undefined; m[k] = undefined; }
      else if (op === 2) { got = w.has(S[k]); want = m[k] !== undefined; }
      else if (op === 3) { if (isMap) { var e = w.get(S[k]); got = e && e.n; want = m[k]; } else { S[k] = { id: k }; got = w.has(S[k]); want = false; m[k] = undefined; } }
      else { got = want = 0; later(); }
      eq(got, want, kind + ": result of operation " + op);
    }
    later();
    for (i = 0; i < 3; i++) { eq(w.has(S[i]), m[i] !== undefined, kind + ": final membership"); if (isMap) eq(m[i] === undefined ? w.get(S[i]) : w.get(S[i]).n, m[i], kind + ": final value"); }
  });
});
/* ---- finalization: exactly once, only for dead targets, never after unregistration ---- */
scenario("finalization", function () {
  var S = mkObjs(3), T = [{ t: 0 }, { t: 1 }], called = [], F = [new FinalizationRegistry(function (h) { called.push("a" + h); }), new FinalizationRegistry(function (h) { called.push("b" + h); })];
  var cells = [], want = [], alive = [1, 1, 1], hn = 0, i, steps = DEEP ? 5 : 4;
  function sweep() { for (var i = 0; i < cells.length; i++) if (cells[i] && !alive[cells[i].o]) { want.push((cells[i].f ? "b" : "a") + cells[i].h); cells[i] = null; } }
  for (var s = 0; s < steps; s++) {
    var op = s === 0 ? 0 : conc(symInt("op" + s, 0, 3)), o, f, t, h, got, w;
    if (op === 0) {
      o = s === 0 ? 0 : conc(symInt("o" + s, 0, 1)); t = conc(symInt("t" + s, -1, 2)); f = s && t === 0 ? conc(symInt("f" + s, 0, 1)) : 0;
      if (!alive[o]) { S[o] = { id: o }; sweepLater(o); }
      h = "h" + hn++;
      got = F[f].register(S[o], h, t < 0 ? undefined : t === 2 ? S[o] : T[t]);
      cells.push({ o: o, f: f, h: h, t: t === 2 ? "o" + o + gen(o) : t });
      eq(got, undefined, "register returns undefined");
    } else if (op === 1) {
      t = conc(symInt("t" + s, 0, 1));
      got = F[0].unregister(T[t]); w = false;
      for (i = 0; i < cells.length; i++) if (cells[i] && cells[i].f === 0 && cells[i].t === t) { cells[i] = null; w = true; }
      eq(got, w, "result of unregister");
    } else if (op === 2) { o = conc(symInt("o" + s, 0, 1)); dropObj(S, o); alive[o] = 0; }
    else { later(); sweep(); }
    eq(called.slice().sort().join(), want.slice().sort().join(), "finalization callbacks after operation " + op);
  }
  later(); sweep();
  eq(called.slice().sort().join(), want.slice().sort().join(), "finalization callbacks at the end");
  gc(); drain();
  eq(called.length, want.length, "no callback runs twice");
  /* a new object in a slot whose old object may still be uncollected */
  function gen(o) { return "g" + alive[o]; }
  function sweepLater(o) { for (var i = 0; i < cells.length; i++) if (cells[i] && cells[i].o === o) cells[i].o = 2 + o + 10; alive[2 + o + 10] = 0; alive[o] = 1; }
});
/* ---- weak references within and across jobs ---- */
scenario("weakref-jobs", function () {
  var S = mkObjs(2), R = [new WeakRef(S[0]), new WeakRef(S[1]), new WeakRef(S[0])], drop = [symBool("d0"), symBool("d1")], when = conc(symInt("when", 0, 2)), useIn = conc(symInt("use", 0, 2)), log = [];
  function look(r) { var d = R[r].deref(); return d === undefined ? "-" : "" + d.id; }
  if (when === 0) { if (drop[0]) S[0] = null; if (drop[1]) S[1] = null; }
  gc();
  eq(look(0) + look(1) + look(2), "010", "targets observed in the same job stay alive");
  Promise.resolve().then(function () {
    if (when === 1) { if (drop[0]) S[0] = null; if (drop[1]) S[1] = null; }
    if (useIn === 1) log.push(look(0));
    gc();
    if (useIn === 1) log.push(look(0));
  }).then(function () {
    if (when === 2) { if (drop[0]) S[0] = null; if (drop[1]) S[1] = null; }
    gc();
    log.push(look(0) + look(1));
    gc();
    log.push(look(0) + look(1));
  });
  drain();
  var w0 = drop[0] && (when === 0 || when === 1) ? "-" : "0", w1 = drop[1] && (when === 0 || when === 1) ? "-" : "1", w = [];
  if (useIn === 1) { var u = drop[0] && when === 0 ? null : "0"; w.push(u, u); }
  if (when === 2) { w0 = drop[0] ? "-" : "0"; w1 = drop[1] ? "-" : "1"; }
  if (useIn === 1 && log.length > 1) eq(log[0], log[1], "two reads in one job agree");
  eq(log[log.length - 2], log[log.length - 1], "two reads in one later job agree");
  eq(log[log.length - 1], w0 + w1, "targets in a later job");
});
/* ---- values that cannot be held weakly ---- */
scenario("refused", function () {
  var bad = [undefined, null, 1, "s", true, 5n, Symbol.for("registered")], v = bad[conc(symInt("v", 0, bad.length - 1))], w = conc(symInt("w", 0, 8)), got, want = "TypeError", fr = new FinalizationRegistry(function () {}), o = {};
  try {
    got = w === 0 ? new WeakMap().set(v, 1) : w === 1 ? new WeakSet().add(v) : w === 2 ? new WeakRef(v) : w === 3 ? fr.register(v, 1) : w === 4 ? new WeakMap().get(v) : w === 5 ? new WeakSet().delete(v) : w === 6 ? new WeakMap().has(v) : w === 7 ? fr.unregister(v) : fr.register(o, 1, v);
  } catch (e) { got = e.name; }
  if (w === 4) want = undefined; if (w === 5 || w === 6) want = false; if (w === 8 && v === undefined) want = undefined;
  eq(got, want, "use " + w);
});
