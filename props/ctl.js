/* A model of ECMAScript statement completion (sec. 14) over small program trees, with symbolic jump decisions.
 * A program tree is rendered to source text for the engine under test and interpreted by ctlRun for the model.
 * Nodes: ["seq",s..] ["log",n] ["h",i] ["try",b,c,f] ["loop",kind,label,body] ["of",id,label,body] ["blk",label,body]
 *        ["sw",label,[[n|null,stmt]..]] ["with",label,body] ["let",body]
 * A hole ["h",i] takes one of the jumps that are legal where it stands. */
var CTL_N = 0;
function ctlHoles(t) {
  /* Collect the legal actions of every hole. */
  var holes = {};
  (function walk(s, c) {
    if (!s) return;
    var k = s[0], i;
    if (k === "seq") { for (i = 1; i < s.length; i++) walk(s[i], c); }
    else if (k === "h") {
      var a = [["n"], ["t"]].concat(c.fn ? [["r"]] : []).concat(c.y ? [["y"]] : []).concat(CTLMODE === "agen" ? [["a"]] : []);
      if (c.brk) a.push(["b", null]);
      if (c.loop) a.push(["c", null]);
      for (i = 0; i < c.labels.length; i++) { a.push(["b", c.labels[i][0]]); if (c.labels[i][1]) a.push(["c", c.labels[i][0]]); }
      holes[s[1]] = a;
    }
    else if (k === "try") { var d = s[4] ? sub(c, { labels: c.labels.concat([[s[4], false]]) }) : c; walk(s[1], d); walk(s[2], d); walk(s[3], d); }
    else if (k === "loop") walk(s[3], sub(c, { brk: true, loop: true, labels: s[2] ? c.labels.concat([[s[2], true]]) : c.labels }));
    else if (k === "of") walk(s[3], sub(c, { brk: true, loop: true, labels: s[2] ? c.labels.concat([[s[2], true]]) : c.labels }));
    else if (k === "blk" || k === "with") walk(s[2], s[1] ? sub(c, { labels: c.labels.concat([[s[1], false]]) }) : c);
    else if (k === "let") walk(s[1], c);
    else if (k === "sw") { var e = sub(c, { brk: true, labels: s[1] ? c.labels.concat([[s[1], false]]) : c.labels }); for (i = 0; i < s[2].length; i++) walk(s[2][i][1], e); }
  })(t, { fn: CTLMODE !== "eval", y: CTLMODE === "gen" || CTLMODE === "async" || CTLMODE === "agen", brk: false, loop: false, labels: [] });
  function sub(c, o) { return { fn: c.fn, y: c.y, brk: o.brk || c.brk, loop: o.loop || c.loop, labels: o.labels || c.labels }; }
  return holes;
}
var CTLMODE = "fn";
function ctlSrc(t, holes) {
  var n = 0;
  function lab(l) { return l ? l + ":" : ""; }
  return (function r(s) {
    var k = s[0], i, o, v;
    if (k === "seq") { o = ""; for (i = 1; i < s.length; i++) o += r(s[i]); return o; }
    if (k === "log") return "L('" + s[1] + "');";
    if (k === "h") {
      var A = holes[s[1]];
      o = "q=H(" + s[1] + ");";
      for (i = 1; i < A.length; i++) {
        var a = A[i];
        o += "if(q===" + i + "){'h" + s[1] + "';" +
          (a[0] === "t" ? "throw 'T" + s[1] + "'" : a[0] === "r" ? "return 'R" + s[1] + "'" : a[0] === "a" ? "L('a'+(await AW(" + s[1] + ")))" :
           a[0] === "y" && CTLMODE === "agen" ? "L('y'+(yield AW(" + s[1] + ")))" :
           a[0] === "y" ? (CTLMODE === "gen" ? "L('y'+(yield 'Y" + s[1] + "'))" : "L('y'+(await AW(" + s[1] + ")))") :
           a[0] === "b" ? "break " + (a[1] || "") : "continue " + (a[1] || "")) + "}";
      }
      return o;
    }
    if (k === "try") return lab(s[4]) + "try{" + r(s[1]) + "}" + (s[2] ? "catch(e){L('x'+(e.name||e));" + r(s[2]) + "}" : "") + (s[3] ? "finally{" + r(s[3]) + "}" : "");
    if (k === "loop") {
      v = "i" + (n++); o = r(s[3]);
      switch (s[1]) {
      case "for": return lab(s[2]) + "for(var " + v + "=0;" + v + "<2;" + v + "++){" + o + "}";
      case "let": return lab(s[2]) + "for(let " + v + "=0;" + v + "<2;" + v + "++){let z=" + v + ";P(()=>z);" + o + "}";
      case "while": return "var " + v + "=0;" + lab(s[2]) + "while(" + v + "++<2){" + o + "}";
      case "do": return "var " + v + "=0;" + lab(s[2]) + "do{" + o + "}while(++" + v + "<2);";
      case "in": return lab(s[2]) + "for(var " + v + " in {p:1,r:2}){" + o + "}";
      }
    }
    if (k === "of") return lab(s[2]) + "for" + (s[5] ? " await" : "") + "(" + (s[4] || "x") + " of I('" + s[1] + "'," + !!s[5] + ")){" + r(s[3]) + "}";
    if (k === "blk") return lab(s[1]) + "{" + r(s[2]) + "}";
    if (k === "let") return "{let w=1;P(()=>w);" + r(s[1]) + "}";
    if (k === "with") return lab(s[1]) + "with({w:1}){" + r(s[2]) + "}";
    if (k === "sw") {
      o = lab(s[1]) + "switch(H('s')){";
      for (i = 0; i < s[2].length; i++) o += (s[2][i][0] === null ? "default:" : "case " + s[2][i][0] + ":") + r(s[2][i][1]);
      return o + "}";
    }
    throw "bad node " + k;
  })(t);
}
/* Decisions: the action of hole i at its v-th visit (two symbolic visits, then none). */
function ctlDecide(holes) {
  var D = {}, k;
  for (k in holes) D[k] = [symInt("h" + k + "a", 0, holes[k].length - 1), symInt("h" + k + "b", 0, holes[k].length - 1)];
  return D;
}
var CTL_E = { empty: 1 };
function CtlPause() {}
/* The model. env: {D decisions, iter(id) -> close kind, sw: [values], resume: function(hole) } */
function ctlRun(t, holes, env) {
  var log = [], fs = [], visits = {}, swn = 0;
  function N(v) { return { t: "n", l: null, v: v }; }
  function upd(c, v) { return c.v === CTL_E ? { t: c.t, l: c.l, v: v } : c; }
  function brk(c, label) { /* BreakableStatement + its label */
    if (c.t === "b" && (c.l === null || (label && c.l === label))) return N(c.v === CTL_E ? undefined : c.v);
    return c;
  }
  function goesOn(c, label) { return c.t === "n" || (c.t === "c" && (c.l === null || (label && c.l === label))); }
  function labelled(c, label) { return c.t === "b" && label && c.l === label ? N(c.v) : c; }
  function loop(label, times, body, lex) {
    var V = undefined, i, c;
    for (i = 0; i < times; i++) {
      if (lex) fs.push(i);
      c = exec(body);
      if (lex) c = upd(c, 0);
      if (!goesOn(c, label)) return brk(upd(c, V), label);
      if (c.v !== CTL_E) V = c.v;
    }
    return N(V);
  }
  function close(id, c, aw) {
    if (aw) return closeAsync(id, c);
    var k = env.close ? env.close(id) : 0;
    log.push("g" + id);
    if (k === 3 || k === 6) return c;            /* no "return" method */
    if (k < 4) log.push("c" + id);
    if (c.t === "t") return c;
    if (k === 4) return { t: "t", l: null, v: "TypeError" };
    if (k === 5) return { t: "t", l: null, v: "G" + id };
    if (k === 1) return { t: "t", l: null, v: "C" + id };
    if (k === 2) return { t: "t", l: null, v: "TypeError" };
    return c;
  }
  function closeAsync(id, c) {
    var k = env.aclose(id), r;
    log.push("g" + id);
    if (k === 3) return c;
    if (k > 4) return c.t === "t" ? c : { t: "t", l: null, v: k === 5 ? "TypeError" : "G" + id };
    log.push("c" + id);
    r = k === 1 ? { t: "t", l: null, v: "C" + id } : env.resume(["c", id], log, fs);
    if (c.t === "t") return c;
    return r.t === "t" ? r : k === 2 ? { t: "t", l: null, v: "TypeError" } : c;
  }
  function nextAsync(id) {
    var k = env.anext(id);
    if (k === 4) return { t: "t", l: null, v: "N" + id };
    var r = env.resume(["n", id], log, fs);
    return r.t === "t" ? r : k === 3 ? { t: "t", l: null, v: "TypeError" } : r;
  }
  function exec(s) {
    var k = s[0], i, c, V, b, f;
    switch (k) {
    case "seq":
      V = CTL_E;
      for (i = 1; i < s.length; i++) {
        c = exec(s[i]);
        if (c.v !== CTL_E) V = c.v;
        if (c.t !== "n") return upd(c, V);
      }
      return N(V);
    case "log": log.push(s[1]); return N(s[1]);
    case "h":
      var vn = visits[s[1]] = (visits[s[1]] || 0) + 1, A = holes[s[1]];
      if (vn > 2) return N(A.length > 1 ? undefined : 0);
      var q = env.D[s[1]][vn - 1];
      for (i = 1; i < A.length; i++) if (q === i) {
        switch (A[i][0]) {
        case "t": return { t: "t", l: null, v: "T" + s[1] };
        case "r":
          if (CTLMODE === "agen") { c = env.resume(["r", s[1]], log, fs); if (c.t !== "n") return c; }
          return { t: "r", l: null, v: "R" + s[1] };
        case "a":
          c = env.resume(s[1], log, fs);
          if (c.t !== "n") return c;
          log.push("a" + c.v);
          return N(undefined);
        case "y":
          if (CTLMODE === "agen") {
            c = env.resume(["Y", s[1]], log, fs);
            if (c.t !== "n") return c;
            c = env.resume(["Z", c.v], log, fs);
            if (c.t === "r") { c = env.resume(["U", c.v], log, fs); if (c.t === "n") c = { t: "r", l: null, v: c.v }; }
            if (c.t !== "n") return c;
            log.push("y" + c.v);
            return N(undefined);
          }
          c = env.resume(s[1], log, fs);
          if (c.t !== "n") return c;
          log.push("y" + c.v);
          return N(undefined);
        default: return { t: A[i][0], l: A[i][1], v: "h" + s[1] };
        }
      }
      return N(undefined);
    case "try":
      b = exec(s[1]);
      if (b.t === "t" && s[2]) { V = "x" + b.v; log.push(V); b = upd(exec(s[2]), V); }
      if (s[3]) { f = exec(s[3]); if (f.t !== "n") b = f; }
      return labelled(upd(b, undefined), s[4]);
    case "loop": return loop(s[2], 2, s[3], s[1] === "let");
    case "of":
      V = undefined;
      for (i = 0; i < 2; i++) {
        log.push("n" + s[1]);
        if (s[5] && (c = nextAsync(s[1])).t === "t") return c;
        c = exec(s[3]);
        if (!goesOn(c, s[2])) return brk(close(s[1], upd(c, V), s[5]), s[2]);
        if (c.v !== CTL_E) V = c.v;
      }
      log.push("n" + s[1]);
      if (s[5] && (c = nextAsync(s[1])).t === "t") return c;
      return N(V);
    case "blk": case "with": c = exec(s[2]); if (k === "with") c = upd(c, undefined); return labelled(c, s[1]);
    case "let": fs.push(1); return upd(exec(s[1]), 0);
    case "sw":
      V = undefined; var on = false, d = env.sw[swn++ % env.sw.length];
      for (i = 0; i < s[2].length; i++) if (s[2][i][0] === d) { on = i; break; }
      if (on === false) for (i = 0; i < s[2].length; i++) if (s[2][i][0] === null) { on = i; break; }
      if (on !== false)
        for (i = on; i < s[2].length; i++) {
          c = exec(s[2][i][1]);
          if (c.v !== CTL_E) V = c.v;
          if (c.t !== "n") return brk(upd(c, V), s[1]);
        }
      return N(V);
    }
    throw "bad node " + k;
  }
  var c = exec(t);
  return { c: c, log: log, fs: fs };
}

/* Build the environment of the rendered program: logging, decisions, iterators. */
function ctlEnv(env) {
  var r = { log: [], fs: [], visits: {}, swn: 0 };
  r.L = function (x) { r.log.push(x); return x; };
  r.P = function (f) { r.fs.push(f); return 0; };
  r.H = function (i) {
    if (i === "s") return env.sw[r.swn++ % env.sw.length];
    var v = r.visits[i] = (r.visits[i] || 0) + 1;
    return v > 2 ? 0 : env.D[i][v - 1];
  };
  r.AW = function (i) {
    switch (env.aw(i)) {
    case 0: return "W" + i;
    case 1: return Promise.resolve("W" + i);
    case 2: return Promise.reject("J" + i);
    }
    return { then: function (f) { f("W" + i); } };
  };
  r.I = function (id, aw) {
    if (aw) return r.IA(id);
    var n = 0, k = env.close ? env.close(id) : 0;
    var it = { next: function () { r.log.push("n" + id); return n++ < 2 ? { value: [n], done: false } : { value: undefined, done: true }; } };
    Object.defineProperty(it, "return", { get: function () {
      r.log.push("g" + id);
      if (k === 3) return undefined;
      if (k === 4) return 5;
      if (k === 5) throw "G" + id;
      if (k === 6) return null;
      return function () {
        r.log.push("c" + id);
        if (k === 1) throw "C" + id;
        if (k === 2) return 1;
        try { throw "inner"; } catch (e) { }   /* the closing code may use exceptions of its own */
        return {};
      };
    } });
    var o = {}; o[Symbol.iterator] = function () { return it; };
    return o;
  };
  r.IA = function (id) {
    var n = 0, o = {}, it = {
      next: function () {
        var k = env.anext(id), v = n++ < 2 ? { value: [n], done: false } : { value: undefined, done: true };
        r.log.push("n" + id);
        switch (k) {
        case 0: return Promise.resolve(v);
        case 1: return v;
        case 2: return Promise.reject("J" + id);
        case 3: return Promise.resolve(7);
        }
        throw "N" + id;
      }
    }, ck = env.aclose(id);
    Object.defineProperty(it, "return", { get: function () {
      r.log.push("g" + id);
      if (ck === 3) return undefined;
      if (ck === 5) return 5;
      if (ck === 6) throw "G" + id;
      return function () {
        r.log.push("c" + id);
        switch (ck) {
        case 0: return Promise.resolve({});
        case 1: throw "C" + id;
        case 2: return 7;
        }
        return Promise.reject("R" + id);
      };
    } });
    o[Symbol.asyncIterator] = function () { return it; };
    return o;
  };
  return r;
}
/* Re-execution of the model with the given resumption inputs, up to the next suspension. */
function ctlStep(t, holes, env, inputs) {
  var idx = 0, e2 = { D: env.D, sw: env.sw, close: env.close, aclose: env.aclose, anext: env.anext, resume: function (h, log, fs) {
    if (idx < inputs.length) return inputs[idx++];
    throw { pause: true, hole: h, log: log, fs: fs };
  } };
  try { var r = ctlRun(t, holes, e2); return { done: true, c: r.c, log: r.log, fs: r.fs }; }
  catch (e) { if (!e || e.pause !== true) throw e; return { done: false, hole: e.hole, log: e.log, fs: e.fs }; }
}
function ctlComp(t, v) { return { t: t, l: null, v: v }; }
/* The outcome of the suspension h of a program: how many jobs until it resumes, and with what. */
function ctlAwait(env, h) {
  if (typeof h !== "object") {
    var k = env.aw(h);
    return k === 2 ? { hops: 1, c: ctlComp("t", "J" + h) } : { hops: k === 3 ? 2 : 1, c: ctlComp("n", "W" + h) };
  }
  if (h[0] === "Y") return ctlAwait(env, h[1]);
  if (h[0] === "r") return { hops: 1, c: ctlComp("n", 0) };
  if (h[0] === "U") return { hops: 1, c: h[1] === "!" ? ctlComp("t", "RJ") : ctlComp("n", h[1]) };
  if (h[0] === "n") return { hops: 1, c: env.anext(h[1]) === 2 ? ctlComp("t", "J" + h[1]) : ctlComp("n", 0) };
  return { hops: 1, c: env.aclose(h[1]) === 4 ? ctlComp("t", "R" + h[1]) : ctlComp("n", 0) };
}
/* Run async programs side by side; prs: [{t, env}] */
function ctlAsync(name, prs) {
  var glog = [], mlog = [], queue = [], fin;
  prs.forEach(function (p, i) {
    var R = ctlEnv(p.env), nm = String.fromCharCode(65 + i);
    R.log.push = function (x) { glog.push(nm + x); };
    var f = ctlCompile(ctlWrap(ctlSrc(p.t, p.env.holes)));
    f(R.L, R.P, R.H, R.I, R.AW).then(function (v) { glog.push(nm + "=r" + v); }, function (e) { glog.push(nm + "=t" + ctlErr(e)); });
    glog.push(nm + "0");
    p.R = R;
  });
  function hop(n, g) { queue.push(n === 1 ? g : function () { hop(n - 1, g); }); }
  function advance(p) {
    var r = ctlStep(p.t, p.env.holes, p.env, p.inputs), i;
    for (i = p.seen; i < r.log.length; i++) mlog.push(p.nm + r.log[i]);
    p.seen = r.log.length; p.fs = r.fs;
    if (r.done) hop(1, function () { mlog.push(p.nm + "=" + (r.c.t === "t" ? "t" + r.c.v : r.c.t === "r" ? "r" + r.c.v : "rEND")); });
    else { var d = ctlAwait(p.env, r.hole); hop(d.hops, function () { p.inputs.push(d.c); advance(p); }); }
  }
  prs.forEach(function (p, i) { p.nm = String.fromCharCode(65 + i); p.inputs = []; p.seen = 0; advance(p); mlog.push(p.nm + "0"); });
  while (queue.length) queue.shift()();
  final(function () {
    eq(glog.join(), mlog.join(), name + ": order of effects over the job queue");
    prs.forEach(function (p) { var v = [], i; for (i = 0; i < p.R.fs.length; i++) v.push(p.R.fs[i]()); eq(v.join(), p.fs.join(), name + ": captured bindings"); });
  });
}
/* Drive a generator program: ops is a list of 0 next, 1 throw, 2 return. */
function ctlGen(name, t, env, ops) {
  var R = ctlEnv(env), f = ctlCompile(ctlWrap(ctlSrc(t, env.holes))),
    g = f(R.L, R.P, R.H, R.I), inputs = null, over = false, M = { log: [], fs: [] }, i, got, want, v, vals;
  for (i = 0; i < ops.length; i++) {
    v = "V" + i;
    try {
      var r = ops[i] === 0 ? g.next(v) : ops[i] === 1 ? g.throw(v) : g.return(v);
      got = String(r.value) + "," + r.done;
    } catch (e) { got = "t" + ctlErr(e); }
    if (!over && inputs === null && ops[i] !== 0) over = true;      /* never started: completes at once */
    if (over) want = ops[i] === 0 ? "undefined,true" : ops[i] === 1 ? "t" + v : v + ",true";
    else {
      if (inputs === null) inputs = [];
      else inputs.push(ctlComp(ops[i] === 0 ? "n" : ops[i] === 1 ? "t" : "r", v));
      M = ctlStep(t, env.holes, env, inputs);
      if (M.done) { over = true; want = M.c.t === "t" ? "t" + M.c.v : M.c.t === "r" ? M.c.v + ",true" : "END,true"; }
      else want = "Y" + M.hole + ",false";
    }
    eq(R.log.join(), M.log.join(), name + ": effects up to step " + i);
    eq(got, want, name + ": result of step " + i);
  }
  vals = []; for (i = 0; i < R.fs.length; i++) vals.push(R.fs[i]());
  eq(vals.join(), M.fs.join(), name + ": captured bindings");
}
/* Async generator with a request queue. ops: 0 next, 1 throw, 2 return, 3 return(rejected promise);
 * late[i]: request i is made when request i-1 has settled instead of at once. */
function ctlAGen(name, t, env, ops, late) {
  var glog = [], mlog = [], jobs = [], R = ctlEnv(env);
  R.log.push = function (x) { glog.push(x); };
  var g = ctlCompile(ctlWrap(ctlSrc(t, env.holes)))(R.L, R.P, R.H, R.I, R.AW);
  function req(i) {
    if (i >= ops.length) return;
    var v = "V" + i, p = ops[i] === 0 ? g.next(v) : ops[i] === 1 ? g.throw(v) : g.return(ops[i] === 3 ? Promise.reject("RJ") : v);
    p.then(function (r) { glog.push("=" + i + ":" + String(r.value) + "," + r.done); if (late[i]) req(i + 1); },
      function (e) { glog.push("=" + i + ":t" + ctlErr(e)); if (late[i]) req(i + 1); });
    if (!late[i]) req(i + 1);
  }
  req(0);
  glog.push("0");
  /* model */
  var state = "start", queue = [], inputs = [], seen = 0, fs = [];
  function hop(n, f) { jobs.push(n === 1 ? f : function () { hop(n - 1, f); }); }
  function settle(i, txt) { hop(1, function () { mlog.push("=" + i + ":" + txt); if (late[i]) mreq(i + 1); }); }
  function mreq(i) {
    if (i >= ops.length) return;
    var op = ops[i], v = op === 3 ? "!" : "V" + i;
    if (op === 1 && state === "start") state = "done";
    if (op === 0 && state === "done") settle(i, "undefined,true");
    else if (op === 1 && state === "done") settle(i, "t" + v);
    else {
      queue.push([i, op, v]);
      if (op >= 2 && (state === "start" || state === "done")) awaitReturn();
      else if (state === "start") { state = "run"; run(); }
      else if (state === "yield") { state = "run"; resume(); }
    }
    if (!late[i]) mreq(i + 1);
  }
  function awaitReturn() {
    state = "awaiting";
    var v = queue[0][2];
    hop(1, function () {
      state = "done";
      settle(queue.shift()[0], v === "!" ? "tRJ" : v + ",true");
      drain1();
    });
  }
  function drain1() {
    while (queue.length) {
      var q = queue[0];
      if (q[1] >= 2) { awaitReturn(); return; }
      queue.shift();
      settle(q[0], q[1] === 0 ? "undefined,true" : "t" + q[2]);
    }
  }
  function resume() {
    var q = queue[0];
    inputs.push(ctlComp(q[1] === 0 ? "n" : q[1] === 1 ? "t" : "r", q[2]));
    run();
  }
  function run() {
    var r = ctlStep(t, env.holes, env, inputs), i;
    for (i = seen; i < r.log.length; i++) mlog.push(r.log[i]);
    seen = r.log.length; fs = r.fs;
    if (r.done) {
      /* the return statement at the end of the body awaits its operand */
      var fin = function () {
        state = "done";
        settle(queue.shift()[0], r.c.t === "t" ? "t" + r.c.v : (r.c.t === "r" ? r.c.v : "END") + ",true");
        drain1();
      };
      if (r.c.t === "n") hop(1, fin); else fin();
      return;
    }
    if (r.hole[0] === "Z") {
      settle(queue.shift()[0], r.hole[1] + ",false");
      if (queue.length) resume(); else state = "yield";
      return;
    }
    var d = ctlAwait(env, r.hole);
    hop(d.hops, function () { inputs.push(d.c); run(); });
  }
  mreq(0);
  mlog.push("0");
  while (jobs.length) jobs.shift()();
  final(function () {
    eq(glog.join(), mlog.join(), name + ": order of effects and results");
    var v = [], i; for (i = 0; i < R.fs.length; i++) v.push(R.fs[i]());
    eq(v.join(), fs.join(), name + ": captured bindings");
  });
}
var ctlCache = {};
function ctlCompile(src) { return ctlCache[src] || (0, eval)(src); }
/* Compile the program in all the modes it will run in, before the symbolic execution starts. */
function ctlPrep(t, mode) {
  CTLMODE = mode;
  var holes = ctlHoles(t), src = ctlWrap(ctlSrc(t, holes));
  ctlCache[src] = (0, eval)(src);
}
function ctlWrap(src) {
  return CTLMODE === "fn" ? "(function(L,P,H,I){var q,x;" + src + "return 'END'})" :
    CTLMODE === "gen" ? "(function*(L,P,H,I){var q,x;" + src + "return 'END'})" :
    CTLMODE === "async" ? "(async function(L,P,H,I,AW){var q,x;" + src + "return 'END'})" :
    "(async function*(L,P,H,I,AW){var q,x;" + src + "return 'END'})";
}
function ctlErr(e) { return typeof e === "string" ? e : e.name; }
function ctlCheck(name, t, env) {
  var holes = env.holes, src = ctlSrc(t, holes), R = ctlEnv(env), got, want, M, vals, i;
  if (CTLMODE === "eval") {
    ctlG.R = R;
    try { got = "v" + String((0, eval)("var q,x,L=ctlG.R.L,P=ctlG.R.P,H=ctlG.R.H,I=ctlG.R.I;" + src)); } catch (e) { got = "t" + ctlErr(e); }
  } else {
    var f = ctlCompile(ctlWrap(src));
    try { got = "r" + f(R.L, R.P, R.H, R.I); } catch (e) { got = "t" + ctlErr(e); }
  }
  M = ctlRun(t, holes, env);
  want = M.c.t === "t" ? "t" + M.c.v : CTLMODE === "eval" ? "v" + (M.c.v === CTL_E ? undefined : M.c.v) : M.c.t === "r" ? "r" + M.c.v : "rEND";
  eq(R.log.join(), M.log.join(), name + ": order of effects");
  eq(got, want, name + ": completion");
  vals = []; for (i = 0; i < R.fs.length; i++) vals.push(R.fs[i]());
  eq(vals.join(), M.fs.join(), name + ": captured bindings");
}
var ctlG = {};
this.ctlG = ctlG;

function ctlMk(t, mode, pre, once) {
  CTLMODE = mode; pre = pre || "";
  once = once && !DEEP;                /* quick tier of the larger programs: no jump at the second visit of a hole */
  var holes = ctlHoles(t), D = {}, k, AWK = {};
  for (k in holes) D[k] = [symInt(pre + "h" + k + "a", 0, holes[k].length - 1), once ? 0 : symInt(pre + "h" + k + "b", 0, holes[k].length - 1)];
  if (mode === "async" || mode === "agen") for (k in holes) AWK[k] = symInt(pre + "w" + k, 0, 3);
  var txt = JSON.stringify(t), has = function (x) { return txt.indexOf(x) >= 0; };
  var sw = has('"sw"') ? [symInt(pre + "s0", 0, 3), symInt(pre + "s1", 0, 3)] : [0];
  var cl = {}, an = {}, ac = {};
  ["p", "q"].forEach(function (id) {
    if (!has('"of","' + id + '"')) return;
    cl[id] = symInt(pre + "c" + id, 0, 6);
    if (mode === "async" || mode === "agen") { an[id] = symInt(pre + "an" + id, 0, 4); ac[id] = symInt(pre + "ac" + id, 0, 6); }
  });
  return { holes: holes, D: D, sw: sw, close: function (id) { return cl[id]; }, anext: function (id) { return an[id]; },
    aclose: function (id) { return ac[id]; }, aw: function (i) { return AWK[i]; } };
}
