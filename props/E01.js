/* Modules: linking, evaluation order, live bindings and namespace objects against the definitions of the language. */
/* Every scenario builds the sources of modules m0.. from symbolic characters and symbolic slot kinds; the engine's own
   parser, linker and evaluator run on them, and an independent model predicts everything that is observed. */
var ALLK = ["none", "let", "function", "var", "list", "from", "star", "starns", "impexp", "nsexp", "import", "ns"];
/* ---- name resolution model ---- */
function mkmod(k) { return { k: k, req: [], imps: [], loc: {}, ind: {}, stars: [], body: [], exps: [], bad: false, vals: {}, src: "", st: 0, ns: null, set: [] }; }
function has(o, k) { return Object.prototype.hasOwnProperty.call(o, k); }
function addExp(m, n) { if (m.exps.indexOf(n) >= 0) m.bad = true; m.exps.push(n); }
function addSlot(m, s, kinds, targets) {
  var id = m.k + "" + s, kind = kinds.length == 1 ? kinds[0] : kinds[conc(symInt("kind" + id, 0, kinds.length - 1))];
  if (kind == "none") return;
  var N = "", X = "", t = "", v;
  if (kind != "star" && kind != "import" && kind != "ns") N = symStr("n" + id, 1, "ab");
  if (kind == "from" || kind == "impexp" || kind == "import") X = symStr("x" + id, 1, "ab");
  if (kind == "from" || kind == "star" || kind == "starns" || kind == "impexp" || kind == "nsexp" || kind == "import" || kind == "ns") t = symStr("t" + id, 1, targets.split("").map(function (c) { return c + c; }).join(""));
  var T = t === "" ? -1 : t.charCodeAt(0) - 48;
  m.slots.push({ kind: kind, N: N, X: X, T: t, s: s, id: id });
  if (kind == "let" || kind == "var") { m.src += "export " + kind + " " + N + " = V('" + id + "'); S['" + id + "'] = function (v) { " + N + " = v }; "; }
  else if (kind == "function") m.src += "export function " + N + "() { return V('" + id + "') } ";
  else if (kind == "list") m.src += "let l" + s + " = V('" + id + "'); S['" + id + "'] = function (v) { l" + s + " = v }; export { l" + s + " as " + N + " }; ";
  else if (kind == "from") m.src += "export { " + X + " as " + N + " } from 'm" + t + "'; ";
  else if (kind == "star") m.src += "export * from 'm" + t + "'; ";
  else if (kind == "starns") m.src += "export * as " + N + " from 'm" + t + "'; ";
  else if (kind == "impexp") m.src += "export { i" + s + " as " + N + " }; import { " + X + " as i" + s + " } from 'm" + t + "'; O(function () { return i" + s + " }); ";
  else if (kind == "nsexp") m.src += "import * as n" + s + " from 'm" + t + "'; export { n" + s + " as " + N + " }; O(function () { return n" + s + " }); ";
  else if (kind == "import") m.src += "import { " + X + " as i" + s + " } from 'm" + t + "'; O(function () { return i" + s + " }); ";
  else if (kind == "ns") m.src += "import * as n" + s + " from 'm" + t + "'; O(function () { return n" + s + " }); ";
}
/* after the engine ran, the symbolic characters are fixed on this path where they matter: build the tables */
function digest(m) {
  m.slots.forEach(function (e) {
    var kind = e.kind, N = e.N, T = -1, b;
    if (e.T !== "") { T = conc(e.T.charCodeAt(0)) - 48; if (m.req.indexOf(T) < 0) m.req.push(T); }
    if (N !== "") { N = conc(N.charCodeAt(0)) == 97 ? "a" : "b"; addExp(m, N); }
    var X = e.X === "" ? "" : conc(e.X.charCodeAt(0)) == 97 ? "a" : "b";
    if (kind == "let" || kind == "var" || kind == "function") {
      m.loc[N] = N; m.vals[N] = kind == "let" ? { tdz: true } : kind == "var" ? { v: undefined } : { fn: e.id };
      if (kind != "function") m.body.push({ init: N, id: e.id });
    } else if (kind == "list") { b = "l" + e.s; m.loc[N] = b; m.vals[b] = { tdz: true }; m.body.push({ init: b, id: e.id }); }
    else if (kind == "from") m.ind[N] = { m: T, n: X };
    else if (kind == "star") m.stars.push(T);
    else if (kind == "starns") m.ind[N] = { m: T, all: true };
    else if (kind == "impexp") { m.ind[N] = { m: T, n: X }; m.imps.push({ m: T, n: X }); m.body.push({ see: { m: T, n: X } }); }
    else if (kind == "nsexp") { b = "n" + e.s; m.loc[N] = b; m.vals[b] = { nsof: T }; m.body.push({ see: { m: T, all: true } }); }
    else if (kind == "import") { m.imps.push({ m: T, n: X }); m.body.push({ see: { m: T, n: X } }); }
    else m.body.push({ see: { m: T, all: true } });
  });
}
function resolve(M, k, n, seen) {   /* ResolveExport: {m, b} / null / "amb" */
  var m = M[k], key = k + n, star = null, i, r;
  if (seen.indexOf(key) >= 0) return null;
  seen.push(key);
  if (has(m.loc, n)) return { m: k, b: m.loc[n] };
  if (has(m.ind, n)) return m.ind[n].all ? { m: m.ind[n].m, b: "*ns*" } : resolve(M, m.ind[n].m, m.ind[n].n, seen);
  if (n == "default") return null;
  for (i = 0; i < m.stars.length; i++) {
    r = resolve(M, m.stars[i], n, seen);
    if (r === "amb") return r;
    if (r) { if (!star) star = r; else if (star.m != r.m || star.b != r.b) return "amb"; }
  }
  return star;
}
function exported(M, k, seen) {   /* GetExportedNames */
  if (seen.indexOf(k) >= 0) return [];
  seen.push(k);
  var m = M[k], r = [];
  Object.keys(m.loc).concat(Object.keys(m.ind)).forEach(function (n) { r.push(n); });
  m.stars.forEach(function (t) { exported(M, t, seen).forEach(function (n) { if (n != "default" && r.indexOf(n) < 0) r.push(n); }); });
  return r;
}
function nsKeys(M, k) { return exported(M, k, []).filter(function (n) { var r = resolve(M, k, n, []); return r && r !== "amb"; }).sort(); }
function binding(M, r) { return r.b == "*ns*" ? { nsof: r.m } : has(M[r.m].vals, r.b) ? M[r.m].vals[r.b] : null; }
function reach(M, k, out) { if (out.indexOf(k) >= 0) return out; out.push(k); if (!M[k].bad) M[k].req.forEach(function (t) { reach(M, t, out); }); return out; }
function linkable(M, k) {
  return reach(M, k, []).every(function (j) {
    var m = M[j];
    if (m.bad) return false;
    return Object.keys(m.ind).every(function (n) { var r = m.ind[n].all ? 1 : resolve(M, j, n, []); return r && r !== "amb"; })
      && m.imps.every(function (e) { var r = resolve(M, e.m, e.n, []); return r && r !== "amb"; });
  });
}
function same(E, exp, act, what) {   /* compare one observation with a model binding */
  if (exp.tdz) { eq(act && act.err, "ReferenceError", what); return; }
  if (!act || act.err) { fail(what + ": unexpected " + (act && act.err)); return; }
  act = act.v;
  if (has(exp, "nsof")) {
    check(typeof act == "object" && act !== null, what + " is a namespace");
    if (E.nsobj[exp.nsof]) check(E.nsobj[exp.nsof] === act, what + " namespace identity"); else E.nsobj[exp.nsof] = act;
    var ks = Reflect.ownKeys(act);
    eq(ks.length && ks[ks.length - 1], Symbol.toStringTag, what + " tag"); ks.pop();
    eq(ks.join(), nsKeys(E.M, exp.nsof).join(), what + " keys");
  } else if (has(exp, "fn")) { eq(typeof act, "function", what); eq(act(), E.val[exp.fn], what + "()"); }
  else eq(act, exp.v, what);
}
function get(f) { try { return { v: f() }; } catch (e) { return { err: e && e.name }; } }
function evalModel(E, k) {   /* depth-first evaluation, observations in order */
  var m = E.M[k];
  if (m.st) return;
  m.st = 1;
  m.req.forEach(function (t) { evalModel(E, t); });
  E.seq.push({ run: k });
  m.body.forEach(function (b) {
    if (b.init) { E.M[k].vals[b.init] = { v: E.val[b.id] }; E.live.push({ m: k, b: b.init, id: b.id }); }
    else { var v = binding(E.M, b.see.all ? { m: b.see.m, b: "*ns*" } : resolve(E.M, b.see.m, b.see.n, [])); E.seq.push({ see: v }); }
  });
}
function walkNs(E, k, ns, what) {
  same(E, { nsof: k }, { v: ns }, what);
  nsKeys(E.M, k).forEach(function (n) {
    var b = binding(E.M, resolve(E.M, k, n, []));
    same(E, b, get(function () { return ns[n]; }), what + "." + n);
  });
}
function family(name, specs, roots) {
  scenario(name, function () {
    var M = [], E = { M: M, val: {}, nsobj: [], seq: [], live: [] }, log = [], i;
    globalThis.V = function (id) { if (!has(E.val, id)) E.val[id] = symInt("v" + id, -9, 9); return E.val[id]; };
    globalThis.S = {};
    globalThis.O = function (f) { log.push({ see: get(f) }); };
    globalThis.B = function (k) { log.push({ run: k }); };
    specs.forEach(function (sp, k) {
      var m = mkmod(k); M.push(m); m.slots = [];
      sp.forEach(function (sl, s) { addSlot(m, s, sl[0], sl[1]); });
      defModule(k, "B(" + k + "); " + m.src);
    });
    var outs = [];
    roots.forEach(function (r, i) {
      import("m" + r).then(function (ns) { outs[i] = { ns: ns }; }, function (e) { outs[i] = { err: e }; });
      drain();
    });
    M.forEach(digest);
    specs.forEach(function (sp, k) { M[k].slots.forEach(function (e) { globalThis.V(e.id); }); });
    roots.forEach(function (r, i) {
      if (!outs[i]) { fail("import " + r + " did not settle"); return; }
      if (!linkable(M, r)) { check(!!outs[i].err && outs[i].err instanceof SyntaxError, "import " + r + " must be refused with a SyntaxError"); return; }
      if (outs[i].err) { fail("import " + r + " failed: " + outs[i].err); return; }
      evalModel(E, r);
    });
    eq(log.length, E.seq.length, "number of observations");
    E.seq.forEach(function (x, i) {
      var a = log[i];
      if (!a) return;
      if (has(x, "run")) eq(a.run, x.run, "order of evaluation");
      else same(E, x.see, a.see, "observation " + i);
    });
    roots.forEach(function (r, i) { if (outs[i] && outs[i].ns) walkNs(E, r, outs[i].ns, "m" + r); });
    /* live bindings: assign through the modules' own functions, look through every namespace again */
    E.live.forEach(function (l, j) { var nv = symInt("w" + j, -9, 9); globalThis.S[l.id](nv); M[l.m].vals[l.b] = { v: nv }; });
    if (E.live.length) roots.forEach(function (r, i) { if (outs[i] && outs[i].ns) walkNs(E, r, outs[i].ns, "live m" + r); });
  });
}
var RE = ["let", "from", "star", "starns", "impexp", "nsexp"], EX = ["let", "function", "var", "list"];
family("star_star", [[[["star"], "1"], [["star"], "2"], [["import"], "0"]], [[RE, "02"]], [[RE, "01"]]], [0, 1]);
family("one_each", [[[["from", "star", "starns", "impexp", "nsexp"], "12"]], [[["from", "star", "impexp", "let"], "02"]], [[["let", "star", "from", "list"], "01"]]], DEEP ? [0, 1, 2] : [0, 1]);
family("import_chain", [[[["import", "ns"], "1"]], [[["star", "from"], "2"], [["let", "impexp", "nsexp"], "2"]], [[EX, "0"], [["none", "star", "from"], "01"]]], [0]);
family("cycle_tdz", [[[EX, "0"], [["import", "ns"], "1"]], [[["let", "function"], "0"], [["import"], "0"], [["from", "star", "none"], "0"]]], [0, 1]);
family("cycle_back", [[[["import", "ns"], "1"], [EX, "0"]], [[["import", "ns"], "0"], [EX, "0"]]], [1, 0]);
family("after_failure", [[[["from", "impexp", "import"], "12"]], [[["let", "list"], "0"], [["import", "none"], "2"]], [[["function"], "0"]]], [0, 1, 2, 0]);
if (DEEP) {
  family("one_all", [[[ALLK, "012"]], [[ALLK, "012"]], [[EX.concat(["from", "star"]), "012"]]], [0, 1, 2]);
  family("star_three", [[[["star"], "1"], [["star"], "2"], [["import"], "0"]], [[RE, "02"], [["none", "let"], "0"]], [[RE, "01"], [["none", "let"], "0"]]], [0, 1, 2]);
  family("two_each", [[[["star"], "12"], [ALLK, "12"]], [[RE, "02"], [EX, "0"]], [[RE, "01"], [EX, "0"]]], [0, 2]);
  family("star_web", [[[["star"], "123"], [["star"], "123"]], [[["star", "from"], "23"], [["let", "none", "star"], "03"]], [[["star", "from"], "13"], [["let", "none"], "0"]], [[["let"], "0"], [["let", "star", "none"], "02"]]], [0, 1]);
}
/* ---- evaluation order, top-level await, errors: the algorithm of the language over its own job queue ---- */
function Sim() { this.q = []; }
Sim.prototype.P = function () { return { st: 0, v: undefined, rs: [] }; };
Sim.prototype.settle = function (p, st, v) { if (p.st) return; p.st = st; p.v = v; var i; for (i = 0; i < p.rs.length; i++) this.q.push([p.rs[i][st - 1], v]); p.rs = []; };
Sim.prototype.then = function (p, f, g) { if (p.st) this.q.push([p.st == 1 ? f : g, p.v]); else p.rs.push([f, g]); };
Sim.prototype.run = function () { while (this.q.length) { var j = this.q.shift(); j[0](j[1]); } };
function order(name, n, cfg, roots) {
  scenario(name, function () {
    var log = [], W = [], X = [], tla = [], reqs = [], i, k, src;
    for (k = 0; k < n; k++) {
      tla[k] = cfg.tla[k] == 2 ? !!conc(symInt("tla" + k, 0, 1)) : !!cfg.tla[k];
      reqs[k] = cfg.req[k].map(function (t, j) { return typeof t == "string" ? symStr("r" + k + j, 1, t.split("").map(function (c) { return c + c; }).join("")) : "" + t; });
      src = "";
      reqs[k].forEach(function (t) { src += "import 'm" + t + "'; "; });
      src += "B('" + k + ">'); if (X(" + k + ") == 1) throw " + k + "; ";
      if (tla[k]) src += "for (let i = 0; i < W(" + k + "); i++) { B('" + k + ".'); await 0; } ";
      src += "B('" + k + "<'); if (X(" + k + ") == 2) throw " + k + "; ";
      defModule(k, src);
    }
    globalThis.W = function (k) { if (!(k in W)) W[k] = conc(symInt("w" + k, 0, cfg.wait)); return W[k]; };
    globalThis.X = function (k) { if (!(k in X)) X[k] = cfg.thr[k] ? symInt("x" + k, 0, 2) : 0; return X[k]; };
    globalThis.B = function (s) { log.push(s); };
    var marks = [];
    roots.forEach(function (r) { import("m" + r).then(function () { log.push("ok"); }, function (e) { log.push("err" + e); }); drain(); marks.push(log.length); });
    /* model */
    var S = new Sim(), out = [], cnt = 0, M = [];
    for (k = 0; k < n; k++) {
      M[k] = { k: k, st: 0, dfs: 0, anc: 0, pend: 0, order: 0, par: [], root: null, err: null, cap: null, req: [], tla: tla[k] };
      reqs[k].forEach(function (t) { t = conc(t.charCodeAt(0)) - 48; if (M[k].req.indexOf(t) < 0) M[k].req.push(t); });
    }
    function body(m, yes, no) {   /* run the module; asynchronous when it waits */
      var left = -1;
      out.push(m.k + ">");
      if (globalThis.X(m.k) == 1) return no(m.k);
      function rest() {
        if (m.tla && left < 0) left = globalThis.W(m.k);
        if (m.tla && left > 0) { left--; out.push(m.k + "."); S.q.push([rest, 0]); return; }
        out.push(m.k + "<");
        if (globalThis.X(m.k) == 2) return no(m.k);
        return yes();
      }
      return rest();
    }
    function execAsync(m) {
      var cap = S.P();
      S.then(cap, function () { fulfilled(m); }, function (e) { rejected(m, e); });
      body(m, function () { S.settle(cap, 1); }, function (e) { S.settle(cap, 2, e); });
    }
    function gather(m, list) {
      m.par.forEach(function (p) {
        if (list.indexOf(p) < 0 && !(p.root && p.root.err)) { p.pend--; if (p.pend == 0) { list.push(p); if (!p.tla) gather(p, list); } }
      });
    }
    function fulfilled(m) {
      if (m.st == 4) return;
      m.order = -1; m.st = 4;
      if (m.cap) S.settle(m.cap, 1);
      var list = [];
      gather(m, list);
      list.sort(function (a, b) { return a.order - b.order; });
      list.forEach(function (a) {
        if (a.st == 4) return;
        if (a.tla) { execAsync(a); return; }
        body(a, function () { a.order = -1; a.st = 4; if (a.cap) S.settle(a.cap, 1); }, function (e) { rejected(a, e); });
      });
    }
    function rejected(m, e) {
      if (m.st == 4) return;
      m.err = { e: e }; m.st = 4; m.order = -1;
      m.par.forEach(function (p) { rejected(p, e); });
      if (m.cap) S.settle(m.cap, 2, e);
    }
    function inner(m, stack, idx) {
      if (m.st == 3 || m.st == 4) { if (m.err) throw m.err; return idx; }
      if (m.st == 2) return idx;
      m.st = 2; m.dfs = m.anc = idx; m.pend = 0; idx++; stack.push(m);
      m.req.forEach(function (t) {
        var r = M[t];
        idx = inner(r, stack, idx);
        if (r.st == 2) { if (r.anc < m.anc) m.anc = r.anc; }
        else { r = r.root; if (r.err) throw r.err; }
        if (r.order > 0) { m.pend++; r.par.push(m); }
      });
      if (m.pend > 0 || m.tla) { m.order = ++cnt; if (m.pend == 0) execAsync(m); }
      else { var bad = null; body(m, function () {}, function (e) { bad = { e: e }; }); if (bad) throw bad; }
      if (m.anc == m.dfs) { var x; do { x = stack.pop(); x.st = x.order > 0 ? 3 : 4; if (x.order <= 0) x.st = 4; x.root = m; } while (x !== m); }
      return idx;
    }
    function evaluate(m) {
      if ((m.st == 3 || m.st == 4) && m.root) m = m.root;
      if (m.cap) return m.cap;
      var cap = m.cap = S.P(), stack = [];
      if (m.err) { S.settle(cap, 2, m.err.e); return cap; }
      try { inner(m, stack, 0); if (m.order <= 0) S.settle(cap, 1); }
      catch (e) {
        if (!has(e, "e")) throw e;
        stack.forEach(function (x) { x.st = 4; x.err = e; });
        S.settle(cap, 2, e.e);
      }
      return cap;
    }
    roots.forEach(function (r, i) {
      var p = evaluate(M[r]), c = S.P();
      S.then(p, function () { S.settle(c, 1); }, function (e) { S.settle(c, 2, e); });
      S.then(c, function () { out.push("ok"); }, function (e) { out.push("err" + e); });
      S.run();
      eq(marks[i], out.length, "events after import " + i);
    });
    eq(log.join(" "), out.join(" "), "events");
  });
}
order("graphs", 3, { req: [["12", "12"], ["02", "2"], ["01"]], tla: [2, 2, 2], thr: [0, 0, 0], wait: 1 }, [0]);
order("errors", 3, { req: [["12", "12"], ["02"], ["012"]], tla: [2, 2, 2], thr: [1, 1, 1], wait: 1 }, DEEP ? [0, 1, 2] : [0, 1]);
order("ring", 3, { req: [[1], [2], ["012"]], tla: [2, 2, 2], thr: [0, 1, 1], wait: 2 }, [1, 0]);
order("diamond", 4, { req: [[1, 2], [3], [3], []], tla: [2, 2, 2, 1], thr: [0, 1, 0, 1], wait: 2 }, [0, 2]);
order("cycle_tail", 4, { req: [[1, 3], [2], ["01", "3"], []], tla: [0, 2, 2, 2], thr: [0, 0, 1, 0], wait: 1 }, [0]);
if (DEEP) {
  order("graphs4", 4, { req: [["123", "123"], ["023", "23"], ["0123", "01"], ["012"]], tla: [2, 2, 2, 2], thr: [0, 0, 0, 0], wait: 1 }, [0, 3]);
  order("errors4", 4, { req: [["123", "23"], ["023"], ["013"], ["012"]], tla: [2, 2, 2, 2], thr: [1, 1, 1, 1], wait: 1 }, [0, 1]);
}
/* ---- early errors of module code ---- */
function outcome(k) { var r = "pending"; import("m" + k).then(function () { r = "ok"; }, function (e) { r = e && e.name; }); drain(); return r; }
function early(name, fn) { scenario(name, function () { defModule(1, "export let a = 1, b = 2; export default 3"); var x = symStr("x", 1, "ac"), y = symStr("y", 1, "ac"), z = symStr("z", 1, "ac"); var r = fn(x, y, z); defModule(0, r[0]); eq(outcome(0), r[1]() ? "SyntaxError" : "ok", name + " " + "outcome"); }); }
var DECL = ["let", "var", "function", "class", "block", "nested"];
function declare(kind, n) { return kind == "let" ? "let " + n + " = 1; " : kind == "var" ? "var " + n + "; " : kind == "function" ? "function " + n + "() {} " : kind == "class" ? "class " + n + " {} " : kind == "block" ? "{ let " + n + " = 1; } " : "{ var " + n + " = 1; } "; }
early("import_vs_declaration", function (x, y, z) { var d = DECL[conc(symInt("d", 0, 5))], f = conc(symInt("f", 0, 3)); return [["import { a as " + x + " } from 'm1'; ", "import " + x + " from 'm1'; ", "import * as " + x + " from 'm1'; ", "import d, { b, a as " + x + " } from 'm1'; "][f] + declare(d, y), function () { return f == 3 && (x == "b" || x == "d") || d != "block" && (x == y || f == 3 && (y == "b" || y == "d")); }]; });
early("import_vs_import", function (x, y, z) { var f = conc(symInt("f", 0, 2)); return [["import { a as " + x + ", b as " + y + " } from 'm1'; ", "import " + x + ", * as " + y + " from 'm1'; ", "import { a as " + x + " } from 'm1'; import { b as " + y + " } from 'm1'; "][f], function () { return x == y; }]; });
early("export_undeclared", function (x, y, z) { var d = DECL[conc(symInt("d", 0, 5))]; return [declare(d, x) + "export { " + y + " }; ", function () { return d == "block" || x != y; }]; });
early("export_twice", function (x, y, z) { var f = conc(symInt("f", 0, 4)); return ["let p, q; export { p as " + x + " }; " + ["export { q as " + y + " }; ", "export { a as " + y + " } from 'm1'; ", "export * as " + y + " from 'm1'; ", "export { q as '" + y + "' }; ", "export function " + y + "() {} "][f], function () { return x == y; }]; });
early("declare_twice", function (x, y, z) { var d = DECL[conc(symInt("d", 0, 5))], e = DECL[conc(symInt("e", 0, 5))]; return ["export " + declare("let", z) + declare(d, x) + declare(e, y), function () { function lex(k) { return k == "let" || k == "class" || k == "function"; } function clash(k, n, l, m) { return n == m && k != "block" && l != "block" && (lex(k) || lex(l)); } return clash("let", z, d, x) || clash("let", z, e, y) || clash(d, x, e, y); }]; });
early("missing_name", function (x, y, z) { var f = conc(symInt("f", 0, 3)); return [["import { " + x + " as v } from 'm1'; ", "export { " + x + " as w } from 'm1'; ", "import { " + x + " as v } from 'm1'; export { v as w }; ", "import * as v from 'm1'; v." + x + "; "][f], function () { return f != 3 && x == "c"; }]; });
var WORDS = ["default", "if", "await", "yield", "eval", "arguments", "let", "static", "async", "of", "from", "as", "enum", "implements", "get", "x"];
var NOBIND = ["default", "if", "await", "yield", "eval", "arguments", "let", "static", "enum", "implements"];
scenario("words", function () {
  var w = WORDS[conc(symInt("w", 0, WORDS.length - 1))], f = conc(symInt("f", 0, 9)), bad = NOBIND.indexOf(w) >= 0;
  defModule(1, "let q = 1; export { q as " + w + " }; ");
  defModule(0, ["import { " + w + " } from 'm1'; ", "import { " + w + " as z } from 'm1'; ", "import { " + w + " as " + w + " } from 'm1'; ", "import * as " + w + " from 'm1'; ", "import " + w + " from 'm1'; ",
    "export { " + w + " } from 'm1'; ", "export { " + w + " }; ", "let p; export { p as " + w + " }; ", "export * as " + w + " from 'm1'; ", "var " + w + "; export { " + w + " }; "][f]);
  var want = f == 0 || f == 2 || f == 3 || f == 9 ? bad : f == 4 ? bad || w != "default" : f == 6 ? true : false;
  eq(outcome(0), want ? "SyntaxError" : "ok", "word " + w + " in form " + f);
});
scenario("module_code", function () {
  var T = ["this === undefined || (() => { throw 1 })()", "with ({}) {}", "var q; delete q", "010", "await 1", "return 1", "new.target", "super.x", "function f() { await 1 }", "() => await 1", "{ export let a }", "{ import 'm1' }", "import.meta; export {}", "import.meta = 1", "for (import.meta of []);", "new import('m1')", "import('m1').then", "import()", "import('m1', 'm2', 'm3')", "export default 1; export default 2", "export default class { }", "export default function () { }", "export default async () => { }", "export default let", "export { default } from 'm1'", "export { default }", "export let a = 1, a2 = a", "export const c", "export let [p, { q: r = 3, ...s }, ...t] = [1, { q: 2 }]", "export var [p, p2, p] = []", "export let [u, u] = []", "L: { break L; }", "x: x: ;", "break", "import { a as 'b' } from 'm1'", "import { 'a' as b } from 'm1'", "export { 'a' as 'c d' } from 'm1'", "export { 'a' }", "let v; export { v as 'c d' }", "export { a as '\\ud800' } from 'm1'", "export * from 'm1'; export * from 'm1'", "import {} from 'm1'; export {} from 'm1'", "import a, b from 'm1'", "import * from 'm1'", "import 'm1' export {}", "import def from 'm1'; def = 1", "import * as n from 'm1'; n = 1", "import { a } from 'm1'; a++", "import { a } from 'm1'; typeof a; [a] ", "import { a } from 'm1'; (function () { let a = 2; a = 3; })()", "import { a } from 'm1'; for (a of [1]);", "for await (const x of []);", "yield: 1", "html <!-- comment", "async function g() { await 1 }", "class C { static { await 1 } }", "class C { static p = await 1 }", "function f(a = await 1) {}", "arguments", "eval('var e = 1'); typeof e == 'undefined' || (() => { throw 1 })()", "Object.isExtensible(import.meta) && Object.getPrototypeOf(import.meta) === null || (() => { throw 1 })()"];
  var W = ["ok", "S", "S", "S", "ok", "S", "S", "S", "S", "S", "S", "S", "ok", "S", "S", "S", "ok", "S", "S", "S", "ok", "ok", "ok", "S", "ok", "S", "ok", "S", "ok", "S", "S", "ok", "S", "S", "S", "ok", "ok", "S", "ok", "S", "ok", "ok", "S", "S", "S", "T", "T", "T", "ok", "ok", "T", "ok", "S", "R", "ok", "S", "S", "S", "R", "ok", "ok"];
  eq(T.length, W.length, "table");
  var i = conc(symInt("i", 0, T.length - 1));
  defModule(1, "export let a = 1, b = 2; export default 3");
  defModule(0, T[i]);
  eq(outcome(0), { S: "SyntaxError", T: "TypeError", R: "ReferenceError", ok: "ok" }[W[i]], T[i]);
});
/* ---- the namespace object ---- */
scenario("namespace_ops", function () {
  var v = symInt("v", -9, 9), w = symInt("w", -9, 9), ns, kind = conc(symInt("tdz", 0, 1));
  defModule(2, "import 'm1'");
  globalThis.V = function () { return v; };
  globalThis.G = function (f) { if (kind) go(f); };
  defModule(1, "import * as ns from 'm1'; G(ns); export let a = V(); export { a as b }; let d = V(); export { d as default }; globalThis.SETA = function (x) { a = x };");
  import("m1").then(function (n) { if (!kind) go(n); }, function (e) { fail("import: " + e); });
  drain();
  function tryit(f) { try { return f(); } catch (e) { return e.name; } }
  function go(n) {
    ns = n;
    var names = ["a", "b", "default", "c", Symbol.toStringTag, Symbol.iterator, "0"], key = names[conc(symInt("key", 0, 6))], op = conc(symInt("op", 0, 13)), exp = key === "a" || key === "b" || key === "default", tag = key === Symbol.toStringTag;
    var RE = "ReferenceError", val = exp ? (kind ? RE : v) : tag ? "Module" : undefined, D, fl, ok, r;
    if (op == 0) eq(tryit(function () { return ns[key]; }), val, "get");
    else if (op == 1) eq(tryit(function () { return Reflect.get(ns, key, 5); }), val, "Reflect.get");
    else if (op == 2) { eq(tryit(function () { return key in ns; }), exp || tag, "in"); }
    else if (op == 3) { eq(tryit(function () { return Reflect.set(ns, key, w); }), false, "Reflect.set"); eq(tryit(function () { "use strict"; ns[key] = w; }), "TypeError", "set"); }
    else if (op == 4) { eq(tryit(function () { return Reflect.deleteProperty(ns, key); }), !exp && !tag, "deleteProperty"); eq(tryit(function () { "use strict"; return delete ns[key]; }), exp || tag ? "TypeError" : true, "delete"); }
    else if (op == 5) {
      D = {}; fl = conc(symInt("fields", 0, 31)); var fw = symBool("fw"), fe = symBool("fe"), fc = symBool("fc");
      if (fl & 1) D.value = w; if (fl & 2) D.writable = fw; if (fl & 4) D.enumerable = fe; if (fl & 8) D.configurable = fc; if (fl & 16) { if (fl & 3) return; D.get = function () { }; }
      if (exp) { if (kind) ok = RE; else ok = !(fl & 8 && fc) && !(fl & 4 && !fe) && !(fl & 16) && !(fl & 2 && !fw) && !(fl & 1 && w !== v); }
      else if (tag) ok = !(fl & 8 && fc) && !(fl & 4 && fe) && !(fl & 16) && !(fl & 2 && fw) && !(fl & 1);
      else ok = false;
      eq(tryit(function () { return Reflect.defineProperty(ns, key, D); }), ok, "defineProperty");
      if (!kind && exp) eq(ns[key], v, "value after defineProperty");
    }
    else if (op == 6) {
      r = tryit(function () { return Object.getOwnPropertyDescriptor(ns, key); });
      if (!exp && !tag) eq(r, undefined, "descriptor"); else if (exp && kind) eq(r, RE, "descriptor");
      else { eq(r.value, val, "value"); eq(r.writable, exp, "writable"); eq(r.enumerable, exp, "enumerable"); eq(r.configurable, false, "configurable"); }
    }
    else if (op == 7) { r = Reflect.ownKeys(ns); eq(r.length, 4, "keys"); eq(r[0] + r[1] + r[2], "abdefault", "keys"); eq(r[3], Symbol.toStringTag, "tag key"); }
    else if (op == 8) { eq(Reflect.getPrototypeOf(ns), null, "prototype"); eq(Reflect.setPrototypeOf(ns, null), true, "set null"); eq(Reflect.setPrototypeOf(ns, {}), false, "set object"); eq(tryit(function () { Object.setPrototypeOf(ns, []); }), "TypeError", "setPrototypeOf"); }
    else if (op == 9) { eq(Object.isExtensible(ns), false, "extensible"); eq(Reflect.preventExtensions(ns), true, "preventExtensions"); eq(tryit(function () { return Object.isFrozen(ns); }), kind ? RE : false, "frozen"); eq(tryit(function () { return Object.isSealed(ns); }), kind ? RE : true, "sealed"); eq(tryit(function () { return Object.seal(ns) === ns; }), kind ? RE : true, "seal"); eq(tryit(function () { Object.freeze(ns); }), kind ? RE : "TypeError", "freeze"); }
    else if (op == 10) { r = ""; r = tryit(function () { for (var k in ns) r += k + ","; return r; }); eq(r, kind ? RE : "a,b,default,", "for-in"); eq(tryit(function () { return Object.keys(ns).join(); }), kind ? RE : "a,b,default", "Object.keys"); }
    else if (op == 11) { eq(tryit(function () { return Object.prototype.hasOwnProperty.call(ns, key); }), exp && kind ? RE : exp || tag, "hasOwnProperty"); eq(tryit(function () { return Object.prototype.propertyIsEnumerable.call(ns, key); }), exp && kind ? RE : exp, "propertyIsEnumerable"); }
    else if (op == 12) { var o = Object.create(ns); eq(tryit(function () { return o[key]; }), val, "inherited get"); eq(tryit(function () { "use strict"; o[key] = w; return "done"; }), "TypeError", "set through an heir"); eq(tryit(function () { return Reflect.set(ns, key, w, {}); }), false, "set with a receiver"); }
    else if (!kind) { globalThis.SETA(w); eq(ns.a, w, "live a"); eq(ns.b, w, "live b"); eq(ns["default"], v, "default"); eq(Object.getOwnPropertyDescriptor(ns, "a").value, w, "live descriptor"); eq(Reflect.defineProperty(ns, "b", { value: v }), v === w, "define against the live value"); }
  }
  check(!!ns, "the namespace was seen");
});
/* ---- import() ---- */
scenario("import_call", function () {
  var f = conc(symInt("f", 0, 9)), log = [], p, t = symStr("t", 1, "119");
  defModule(1, "export let a = 1"); defModule(2, "import 'm" + "9'; export let a = 2"); defModule(3, "export * from 'm4'"); defModule(4, "export let ("); defModule(5, "throw 7"); defModule(6, "import 'm5'; B('never')");
  globalThis.B = function (s) { log.push(s); };
  function obs(q) { q.then(function (n) { log.push(n.a); }, function (e) { log.push(typeof e == "number" ? "v" + e : e && e.name); }); drain(); }
  var spec = [function () { return "m1"; }, function () { return { toString: function () { log.push("ts"); return "m1"; } }; }, function () { return { toString: function () { throw 5; } }; }, function () { return Symbol(); }, function () { return { toString: function () { return {}; }, valueOf: function () { return {}; } }; }, function () { return "m2"; }, function () { return "m3"; }, function () { return "m5"; }, function () { return "m6"; }, function () { return "m9"; }][f];
  var want = ["1", "ts,1", "v5", "TypeError", "TypeError", "TypeError", "SyntaxError", "v7", "v7", "TypeError"][f], s = spec();
  try { p = import(s); } catch (e) { fail("import() threw " + e); return; }
  check(p instanceof Promise && Object.getPrototypeOf(p) === Promise.prototype, "import() gives a promise");
  obs(p); eq(log.join(), want, "outcome");
  obs(import(s)); eq(log.join(), want + "," + want, "the same outcome again");
  log = []; obs(import("m1")); eq(log.join(), "1", "others are unaffected");
  var n1, n2; import("m1").then(function (n) { n1 = n; }); import("m1").then(function (n) { n2 = n; }); drain(); check(n1 === n2 && !!n1, "one namespace");
});
scenario("import_order", function () {
  var log = [], v = symInt("v", 0, 3);
  defModule(1, "B('run')"); globalThis.B = function (s) { log.push(s); };
  var thrown = null;
  try { import((log.push("x"), v === 0 ? { get toString() { log.push("g"); return function () { log.push("c"); return "m1"; }; } } : v === 1 ? nothing : "m1")).then(function () { log.push("then"); }); log.push("after"); } catch (e) { thrown = e.name; }
  drain();
  eq(thrown, v === 1 ? "ReferenceError" : null, "the specifier expression may throw"); eq(log.join(), v === 0 ? "x,g,c,after,run,then" : v === 1 ? "x" : "x,after,run,then", "order");
});
