if (typeof DEEP === "undefined") var DEEP = false;   /* thorough tier: wider bounds */
// helpers shared by the property scripts; only simple language features are used here
function clampRel(k, len) { if (k !== k) return 0; if (k < 0) { k += len; return k < 0 ? 0 : k } return k > len ? len : k }
function sameArr(a, b, msg) { eq(a.length, b.length, msg + ".length"); for (var i = 0; i < b.length; i++) { if ((i in b) !== (i in a)) fail(msg + " hole"); eq(a[i], b[i], msg) } }
function ident(x) { return x }
// The small integer that every position clamped to a range of up to three items stands for.
function ladder(v) { return v >= 3 ? 3 : v >= 2 ? 2 : v >= 1 ? 1 : v > -1 || v !== v ? 0 : v > -2 ? -1 : v > -3 ? -2 : v > -4 ? -3 : -4 }
