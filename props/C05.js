/* C05: async functions */
var A = [
  ["try", ["seq", ["try", ["seq", ["h", 0], ["log", 1]], ["h", 1], ["h", 2]], ["log", 2]]],
  ["loop-finally", ["seq", ["loop", "for", "a", ["try", ["h", 0], null, ["h", 1]]], ["log", 2]]],
  ["for-of", ["seq", ["of", "p", "a", ["seq", ["h", 0], ["log", 1]]], ["log", 2]]],
  ["let-scopes", ["seq", ["loop", "let", "a", ["let", ["try", ["h", 0], ["let", ["h", 1]], null]]], ["log", 2]]],
  ["for-await", ["seq", ["of", "p", "a", ["seq", ["h", 0], ["log", 1]], "x", true], ["log", 2]]],
  ["for-await-try", ["seq", ["of", "p", "a", ["try", ["h", 0], null, ["h", 1]], "var [x]", true], ["log", 2]], 1],
  ["for-await-nested", ["seq", ["of", "p", "a", ["of", "q", "b", ["h", 0], "let x", true], "x", true], ["log", 2]], 1]
];
A.forEach(function (f) {
  ctlPrep(f[1], "async");
  scenario("async-" + f[0], function () { ctlAsync("async function", [{ t: f[1], env: ctlMk(f[1], "async", "", f[2]) }]); });
});
scenario("two-tasks", function () {
  var t = ["seq", ["try", ["h", 0], ["h", 1], null], ["log", 1]];
  ctlAsync("two tasks", [{ t: t, env: ctlMk(t, "async", "a") }, { t: t, env: ctlMk(t, "async", "b") }]);
});
