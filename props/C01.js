/* C01: control flow. Programs with holes; which jump each hole takes (none, throw, return, break/continue of every
 * legal target) is symbolic per visit; effects, completion and captured bindings are compared with the model. */
var F = [
  ["loop-tcf", ["seq", ["loop", "for", "a", ["seq", ["try", ["seq", ["log", 1], ["h", 0]], ["h", 1], ["h", 2]], ["log", 2]]], ["log", 3]]],
  ["nested-finally", ["seq", ["loop", "while", null, ["seq", ["try", ["try", ["h", 0], null, ["h", 1]], null, ["seq", ["log", 1], ["h", 2]]], ["log", 2]]], ["log", 3]]],
  ["finally-in-finally", ["seq", ["try", ["h", 0], null, ["seq", ["loop", "do", "b", ["try", ["h", 1], null, ["h", 2]]], ["log", 1]]], ["log", 2]]],
  ["labelled-try", ["seq", ["try", ["seq", ["h", 0], ["log", 1]], ["seq", ["h", 1], ["log", 2]], ["seq", ["h", 2], ["log", 3]], "a"], ["log", 4]]],
  ["of-close", ["seq", ["of", "p", "a", ["seq", ["of", "q", "b", ["seq", ["h", 0], ["log", 1]]], ["h", 1]]], ["log", 2]]],
  ["of-finally", ["seq", ["of", "p", "a", ["try", ["of", "q", null, ["h", 0]], null, ["seq", ["log", 1], ["h", 1]]]], ["log", 2]]],
  ["of-in-finally", ["seq", ["try", ["h", 0], null, ["seq", ["of", "p", null, ["h", 1]], ["log", 1]]], ["log", 2]]],
  ["of-destruct", ["seq", ["of", "p", "a", ["try", ["h", 0], ["h", 1], null], "var [x]"], ["log", 2]]],
  ["of-let-closure", ["seq", ["of", "p", "a", ["let", ["try", ["h", 0], ["let", ["h", 1]], null]], "let x"], ["log", 2]]],
  ["switch", ["seq", ["loop", "for", "a", ["seq", ["sw", null, [[0, ["seq", ["log", 1], ["h", 0]]], [1, ["log", 2]], [null, ["seq", ["h", 1], ["log", 3]]], [2, ["log", 4]]]], ["log", 5]]], ["log", 6]]],
  ["switch-try", ["seq", ["sw", "a", [[0, ["try", ["h", 0], null, ["h", 1]]], [null, ["log", 1]], [1, ["let", ["h", 2]]]]], ["log", 2]]],
  ["blocks", ["seq", ["blk", "a", ["seq", ["blk", "b", ["seq", ["let", ["h", 0]], ["with", "c", ["seq", ["h", 1], ["log", 1]]], ["log", 2]]], ["log", 3]]], ["log", 4]]],
  ["let-loop", ["seq", ["loop", "let", "a", ["seq", ["loop", "let", "b", ["seq", ["h", 0], ["log", 1]]], ["try", ["let", ["h", 1]], null, ["log", 2]]]], ["log", 3]]],
  ["for-in", ["seq", ["loop", "in", "a", ["seq", ["with", "c", ["try", ["h", 0], ["seq", ["log", 1], ["h", 1]], ["with", null, ["h", 2]]]], ["log", 2]]], ["log", 3]]],
  ["do-while", ["seq", ["loop", "do", "a", ["seq", ["loop", "do", "b", ["seq", ["try", ["h", 0], ["h", 1], null], ["log", 1]]], ["log", 2]]], ["log", 3]]],
  ["catch-finally-of", ["seq", ["of", "p", "a", ["try", ["seq", ["of", "q", "b", ["try", ["h", 0], null, ["h", 1]]]], ["seq", ["log", 1]], ["log", 2]]], ["log", 3]], 1]
];
F.forEach(function (f) {
  ctlPrep(f[1], "fn");
  scenario("fn-" + f[0], function () { ctlCheck("function", f[1], ctlMk(f[1], "fn", "", f[2])); });
  scenario("eval-" + f[0], function () { ctlCheck("script", f[1], ctlMk(f[1], "eval", "", true)); }, 0.6);
});
