// Date components and setters against an independent civil calendar (time zone UTC for the local methods as well).
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var DAY = 86400000;
function leap(y) { return y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0) }
function dim(y, m) { return m === 1 ? (leap(y) ? 29 : 28) : m === 3 || m === 5 || m === 8 || m === 10 ? 30 : 31 }
function fd(a, b) { return ref("fdiv", a, b) }
function jan1(y) { var p = y - 1; return 365 * (y - 1970) + (fd(p, 4) - 492) - (fd(p, 100) - 19) + (fd(p, 400) - 4) }
function civil(y, m, d) { var n = jan1(y), i; for (i = 0; i < m; i++) n += dim(y, i); return n + d - 1 }        // days since 1970-01-01
function civ(y, m, d) { return civil(y + fd(m, 12), ref("fmod", m, 12), 1) + d - 1 }                        // any integer month and day
function tod(h, mi, s, ms) { return ((h * 60 + mi) * 60 + s) * 1000 + ms }
function u(x) { return x + 0 }
var YEARS = [1970, 1969, 2000, 1900, 2100, 2024, 2023, 1, 0, -1, -4, -100, -400, -401, 400, 1600, 9999, 10000, 275000, -271000, 1999, 1904];
scenario("time_of_day", function () { var t = symInt("t", -2000, 2000), k = conc(symInt("k", 0, 5)), b = [0, 3600000, 60000, 86400000, -86400000, 951782400000][k], d = new Date(b + t), x = ref("fmod", b + t, DAY); eq(d.getUTCMilliseconds(), ref("mod", x, 1000), "ms"); eq(d.getUTCSeconds(), ref("mod", ref("div", x, 1000), 60), "s"); eq(d.getUTCMinutes(), ref("mod", ref("div", x, 60000), 60), "min"); eq(d.getUTCHours(), ref("div", x, 3600000), "h"); eq(d.getTime(), b + t, "time"); });
scenario("get_components", function () { var y = YEARS[conc(symInt("y", 0, YEARS.length - 1))], m = conc(symInt("m", 0, 11)), n = dim(y, m), d = [1, 2, 15, 27, 28, n - 1, n][conc(symInt("d", 0, 6))], e = symBool("e"), day = civil(y, m, d), x = new Date(day * DAY + (e ? DAY - 1 : 0)); eq(x.getUTCFullYear(), y, "year"); eq(x.getUTCMonth(), m, "month"); eq(x.getUTCDate(), d, "date"); eq(x.getUTCDay(), ref("fmod", day + 4, 7), "weekday"); eq(x.getUTCHours(), e ? 23 : 0, "hour"); eq(x.getUTCMilliseconds(), e ? 999 : 0, "ms"); }, 3);
scenario("every_day", function () { var k = conc(symInt("k", 0, 3)), y = [2000, 2023, 1900, -1][k], n = conc(symInt("n", 0, 366)), m = 0, x = new Date((jan1(y) + n) * DAY + 5), yy = y; while (n >= dim(yy, m)) { n -= dim(yy, m); m++; if (m === 12) { m = 0; yy++ } } eq(x.getUTCFullYear(), yy, "year"); eq(x.getUTCMonth(), m, "month"); eq(x.getUTCDate(), n + 1, "date"); }, 2);
scenario("every_year", function () { var y = conc(symInt("c", -4, 24)) * 100 + conc(symInt("y", 0, 99)), x = new Date(jan1(y) * DAY), z = new Date(jan1(y) * DAY - 1); eq(x.getUTCFullYear(), y, "first instant"); eq(x.getUTCMonth(), 0, "January"); eq(x.getUTCDate(), 1, "1"); eq(z.getUTCFullYear(), y - 1, "last instant of the year before"); eq(z.getUTCMonth(), 11, "December"); eq(z.getUTCDate(), 31, "31"); eq(new Date(x.getTime() + 59 * DAY).getUTCDate(), leap(y) ? 29 : 1, "leap day"); }, 3);
scenario("utc", function () { var y = YEARS[conc(symInt("y", 0, YEARS.length - 1))], m = conc(symInt("m", -14, 26)), d = symInt("d", -40, 70); assume(y < 0 || y > 99); eq(Date.UTC(y, m, d), civ(y, m, d) * DAY, "days"); }, 3);
scenario("utc_time", function () { var k = conc(symInt("k", 0, 3)), v = symInt("v", -130, 130), h = k === 0 ? v : 5, mi = k === 1 ? v : -7, s = k === 2 ? v : 70, ms = k === 3 ? v : -1; eq(Date.UTC(2000, 1, 29, h, mi, s, ms), 951782400000 + tod(h, mi, s, ms), "time"); });
scenario("two_digit_years", function () { var y = symInt("y", -2, 102), v = y >= 0 && y <= 99 ? 1900 + y : y; eq(Date.UTC(y, 0), jan1(conc(v)) * DAY, "UTC"); eq(new Date(y, 0).getFullYear(), v, "constructor"); var d = new Date(0); d.setUTCFullYear(y); eq(d.getUTCFullYear(), y, "setter does not map"); });
scenario("constructor_local", function () { var y = YEARS[conc(symInt("y", 0, 9))], m = conc(symInt("m", -2, 13)), d = symInt("d", -2, 33), h = symInt("h", -2, 25); assume(y > 99 || y < 0); eq(+new Date(y, m, d, h), civ(y, m, d) * DAY + h * 3600000, "UTC zone"); eq(new Date(y, m, d).getTimezoneOffset(), 0, "offset"); }, 2);
scenario("utc_defaults", function () { var n = conc(symInt("n", 1, 7)), a = [2001, 5, 7, 11, 13, 17, 19], r = Date.UTC.apply(null, a.slice(0, n)); eq(r, civil(2001, n > 1 ? 5 : 0, n > 2 ? 7 : 1) * DAY + tod(n > 3 ? 11 : 0, n > 4 ? 13 : 0, n > 5 ? 17 : 0, n > 6 ? 19 : 0), "missing parts"); eq(n > 1 ? +Reflect.construct(Date, a.slice(0, n)) : r, r, "constructor"); eq(Date.UTC(), NaN, "none"); });
scenario("fractions", function () { var k = conc(symInt("k", 0, 5)), f = [0.9, -0.9, 1.5, -1.5, 0.1, -0.1][k], t = f < 0 ? -Math.floor(-f) : Math.floor(f); eq(Date.UTC(2000, 0, 1, f), 946684800000 + t * 3600000, "hours truncate"); eq(Date.UTC(2000, 0, 1, 0, 0, 0, f), 946684800000 + t, "ms truncate"); eq(Date.UTC(2000 + f, 0), Date.UTC(Math.trunc(2000 + f), 0), "year truncates"); eq(+new Date(f), t + 0, "time value truncates"); eq(Object.is(+new Date(f), -0), false, "no negative zero"); });
var SET = ["Milliseconds", "Seconds", "Minutes", "Hours", "Date", "Month"];
scenario("setters", function () { var k = conc(symInt("k", 0, 5)), loc = symBool("loc"), v = symInt("v", -70, 1100), base = [951782400000 + tod(13, 47, 59, 321), -tod(3, 5, 7, 11)][conc(symInt("b", 0, 1))], d = new Date(base), r; if (k >= 4) assume(v <= 70); if (k === 5) v = conc(v); r = d[(loc ? "set" : "setUTC") + SET[k]](v); var o = new Date(base), e, Y = o.getUTCFullYear(), M = o.getUTCMonth(), D = o.getUTCDate(), h = o.getUTCHours(), mi = o.getUTCMinutes(), s = o.getUTCSeconds(), ms = o.getUTCMilliseconds(); if (k === 0) ms = v; else if (k === 1) s = v; else if (k === 2) mi = v; else if (k === 3) h = v; else if (k === 4) D = v; else M = v; e = civ(Y, M, D) * DAY + tod(h, mi, s, ms); eq(r, e, SET[k] + " result"); eq(d.getTime(), e, SET[k] + " stored"); }, 4);
scenario("setters_extra", function () { var k = conc(symInt("k", 0, 4)), n = conc(symInt("n", 1, 4)), a = [symInt("a", -3, 70), symInt("b", -3, 70), symInt("c", -3, 70), symInt("d", -3, 70)], base = 951782400000 + tod(13, 47, 59, 321), d = new Date(base), o = [2000, 1, 29, 13, 47, 59, 321], at = [0, 1, 3, 4, 5][k], max = [3, 2, 4, 3, 2][k], i; assume(n <= max); if (k < 2) { a[0] = conc(a[0]); if (k === 0) a[1] = conc(a[1]); assume(k !== 0 || a[0] % 10 === 0 && a[1] % 7 === 0) } var args = a.slice(0, n); d["setUTC" + ["FullYear", "Month", "Hours", "Minutes", "Seconds"][k]].apply(d, args); for (i = 0; i < n; i++) o[at + i] = a[i]; eq(d.getTime(), civ(o[0], o[1], o[2]) * DAY + tod(o[3], o[4], o[5], o[6]), "parts"); }, 3);
scenario("set_full_year", function () { var y = YEARS[conc(symInt("y", 0, YEARS.length - 1))], loc = symBool("loc"), d = new Date(951782400000), e = civ(y, 1, 29) * DAY; eq(loc ? d.setFullYear(y) : d.setUTCFullYear(y), e, "February 29 rolls over"); eq(d.getTime(), e, "stored"); });
scenario("invalid_stays", function () { var k = conc(symInt("k", 0, 5)), loc = symBool("loc"), v = symInt("v", -5, 5), d = new Date(NaN); eq(d[(loc ? "set" : "setUTC") + SET[k]](v), NaN, SET[k]); eq(d.getTime(), NaN, "stays invalid"); eq(d.getUTCFullYear(), NaN, "year"); eq(d.getDay(), NaN, "day"); eq(d.getTimezoneOffset(), NaN, "offset"); eq(loc ? d.setFullYear(1970) : d.setUTCFullYear(1970, 0, 1), 0, "FullYear revives"); });
scenario("nan_arguments", function () { var k = conc(symInt("k", 0, 5)), w = conc(symInt("w", 0, 3)), v = [NaN, undefined, Infinity, "x"][w], d = new Date(1000); eq(d["setUTC" + SET[k]](v), NaN, "result"); eq(d.getTime(), NaN, "stored"); eq(Date.UTC(2000, v), NaN, "UTC"); eq(+new Date(2000, 0, v), NaN, "constructor"); d = new Date(0); eq(d.setUTCHours(1, v), NaN, "second argument"); });
scenario("range_limits", function () { var s = symBool("s"), t = symInt("t", -2, 2), m = 8640000000000000, v = s ? -m - t : m + t, ok = t <= 0, d = new Date(v); eq(d.getTime(), ok ? v : NaN, "constructor"); eq(new Date(0).setTime(v), ok ? v : NaN, "setTime"); eq(Date.UTC(1970, 0, 1, 0, 0, 0, v), ok ? v : NaN, "UTC"); d = new Date(s ? -m : m); eq(d.setUTCMilliseconds(s ? -t : t), ok ? v : NaN, "setter"); if (ok && t === 0) { eq(new Date(v).getUTCFullYear(), s ? -271821 : 275760, "year"); eq(new Date(v).getUTCDate(), s ? 20 : 13, "date") } });
scenario("range_days", function () { var d = symInt("d", -2, 2), s = symBool("s"), v = s ? -100000000 + d : 100000000 + d, ok = s ? d >= 0 : d <= 0; eq(Date.UTC(1970, 0, 1 + v), ok ? v * DAY : NaN, "days"); eq(Date.UTC(1970, 0, 1 + v, -d * 24), s ? -100000000 * DAY : 100000000 * DAY, "intermediate overflow is fine"); });
scenario("huge_parts", function () { var k = conc(symInt("k", 0, 6)), i = conc(symInt("i", 0, 6)), a = [1970, 0, 1, 0, 0, 0, 0], v = [1e10, -1e10, 1e20, 1e300, -1e300, 2147483648, 4294967297][k]; a[i] = v; var r = Date.UTC.apply(null, a), e = i < 2 ? NaN : v * [0, 0, DAY, 3600000, 60000, 1000, 1][i]; if (i === 2) e = (v - 1) * DAY; eq(r, Math.abs(e) <= 8640000000000000 ? e : NaN, "no wrap around"); });
scenario("arguments_once", function () { var log = "", n = conc(symInt("n", 2, 7)), bad = conc(symInt("bad", 0, 8)), a = [], i; function mk(i) { return { valueOf() { log += i; if (i === bad) throw new RangeError("x"); return i + 1 } } } for (i = 0; i < n; i++) a.push(mk(i)); var want = "0123456".slice(0, bad < n ? bad + 1 : n); eq(err(function () { Date.UTC.apply(null, a) }), bad < n ? "RangeError" : "none", "UTC"); eq(log, want, "UTC order"); log = ""; eq(err(function () { Reflect.construct(Date, a) }), bad < n ? "RangeError" : "none", "new"); eq(log, want, "new order"); log = ""; var d = new Date(0); err(function () { d.setUTCHours.apply(d, a) }); eq(log, want.slice(0, 4), "setHours order"); if (bad < 4 && bad < n) eq(d.getTime(), 0, "unchanged when a conversion throws"); });
scenario("setter_reentrancy", function () { var k = conc(symInt("k", 0, 5)), d = new Date(951782400000), t = d.getTime(), e = new Date(t)["setUTC" + SET[k]](5); eq(d["setUTC" + SET[k]]({ valueOf() { d.setTime(77); return 5 } }), e, "uses the time read first"); eq(d.getTime(), e, "stored"); });
scenario("brand", function () { var k = conc(symInt("k", 0, 4)), v = [{}, null, 5, Object.create(new Date(0)), Date.prototype][k]; eq(err(function () { Date.prototype.getTime.call(v) }), "TypeError", "getTime"); eq(err(function () { Date.prototype.setTime.call(v, 0) }), "TypeError", "setTime"); eq(err(function () { Date.prototype.toISOString.call(v) }), "TypeError", "toISOString"); eq(err(function () { Date.prototype.getUTCDay.call(v) }), "TypeError", "getUTCDay"); });
scenario("copies", function () { var t = symInt("t"), d = new Date(t), e = new Date(d); eq(e.getTime(), t, "copied"); e.setTime(t + 1); eq(d.getTime(), t, "independent"); eq(+d, t, "valueOf"); eq(d - 0, t, "minus"); eq(d < e, true, "<"); eq(d == e, false, "identity"); });
scenario("primitive_values", function () { var k = conc(symInt("k", 0, 7)), v = [true, null, undefined, "1970", "1000", { valueOf() { return 7 } }, { toString() { return "1970" }, valueOf: undefined }, Symbol()][k], e = [1, 0, NaN, 0, -30610224000000, 7, 0, "TypeError"][k]; if (k === 7) eq(err(function () { new Date(v) }), e, "symbol"); else eq(+new Date(v), e, "converted"); });
scenario("weekday_cycle", function () { var d = symInt("d", -1000, 1000), x = new Date(d * DAY + 43200000); eq(x.getUTCDay(), ref("fmod", d + 4, 7), "seven day cycle"); eq(x.getDay(), ref("fmod", d + 4, 7), "local"); });
scenario("monotone", function () { var a = symInt("a", -100, 100), b = symInt("b", -100, 100); assume(a < b); var x = new Date(a * 1000), y = new Date(b * 1000); check(x < y, "order"); check(x.getTime() <= y.getTime(), "order of times"); });
