// Date text: ISO and UTC formats, parsing and its grammar.
function err(f) { try { f(); return "none" } catch (e) { return e.name } }
var DAY = 86400000, MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"], WD = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
function leap(y) { return y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0) }
function dim(y, m) { return m === 1 ? (leap(y) ? 29 : 28) : m === 3 || m === 5 || m === 8 || m === 10 ? 30 : 31 }
function fd(a, b) { return ref("fdiv", a, b) }
function jan1(y) { var p = y - 1; return 365 * (y - 1970) + (fd(p, 4) - 492) - (fd(p, 100) - 19) + (fd(p, 400) - 4) }
function civil(y, m, d) { var n = jan1(y), i; for (i = 0; i < m; i++) n += dim(y, i); return n + d - 1 }
function pad(n, w) { var s = String(n < 0 ? -n : n); while (s.length < w) s = "0" + s; return s }
function two(c, i) { return (c.charCodeAt(i) - 48) * 10 + c.charCodeAt(i + 1) - 48 }
var YEARS = [1970, 2000, 1900, 2024, 1, 0, -1, -400, 9999, 10000, 99999, 275759, -271820, 100, -10000];
function isoYear(y) { return y >= 0 && y <= 9999 ? pad(y, 4) : (y < 0 ? "-" : "+") + pad(y, 6) }
scenario("iso_text", function () { var y = YEARS[conc(symInt("y", 0, YEARS.length - 1))], m = conc(symInt("m", 0, 11)), d = [1, 9, 28, dim(y, m)][conc(symInt("d", 0, 3))], t = civil(y, m, d) * DAY, s = isoYear(y) + "-" + pad(m + 1, 2) + "-" + pad(d, 2); eq(new Date(t).toISOString(), s + "T00:00:00.000Z", "toISOString"); eq(Date.parse(s), t, "date only is UTC"); eq(Date.parse(s + "T00:00:00.000Z"), t, "full"); eq(new Date(t).toJSON(), s + "T00:00:00.000Z", "toJSON"); eq(Date.parse(new Date(t).toISOString()), t, "round trip"); }, 2);
scenario("iso_time", function () { var k = conc(symInt("k", 0, 3)), v = conc(symInt("v", 0, 1005)), max = [24, 60, 60, 1000][k]; assume(v < max); var h = k === 0 ? v : 7, mi = k === 1 ? v : 8, s = k === 2 ? v : 9, ms = k === 3 ? v : 5, t = 951782400000 + ((h * 60 + mi) * 60 + s) * 1000 + ms, x = "2000-02-29T" + pad(h, 2) + ":" + pad(mi, 2) + ":" + pad(s, 2) + "." + pad(ms, 3) + "Z"; eq(new Date(t).toISOString(), x, "toISOString"); eq(Date.parse(x), t, "parse"); eq(new Date(x).getTime(), t, "constructor"); eq(new Date(t).toUTCString(), "Tue, 29 Feb 2000 " + pad(h, 2) + ":" + pad(mi, 2) + ":" + pad(s, 2) + " GMT", "toUTCString"); }, 3);
scenario("utc_text", function () { var y = YEARS[conc(symInt("y", 0, YEARS.length - 1))], m = conc(symInt("m", 0, 11)), d = [1, 9, 28, dim(y, m)][conc(symInt("d", 0, 3))], n = civil(y, m, d), t = n * DAY, w = WD[ref("fmod", n + 4, 7)], yy = (y < 0 ? "-" : "") + pad(y, 4), x = new Date(t); eq(x.toUTCString(), w + ", " + pad(d, 2) + " " + MON[m] + " " + yy + " 00:00:00 GMT", "toUTCString"); eq(x.toDateString(), w + " " + MON[m] + " " + pad(d, 2) + " " + yy, "toDateString"); eq(x.toString().slice(0, 33 + yy.length - 4), w + " " + MON[m] + " " + pad(d, 2) + " " + yy + " 00:00:00 GMT+0000", "toString"); eq(x.toTimeString().slice(0, 17), "00:00:00 GMT+0000", "toTimeString"); eq(Date.parse(x.toUTCString()), t, "parses toUTCString"); eq(Date.parse(x.toString()), t, "parses toString"); }, 2);
scenario("second_resolution", function () { var a = symInt("a", 0, 59), b = symInt("b", 0, 999), t = 1e12 + conc(a) * 1000 + conc(ref("mod", b, 5)) * 200, x = new Date(t); eq(Date.parse(x.toString()), fd(t, 1000) * 1000, "toString"); eq(Date.parse(x.toUTCString()), fd(t, 1000) * 1000, "toUTCString"); eq(Date.parse(x.toISOString()), t, "toISOString"); });
scenario("parse_month", function () { var t = symStr("t", 2, "09"), v = two(t, 0), ok = v >= 1 && v <= 12; eq(Date.parse("2001-" + t), ok ? civil(2001, conc(v) - 1, 1) * DAY : NaN, "month"); });
scenario("parse_day", function () { var t = symStr("t", 2, "09"), v = two(t, 0), ok = v >= 1 && v <= 28; assume(v < 29 || v > 31); eq(Date.parse("2001-02-" + t), ok ? (civil(2001, 1, 1) + v - 1) * DAY : NaN, "day"); });
scenario("parse_last_day", function () { var m = conc(symInt("m", 0, 11)), d = conc(symInt("d", 29, 32)), y = [2000, 2001, 1900][conc(symInt("y", 0, 2))], r = Date.parse(y + "-" + pad(m + 1, 2) + "-" + d); if (d <= dim(y, m)) eq(r, civil(y, m, d) * DAY, "valid day"); if (d > 31) eq(r, NaN, "never valid"); });
scenario("parse_hour", function () { var t = symStr("t", 2, "09"), v = two(t, 0); eq(Date.parse("2000-01-01T" + t + ":00Z"), v <= 24 ? 946684800000 + v * 3600000 : NaN, "hour"); eq(Date.parse("2000-01-01T" + t + ":01Z"), v <= 23 ? 946684860000 + v * 3600000 : NaN, "24:00 only"); });
scenario("parse_minute", function () { var t = symStr("t", 2, "09"), v = two(t, 0); eq(Date.parse("2000-01-01T01:" + t + "Z"), v <= 59 ? 946688400000 + v * 60000 : NaN, "minute"); });
scenario("parse_second", function () { var t = symStr("t", 2, "09"), v = two(t, 0); eq(Date.parse("2000-01-01T01:00:" + t + "Z"), v <= 59 ? 946688400000 + v * 1000 : NaN, "second"); });
scenario("parse_ms", function () { var t = symStr("t", 3, "09"), v = (t.charCodeAt(0) - 48) * 100 + two(t, 1); eq(Date.parse("2000-01-01T01:00:00." + t + "Z"), 946688400000 + v, "milliseconds"); });
scenario("parse_year", function () { var t = symStr("t", 1, "09"), v = conc(t.charCodeAt(0) - 48), k = conc(symInt("k", 0, 3)), s = ["000" + v, v + "000", "+00" + v + "000", "-00" + v + "001"][k], y = [v, v * 1000, v * 1000, -(v * 1000 + 1)][k]; eq(Date.parse(s), civil(y, 0, 1) * DAY, "year"); });
scenario("parse_offset", function () { var s = symBool("s"), h = conc(symInt("h", 0, 23)), m = conc(symInt("m", 0, 6)) * 10, bad = m === 60; eq(Date.parse("2000-01-01T00:00:00" + (s ? "-" : "+") + pad(h, 2) + ":" + pad(m, 2)), bad ? NaN : 946684800000 + (s ? 1 : -1) * (h * 60 + m) * 60000, "offset"); });
scenario("parse_range", function () { var d = symInt("d", -1, 1), a = symBool("a"); d = conc(d); var t = a ? "+275760-09-13T00:00:00.00" + (d < 0 ? 0 : d) + "Z" : "-271821-04-" + (d < 0 ? "19T23:59:59.999Z" : "20T00:00:00.000Z"), ok = a ? d <= 0 : d >= 0; eq(Date.parse(t), ok ? (a ? 8640000000000000 : -8640000000000000) : NaN, "limits"); eq(Date.parse("-000000-01-01T00:00:00Z"), NaN, "negative zero year"); });
scenario("parse_separators", function () { var t = symStr("t", 1, "!~"), c = t[0]; eq(Date.parse("2000" + t + "01-01T00:00:00.000Z"), c === "-" ? 946684800000 : NaN, "first dash"); eq(Date.parse("2000-01-01T00:00:00.000" + t), c === "Z" ? 946684800000 : NaN, "zone"); eq(Date.parse("2000-01-01T00" + t + "00:00.000Z"), c === ":" ? 946684800000 : NaN, "colon"); });
scenario("parse_trailing", function () { var t = symStr("t", 1, "!~"); eq(Date.parse("2000-01-01T00:00:00.000Z" + t), NaN, "trailing text"); if (t < "0" || t > "9") eq(Date.parse(t), NaN, "single character"); });
scenario("parse_truncated", function () { var n = conc(symInt("n", 0, 24)), s = "2000-01-01T00:00:00.000Z".slice(0, n), ok = n === 4 || n === 7 || n === 10 || n === 16 || n === 19 || n === 23 || n === 24, r = Date.parse(s); if (ok) eq(r, 946684800000, "prefix that is a date"); if (n === 0 || n === 5 || n === 8 || n === 20) eq(r, NaN, "incomplete"); });
scenario("local_forms", function () { var h = conc(symInt("h", 0, 23)); eq(Date.parse("2000-01-01T" + pad(h, 2) + ":30"), +new Date(2000, 0, 1, h, 30), "no zone is local"); eq(Date.parse("Sat, 01 Jan 2000 " + pad(h, 2) + ":30:00 GMT"), 946684800000 + h * 3600000 + 1800000, "RFC form"); });
scenario("named_parts", function () { var m = conc(symInt("m", 0, 11)), d = conc(symInt("d", 1, 28)), n = civil(2021, m, d), w = WD[ref("fmod", n + 4, 7)]; eq(Date.parse(w + ", " + pad(d, 2) + " " + MON[m] + " 2021 00:00:00 GMT"), n * DAY, "UTC form"); eq(Date.parse(w + " " + MON[m] + " " + pad(d, 2) + " 2021 00:00:00 GMT+0000"), n * DAY, "string form"); eq(Date.parse(w + " " + MON[m] + " " + pad(d, 2) + " 2021 00:00:00 GMT-0130"), n * DAY + 5400000, "string form with offset"); });
scenario("invalid", function () { var k = conc(symInt("k", 0, 3)), d = new Date(NaN); if (k === 0) eq(err(function () { d.toISOString() }), "RangeError", "toISOString"); if (k === 1) eq(d.toJSON(), null, "toJSON"); if (k === 2) { eq(String(d), "Invalid Date", "toString"); eq(d.toDateString(), "Invalid Date", "toDateString"); eq(d.toTimeString(), "Invalid Date", "toTimeString"); eq(d.toUTCString(), "Invalid Date", "toUTCString") } if (k === 3) eq(JSON.stringify({ d: d }), '{"d":null}', "JSON"); });
scenario("to_primitive", function () { var k = conc(symInt("k", 0, 4)), h = ["number", "string", "default", "x", undefined][k], d = new Date(5); if (k > 2) eq(err(function () { d[Symbol.toPrimitive](h) }), "TypeError", "bad hint"); else eq(d[Symbol.toPrimitive](h), k ? d.toString() : 5, "hint"); eq(d + 1, d.toString() + "1", "+ uses text"); eq(d - 1, 4, "- uses the number"); eq(d < new Date(6), true, "< uses the number"); eq(d == d.toString(), true, "== uses text"); eq(`${d}`, d.toString(), "template"); });
scenario("json_generic", function () { var k = conc(symInt("k", 0, 3)), v = [NaN, 1, Infinity, "x"][k], c = 0, o = { valueOf() { return v }, toISOString() { c++; return 42 } }, r = Date.prototype.toJSON.call(o); var nul = k === 0 || k === 2; eq(r, nul ? null : 42, "result"); eq(c, nul ? 0 : 1, "calls toISOString"); });
