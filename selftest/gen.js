// node gen.js SEED > needles.js : scenarios whose assertion fails for at least one input (picked at random).
// The engine must find a violation in each (or admit it was not exhaustive).
let seed = +process.argv[2] || 1;
function rnd(n) { seed = (seed * 1103515245 + 12345) & 0x7fffffff; return Math.floor(seed / 65536) % n; }
const I = (lo, hi) => ({ d: n => `symInt("${n}",${lo},${hi})`, r: () => lo + Math.floor((rnd(32768) * 32768 + rnd(32768)) / (1 << 30) * (hi - lo + 1)) });
const W = { d: n => `symInt("${n}",-2147483648,2147483647)`, r: () => [rnd(20) - 10, (rnd(32768) << 17) | rnd(65536), 1 << rnd(32)][rnd(3)] | 0 };
const S = (n, al) => ({ d: v => `symStr("${v}",${n},"${al}")`, r: () => { let s = ""; for (let i = 0; i < n; i++) { let k = rnd(al.length / 2); let a = al.charCodeAt(2 * k), b = al.charCodeAt(2 * k + 1); s += String.fromCharCode(a + rnd(b - a + 1)); } return s; } });
const fns = [
  [[W, W], "(a&b)+(a|b)"], [[W, W], "a-b"], [[W, W], "(a*3)^b"], [[W, I(0, 40)], "a<<b"], [[W, I(0, 40)], "(a>>>b)+1"], [[W, I(0, 40)], "a>>b"],
  [[W, I(1, 9)], "a%b"], [[I(-200, 200), I(-200, 200)], "a*b"], [[W, W], "Math.min(a,b)-Math.max(a,b)"], [[W], "Math.abs(a)"],
  [[I(-1000, 1000), I(1, 8)], "Math.floor(a/b)"], [[I(-1000, 1000), I(1, 8)], "Math.trunc(a/b)+Math.ceil(a/b)"],
  [[I(-9, 9), I(-9, 9)], "'abcdef'.substring(a,b)"], [[I(-9, 9), I(-9, 9)], "'abcdef'.slice(a,b)"], [[I(-9, 9), I(-9, 9)], "[1,2,3,4,5].slice(a,b).join()"],
  [[I(-9, 9), I(0, 4)], "var z=[1,2,3,4,5];z.splice(a,b,'x');z.join()"], [[I(-9, 9), I(-9, 9), I(-9, 9)], "[1,2,3,4,5].copyWithin(a,b,c).join()"],
  [[S(2, "az")], "a+'x'+a"], [[S(2, "AZaz")], "a.toUpperCase()"], [[S(3, "ac")], "'abcabcabc'.indexOf(a)"], [[S(3, "ac")], "a.split('b').join('-')"],
  [[S(3, "ac")], "a.replace(/b+/,'Q')"], [[S(3, "09")], "+a"], [[S(3, "09aa")], "parseInt(a,16)"], [[I(0, 99999)], "String(a)"], [[W], "(a>>>0).toString(16)"],
  [[I(0, 3), I(0, 3)], "var o={};o['k'+a]=1;o['k'+b]=2;Object.keys(o).join()"], [[I(0, 5), I(0, 5), I(0, 5)], "[a,b,c].sort().join()"], [[I(0, 5), I(0, 5)], "[...new Set([a,b,3])].join()"],
  [[W], "var u=new Uint8Array(1);u[0]=a;u[0]"], [[W], "var u=new Uint8ClampedArray(1);u[0]=a;u[0]"], [[W], "var d=new DataView(new ArrayBuffer(4));d.setInt32(0,a);d.getUint16(1,true)"],
  [[S(2, "az")], "JSON.stringify({k:a})"], [[S(2, "az")], "encodeURIComponent(a)"], [[S(1, "\u0001\ufffd")], "a.charCodeAt(0)"], [[I(0, 7)], "switch(a){case 1:case 2:'x';break;case 5:'y';break;default:'z'+a}"],
  [[I(0, 6)], "(function*(){for(var i=0;i<a;i++)yield i*2})().next().value+''+[...(function*(){for(var i=0;i<a;i++)yield i*2})()]"],
  [[I(0, 6), I(0, 6)], "var r='';try{for(var i=0;i<6;i++){if(i==a)throw i;if(i==b)break;r+=i}}catch(e){r+='c'+e}finally{r+='f'};r"],
  [[W], "a==='5'||a==5"], [[W, W], "a<b?1:a>b?2:3"], [[I(-500, 500)], "a/4"], [[I(-500, 500), I(-500, 500)], "a/8+b*0.5"], [[I(0, 255)], "String.fromCharCode(a+0x400)"],
  [[S(2, "az")], "'m'<a"], [[S(2, "az"), S(1, "az")], "a.localeCompare?a.lastIndexOf(b):0"], [[I(1, 12)], "new Date(2020,a-1,15,3,4,5).getUTCMonth()"], [[I(0, 100000)], "new Date(a*86400000).toISOString()"],
];
let out = "";
fns.forEach(([ps, e], i) => {
  for (let k = 0; k < 2; k++) {
    const names = ["a", "b", "c"].slice(0, ps.length), vals = ps.map(p => p.r());
    let want;
    try { want = (0, eval)(`(function(${names}){return (0,eval)(${JSON.stringify("var __;")}),eval(${JSON.stringify(e)})})`)(...vals); } catch (x) { continue; }
    const lit = typeof want === "string" ? JSON.stringify(want) : Object.is(want, -0) ? "-0" : String(want);
    const body = e.startsWith('(function*') ? 'var R='+e : e.includes(";") && !e.startsWith("switch") ? e.replace(/;([^;]*)$/, ";var R=$1") : e.startsWith("switch") ? e.replace(/'x'/, "R='x'").replace(/'y'/, "R='y'").replace(/'z'/, "R='z'").replace(/^/, "var R;") : "var R=" + e;
    out += `scenario("n${i}_${k}",function(){${names.map((n, j) => `var ${n}=${ps[j].d(n)};`).join("")}${body};check(!Object.is(R,${lit}),"hit")});// ${JSON.stringify(vals)}\n`;
  }
});
process.stdout.write(out);
