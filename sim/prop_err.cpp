// P12: a failing script is contained and reported
#include "workload.hpp"
extern "C" {
#include <buzz/buzzheap.h>
}
namespace {
// ---- statements: text and what must happen: E an error, O no error, Q either
struct Stm { str text; char exp; };
// values by type letter: n nil, i int, f float, s string, t table, c closure, v C closure, w swarm, g stigmergy, b neighbors, u userdata, h open file
str value(Rng& g, char k) {
   switch(k) {
      case 'i': { static const char* v[]={"0","1","2","3","7","-1","65535","65536","-32768","2147483647","300","MINI"}; return v[g.below(12)]; }
      case 'j': { static const char* v[]={"0","1","2","3"}; return v[g.below(4)]; }      // small
      case 'f': { static const char* v[]={"0.5","2.25","-3.5","0.0","INF","NANV","100000.0","BIGF","-BIGF"}; return v[g.below(9)]; }
      case 's': { static const char* v[]={"\"\"","\"ab\"","\"12\"","\"-3.5x\"","LS","\"id\"","\"data\""}; return v[g.below(7)]; }
      case 't': { static const char* v[]={"{}","{.a = 1}","{.0 = 1, .1 = \"x\"}","{.a = {.b = 2.5}}","tv","{.id = 1}","{.id = 77}","{.id = \"q\"}","{.id = nil}"}; return v[g.below(9)]; }
      case 'T': { static const char* v[]={"{}","{.a = 1}","{.0 = 1, .1 = \"x\"}","tv"}; return v[g.below(4)]; }
      case 'c': { static const char* v[]={"function(x, y, z) { return x }","function() { return 1 }","function(x) { }","function(x, y, z, w) { return {.a = w} }","fv"}; return v[g.below(5)]; }
      case 'v': { static const char* v[]={"size","isnil","type"}; return v[g.below(3)]; }
      case 'V': return "simc";
      case 'w': return g.chance(0.7)?"sw":"sx"; case 'g': return "st"; case 'b': return "neighbors"; case 'u': return "ud"; case 'h': return "io.fopen(\"/tmp1\", \"w+\")";
   }
   return "nil";
}
// type letters of a concrete choice: table-like things are tables for the checks below
struct Sig { const char* name; std::vector<const char*> args; int min; };   // accepted letters by argument; '*' any; "?" never judged
const std::vector<Sig>& sigs() {
   static const std::vector<Sig> s={
      {"type",{"*"},1},{"clone",{"*"},1},{"size",{"t"},1},{"isnil",{"*"},1},{"isint",{"*"},1},{"isfloat",{"*"},1},{"isstring",{"*"},1},{"istable",{"*"},1},{"isclosure",{"*"},1},{"isuserdata",{"*"},1},
      {"int",{"f?i"},1},{"float",{"i?f"},1},
      {"foreach",{"t","c?v"},2},{"map",{"t","c?v"},2},{"filter",{"t","c?v"},2},{"reduce",{"t","c?v","*"},3},
      {"math.abs",{"if"},1},{"math.floor",{"if"},1},{"math.ceil",{"if"},1},{"math.round",{"if"},1},{"math.log",{"if"},1},{"math.log2",{"if"},1},{"math.log10",{"if"},1},{"math.exp",{"if"},1},{"math.sqrt",{"if"},1},
      {"math.sin",{"if"},1},{"math.cos",{"if"},1},{"math.tan",{"if"},1},{"math.asin",{"if"},1},{"math.acos",{"if"},1},{"math.atan",{"if","if"},2},{"math.min",{"if?*","if?*"},2},{"math.max",{"if?*","if?*"},2},
      {"math.rng.setseed",{"i"},1},{"math.rng.uniform",{"if"},1},{"math.rng.uniform",{"if","if"},2},{"math.rng.gaussian",{"if"},1},{"math.rng.gaussian",{"if","if"},2},{"math.rng.exponential",{"if"},1},
      {"string.length",{"s"},1},{"string.sub",{"s","i"},2},{"string.sub",{"s","i","i?*"},3},{"string.concat",{"s","s"},2},{"string.concat",{"s","s","s"},3},{"string.tostring",{"*"},1},{"string.toint",{"s"},1},{"string.tofloat",{"s"},1},
      {"swarm.create",{"i"},1},{"swarm.id",{"?*"},0},
      {"swarm.union",{"i","w?t","w?t"},3},{"swarm.intersection",{"i","w?t","w?t"},3},{"swarm.difference",{"i","w?t","w?t"},3},
      {"sw.in",{},0},{"sw.join",{},0},{"sw.leave",{},0},{"sw.select",{"i"},1},{"sw.exec",{"c?*"},1},{"sw.others",{"i"},1},
      {"stigmergy.create",{"?i"},1},
      {"st.put",{"ifs?ntu","*"},2},{"st.get",{"ifs?ntu"},1},{"st.size",{},0},{"st.foreach",{"c?v"},1},{"st.onconflict",{"c?v"},1},{"st.onconflictlost",{"c?v"},1},
      {"neighbors.broadcast",{"s?*","*"},2},{"neighbors.listen",{"s","c?v"},2},{"neighbors.ignore",{"s"},1},{"neighbors.get",{"i?*"},1},{"neighbors.count",{},0},{"neighbors.foreach",{"c?*"},1},{"neighbors.map",{"c?*"},1},{"neighbors.reduce",{"c?*","*"},2},{"neighbors.filter",{"c?*"},1},{"neighbors.kin",{},0},{"neighbors.nonkin",{},0},
      {"io.fopen",{"s","s"},2},{"io.fclose",{"h?"},1},{"io.fsize",{"h?"},1},{"io.fwrite",{"h?","*"},2},{"io.fforeach",{"h?","c?v"},2},
   };
   return s;
}
// what an argument of letter k means for a parameter described by d: accepted, refused or not judged
char judge(const char* d, char k) {
   const char* q=strchr(d,'?'); str acc(d,q?q-d:strlen(d)), unk(q?q+1:"");
   char base = k=='T'?'t' : k=='V' ? (acc.find('c')!=str::npos?'c':'v') : k=='w'||k=='g'||k=='b'||k=='h' ? (acc.find(k)!=str::npos?k:'t') : k=='j'?'i' : k;
   if(acc.find('*')!=str::npos || acc.find(base)!=str::npos || acc.find(k)!=str::npos) return 'O';
   if(unk.find('*')!=str::npos || unk.find(base)!=str::npos || unk.find(k)!=str::npos) return 'Q';
   if(q && !q[1] && base=='t') return 'Q';      // "h?": tables may or may not be file handles
   return 'E';
}
const char LETTERS[]="niifssttTcvwgbuhV"; const int NLET=17;
Stm libcall(Rng& g) {
   const Sig& s=g.pick(sigs()); str a; char exp='O';
   int n=(int)s.args.size(); bool wrongcount=g.chance(0.15);
   if(wrongcount) { int m=g.chance(0.6)?n-1:n+1; if(m<0) m=n+1; n=m; exp='Q'; }
   int bad=g.chance(0.5)&&n>0?g.below(n):-1;
   for(int i=0;i<n;++i) {
      char k=LETTERS[g.below(NLET)];
      if(i<(int)s.args.size()) {
         const char* d=s.args[i];
         for(int t=0;t<60;++t) { char j=judge(d,k); if(i==bad ? j!='O' : j=='O') break; k=LETTERS[g.below(NLET)]; }
         char j=judge(d,k); if(exp!='Q' && j=='E') exp='E'; if(j=='Q' && exp!='E') exp='Q';
      }
      if(i) a+=", ";
      a+=value(g,k);
   }
   str call=str(s.name)+"("+a+")";
   int same=0; for(auto& q:sigs()) if(!strcmp(q.name,s.name)) ++same;
   if(wrongcount && (int)n<s.min && same==1) exp='E';
   if(exp=='O' && (call.find("z) {")!=str::npos || call.find("w) {")!=str::npos || call.find("fv")!=str::npos)) exp='Q';    // may read parameters that are not passed
   bool callback=call.find("foreach")==0||call.find("map")==0||call.find("filter")==0||call.find("reduce")==0;
   if(callback && exp=='O' && call.find("size")!=str::npos) exp='Q';
   str nm=s.name;      // a handler that takes another number of arguments fails later, whenever it is called
   if(exp!='E' && (nm=="st.onconflict"||nm=="st.onconflictlost"||nm=="neighbors.listen")) for(auto v:{"size)","isnil)","type)","size,","isnil,","type,"}) if(call.find(v)!=str::npos) exp='W';
   return {g.chance(0.5)?"r = "+call:call,exp};
}
bool numeric(char k) { return k=='i'||k=='j'||k=='f'; }
Stm basic(Rng& g) {
   static const char ks[]="nifstTcvwgbu"; auto K=[&]{ return ks[g.below(12)]; };
   auto two=[&](char a, char b){ return "ua = "+value(g,a)+" ub = "+value(g,b)+" "; };
   auto one=[&](char a){ return "ua = "+value(g,a)+" "; };
   switch(g.below(21)) {
      case 20: {      // a function that came in a message but does not exist here
         static const char* v[]={"r = fgv(1)","fgv()","foreach(one, fgv)","r = map(one, fgv)","r = reduce(one, fgv, 0)","sw.join() sw.exec(fgv)","tz = {} tz.m = fgv r = tz.m(1)","fh2 = fgv fh2(1, 2, 3, 4)"};
         return {v[g.below(8)],'E'}; }
      case 18: { char a=K(); return {one(a)+"sw.join() sw.exec(function() { "+(g.chance(0.5)?"sw.exec(function() { r = swarm.id(ua) })":"r = swarm.id(ua)")+" })",a=='i'?'O':'E'}; }
      case 19: { char a=K(); return {one(a)+"sw.join() sw.exec(ua)",a=='c'||a=='v'?'Q':'E'}; }
      case 17: {           // a script may overwrite what the library put there; anything may fail then, but only that robot
         static const char* v[]={"neighbors","io","swarm","stigmergy","math","string","st","sw","sc","neighbors.poses","neighbors.data","io.errno","st.id","sw.id","math.rng","sc.put","neighbors.listen","simev","step","id","hear","fl.name","fh.name","tv","one","size"};
         return {str(v[g.below(26)])+" = "+value(g,K()),'W'}; }
      case 0: case 1: { static const char* op[]={"+","-","*"}; char a=K(), b=K(); return {two(a,b)+"r = ua "+op[g.below(3)]+" ub",numeric(a)&&numeric(b)?'O':'E'}; }
      case 2: { static const char* op[]={"/","%"}; if(g.chance(0.15)) return {str("ua = ")+(g.chance(0.6)?"MINI":value(g,'i'))+" ub = "+(g.chance(0.6)?"-1":value(g,'i'))+" r = ua "+op[g.below(2)]+" ub",'Q'}; char a=K(), b=K(); bool ok=numeric(a)&&numeric(b); return {two(a,b)+"r = ua "+op[g.below(2)]+" ub",ok?'Q':'E'}; }
      case 3: { char b=K(); return {one(b)+"r = -ua",numeric(b)?'O':'E'}; }
      case 4: { static const char* op[]={"<",">","<=",">=","==","!="}; return {two(K(),K())+"r = (ua "+op[g.below(6)]+" ub)",'Q'}; }
      case 5: { char a=K(); bool t=a=='t'||a=='T'||a=='w'||a=='g'||a=='b'; return {one(a)+"r = ua."+(g.chance(0.5)?"q":"id"),t?'O':'E'}; }
      case 6: { char a=K(); bool t=a=='t'||a=='T'; if(a=='w'||a=='g'||a=='b') a='T',t=true; return {two(a,K())+"ua.q = ub",t?'O':'E'}; }
      case 7: { char a=K(); bool f=a=='c'; return {one(a)+"r = ua("+value(g,'j')+")",f||a=='v'?'Q':'E'}; }
      case 8: return {"r = nosuch"+std::to_string(g.below(3))+"("+value(g,K())+")",'E'};
      case 9: return {"r = tv.nosuch("+value(g,K())+")",'E'};
      case 10: { char a=K(); bool ok=numeric(a)||a=='s'; return {"tw["+value(g,a)+"] = "+value(g,K()),ok?'O':'E'}; }
      case 11: { char a=K(); bool ok=numeric(a)||a=='s'; return {"r = tv["+value(g,a)+"]",ok?'O':'E'}; }
      case 12: return {one(K())+"if(ua) { r = 1 } else { r = 2 }",'Q'};
      case 13: return {one(K())+"r = (not ua)",'Q'};
      case 14: return {two(K(),K())+"r = (ua"+(g.chance(0.5)?" and ":" or ")+"ub)",'Q'};
      case 15: { char a=K(); return {two(a,'j')+"r = ua ^ ub",numeric(a)?'O':'E'}; }
      default: { static const char* v[]={"r = unknownvar","tv.a.b = 1","r = tv.a.b","tz = {.id = 77} r = tz.in()","tz = swarm.create(5) tz.nosuch()","r = 7 / 0","r = 7 % 0","r = 7.0 / 0.0","fake = {.id = 99, .in = sw.in} r = fake.in()","fake = {.id = \"x\", .put = st.put} fake.put(1, 2)","fake = {.put = st.put} fake.put(1, 2)","fake = {.id = 55, .get = st.get} r = fake.get(1)","pp = st.put pp(1, 2)","jn = sw.join jn()","r = rec(30)","st.put(\"k\", fv)","neighbors.broadcast(\"k\", fv)","neighbors.broadcast(\"k\", size)","st.put(\"k\", size)","st.put(\"k\", neighbors)","sc.foreach(function(x, y, z) { sc = stigmergy.create(2) })","fake = {.handle = 3} io.fwrite(fake, 1)","r = io.fopen(\"/none\", \"r\")","fx = io.fopen(\"/tmp1\", \"w\") io.fclose(fx) io.fwrite(fx, 1)","fx = io.fopen(\"/tmp1\", \"w\") io.fclose(fx) io.fclose(fx)","fx = io.fopen(\"/tmp1\", \"w\") io.fclose(fx) r = io.fsize(fx)","r = swarm.union(1, {.id = 77}, sw)","r = swarm.intersection(1, sw, {.id = 77})","r = swarm.difference(1, {.id = 77}, sw)","fake = {.id = 99, .others = sw.others} r = fake.others(5)"};
         static const char e[]="OEQQEEEOEEEQQQOQQQQQQEOEEEEEEE"; int i=g.below(30); return {v[i],e[i]}; }
   }
}
const char* CTX[]={"plain","nested","foreach","map","filter","reduce","exec","stforeach","nbforeach","nbmap","nbreduce","listener","conflict","lost","method","loop","fforeach","deep","lambda","execlistener","select","boot","init"};
const int NCTX=23;
const char* PRE12=R"BZZ(
r = nil vv = nil
tick = 0
tv = {.a = 1, .z = "s", .5 = {.x = 1}}
tw = {}
fv = function(x, y) { return y }
INF = 1.0 / 0.0
MINI = -2147483647 - 1
fgv = nil
BIGF = 1.0
while(BIGF < 1000000000000000000.0) { var h = BIGF BIGF = h * 1000.0 }
BIGF = BIGF * BIGF * 10.0
hbad = nil
if(BIGF > 1.0) { var h1 = 3 var h2 = h1 + 1 if(h2 > 1) { var h3 = h2 + h1 hbad = h3 } hbad = hbad + h2 * 100 }
NANV = 0.0 / 0.0
LS = "0123456789"
function grow(n) { while(n > 0) { LS = string.concat(LS, "0123456789") n = n - 1 } }
grow(40)
st = stigmergy.create(1)
sc = stigmergy.create(2)
sw = swarm.create(1)
sx = swarm.create(2)
sw.join()
fh = io.fopen("/data", "w+")
io.fwrite(fh, "line one")
fl = io.fopen("/lines", "r")
ud = fl.handle
function rec(n) { if(n == 0) { return 0 } return rec(n - 1) + 1 }
function n3(k) { do(k) return 1 }
function n2(k) { return n3(k) + 1 }
function n1(k) { return n2(k) + 1 }
o = {.m = function(k) { do(k) return 2 }}
one = {.1 = 5}
pl = nil pc = nil px = nil pel = nil
function run(c, k) {
  if(c == 0) { do(k) }
  if(c == 1) { r = n1(k) }
  if(c == 2) { foreach(one, function(x, y) { do(k) }) }
  if(c == 3) { map(one, function(x, y) { do(k) return y }) }
  if(c == 4) { filter(one, function(x, y) { do(k) return 1 }) }
  if(c == 5) { reduce(one, function(x, y, z) { do(k) return z }, 0) }
  if(c == 6) { sw.join() sw.exec(function() { do(k) }) }
  if(c == 7) { sc.put("one", 1) sc.put("c", nil) sc.foreach(function(x, y, z) { if(x == "one") { do(k) } }) }
  if(c == 8) { neighbors.foreach(function(x, y) { do(k) }) }
  if(c == 9) { neighbors.map(function(x, y) { do(k) return y }) }
  if(c == 10) { neighbors.reduce(function(x, y, z) { do(k) return z }, 0) }
  if(c == 11) { pl = k }
  if(c == 12) { pc = k }
  if(c == 13) { px = k }
  if(c == 14) { o.m(k) }
  if(c == 15) { var i = 0 while(i < 3) { i = i + 1 if(i == 2) { do(k) } } }
  if(c == 16) { var fo = io.fopen("/lines", "r") io.fforeach(fo, function(x) { do(k) }) io.fclose(fo) }
  if(c == 17) { sw.join() map(one, function(x, y) { sw.exec(function() { foreach(one, function(xx, yy) { r = n1(k) }) }) return y }) }
  if(c == 18) { var f = function(q) { do(q) return 3 } r = f(k) }
  if(c == 19) { pel = k }
  if(c == 20) { sx.select(1) sx.exec(function() { r = n1(k) }) }
}
function hostcall(c, k, x) { simev("HC", x) run(c, k) return x + 1 }
function hear(v, x, rid) {
  var k = pl pl = nil
  if(k != nil) { do(k) }
  k = pel pel = nil
  if(k != nil) { sw.join() sw.exec(function() { do(k) }) }
  simev("H", x)
}
function setup() {
  simev("TOP", hbad)
  neighbors.listen("hb", hear)
  neighbors.listen("fg", function(v, x, rid) { fgv = x })
  sc.onconflict(function(k, l, m) { var q = pc pc = nil if(q != nil) { do(q) } if(l.robot > m.robot) { return l } return m })
  sc.onconflictlost(function(k, l) { var q = px px = nil if(q != nil) { do(q) } })
}
function step() {
  simev("S", tick)
  var c = simop()
  while(c != 0) { run(simarg(1), simarg(2)) c = simop() }
  neighbors.listen("hb", hear)
  sc.put("c", id * 1000 + tick)
  neighbors.broadcast("hb", tick)
  tick = tick + 1
  simev("T", tick)
}
function reset() { }
function destroy() { }
)BZZ";
str source(const Plan& p) {
   str r="#P12\n", d="function do(k) {\n", top, ini; 
   for(auto& l:p.act) if(l[0]=="s") {
      str s; for(size_t i=3;i<l.n();++i) s+=l.w[i]+" ";
      r+=fmt("function q%ld() { simev(\"A\", %ld) ",l.num(1),l.num(1))+s+fmt(" simev(\"Z\", %ld) }\n",l.num(1));
      d+=fmt("  if(k == %ld) { q%ld() }\n",l.num(1),l.num(1));
   }
   for(auto& l:p.act) if(l[0]=="x") {      // x ROBOT WHERE K: at the top level or in init
      bool have=false; for(auto& m:p.act) if(m[0]=="s" && m.num(1)==l.num(3)) have=true;
      if(have && l.num(2)==2) { for(auto& m:p.act) if(m[0]=="s" && m.num(1)==l.num(3)) { str s; for(size_t i=3;i<m.n();++i) s+=m.w[i]+" "; top+=fmt("  if(id == %ld) { var tl1 = %ld var tl2 = tl1 + 1 simev(\"A\", %ld) ",l.num(1),l.num(3),l.num(3))+s+fmt(" simev(\"Z\", tl1) if(tl2 != %ld) { simev(\"TOP\", tl2) } }\n",l.num(3)+1); break; } }
      else if(have) (l.num(2)==0?top:ini)+=fmt("  if(id == %ld) { do(%ld) }\n",l.num(1),l.num(3));
   }
   return r+d+"}\n"+PRE12+top+"function init() {\n  setup()\n"+ini+"}\n";
}
Plan gen12(uint64_t seed) {
   Rng g(seed*31+12); Plan p; p.seed=seed;
   int n=g.range(1,4); long T=g.range(4,12); gen_setup(p,g,n,T);
   if(g.chance(0.3)) p.setc("perpacket",1);
   if(g.chance(0.3)) { p.setc("gc",GC_EVERYK); p.setc("gck",g.range(2,60)); }
   int m=g.range(4,24); double lib=g.range(20,80)/100.0; std::vector<char> ex; double fail=g.range(0,100)/100.0;
   for(int k=0;k<m;++k) {
      Stm s; for(int t=0;t<8;++t) { s=g.chance(lib)?libcall(g):basic(g); if(s.exp=='O' || g.chance(fail)) break; }
      ex.push_back(s.exp); p.add(fmt("s %d %c ",k+1,s.exp)+s.text);
   }
   int q=g.range(3,16);
   for(int i=0;i<q;++i) {
      int r=g.below(n), k=g.range(1,m); int c=g.below(NCTX);
      if(n==1 && (c==8||c==9||c==10||c==11||c==12||c==13||c==19)) c=g.below(8);
      if(c>=21) { auto idl=split(p.getc("ids")); p.add(fmt("x %ld %d %d",(long)(1000000+r),c==21&&g.chance(0.5)?2:c-21,k)); }
      else if(g.chance(0.1)) p.add(fmt("hc %ld %d %d %d %d",(long)g.below((int)T),r,c,k,g.range(1,1000)));
      else p.add(fmt("op %ld %d 1 i%d i%d",(long)g.below((int)T),r,c,k));
   }
   for(int q=g.chance(0.5)?g.range(1,3):0;q>0;--q) p.add(fmt("forge %ld %d %d %d",(long)g.below((int)T),g.below(n),g.below(3),g.below(8)));
   gen_net(p,g,n,0,T,random_net(g,g.chance(0.3)));
   return p;
}
struct Err { long k; int code; str msg, ctx; };
std::vector<Err> g_errs;
// the error of a statement that a lone robot runs in its step; code 0 if it gives none
Err plain_error(const Plan& p, long k) {
   Plan q; q.seed=p.seed; q.setc("robots",1); q.setc("ticks",3); for(auto& l:p.act) if(l[0]=="s") q.act.push_back(l);
   str src=source(q); Err e={k,0,"",""}; const Code& code=compile(src); if(!code.ok) return e;
   Disk disk; disk.files["/lines"]="only line\n"; g_disk=&disk; struct RD { ~RD() { disk_close_all(); g_disk=nullptr; } } rd;
   World w(q); w.program=src.c_str(); w.log_msgs=false; long cur=0;
   w.on_event=[&](int, const std::vector<Val>& a){ if(a.size()>1 && a[0].s=="A") cur=a[1].i; else if(!a.empty() && a[0].s=="Z") cur=0; };
   w.allow_error=[&](int i){ if(cur==k && w.r[i]->vm) { e.code=(int)w.r[i]->vm->error; e.msg=w.r[i]->errmsg(); } return true; };
   w.ops[{1,0}].push_back({Val::I(1),Val::I(0),Val::I((int)k)});
   for(int t=0;t<3 && !violated();++t) w.tick();
   return e;
}
long body12(const Plan& pp) {          // returns the number of blocks left over at the end
   Plan p=pp;
   str src;
   // robots are named by position in the plan
   {
      World t(p);
      for(auto& l:p.act) if(l[0]=="x" && l.num(1)>=1000000) { size_t r=l.num(1)-1000000; l.w[1]=std::to_string(r<t.ids.size()?t.ids[r]:-1); }
   }
   src=source(p); const Code& code=compile(src);
   if(!code.ok) { violation("compile","the program is refused: "+code.err); return 0; }
   std::map<long,char> exp; std::map<long,str> txt; for(auto& l:p.act) if(l[0]=="s") { exp[l.num(1)]=l[2][0]; str s; for(size_t i=3;i<l.n();++i) s+=l.w[i]+" "; txt[l.num(1)]=s; }
   Disk disk; disk.files["/lines"]="only line\n"; g_disk=&disk; struct RD { ~RD() { disk_close_all(); g_disk=nullptr; } } rd;
   mem_account(true); struct MA { ~MA() { mem_account(false); } } ma;
   long done=0, failed=0, refused=0;
   {
      World w(p); w.program=src.c_str(); w.log_msgs=false;
      std::vector<long> cur(w.n,0), stk(w.n,-1); std::vector<bool> err(w.n,false), T(w.n,false), taint(w.n,false); std::vector<str> msg(w.n); std::vector<bool> probing(w.n,false); std::vector<long> hc(w.n,-1);
      w.on_event=[&](int i, const std::vector<Val>& a){
         if(a.empty()) return;
         if(err[i]) { violation("zombie",fmt("step %ld: robot %d goes on executing (event %s) after its error \"%s\"",w.t,w.ids[i],a[0].s.c_str(),msg[i].c_str())); return; }
         if(a[0].s=="HC") hc[i]=a.size()>1?a[1].i:-2;
         if(a[0].s=="TOP" && !taint[i] && (a.size()<2 || a[1]!=Val::I(407))) violation("toplevel",fmt("robot %d: local variables of blocks outside of functions give %s instead of 407",w.ids[i],a.size()>1?a[1].repr().c_str():"nothing"));
         if(a[0].s=="A") { if(cur[i]) probe("nested"); cur[i]=a[1].i; if(exp[cur[i]]=='W') { taint[i]=true; probe("library-overwritten"); } }
         else if(a[0].s=="Z") {
            if(exp[a[1].i]=='E' && !taint[i]) violation("missed",fmt("step %ld: robot %d: no error in: ",w.t,w.ids[i])+txt[a[1].i]);
            cur[i]=0; ++done;
         }
         else if(cur[i] && !taint[i]) violation("vanished",fmt("step %ld: robot %d: a statement was left without error or completion: ",w.t,w.ids[i])+txt[cur[i]]);
         if(a[0].s=="T") T[i]=true; else if(a[0].s=="S") T[i]=false;
      };
      auto errored=[&](int i){
         Robot& R=*w.r[i];
         if(!err[i]) {
            err[i]=true; msg[i]=R.errmsg(); ++failed;
            evf("%ld %d error %s",w.t,w.ids[i],msg[i].c_str());
            if(R.vm->state!=BUZZVM_STATE_ERROR) violation("state",fmt("step %ld: robot %d stopped in state %d",w.t,w.ids[i],(int)R.vm->state));
            else if(msg[i].empty()) violation("message",fmt("step %ld: robot %d stopped without an error message in: ",w.t,w.ids[i])+txt[cur[i]]);
            else if(R.vm->error==BUZZVM_ERROR_NONE) violation("message",fmt("step %ld: robot %d stopped without an error code in: ",w.t,w.ids[i])+txt[cur[i]]);
            else if(taint[i]) probe("error-after-overwriting");
            else if(!cur[i]) violation("spurious",fmt("step %ld: robot %d stopped outside of the failing statements: ",w.t,w.ids[i])+msg[i]);
            else if(exp[cur[i]]=='O') violation("spurious",fmt("step %ld: robot %d stopped (%s) in the correct statement: ",w.t,w.ids[i],msg[i].c_str())+txt[cur[i]]);
            if(cur[i]) probe(exp[cur[i]]=='E'?"expected-error":"possible-error");
            if(cur[i] && exp[cur[i]]=='E' && !taint[i] && txt[cur[i]].find("fgv")==str::npos) g_errs.push_back({cur[i],(int)R.vm->error,msg[i],""});
         }
         // everything that is asked of it now is refused
         buzzneighbors_reset(R.vm); buzzneighbors_add(R.vm,9,1,2,3);
         Bytes hb={BUZZMSG_BROADCAST,3,0,2,'h','b',1,0,0,0,1}; R.deliver(9,hb);
         bb_budget(600ull*1000*1000);
         buzzvm_process_inmsgs(R.vm);
         if(buzzvm_function_call(R.vm,"step",0)!=BUZZVM_STATE_ERROR) violation("accepted",fmt("step %ld: robot %d accepts a function call after its error",w.t,w.ids[i]));
         if(buzzvm_execute_script(R.vm)!=BUZZVM_STATE_ERROR) violation("accepted",fmt("step %ld: robot %d accepts executing its script after its error",w.t,w.ids[i]));
         buzzvm_process_outmsgs(R.vm); ++refused;
         if(R.vm->state!=BUZZVM_STATE_ERROR || R.errmsg()!=msg[i]) violation("message",fmt("step %ld: the error of robot %d changes from \"%s\" to \"%s\"",w.t,w.ids[i],msg[i].c_str(),R.errmsg().c_str()));
         return true;
      };
      w.allow_error=errored;
      // forge STEP ROBOT NATIVE WHERE: a broadcast whose value is a function outside of the script, or beyond those of the robot
      w.before_in=[&](int i){ for(auto& l:p.act) if(l[0]=="forge" && l.num(1)==w.t && l.num(2)==i && w.r[i]->ready()) {
         bool nat=l.num(3)>0; uint32_t lim=nat?w.r[i]->vm->bcode_size:buzzdarray_size(w.r[i]->vm->flist); static const uint32_t add[]={0,1,2,100}; int q=(int)l.num(4)%8;
         uint32_t ref=q<4?lim+add[q]:q==4?2*lim:q==5?0x7FFFFFFFu:q==6?0x80000000u:0xFFFFFFFFu;
         Bytes b={BUZZMSG_BROADCAST,BUZZTYPE_STRING,0,2,'f','g',BUZZTYPE_CLOSURE,(uint8_t)l.num(3),(uint8_t)(ref>>24),(uint8_t)(ref>>16),(uint8_t)(ref>>8),(uint8_t)ref};
         w.r[i]->deliver(9,b); fault("forged-function"); } };
      w.on_down=[&](int i){ err[i]=false; taint[i]=false; cur[i]=0; msg[i]=""; stk[i]=-1; };
      w.after_step=[&](int i){
         if(!w.r[i]->ready()) return;
         if(cur[i] && taint[i]) cur[i]=0;
         if(cur[i]) violation("vanished",fmt("step %ld: robot %d: a statement was left without error or completion: ",w.t,w.ids[i])+txt[cur[i]]);
         else if(!T[i] && !taint[i]) violation("incomplete",fmt("step %ld: robot %d is not in the error state but its step did not finish",w.t,w.ids[i]));
      };
      w.after_tick=[&](int i){
         for(auto& l:p.act) if(l[0]=="hc" && l.num(1)==w.t && l.num(2)==i && w.r[i]->ready()) {      // hc STEP ROBOT CONTEXT STATEMENT X: the robot's controller calls a function of the script
            hc[i]=-1; bool ok=w.r[i]->callv("hostcall",{(int)l.num(3),(int)l.num(4),(int)l.num(5)});
            if(!ok) { errored(i); return; }
            if(!taint[i] && hc[i]!=l.num(5)) violation("hostcall",fmt("step %ld: robot %d: the function called with %ld as its last argument saw %ld",w.t,w.ids[i],l.num(5),hc[i]));
            buzzobj_t o=buzzvm_stack_at(w.r[i]->vm,1); if(!taint[i] && (o->o.type!=BUZZTYPE_INT || o->i.value!=l.num(5)+1)) violation("hostcall",fmt("step %ld: robot %d: a function called by the controller returns the wrong value",w.t,w.ids[i]));
            buzzvm_pop(w.r[i]->vm); probe("called-with-arguments");
            if(cur[i] && taint[i]) cur[i]=0;
            if(cur[i]) violation("vanished",fmt("step %ld: robot %d: a statement was left without error or completion: ",w.t,w.ids[i])+txt[cur[i]]);
         }
         if(!w.r[i]->ready()) return; long d=w.r[i]->stack_size()*1000+w.r[i]->stacks(); if(stk[i]<0) stk[i]=d; else if(stk[i]!=d && !taint[i]) violation("stack",fmt("step %ld: robot %d has %ld values on its stack instead of %ld",w.t,w.ids[i],d/1000,stk[i]/1000)); };
      long TT=p.geti("ticks"); for(long t=0;t<TT && !violated();++t) w.tick();
   }
   if(violated()) return 0;
   long left=g_mem_blocks;
   if(failed) fault("script-error",failed);
   probe("statements-completed",done); if(refused) probe("refused-after-error",refused);
   g_out->nontrivial=done+failed>2;
   return left;
}
void run12(const Plan& p) {
   g_errs.clear(); long left=body12(p); if(violated()) return;
   auto errs=g_errs; std::set<long> seen;
   for(auto& e:errs) if(seen.size()<4 && seen.insert(e.k).second) {
      Err x=plain_error(p,e.k); if(violated()) return; if(!x.code) { probe("plain-run-differs"); continue; }
      probe("error-compared");
      if(x.code!=e.code || x.msg!=e.msg) { str t; for(auto& l:p.act) if(l[0]=="s" && l.num(1)==e.k) for(size_t i=3;i<l.n();++i) t+=l.w[i]+" "; violation("other-error","the error of the same statement is \""+e.msg+"\" here and \""+x.msg+"\" in a robot's step: "+t); return; }
   }
   if(left<=0) return;
   // what is kept for good is kept once: the same mission must not leave blocks behind again
   long l=body12(p); if(violated()) return;
   if(l>0) violation("leak",fmt("%ld blocks of memory remain after all robots were destroyed",l));
}
RegProp r12("P12",gen12,run12,"statements with known outcome (library calls and operators with values of every type, unknown functions and swarms, wrong counts) run in 23 contexts (nested calls, callbacks, swarm executions, listeners, conflict handlers, top level, init, ...) on 1-4 robots with network faults and restarts; non-trivial: more than two statements ran; distinct by hash of the full event trace");
}
