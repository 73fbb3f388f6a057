#include "workload.hpp"
#include "bcast.hpp"
#include "swarms.hpp"

extern std::vector<str>* g_tap;
TraceTap::TraceTap():old(g_tap) { g_tap=&v; }
TraceTap::~TraceTap() { g_tap=old; }
str trace_diff(const std::vector<str>& a, const std::vector<str>& b, const char* na, const char* nb) {
   size_t k=0; while(k<a.size() && k<b.size() && a[k]==b[k]) ++k;
   if(k==a.size() && k==b.size()) return "";
   return fmt("event %zu is [%.300s] %s and [%.300s] %s",k,k<a.size()?a[k].c_str():"-",na,k<b.size()?b[k].c_str():"-",nb);
}
std::vector<int> gen_toks(Rng& g, int ns, int len) {
   // structure-aware so that the arguments are valid swarms
   std::vector<int> v;
   while((int)v.size()<len) {
      int t = g.chance(0.25)?2: g.chance(0.12)?5: g.chance(0.25)?1: g.chance(0.15)?0: g.range(1,15);
      if(t==0) { v.push_back(0); continue; }
      v.push_back(t);
      if(t==2||t==5||t==8||t==9||t==10||t==11||t==13||t==14) v.push_back(g.range(1,ns));
      else if(t==3) v.push_back(g.below(4));
      else if(t==6) v.push_back(g.chance(0.7)?g.range(0,5):g.range(-2,70000));
   }
   return v;
}
void mix_boot(World& w) {
   w.on_boot=[&w](int i){ for(int s=1;s<=2;++s) w.enqueue(i,{Val::I(1),Val::I(s)}); for(int s=0;s<=15;++s) w.enqueue(i,{Val::I(20),Val::I(s)}); };
}
void mix_hooks(World& w) {
   w.on_op=[&w](int i, std::vector<Val>& o){ if(o[0].i==50) { w.r[i]->toks.clear(); w.r[i]->tokpos=0; for(size_t k=1;k<o.size();++k) w.r[i]->toks.push_back(o[k].i); o.resize(1); } };
}
void gen_mix(Plan& p, Rng& g, int n, long T, bool heavy) {
   std::vector<int> S={1,2,3,4}; int tag=1, K0=g.below(8), nk=g.range(1,4);
   auto key=[&]{ return gen_key(g,K0+g.below(nk)); };
   static const int pols[]={0,0,2,3,4,5,7,8,1};
   auto lst=[&](long t,int r){ str tp=topic(g); int x=pols[g.below(9)]; if(tp=="echo"&&(x==1||x==5)) x=0; p.add(op(t,r,9,{Val::S(tp),Val::I(tag++),Val::I(x)})); };
   double a=g.range(5,60)/100.0, b=g.range(5,60)/100.0, c=g.range(0,50)/100.0, d=g.range(0,50)/100.0, e=g.range(0,40)/100.0, f=heavy?g.range(0,40)/100.0:0;
   for(int r=0;r<n;++r) {
      for(int q=g.below(4);q>0;--q) lst(0,r);
      for(int s=1;s<=2;++s) { if(g.chance(0.5)) p.add(op(1,r,6,{Val::I(s),Val::I(g.below(14)),Val::I(tag++)})); if(g.chance(0.5)) p.add(op(1,r,7,{Val::I(s),Val::I(g.below(7)),Val::I(tag++)})); }
      for(int s=1;s<=6;++s) if(g.chance(0.6)) p.add(op(0,r,21,{Val::I(s)}));
   }
   for(long t=1;t<T;++t) for(int r=0;r<n;++r) {
      if(g.chance(a)) { Val s=Val::I(g.range(1,2)); switch(g.below(6)) { case 0: case 1: p.add(op(t,r,2,{s,key(),g.chance(0.15)?Val():gen_val(g)})); break; case 2: case 3: p.add(op(t,r,3,{s,key()})); break; case 4: p.add(op(t,r,4,{s})); break; default: p.add(op(t,r,5,{s})); } }
      if(g.chance(b)) p.add(op(t,r,8,{Val::S(topic(g)),bval(g)}));
      if(g.chance(b*0.3)) { int k=g.below(3); if(k==0) p.add(op(t,r,15,{Val::S(topic(g))})); else p.add(op(t,r,k==1?14:16,{Val::S(topic(g)),Val::I(g.range(1,4))})); }
      if(g.chance(0.08)) lst(t,r);
      if(g.chance(0.04)) p.add(op(t,r,10,{Val::S(topic(g))}));
      if(g.chance(c)) { if(g.chance(0.6)) gen_swop(p,g,t,r,S); else p.add(op(t,r,g.chance(0.6)?29:28,{Val::I(g.pick(S))})); }
      if(g.chance(d)) {
         Val x=Val::I(g.below(4)), y=Val::I(g.below(4));
         switch(g.below(10)) {
            case 0: p.add(op(t,r,30)); break; case 1: p.add(op(t,r,31)); break; case 2: p.add(op(t,r,33)); break;
            case 3: p.add(op(t,r,34,{x})); break; case 4: p.add(op(t,r,35,{x,Val::F((float)g.range(0,100))})); break;
            case 5: p.add(op(t,r,36,{x})); break; case 6: p.add(op(t,r,g.chance(0.5)?37:38,{x})); break;
            case 7: p.add(op(t,r,43,{x,y})); break; case 8: p.add(op(t,r,46)); break; case 9: p.add(op(t,r,47,{x,Val::I(g.below(2))})); break;
         }
      }
      if(g.chance(e)) p.add(op(t,r,40,{Val::I(g.range(1,20))}));
      if(g.chance(f)) { std::vector<Val> v; for(int x:gen_toks(g,6,g.range(1,25))) v.push_back(Val::I(x)); p.add(op(t,r,50,v)); }
   }
}

// ------------------------------------------------------------ scripts
static const char* PRELUDE = R"BZZ(
FUEL = 0
ga = 1
gs = "g"
gt = {.p = 1, .q = "two"}
gf = nil
gl = {}
function call() { FUEL = FUEL - 1 return FUEL > 0 }
function N(x) { if(isint(x)) { return x % 1000 } return 3 }
function Z(x) { if(isstring(x)) { if(string.length(x) > 24) { return string.sub(x, 0, 12) } return x } return "z" }
function T(x) { if(istable(x)) { return x } return {.none = 0} }
function junk(n) { var i = 0 var j = nil while(i < n) { j = {.u = string.concat("j", string.tostring(i)), .w = {.x = i}} i = i + 1 } return j }
math.rng.setseed(7)
st = stigmergy.create(1)
sw = swarm.create(1)
sx = swarm.create(2)
)BZZ";
namespace {
struct SG {
   Rng& g; int fi; int& u; int lam=0;      // index of the function; depth of nested lambdas
   bool tw=true;                   // local table may be written
   bool par=false;                 // inside a lambda with parameters x, y
   str key() { static const char* k[]={"p","q","r","s","u1"}; return k[g.below(5)]; }
   str lit() { static const char* k[]={"\"\"","\"a\"","\"bc\"","\"longer text\"","\"p\"","\"x0\""}; return k[g.below(6)]; }
   str fcall() { int j=fi+1+g.below(2); if(j>3) j=3; if(fi==3) return "N(a)"; return fmt("N(F(%d, ",j)+I(1)+"))"; }
   str I(int d) {
      if(d<=0) switch(g.below(5)) { case 0: return std::to_string(g.range(0,9)); case 1: return "a"; case 2: return "ga"; case 3: return par?"N(x)":"n"; default: return std::to_string(g.range(0,300)); }
      switch(g.below(12)) {
         case 0: return "("+I(d-1)+" + "+I(d-1)+")";
         case 1: return "("+I(d-1)+" - "+I(d-1)+")";
         case 2: return "N("+I(d-1)+" * "+I(d-1)+")";
         case 3: return "("+I(d-1)+" % "+std::to_string(g.range(2,17))+")";
         case 4: return "size("+TB(d-1)+")";
         case 5: return "string.length("+S(d-1)+")";
         case 6: return "N(t."+key()+")";
         case 7: return "N(gt["+(g.chance(0.5)?I(d-1):S(0))+"])";
         case 8: return lam?"N(a)":fcall();
         case 9: return "N(reduce("+TB(d-1)+", function(x, y, z) { return N(z) + N(y) }, "+I(0)+"))";
         case 10: return "N(st.get("+S(0)+"))";
         default: return I(0);
      }
   }
   str S(int d) {
      if(d<=0) switch(g.below(4)) { case 0: return "s"; case 1: return "gs"; default: return lit(); }
      switch(g.below(6)) {
         case 0: case 1: return "Z(string.concat("+S(d-1)+", "+S(d-1)+"))";
         case 2: return "string.tostring("+I(d-1)+")";
         case 3: return "Z(t."+key()+")";
         case 4: return par?"Z(y)":"Z(gt."+key()+")";
         default: return S(0);
      }
   }
   str TB(int d) {
      if(d<=0) return g.chance(0.6)?"t":"T(nil)";
      switch(g.below(6)) {
         case 0: return "{."+key()+" = "+V(d-1)+", .r = "+I(0)+"}";
         case 1: return "clone(t)";
         case 2: return "map(clone(gt), function(x, y) { "+cb()+" return y })";
         case 3: return "filter(t, function(x, y) { "+cb()+" return "+B(0)+" })";
         case 4: return "map(t, function(x, y) { "+cb()+" return "+I(0)+" })";
         default: return TB(0);
      }
   }
   str V(int d) {
      switch(g.below(5)) { case 0: case 1: return I(d); case 2: return S(d); case 3: return d>0?"{.v = "+V(d-1)+", ."+key()+" = "+I(0)+"}":I(0); default: return "0.5"; }
   }
   str B(int d) {
      switch(g.below(5)) { case 0: return I(d)+" < "+I(d); case 1: return I(d)+" == "+I(d); case 2: return S(0)+" == "+S(0); case 3: return "("+I(0)+" > 2) and ("+I(0)+" < 200)"; default: return "not ("+I(0)+" > 5)"; }
   }
   str cb() {                      // a short body for callbacks
      switch(g.below(6)) { case 0: return "x = nil y = nil junk(3)"; case 1: return "ga = N(ga + 1)"; case 2: return "simev(\"cb\", x, y)"; case 3: { str w=fmt("w%d",++u); return "var "+w+" = {.x = x} junk(2) "+w+" = nil"; } default: return ""; }
   }
   str lambda(int d) {
      bool op=par, ot=tw; par=true; tw=false; ++lam;
      str b="function(x, y) { "; int k=g.range(1,2); for(int i=0;i<k;++i) b+=st(d-1)+" ";
      b+=(g.chance(0.7)?"return "+(g.chance(0.5)?I(1):S(1)):str(""))+" }";
      par=op; tw=ot; --lam; return b;
   }
   str st(int d) {
      if(d<=0) switch(g.below(6)) { case 0: return "a = "+I(1); case 1: return "s = "+S(1); case 2: return "simev(\"o\", a, s)"; case 3: return "ga = N("+I(1)+")"; case 4: return "gs = Z("+S(1)+")"; default: return "junk("+std::to_string(g.range(1,5))+")"; }
      switch(g.below(28)) {
         case 0: return "a = N("+I(2)+")";
         case 1: return "s = "+S(2);
         case 2: return tw?"t = T("+TB(2)+")":st(0);
         case 3: return tw?"t."+key()+" = "+V(2):st(0);
         case 4: return tw?"t["+I(1)+"] = "+V(1):st(0);
         case 5: return "gt."+key()+" = "+V(1);
         case 6: return "simev(\"t\", t, a)";
         case 7: return "simev(\"g\", ga, gs, gt)";
         case 8: return "if("+B(1)+") { "+st(d-1)+" } else { "+st(d-1)+" }";
         case 9: { str v=fmt("i%d",++u); return "var "+v+" = 0 while("+v+" < "+std::to_string(g.range(1,4))+") { "+v+" = "+v+" + 1 "+st(d-1)+" }"; }
         case 10: return "foreach(clone(t), function(x, y) { "+cb()+" simev(\"fe\", x, y) })";
         case 11: return "f = "+lambda(d);
         case 12: return "if(isclosure(f)) { if(call()) { simev(\"f\", f("+I(1)+", "+S(1)+")) } }";
         case 13: return "gf = "+lambda(d);
         case 14: return "if(isclosure(gf)) { if(call()) { simev(\"gf\", gf("+I(1)+", "+S(1)+")) } }";
         case 15: return lam?st(0):"a = "+fcall();
         case 16: return "st.put("+S(1)+", "+V(1)+")";
         case 17: return "st.foreach(function(x, y, z) { "+cb()+" simev(\"st\", x, y, z) })";
         case 18: return "simev(\"sg\", st.get("+S(1)+"), st.size())";
         case 19: return "neighbors.broadcast("+S(1)+", "+V(1)+")";
         case 20: return "neighbors.foreach(function(x, y) { "+cb()+" if(istable(y)) { simev(\"nb\", x, y.distance) } })";
         case 21: return lam?st(0):fmt("sw.exec(function() { simev(\"sw\", swarm.id()) ")+st(d-1)+" })";
         case 22: return g.chance(0.5)?"sw.join()":"sw.leave()";
         case 23: return "simev(\"nm\", neighbors.map(function(x, y) { "+cb()+" return "+I(0)+" }).count())";
         case 24: return "gl["+I(0)+"] = "+(g.chance(0.5)?lambda(d):V(1));
         case 25: return "simev(\"rng\", math.rng.uniform(1, 50), math.rng.gaussian(1.0, 0.0))";
         case 26: return g.chance(0.3)?"math.rng.setseed("+I(0)+")":"a = N(math.rng.uniform(100))";
         default: return "simev(\"e\", "+I(2)+", "+S(2)+")";
      }
   }
   str body() { str r; int k=g.range(1,4); for(int i=0;i<k;++i) r+=st(2)+" "; return r; }
};
}
void gen_script(Plan& p, Rng& g) {
   int u=0;
   static const char* fn[]={"f0","f1","f2","f3","step","init","listen","conf","lost"};
   for(int k=0;k<9;++k) {
      SG sg{g,k<4?k:(k==4?-1:3),u}; if(k>=6) { sg.par=true; sg.tw=false; sg.lam=1; }
      for(int i=g.range(1,k==4?8:k<4?5:2);i>0;--i) p.add(str("f ")+fn[k]+" "+sg.st(3));
   }
}
str script_of(const Plan& p) {
   std::map<str,str> b;
   for(auto& l : p.act) if(l[0]=="f") { str s; for(size_t i=2;i<l.n();++i) s+=l.w[i]+" "; b[l[1]]+="  "+s+"\n"; }
   str r=PRELUDE; const str loc="  var a = N(n) var s = \"l\" var t = {.p = n, .s = \"w\"} var f = nil\n";
   for(int k=3;k>=0;--k) r+=fmt("function f%d(n) {\n",k)+loc+b[fmt("f%d",k)]+"  return a\n}\n";
   r+="function F(k, n) { if(call()) { if(k == 0) { return f0(n) } if(k == 1) { return f1(n) } if(k == 2) { return f2(n) } return f3(n) } return 0 }\n";
   r+="function onmsg(z, y, x) {\n  var n = 2\n"+loc+"  simev(\"B\", z, y, x)\n"+b["listen"]+"}\n";
   r+="function onconf(k, l, r) {\n  var n = 1 var x = k var y = l.data\n"+loc+"  simev(\"C\", k, l.data, r.data)\n"+b["conf"]+"  if(l.robot > r.robot) { return l }\n  return r\n}\n";
   r+="function onlost(k, l) {\n  var n = 1 var x = k var y = l.data\n"+loc+"  simev(\"L\", k, l.data)\n"+b["lost"]+"}\n";
   r+="function init() {\n  var n = 1\n"+loc+"  FUEL = 20\n  neighbors.listen(\"a\", onmsg)\n  neighbors.listen(\"bc\", onmsg)\n  neighbors.listen(\"\", function(z, y, x) { simev(\"B2\", z, y, x) z = nil y = nil junk(4) })\n"
      "  st.onconflict(onconf)\n"
      "  st.onconflictlost(onlost)\n"+b["init"]+"}\n";
   r+="function step() {\n  FUEL = 30\n  var n = ga\n"+loc+b["step"]+"}\nfunction reset() { }\nfunction destroy() { }\n";
   return r;
}
