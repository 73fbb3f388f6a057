// P16: random numbers are reproducible from their seed and lie in the requested range
#include "workload.hpp"
#include "fiber.hpp"
#include <cmath>
namespace {
const char* PROG = R"BZZ(#keep
OPS = {}
st = nil
sw = nil
SEEDED = 0
function draw(k, a, b) {
  var r = nil
  if(k == 0) { r = math.rng.uniform() }
  if(k == 1) { r = math.rng.uniform(a) }
  if(k == 2) { r = math.rng.uniform(a, b) }
  if(k == 3) { r = math.rng.gaussian() }
  if(k == 4) { r = math.rng.gaussian(a) }
  if(k == 5) { r = math.rng.gaussian(a, b) }
  if(k == 6) { r = math.rng.exponential(a) }
  simev("d", k, a, b, r)
}
function seed(s) { math.rng.setseed(s) simev("s", s) }
function times(n, k, a, b) { var i = 0 while(i < n) { draw(k, a, b) i = i + 1 } }
OPS[1] = function() { seed(simarg(1)) }
OPS[2] = function() { times(simarg(1), simarg(2), simarg(3), simarg(4)) }
OPS[3] = function() { foreach({.a = 1, .b = 2, .c = 3}, function(x, y) { draw(simarg(2), simarg(3), simarg(4)) }) }
OPS[4] = function() { neighbors.broadcast("d", simarg(1)) }
OPS[5] = function() { neighbors.broadcast("s", simarg(1)) }
OPS[6] = function() { st.put(simarg(1), simarg(2)) simev("G", st.get(simarg(1))) }
OPS[7] = function() { var i = 0 while(i < simarg(1)) { var t = {} t.x = string.concat("c", string.tostring(i)) t[i] = {.a = math.sin(i), .b = math.floor(i * 0.7)} i = i + 1 } }
OPS[8] = function() { sw.exec(function() { draw(simarg(2), simarg(3), simarg(4)) }) }
OPS[9] = function() { if(simarg(1) % 2 == 0) { sw.join() } else { sw.leave() } }
OPS[10] = function() { neighbors.foreach(function(x, y) { draw(0, nil, nil) }) }
OPS[11] = function() { st.foreach(function(x, y, z) { draw(3, nil, nil) }) }
function init() {
  st = stigmergy.create(1) sw = swarm.create(1)
  neighbors.listen("d", function(vid, v, rid) { draw(v, 17, 40) })
  neighbors.listen("s", function(vid, v, rid) { seed(v) })
  st.onconflict(function(k, l, r) { draw(0, nil, nil) if(l.robot > r.robot) { return l } return r })
  step()
}
function step() { var o = simop() while(o > 0) { OPS[o]() o = simop() } }
)BZZ";
int seedval(Rng& g) {
   switch(g.below(8)) { case 0: return g.range(0,3); case 1: return 1<<g.below(31); case 2: return -1-g.below(3); case 3: return INT32_MIN; case 4: return INT32_MAX; case 5: return g.range(1,100)*65536; case 6: return (int)g.next(); default: return g.range(0,1000); }
}
Val num(Rng& g, bool flt) {
   if(!flt) switch(g.below(9)) { case 0: return Val::I(0); case 1: return Val::I(1); case 2: return Val::I(-1-g.below(20)); case 3: return Val::I(INT32_MAX); case 4: return Val::I(INT32_MIN); case 5: return Val::I((int)g.next()); default: return Val::I(g.range(0,500)); }
   switch(g.below(6)) { case 0: return Val::F(0); case 1: return Val::F(1); case 2: return Val::F((float)-g.range(1,1000)/8); case 3: return Val::F((float)g.range(1,1000)*1e6f); case 4: return Val::F((float)g.range(1,1000)*1e-6f); default: return Val::F((float)g.range(0,1000)/16); }
}
void drawargs(Rng& g, std::vector<Val>& a) {
   int k=g.below(7); Val x,y;
   if(k==1) x=num(g,g.chance(0.4));
   if(k==2) { x=num(g,g.chance(0.4)); y=num(g,g.chance(0.4)); if(g.chance(0.8)) { float fx=x.k==Val::INT?x.i:x.f, fy=y.k==Val::INT?y.i:y.f; if(fx>fy) std::swap(x,y); } }
   if(k==4||k==5) { x=g.chance(0.5)?Val::F((float)g.range(0,64)/4):Val::I(g.range(0,50)); } if(k==5) y=num(g,g.chance(0.5));
   if(k==6) x=g.chance(0.5)?Val::F((float)g.range(1,64)/4):Val::I(g.range(1,50));
   a.push_back(Val::I(k)); a.push_back(x); a.push_back(y);
}
Plan gen16(uint64_t seed) {
   Rng g(seed*31+16); Plan p; p.seed=seed;
   int n=g.range(1,4); long T=g.range(3,14);
   gen_setup(p,g,n,T);
   if(g.chance(0.3)) p.setc("perpacket",1);
   p.setc("mean",g.chance(0.1)?g.range(5,30):g.range(100,5000));
   if(g.chance(0.3)) p.setc("rare",1<<g.range(1,5));
   if(g.chance(0.3)) { p.setc("gc",GC_EVERYK); p.setc("gck",g.range(2,60)); }
   p.setc("clk0",g.chance(0.3)?0:(long)g.below(2000000000));
   std::vector<int> pool; for(int i=g.range(1,4);i>0;--i) pool.push_back(seedval(g));
   if(g.chance(0.5)) pool.push_back(pool[0]^(int)(1u<<g.below(32)));
   double noise=g.range(0,60)/100.0, dr=g.range(30,100)/100.0, sd=g.range(5,40)/100.0; bool longrun=g.chance(0.12);
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      if((t<=1 && g.chance(0.7)) || g.chance(sd)) p.add(op(t,r,1,{Val::I(g.pick(pool))}));
      if(g.chance(dr)) for(int q=g.range(1,4);q>0;--q) { std::vector<Val> a={Val::I(longrun&&g.chance(0.1)?g.range(200,800):g.range(1,8))}; drawargs(g,a); int c=g.below(8); p.add(op(t,r,c==0?3:c==1?8:2,a)); }
      if(g.chance(noise)) switch(g.below(7)) {
         case 0: p.add(op(t,r,4,{Val::I(g.range(0,3)==1?3:0)})); break;
         case 1: p.add(op(t,r,5,{Val::I(g.pick(pool))})); break;
         case 2: p.add(op(t,r,6,{gen_key(g,g.below(3)),gen_val(g)})); break;
         case 3: p.add(op(t,r,7,{Val::I(g.range(1,20))})); break;
         case 4: p.add(op(t,r,9,{Val::I(g.below(4))})); break;
         case 5: p.add(op(t,r,10)); break;
         default: p.add(op(t,r,11)); break;
      }
      if(g.chance(0.15)) p.add(fmt("clk %ld %ld",t,g.chance(0.5)?(long)g.below(2000000000):(long)g.below(5)));
   }
   NetGen k=random_net(g); if(g.chance(0.5)) k.crash=0.1;
   gen_net(p,g,n,0,T,k);
   return p;
}
struct Draw { Val k,a,b,r; };
struct Seg { int seed; std::vector<Draw> v; int robot; long t; };
str range_error(const Draw& d) {
   auto isn=[](const Val& v){ return v.k==Val::INT||v.k==Val::FLT; };
   auto f=[](const Val& v){ return v.k==Val::INT?(double)v.i:(double)v.f; };
   int k=d.k.i; const Val& r=d.r;
   bool wantint=k==0||(k==1&&d.a.k==Val::INT)||(k==2&&d.a.k==Val::INT&&d.b.k==Val::INT);
   if(wantint && r.k!=Val::INT) return "an integer was requested";
   if(!wantint && r.k!=Val::FLT) return "a float was requested";
   if(!isn(r)) return "not a number";
   double x=f(r); if(!std::isfinite(x) || std::isnan(x)) return "not a finite number";
   if(k==1||k==2) {
      double lo=k==1?0:f(d.a), hi=k==1?f(d.a):f(d.b); if(lo>hi) std::swap(lo,hi);
      double tol=wantint?0:1e-6*(std::fabs(lo)+std::fabs(hi));
      if(x<lo-tol || x>hi+tol) return fmt("outside of [%g,%g]",lo,hi);
   }
   if(k==3 && std::fabs(x)>20) return "more than 20 standard deviations off";
   if(k==4 && std::fabs(x)>20*f(d.a)+1e-6) return "more than 20 standard deviations off";
   if(k==5) { double dev=20*f(d.a), m=f(d.b); if(std::fabs(x-m)>dev+1e-6*(std::fabs(m)+dev)+1e-30) return "more than 20 standard deviations off the mean"; }
   if(k==6 && x<-1e-6*f(d.a)) return "negative";
   if(k==6 && x>40*f(d.a)) return "more than 40 times the mean";
   return "";
}
void run16(const Plan& p) {
   std::vector<Seg> segs; std::vector<std::unique_ptr<Seg>> cur; long draws=0;
   std::map<long,long> clk; for(auto& l:p.act) if(l[0]=="clk") clk[l.num(1)]=l.num(2);
   g_clock_us=1000000ll*p.geti("clk0")+1;
   {
      World w(p); w.program=PROG; cur.resize(w.n);
      auto flush=[&](int i){ if(cur[i]) { if(!cur[i]->v.empty()) segs.push_back(*cur[i]); cur[i].reset(); } };
      w.on_event=[&](int i,const std::vector<Val>& a){
         if(a.empty() || a[0].k!=Val::STR) return;
         if(a[0].s=="s" && a.size()>1) { if(cur[i] && cur[i]->seed==a[1].i) probe("reseeded-with-same-seed"); flush(i); cur[i].reset(new Seg{a[1].i,{},i,w.t}); }
         if(a[0].s=="d" && a.size()>=5) {
            Draw d{a[1],a[2],a[3],a[4]}; ++draws; str e=range_error(d);
            if(!e.empty()) violation("range",fmt("robot %d step %ld: draw of kind %d with %s, %s gives %s: %s",w.ids[i],w.t,d.k.i,d.a.repr().c_str(),d.b.repr().c_str(),d.r.repr().c_str(),e.c_str()));
            if(cur[i]) { cur[i]->v.push_back(d); if(cur[i]->v.size()==700) probe("sequence-beyond-refill"); }
         }
      };
      w.on_down=[&](int i){ flush(i); };
      long T=p.geti("ticks");
      for(long t=0;t<T && !violated();++t) { auto c=clk.find(t); if(c!=clk.end()) { g_clock_us=1000000ll*c->second+7; fault("clock-jump"); } w.tick(); }
      if(violated()) return;
      for(int i=0;i<w.n;++i) flush(i);
   }
   if(segs.size()>8) { Rng h(p.seed); for(size_t k=segs.size()-1;k>0;--k) std::swap(segs[k],segs[h.below((int)k+1)]); segs.resize(8); }
   // each sequence again: a robot of its own that does nothing else, at another time, interleaved with the others at basic blocks
   std::vector<std::vector<Val>> got(segs.size()), finger(segs.size());
   const Code& code=compile(PROG); if(!code.ok) return;
   auto solo=[&](size_t k){
      const Seg& s=segs[k]; g_clock_us=1000000ll*(777+(long)k*1000003)+5; Robot R; size_t pos=0, fin=0;
      R.on_event=[&](Robot&,const std::vector<Val>& a){ if(!a.empty() && a[0].k==Val::STR && a[0].s=="d" && a.size()>=5) { if(pos<=s.v.size() && got[k].size()<s.v.size()) got[k].push_back(a[4]); else finger[k].push_back(a[4]); } };
      bool seeded=false, again=false;
      R.next_op=[&](Robot&,std::vector<Val>& o){
         if(!seeded) { seeded=true; o={Val::I(1),Val::I(s.seed)}; return true; }
         if(pos<s.v.size()) { const Draw& d=s.v[pos++]; o={Val::I(2),Val::I(1),d.k,d.a,d.b}; return true; }
         if(!again) { again=true; o={Val::I(1),Val::I(s.seed)}; return true; }
         if(fin<8) { ++fin; o={Val::I(2),Val::I(1),Val::I(0),Val(),Val()}; return true; }
         return false;
      };
      R.boot((uint16_t)(100+k),code); R.destroy();
   };
   long sw=0; std::vector<std::function<void()>> jobs;
   for(size_t k=0;k<segs.size();++k) jobs.push_back([&,k]{ solo(k); });
   if(!jobs.empty()) Fibers::run(jobs,p.seed,p.geti("mean",100),sw,(int)p.geti("rare",0));
   if(violated()) return;
   fault("context-switch",sw);
   std::map<int,size_t> first;
   for(size_t k=0;k<segs.size();++k) {
      const Seg& s=segs[k];
      if(got[k].size()!=s.v.size()) { violation("repeat-failed",fmt("the sequence of seed %d cannot be repeated: %zu of %zu numbers",s.seed,got[k].size(),s.v.size())); return; }
      for(size_t j=0;j<s.v.size();++j) if(got[k][j]!=s.v[j].r) { violation("sequence-differs",fmt("seed %d set by robot %d in step %ld: number %zu (kind %d) is %s there and %s when the calls are repeated",s.seed,s.robot,s.t,j,s.v[j].k.i,s.v[j].r.repr().c_str(),got[k][j].repr().c_str())); return; }
      if(finger[k].size()!=8) { violation("repeat-failed",fmt("seed %d: only %zu of 8 numbers after reseeding",s.seed,finger[k].size())); return; }
      auto it=first.find(s.seed);
      if(it!=first.end()) { probe("same-seed-twice"); if(finger[k]!=finger[it->second]) { violation("sequence-differs",fmt("two robots get different numbers from seed %d",s.seed)); return; } }
      else {
         for(auto& o:first) if(finger[o.second]==finger[k]) { violation("seeds-alike",fmt("seeds %d and %d give the same numbers",o.first,s.seed)); return; }
         first[s.seed]=k;
      }
   }
   g_out->nontrivial=draws>5 && !segs.empty();
}
RegProp r16("P16",gen16,run16,"1-4 robots seed, reseed and draw (from the step, from callbacks, listeners and conflict handlers; every kind of draw and range) between other work, under network faults, restarts, clock jumps and collections; every number must lie in its range, and every sequence since a seed is repeated by a fresh robot at another time, all repetitions interleaved at basic blocks, and must be the same; different seeds must differ; non-trivial: at least one seeded sequence; distinct by hash of the full event trace");
}
