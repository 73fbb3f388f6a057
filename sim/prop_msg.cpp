// P04: neighbour broadcasts
#include "bcast.hpp"
#include "bzzlibs.hpp"

namespace {
Plan gen04(uint64_t seed) {
   Rng g(seed*31+4); Plan p; p.seed=seed;
   int n=g.range(2,5); long T=g.range(8,50); gen_setup(p,g,n,T);
   bool pp=g.chance(0.6); if(pp) p.setc("perpacket",1);
   if(g.chance(0.3)) p.setc("bw",g.range(1,4));
   gen_gc(p,g,0.4);
   double bc=g.range(5,60)/100.0, li=g.range(2,25)/100.0, ig=g.range(0,10)/100.0, fn=g.chance(0.4)?g.range(5,30)/100.0:0, ch=g.chance(0.4)?g.range(5,30)/100.0:0;
   int tag=1; bool echo=g.chance(0.3), big=g.chance(0.1); int many=g.chance(0.12)?g.range(12,60):0;
   bool lib=g.chance(0.25); if(lib) p.setc("lib",1);
   auto topic=[many](Rng& g)->str { return many && g.chance(0.9)?fmt("tp%d",g.below(many)) : ::topic(g); };
   auto pol=[&]{ static const int safe[]={0,0,4,6,7}, all[]={0,2,3,4,5,6,7,8}; int x= pp?all[g.below(8)]:safe[g.below(5)]; if(echo && g.chance(0.3)) x=1; return x; };
   auto lst=[&](long t,int r){ str tp=topic(g); int x=pol(); if(tp=="echo" && (x==1||x==5)) x=0; p.add(op(t,r,9,{Val::S(tp),Val::I(tag++),Val::I(x)})); };
   for(int r=0;r<n;++r) for(int q=many?g.range(5,many):g.below(4);q>0;--q) lst(0,r);
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      int m=g.chance(0.15)?g.range(2,8):1;
      for(int q=0;q<m;++q) {
         if(g.chance(bc)) p.add(op(t,r,8,{Val::S(topic(g)),bval(g)}));
         if(g.chance(li)) lst(t,r);
         if(lib && g.chance(0.25)) p.add(op(t,r,g.chance(0.25)?60:g.chance(0.15)?61:62,{Val::S(topic(g))}));
         if(g.chance(ig)) p.add(op(t,r,10,{Val::S(topic(g))}));
         if(g.chance(fn)) { Val tp=Val::S(topic(g)); int k=g.below(4); if(k==0) p.add(op(t,r,15,{tp})); else if(k==1) p.add(op(t,r,16,{tp,Val::I(g.range(1,4))})); else p.add(op(t,r,14,{tp,Val::I(g.range(1,4))})); }
         if(g.chance(0.12)) { Val kx=Val::I(g.below(3)); switch(g.below(3)) { case 0: p.add(op(t,r,11,{kx,g.chance(0.8)?gen_val(g).k==Val::TBL?gen_val(g):Val::T().put(Val::I(1),Val::I(2)):gen_val(g)})); break; case 1: p.add(op(t,r,12,{Val::S(topic(g)),kx})); break; default: p.add(op(t,r,13,{kx,g.chance(0.5)?Val::I(g.below(5)):Val::S(fmt("f%d",g.below(4))),bval(g)})); } }
         if(g.chance(ch)) p.add(op(t,r,40,{Val::I(g.range(1,30))}));
         if(big && g.chance(0.03)) { if(g.chance(0.5)) p.add(op(t,r,17,{Val::S(topic(g)),Val::I(g.range(100,255))})); else p.add(op(t,r,18,{Val::S(topic(g)),Val::I(g.range(6,14))})); }
      }
   }
   NetGen k=random_net(g); gen_net(p,g,n,0,T,k);
   return p;
}
void run04(const Plan& p) {
   static const str withlib=str(DRIVER)+"\n"+LIB_neighbors+"\nOPS[60] = function() { neighbors.collect(simarg(1)) }\nOPS[61] = function() { neighbors.reset(simarg(1)) }\nOPS[62] = function() { simev(\"M\", simarg(1), neighbors.msgs[simarg(1)]) }\n";
   World w(p); Bcast b(w); b.hook(); if(p.geti("lib")) w.program=withlib.c_str();
   long T=p.geti("ticks");
   for(long t=0;t<T && !violated();++t) w.tick();
   g_out->nontrivial=g_out->probes["handed-over"]>0;
}
RegProp r04("P04",gen04,run04,"seeded plans of broadcasts (all types, functions, mutated tables), listener changes (also from inside listeners) and network faults over 2-5 robots; non-trivial: at least one broadcast was handed to a listener; distinct by hash of the full event trace");
}
