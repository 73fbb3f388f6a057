// P09: garbage collection is invisible
#include "workload.hpp"
#include "seams.hpp"
extern "C" {
#include <buzz/buzzheap.h>
}
extern "C" void __real_buzzheap_gc(struct buzzvm_s*);
namespace {
Plan gen09(uint64_t seed) {
   Rng g(seed*31+9); Plan p; p.seed=seed;
   bool script=g.chance(0.6); int n=script?g.range(1,3):g.range(1,4); long T=g.chance(0.1)?g.range(10,20):script?g.range(2,6):g.range(3,9);
   gen_setup(p,g,n,T); p.setc("kind",script?"script":"driver");
   if(g.chance(0.5)) p.setc("perpacket",1);
   if(g.chance(0.2)) p.setc("bw",g.range(1,3));
   int m=g.below(10);
   if(m<1 || (m<3 && T<=4 && n==1)) p.setc("sched",GC_EVERY);
   else if(m<5) { p.setc("sched",GC_EVERYK); p.setc("schedk",g.range(3,19)); }
   else if(m<9) { p.setc("sched",GC_RANDOM); p.setc("schedk",g.chance(0.5)?g.range(3,20):g.range(20,100)); }
   else p.setc("sched",GC_NATURAL);
   if(script) gen_script(p,g); else { gen_mix(p,g,n,T,m>=3); if(g.chance(0.15)) for(int x=g.range(1,3);x>0;--x) p.add(op(g.below((int)T),g.below(n),59,{Val::S("/f"),Val::I(g.range(0,12))})); }
   NetGen k=random_net(g,g.chance(0.3)); if(!script && m<3) { k.dup=0; }
   gen_net(p,g,n,0,T,k);
   if(g.chance(0.15)) p.setc("burn",g.chance(0.1)?g.range(30000,40000):g.range(200,6000));   // strings named before the mission: its own have large ids
   return p;
}
std::vector<str> pass(const Plan& p, int mode, long k, uint64_t& collections) {
   TraceTap tap; str src; Disk disk; g_disk=&disk; struct RD { ~RD() { disk_close_all(); g_disk=nullptr; } } rd; World w(p);
   if(p.getc("kind")=="script") { src=script_of(p); w.program=src.c_str(); } else { mix_boot(w); mix_hooks(w); }
   for(auto& r:w.r) { r->gc.mode=mode; r->gc.k=k; r->gc.seed=p.seed; }
   std::vector<bool> err(w.n,false), burnt(w.n,false); long burn=p.geti("burn");
   if(burn>0) w.before_in=[&](int i){ if(burnt[i] || !w.r[i]->ready()) return; burnt[i]=true; for(long q=0;q<burn;++q) { buzzvm_string_register(w.r[i]->vm,fmt("burnt%ld",q).c_str(),0); if(q%400==399) { uint32_t mo=w.r[i]->vm->heap->max_objs; w.r[i]->vm->heap->max_objs=0; __real_buzzheap_gc(w.r[i]->vm); w.r[i]->vm->heap->max_objs=mo; } } probe("strings-with-large-ids"); };
   w.allow_error=[&](int i){ if(!err[i]) { err[i]=true; evf("%ld %d error state %d: %s",w.t,w.ids[i],(int)w.r[i]->vm->state,w.r[i]->errmsg().c_str()); } return true; };
   w.on_down=[&](int i){ err[i]=false; burnt[i]=false; };
   long T=p.geti("ticks");
   for(long t=0;t<T && !violated();++t) w.tick();
   for(int i=0;i<w.n;++i) if(w.up[i] && w.r[i]->vm) { if(err[i]) probe("script-error"); evf("%d ends with %ld values on its stack",w.ids[i],w.r[i]->stack_size()); }
   for(auto& r:w.r) collections+=r->gc.runs;
   return tap.v;
}
void run09(const Plan& p) {
   uint64_t c0=0,c1=0; int m=(int)p.geti("sched",GC_EVERY); long k=p.geti("schedk",1);
   auto a=pass(p,GC_NEVER,1,c0); if(violated()) return;
   auto b=pass(p,m,k,c1); if(violated()) return;
   str d=trace_diff(a,b,"without collections","with collections");
   if(!d.empty()) { violation("collection-visible",d+fmt(" (schedule %d, every %ld)",m,k)); return; }
   fault("collections-forced",(long)c1); if(c1>65536) probe("more-than-65536-collections");
   probe(m==GC_EVERY?"collect-at-every-instruction":m==GC_NATURAL?"collect-naturally":m==GC_RANDOM?"collect-at-random":"collect-every-k");
   g_out->nontrivial=c1>20 && a.size()>10;
}
RegProp r09("P09",gen09,run09,"each seeded plan (generated scripts with closures, tables, strings, callbacks, handlers and stigmergies, or driver operations of every family; 1-4 robots under network faults) is executed twice, never collecting and with a seeded collection schedule (every instruction, every k-th, random, natural); the event traces must be equal; non-trivial: more than 20 collections ran; distinct by hash of the full event trace");
}
