// P11: endless missions in bounded memory
#include <array>
#include "workload.hpp"
#include "bcast.hpp"
#include "swarms.hpp"
extern "C" void __real_buzzheap_gc(struct buzzvm_s*);
namespace {
// the plan holds one period of the mission; it is repeated
Plan gen11(uint64_t seed) {
   Rng g(seed*31+11); Plan p; p.seed=seed;
   bool lng=g.chance(0.15);                // long periods: long enough to forget a silent robot
   int n=g.range(lng?2:1,3); long P=lng?g.range(60,100):g.range(2,6); gen_setup(p,g,n,P);
   bool strings=!lng && g.chance(0.04); bool natural=g.chance(0.3); p.setc("natural",natural);
   if(g.chance(0.5)) p.setc("perpacket",1);
   if(strings) p.setc("strings",g.range(70000,80000));
   // few kinds of operations per run, so that each of them dominates somewhere
   gen_mix(p,g,n,lng?g.range(3,12):P+1,true);
   std::vector<Line> keep; double th=g.range(20,100)/100.0;
   for(auto& l:p.act) if(l[0]=="op" && g.chance(th)) { l.w[1]=std::to_string(l.num(1)%P); keep.push_back(l); }
   p.act=keep;
   for(int r=0;r<n;++r) {
      if(g.chance(0.4)) p.add(op(g.below((int)P),r,51,{Val::I(g.range(1,12))}));
      if(g.chance(0.3)) p.add(op(g.below((int)P),r,52,{Val::I(g.range(1,5))}));
      if(g.chance(0.3)) p.add(op(g.below((int)P),r,53));
      if(g.chance(0.6)) for(int q=g.range(1,3);q>0;--q) p.add(op(g.below((int)P),r,54,{Val::I(g.below(12))}));
      if(g.chance(0.1)) p.add(op(g.below((int)P),r,1,{Val::I(g.range(1,2))}));
      if(g.chance(0.15)) p.add(op(g.below((int)P),r,19,{Val::I(1),Val::S("k"),Val::I(1),Val::I(g.range(2,20))}));
      if(lng) for(int k=g.range(1,4);k>0;--k) gen_swop(p,g,g.below((int)P),r,{1,2,3,4});
   }
   if(n>1 && g.chance(0.3)) {              // a reader that missed the writes: its questions are answered
      int a=g.below(n), b=(a+1+g.below(n-1))%n; long t=g.below((int)P); Val s=Val::I(g.range(1,2)), k=gen_key(g,g.below(8));
      p.add(op(t,a,2,{s,k,gen_val(g)})); p.add(fmt("drop %ld %d %d",t,a,b)); p.add(op((t+1)%P,b,3,{s,k}));
   }
   if(n>1 && g.chance(0.25)) {             // conflicts and their handlers
      Val s=Val::I(g.range(1,2)), k=gen_key(g,g.below(8)); long t=P>1?1:0; int q=g.range(1,3);
      for(int r=0;r<n;++r) { if(g.chance(0.8)) p.add(op(0,r,6,{s,Val::I(g.below(14)),Val::I(1)})); if(g.chance(0.6)) p.add(op(0,r,7,{s,Val::I(g.below(7)),Val::I(2)})); }
      for(;q>0;--q) for(int r=0;r<n;++r) p.add(op(t,r,2,{s,k,gen_val(g)}));
   }
   if(lng || g.chance(0.5)) {
      if(!lng || g.chance(0.2)) { NetGen k=random_net(g,false); k.cut=0; gen_net(p,g,n,0,lng?8:P,k); }
      if(g.chance(0.4) && P>=3) { int r=g.below(n); long c=g.below((int)P-2); p.add(fmt("crash %ld %d",c,r)); p.add(fmt("restart %ld %d",g.range((int)c+1,(int)P-1),r)); }
      if(g.chance(0.3)) p.setc("jitter",1);
   }
   if(P>=3 && g.chance(0.3)) {             // a robot fails, is still sent messages, and is switched off and on again
      int r=g.below(n); long c=g.below((int)P-1), d=g.range((int)c+1,(int)P-1);
      p.add(op(c,r,60,{Val::I(g.below(7))})); if(n>1 && g.chance(0.7)) for(long t=c;t<=d;++t) if(g.chance(0.6)) p.add(op(t,(r+1)%n,8,{Val::S(g.chance(0.5)?"t0":"fail"),gen_val(g)}));
      p.add(fmt("crash %ld %d",d,r)); p.add(fmt("restart %ld %d",(long)g.range((int)d,(int)P-1),r)); p.setc("failing",1);
   }
   if(lng) for(int q=g.range(1,n);q>0;--q) {
      int r=g.below(n); long t=g.below((int)P-56);
      if(g.chance(0.5)) p.add(fmt("stall %ld %d %d",t,r,g.range(52,(int)(P-t))));
      else for(int j=0;j<n;++j) if(j!=r) { p.add(fmt("cut %ld %d %d",t,r,j)); p.add(fmt("heal %ld %d %d",P-1,r,j)); }
   }
   // damaged messages: captured ones, cut short or with a wrong type
   if(n>1 && g.chance(0.5)) for(int q=g.range(1,4);q>0;--q) { int r=g.below(n); p.add(fmt("mal %d %d %d %d %d %d",g.below((int)P),r,(r+1)%n,g.below(3),g.below(1000),g.below(4))); }
   return p;
}
struct Mission {
   const Plan& p; Plan q; World w; Rng jit; long P; bool natural, jitter; std::vector<long> depth; std::vector<bool> mayfail;
   Mission(const Plan& pl):p(pl),q(bare(pl)),w(q),jit(pl.seed+3),P(std::max(1L,pl.geti("ticks",4))),natural(pl.geti("natural")),jitter(pl.geti("jitter")),depth(w.n,-1),mayfail(w.n,false) {
      w.allow_error=[this](int i){ if(mayfail[i]) fault("failed-robot"); return (bool)mayfail[i]; };
      w.log_msgs=false; mix_boot(w); mix_hooks(w);
      w.on_event=[this](int i, const std::vector<Val>& a){ if(!a.empty() && a[0].s=="STR") { str s; for(auto& v:a) s+=" "+v.repr(); violation("string",fmt("step %ld: robot %d: a string does not read back as its own text:",w.t,w.ids[i])+s); } };
      w.after_tick=[this](int i){ if(!w.r[i]->ready()) return; long d=w.r[i]->stack_size()*1000+w.r[i]->stacks(); if(depth[i]<0) depth[i]=d; else if(depth[i]!=d) violation("stack",fmt("step %ld: between steps, robot %d has %ld values on its stack instead of %ld",w.t,w.ids[i],d/1000,depth[i]/1000)); };
      w.on_down=[this](int i){ depth[i]=-1; mayfail[i]=false; };
      w.damage=[this](int, const Line& l, Bytes& b){
         if(l.num(4)==0 || w.captured.empty()) { b.clear(); return true; }
         b=w.captured[(size_t)l.num(5)%w.captured.size()];
         if(l.num(4)==1) b.resize(b.empty()?0:(size_t)(l.num(5)*7)%b.size()); else if(!b.empty()) b[0]=(uint8_t)(20+l.num(5)%200);
         return decode(b).k==Msg::BAD;
      };
   }
   static Plan bare(const Plan& p) { Plan q=p; q.act.clear(); return q; }
   void tick(long phase) {
      long t=w.t;
      for(auto& l:p.act) if(l.num(1)==phase) {
         if(l[0]=="op") { std::vector<Val> o; o.push_back(Val::I((int)l.num(3))); for(size_t k=4;k<l.n();++k) o.push_back(Val::from(l[k])); int r=(int)l.num(2); if(r<w.n && l.num(3)==60) mayfail[r]=true; if(r<w.n) w.ops[{t,r}].push_back(o); }
         else if(jitter && jit.chance(0.5) && l[0]!="crash" && l[0]!="restart") {}
         else if(l[0]=="drop"||l[0]=="dup"||l[0]=="delay"||l[0]=="mdrop") { Line x=l; w.netacts[{t,{(int)l.num(2),(int)l.num(3)}}].push_back(x); }
         else if(l[0]=="mal") w.mals[{t,(int)l.num(2)}].push_back(l);
         else w.tickacts[t].push_back(l);
      }
      w.tick(); w.ops.clear(); w.netacts.clear(); w.tickacts.clear(); w.mals.clear();
   }
   // entries of lists that grow by doubling their room, which bytes and blocks hide for long
   long entries() const { long s=0; for(int i=0;i<w.n;++i) if(w.up[i] && w.r[i]->vm) s+=buzzdarray_size(w.r[i]->vm->flist)+buzzdarray_size(w.r[i]->vm->swarmstack)+buzzdarray_size(w.r[i]->vm->lsymts); return s; }
   std::array<long,3> period() {
      for(long k=0;k<P && !violated();++k) tick(k);
      if(!natural) for(int i=0;i<w.n;++i) if(w.up[i] && w.r[i]->ready()) { w.r[i]->vm->heap->max_objs=0; __real_buzzheap_gc(w.r[i]->vm); }
      return {g_mem_bytes,g_mem_blocks,entries()};
   }
};
struct Series { std::vector<long> b[3]; void add(const std::array<long,3>& x) { for(int k=0;k<3;++k) b[k].push_back(x[k]); } };
// lowest level in each of k stretches rises throughout
bool rises(const std::vector<long>& v, int k) {
   size_t n=v.size()/k; if(!n) return false; long last=0;
   for(int i=0;i<k;++i) { long m=*std::min_element(v.begin()+i*n,v.begin()+(i+1)*n); if(i && m<=last) return false; last=m; }
   return true;
}
long level(const std::vector<long>& v, int i, int k) { size_t n=v.size()/k; return *std::min_element(v.begin()+i*n,v.begin()+(i+1)*n); }
// blocks left over when a mission of so many periods has ended and all robots are destroyed
long leftover(const Plan& p, long periods) {
   long b0=g_mem_blocks;
   { Mission m(p); for(long k=0;k<periods && !violated();++k) m.period(); }
   return g_mem_blocks-b0;
}
void run11(const Plan& p) {
   Disk disk; g_disk=&disk; disk.armed=false; struct Restore { ~Restore() { mem_account(false); g_disk=nullptr; } } rst;
   compile(DRIVER); mem_account(true);
   bool natural=p.geti("natural"); long P=std::max(1L,p.geti("ticks",4)); bool lng=P>=50;
   long few=lng?1:natural?6:4; long left0=leftover(p,few);
   if(violated()) return;
   long warm=lng?3:natural?40:20, S=lng?8:natural?120:40; long b0=g_mem_blocks; long steps=0;
   {
      Mission m(p); World& w=m.w; static const char* what[]={"bytes","blocks","entries in the lists of functions and calls"};
      for(long k=0;k<warm && !violated();++k) m.period();
      Series s; for(long k=0;k<S && !violated();++k) s.add(m.period());
      if(violated()) return;
      Series e;
      for(int x=0;x<3;++x) if(rises(s.b[x],4)) {
         // a table may still be filling up: look at twelve times as many periods before judging
         if(e.b[0].empty()) { probe("looked-longer"); for(long k=0;k<12*S && !violated();++k) e.add(m.period()); }
         if(violated()) return;
         const std::vector<long>& v=e.b[x]; long d=level(s.b[x],3,4)-level(s.b[x],0,4), h=level(v,3,8)-level(v,0,8), h2=level(v,7,8)-level(v,4,8);
         if(rises(v,8) && h2*10>=h*6 && h+h2>2*d) { violation("growth",fmt("the memory the robots hold grows without end: %ld %s after %ld periods of the mission, %ld after %ld, %ld after %ld (%s collections)",s.b[x].front(),what[x],warm,s.b[x].back(),warm+S,v.back(),warm+S*13,natural?"natural":"forced")); return; }
      }
      long want=p.geti("strings");
      if(want>0) {
         // more strings over time than there are identifiers
         long per=2000;
         for(long k=0;k<want && !violated();k+=per*3) { for(int i=0;i<w.n;++i) if(w.up[i]) w.ops[{w.t,i}].push_back({Val::I(51),Val::I((int)per)}); w.tick(); w.ops.clear(); }
         if(violated()) return;
         for(int k=0;k<7 && !violated();++k) m.period();
         probe("more-than-65536-strings"); if(violated()) return;
      }
      steps=w.t;
   }
   long left1=g_mem_blocks-b0;
   if(left1>left0) {
      probe("left-over"); long left2=leftover(p,3*(warm+S)); if(violated()) return;
      if(left2-left1>(left1-left0)/2 && left2>left1) { violation("lost",fmt("memory that no robot holds any more is never given back: %ld blocks are left over when a mission of %ld periods has ended and all robots are destroyed, %ld after %ld periods, %ld after %ld",left0,few,left1,warm+S,left2,3*(warm+S))); return; }
   }
   g_out->nontrivial=steps>100;
}
RegProp r11("P11",gen11,run11,"a seeded period (2-6 steps, in some runs 60-100 with robots silent long enough to be forgotten) with operations of every family and, in some runs, network faults, damaged messages, crashes and restarts, is repeated 60-160 (long ones 11) times on 1-3 robots; examined are the bytes and blocks the library holds after each period, the blocks left over once all robots are destroyed (short against long missions), the operand stacks between steps and the text of transient strings (in some runs more than 65536 different ones); growth is followed for twelve times as long before it is called endless; distinct by hash of the full event trace");
}
