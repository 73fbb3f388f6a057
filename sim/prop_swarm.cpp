// P05 own memberships and announcements, P06 knowledge of the neighbours' swarms, P07 swarm execution
#include "swarms.hpp"
#include "workload.hpp"

namespace {
Plan gen05(uint64_t seed) {
   Rng g(seed*31+5); Plan p; p.seed=seed;
   int n=g.range(1,3); long T=g.range(5,40); gen_setup(p,g,n,T);
   int ns=g.chance(0.2)?g.range(6,60):g.range(1,5); p.setc("swarms",ns); if(g.chance(0.3)) p.setc("wide",1); else if(g.chance(0.2)) p.setc("zero",1); bool lim=g.chance(0.4); if(lim) p.setc("bw",g.range(1,3));
   gen_gc(p,g,0.2);
   auto S=swids(p); double pr=g.range(5,90)/100.0, no=lim?g.range(0,60)/100.0:0, unk=g.chance(0.2)?g.range(1,8)/100.0:0;
   if(g.chance(0.35)) for(int r=0;r<n;++r) for(int q=g.range(1,4);q>0;--q) { int f=g.range(0,(int)T-1), l=g.chance(0.7)?g.range(1,4):g.range(3,15); p.add(fmt("bw %d %d %d",f,r,g.below(2))); p.add(fmt("bw %d %d %d",f+l,r,lim&&g.chance(0.5)?g.range(1,4):-1)); }
   for(int r=0;r<n;++r) for(int s:S) if(g.chance(0.8)) p.add(op(g.below(3),r,20,{Val::I(s)}));
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      int m=g.chance(0.2)?g.range(2,8):1;
      for(int q=0;q<m;++q) { if(g.chance(pr)) gen_swop(p,g,t,r,S); if(g.chance(0.1)) { Val a=Val::I(g.pick(S)), b=Val::I(g.pick(S)); if(g.chance(0.5)) p.add(op(t,r,64,{a,b})); else p.add(op(t,r,65,{a,b,Val::I(g.below(2))})); } if(g.chance(0.3)) p.add(op(t,r,28,{Val::I(g.pick(S))})); }
      if(unk && g.chance(unk)) p.add(op(t,r,66,{Val::I(g.below(12)),Val::I(g.pick(S)),Val::I(g.chance(0.5)?g.pick(S):g.range(0,65535)),Val::I(g.below(2))}));
      if(g.chance(no)) p.add(op(t,r,8,{Val::S("noise"),Val::I(1)}));
   }
   gen_net(p,g,n,0,T,random_net(g));
   return p;
}
void run05(const Plan& p) {
   World w(p); Own o(w); o.strict_list=true; long T=p.geti("ticks");
   std::vector<int> unk(w.n,-1);          // the operation on an unknown swarm that must have ended the step
   w.on_op=[&](int i, std::vector<Val>& x){ if(o.op(i,x) && x[0].i==66) unk[i]=x[1].i; };
   w.on_event=[&](int i, const std::vector<Val>& a){ if(!a.empty()) o.event(i,a); };
   w.on_emit=[&](int i, const Bytes&, const Msg& m){ o.emit(i,m); };
   w.on_down=[&](int i){ o.m[i].clear(); o.ann[i].clear(); unk[i]=-1; };
   w.allow_error=[&](int i){ return unk[i]>=0; };
   w.after_tick=[&](int i){
      if(unk[i]>=0) {
         static const char* what[]={"join","leave","select","in","exec","others","union","union","intersection","intersection","difference","difference"};
         if(w.r[i]->ready()) violation("unknown",fmt("step %ld: robot %d: %s of a swarm that was never made is no error",w.t,w.ids[i],what[unk[i]%12]));
         else { probe("unknown-swarm"); o.m[i].clear(); o.ann[i].clear(); unk[i]=-1; w.boot(i); }
         return;
      }
      if(w.r[i]->drained()) { o.compare(i); probe("all-announced"); }
   };
   auto all=[&]{ for(int i=0;i<w.n;++i) if(w.up[i]) { w.stall_until[i]=0; for(auto& e:o.m[i]) w.enqueue(i,{Val::I(28),Val::I(e.first)}); } };
   for(long t=0;t<T && !violated();++t) { if(t%5==4) for(int i=0;i<w.n;++i) if(w.up[i] && w.stall_until[i]<=t) for(auto& e:o.m[i]) w.enqueue(i,{Val::I(28),Val::I(e.first)}); w.tick(); }
   if(violated()) return;
   all(); w.tick(); if(violated()) return;
   // bandwidth changes of the plan may still be due
   for(int k=0;k<25 && !violated();++k) { bool rest=false; for(int i=0;i<w.n;++i) { w.bw[i]=-1; w.stall_until[i]=0; if(w.up[i] && !w.r[i]->drained()) rest=true; } if(k>1 && !rest) break; w.tick(); }
   if(violated()) return;
   for(int i=0;i<w.n && !violated();++i) if(w.up[i]) o.compare(i);
   g_out->nontrivial=g_out->probes["asked"]>3 && o.lists>0;
}
RegProp r05("P05",gen05,run05,"seeded histories of swarm operations (up to 60 swarms, ids up to 65535) on 1-3 robots with restarts and limited bandwidth; non-trivial: memberships were asked for more than 3 times and a full list was announced; distinct by hash of the full event trace");

// ------------------------------------------------------------ P06
Plan gen06(uint64_t seed) {
   Rng g(seed*31+6); Plan p; p.seed=seed;
   int n=g.range(2,6); bool lng=g.chance(0.35); long T=lng?g.range(70,140):g.range(10,60); gen_setup(p,g,n,T);
   int ns=g.chance(0.1)?g.range(8,25):g.range(1,4); p.setc("swarms",ns); if(g.chance(0.3)) p.setc("wide",1); else if(g.chance(0.2)) p.setc("zero",1);
   gen_gc(p,g,0.2);
   auto S=swids(p); double pr=lng?g.range(1,10)/100.0:g.range(2,60)/100.0, q=g.range(5,40)/100.0;
   if(ns>=8) for(int r=0;r<n;++r) { double j=g.range(20,100)/100.0; for(int s:S) if(g.chance(j)) p.add(op(g.range(1,3),r,21,{Val::I(s)})); }
   for(long t=1;t<T;++t) for(int r=0;r<n;++r) {
      for(int m=g.chance(0.15)?g.range(2,5):1;m>0;--m) if(g.chance(pr)) {
         gen_swop(p,g,t,r,S);
         // the others ask soon about the swarm that changed
         if(g.chance(0.3)) { Val s=Val::from(p.act.back()[4]); for(int b=0;b<n;++b) if(b!=r && g.chance(0.6)) p.add(op(t+g.range(1,3),b,29,{s})); }
      }
      if(g.chance(q)) { if(g.chance(0.25)) p.add(op(t,r,55,{Val::I(g.pick(S)),Val::I(g.pick(S))})); else p.add(op(t,r,29,{Val::I(g.pick(S))})); }
   }
   NetGen k=random_net(g);
   if(lng && g.chance(0.7)) {       // somebody falls silent for longer than the maximum age, but is still sensed
      std::vector<long> ids; for(int i=0;i<n;++i) ids.push_back(p.geti(fmt("id%d",i),i+1));
      long f=g.range(1,20), l=g.range(40,70); bool cut=g.chance(0.5); int who=g.chance(0.6)?1<<g.below(n):g.range(1,(1<<n)-1);      // one, or several at once
      for(int a=0;a<n;++a) if(who&(1<<a)) {
         if(cut) { for(int b=0;b<n;++b) if(b!=a) { p.add(fmt("cut1 %ld %d %d",f,a,b)); p.add(fmt("heal %ld %d %d",f+l,a,b)); } }
         else { p.add(fmt("crash %ld %d",f,a)); p.add(fmt("restart %ld %d",f+l,a)); }
         for(long t=f;t<f+l;++t) for(int b=0;b<n;++b) if(b!=a) p.add(fmt("nbr %ld %d %ld %d.5 1 1",t,b,ids[a],(int)(t%50)));
      }
      if(g.chance(0.5)) for(int b=0;b<n;++b) for(int s:S) if(g.chance(0.5)) { p.add(op(f+g.range(44,(int)l),b,29,{Val::I(s)})); p.add(op(f-1,b,21,{Val::I(s)})); }
   }
   gen_net(p,g,n,0,T,k);
   return p;
}
void run06(const Plan& p) {
   World w(p); Own o(w); Know k(w); long T=p.geti("ticks"); auto S=swids(p);
   bool settled=false; std::vector<std::set<int>> heard(w.n);       // by radio, in this step
   w.on_boot=[&](int i){ for(int s:S) w.enqueue(i,{Val::I(20),Val::I(s)}); };
   w.on_op=[&](int i, std::vector<Val>& x){ o.op(i,x); };
   w.on_emit=[&](int i, const Bytes&, const Msg& m){ o.emit(i,m); };
   w.on_down=[&](int i){ o.m[i].clear(); o.ann[i].clear(); k.b[i]=Know::Bot(); };
   w.before_in=[&](int i){ k.b[i].nb.clear(); heard[i].clear(); };
   w.on_nbr=[&](int i,int id,float,float,float){ k.b[i].nb.insert(id); };
   w.on_packet=[&](int i, const Packet& q){ heard[i].insert(w.ids[q.from]); for(auto& x:q.msgs) k.msg(i,w.ids[q.from],decode(x)); };
   w.after_in=[&](int i){ k.aged(i); };
   w.after_tick=[&](int i){ o.compare(i); };
   w.on_event=[&](int i, const std::vector<Val>& a){
      auto& B=k.b[i]; const str& e=a[0].s;
      if(e=="K0") { B.kin.clear(); B.non.clear(); B.open=true; B.sw=a[1].i; if(!o.in(i,B.sw)) violation("exec",fmt("step %ld: robot %d executes for swarm %d without being in it",w.t,w.ids[i],B.sw)); }
      else if(e=="K") B.kin.insert(a[2].i);
      else if(e=="NK") B.non.insert(a[2].i);
      else if(e=="K1") {
         B.open=false; std::multiset<int> kin,non;
         for(int r:B.nb) (k.isin(i,r,B.sw)?kin:non).insert(r);
         probe("kin-asked"); if(!kin.empty()) probe("kin-nonempty"); if(!non.empty()) probe("nonkin-nonempty");
         if(B.kin!=kin || B.non!=non) violation("kin",fmt("step %ld: robot %d in swarm %d sees kin %s and non-kin %s; its neighbours and what it heard say %s and %s",w.t,w.ids[i],B.sw,ms(B.kin).c_str(),ms(B.non).c_str(),ms(kin).c_str(),ms(non).c_str()));
         else if(settled) for(int r:B.nb) { int j=w.index_of(r); if(j>=0 && heard[i].count(r) && o.in(j,B.sw)!=(kin.count(r)>0)) violation("knowledge",fmt("step %ld, long after the last change and fault: robot %d thinks robot %d is %s swarm %d",w.t,w.ids[i],r,kin.count(r)?"in":"not in",B.sw)); }
         if(settled) probe("asked-after-settling");
      }
   };
   for(long t=0;t<T && !violated();++t) w.tick();
   if(violated()) return;
   w.heal_all();
   // a delayed packet may still bring old news after the last fault: it is overtaken by the next list
   for(int t=0;t<13 && !violated();++t) w.tick();
   settled=true;
   for(int t=0;t<2 && !violated();++t) { for(int i=0;i<w.n;++i) for(int s:S) w.enqueue(i,{Val::I(29),Val::I(s)}); w.tick(); }
   if(violated()) return;
   // what a neighbour knows equals the memberships, whether or not the robot can look
   for(int i=0;i<w.n;++i) for(int j=0;j<w.n;++j) if(i!=j && w.link[j][i]) for(int s:S) if(k.isin(i,w.ids[j],s)!=o.in(j,s)) { violation("knowledge",fmt("after settling, what robot %d heard says robot %d is %s swarm %d",w.ids[i],w.ids[j],k.isin(i,w.ids[j],s)?"in":"not in",s)); return; }
   auto& pr=g_out->probes; g_out->nontrivial=pr["kin-nonempty"]>0 && pr["nonkin-nonempty"]>0;
}
RegProp r06("P06",gen06,run06,"seeded swarm operations and network faults (also silences longer than the maximum age) over 2-6 robots, then faults stop for 15 steps; non-trivial: some kin and some non-kin table was non-empty; distinct by hash of the full event trace");

// ------------------------------------------------------------ P07
struct Exec {      // reference interpreter of the token language of the driver
   std::vector<int> tk; size_t p=0; std::map<int,bool>* m; std::vector<int> st; std::vector<str> out; long depth=0, maxdepth=0; long execs=0, skipped=0;
   int tok() { return p<tk.size()?tk[p++]:0; }
   str sid(int n=1) { if(st.empty()) return "n"; uint16_t q=(uint16_t)n; if(q<1) q=1; if(q>st.size()) q=st.size(); return Val::I(st[st.size()-q]).repr(); }
   void e(const str& s) { if(out.size()<4000) out.push_back(s); }
   static str I(int x) { return Val::I(x).repr(); }
   bool exec(int s) { if(!(*m)[s]) { ++skipped; return false; } st.push_back(s); ++execs; maxdepth=std::max<long>(maxdepth,st.size()); return true; }
   int F(int n) { if(n==0) { X(); return 7; } int y=F(n-1); if(tok()==1) return y; X(); return y+n; }
   void X() {
      if(++depth>60) { p=tk.size(); }
      int t=tok();
      while(t>0) {
         switch(t) {
            case 1: e("ID "+sid()); break;
            case 2: { int s=tok(); if(exec(s)) { e("E0 "+I(s)+" "+sid()); X(); e("E1 "+I(s)+" "+sid()); st.pop_back(); } e("E2 "+I(s)+" "+sid()); break; }
            case 3: { int n=tok(); int r=F(n); e("F "+I(r)); break; }
            case 4: --depth; return;
            case 5: { int s=tok(); if(exec(s)) { e("R0 "+I(s)); X(); int q=tok(); if(q==1||q==2||q==3||q==4||q==7||q==12) e("R1"); else { X(); e("R2 "+sid()); } st.pop_back(); } e("R3 "+sid()); break; }
            case 6: { int n=tok(); e("IN "+I(n)+" "+sid(n)); break; }
            case 7: e("FE "+Val::S("a").repr()+" "+I(1)); X(); break;
            case 8: (*m)[tok()]=true; break;
            case 9: (*m)[tok()]=false; break;
            case 10: { int s=tok(); X(); int r=100+6+F(1); e("EX "+I(r)); if(exec(s)) { X(); st.pop_back(); } e("EY "+sid()); break; }
            case 11: { int s=tok(); if(exec(s)) { e("TICK"); st.pop_back(); } break; }
            case 12: X(); e("M "+I(5)); break;
            case 13: { int s=tok(); if(exec(s)) { (*m)[s]=false; X(); e("L "+sid()); st.pop_back(); } break; }
            case 14: { int s=tok(); for(int i=0;i<3;++i) if(exec(s)) { e("LP "+I(i)+" "+sid()); if(i==1) X(); st.pop_back(); } break; }
            case 15: break;
         }
         t=tok();
      }
      --depth;
   }
};
// the stream may be read at another phase than generated: every token is a valid swarm or harmless
int fix(int t,int ns) { return t; }
Plan gen07(uint64_t seed) {
   Rng g(seed*31+7); Plan p; p.seed=seed;
   int n=g.range(1,3); long T=g.range(4,25); gen_setup(p,g,n,T); p.setc("perpacket",1);
   int ns=15; p.setc("swarms",ns);
   gen_gc(p,g,0.4);
   for(int r=0;r<n;++r) { for(int s=1;s<=ns;++s) if(g.chance(0.7)) p.add(op(1,r,21,{Val::I(s)})); if(g.chance(0.7)) p.add(op(1,r,9,{Val::S("go"),Val::I(1),Val::I(9)})); }
   for(long t=2;t<T;++t) for(int r=0;r<n;++r) {
      if(g.chance(0.6)) { std::vector<Val> a; for(int x:gen_toks(g,g.chance(0.5)?4:ns,g.range(1,40))) a.push_back(Val::I(x)); p.add(op(t,r,50,a)); }
      if(g.chance(0.2)) p.add(op(t,r,8,{Val::S("go"),Val::I(g.below(100000))}));
      if(g.chance(0.2)) p.add(op(t,r,g.chance(0.6)?21:22,{Val::I(g.range(1,ns))}));
   }
   gen_net(p,g,n,0,T,random_net(g));
   return p;
}
void run07(const Plan& p) {
   World w(p); std::vector<std::map<int,bool>> m(w.n); std::vector<std::vector<str>> got(w.n); std::vector<Exec> x(w.n); std::vector<bool> on(w.n,false);
   int ns=(int)p.geti("swarms",15); long T=p.geti("ticks"); long maxdepth=0, execs=0, skipped=0;
   w.on_boot=[&](int i){ m[i].clear(); for(int s=0;s<=ns;++s) w.enqueue(i,{Val::I(20),Val::I(s)}); for(int s=0;s<=ns;++s) m[i][s]=false; on[i]=false; };
   // tokens used as swarm ids are kept within the swarms that exist
   auto start=[&](int i, std::vector<int> tk){
      for(auto& t:tk) if(t<0||t>ns) {} 
      x[i]=Exec(); x[i].tk=tk; got[i].clear(); on[i]=true;
      auto before=m[i]; x[i].m=&m[i]; x[i].X();
      // tokens the model did not read because of its depth limit are not given to the robot either
      w.r[i]->toks.assign(x[i].tk.begin(),x[i].tk.begin()+x[i].p); w.r[i]->tokpos=0;
      maxdepth=std::max(maxdepth,x[i].maxdepth); execs+=x[i].execs; skipped+=x[i].skipped;
   };
   auto stop=[&](int i){
      on[i]=false;
      if(got[i]!=x[i].out) {
         size_t k=0; while(k<got[i].size() && k<x[i].out.size() && got[i][k]==x[i].out[k]) ++k;
         violation("swarm-exec",fmt("step %ld: robot %d: observation %zu of nested swarm executions is [%s], expected [%s]",w.t,w.ids[i],k,k<got[i].size()?got[i][k].c_str():"-",k<x[i].out.size()?x[i].out[k].c_str():"-"));
      }
   };
   w.on_op=[&](int i, std::vector<Val>& o){
      if(o[0].i==21) m[i][o[1].i]=true;
      if(o[0].i==22) m[i][o[1].i]=false;
      if(o[0].i==50) { std::vector<int> tk; for(size_t k=1;k<o.size();++k) tk.push_back(o[k].i); start(i,tk); o.resize(1); }
   };
   w.on_event=[&](int i, const std::vector<Val>& a){
      const str& k=a[0].s;
      if(k=="X0") return;
      if(k=="TB") { Rng g(a[1].i+5); start(i,gen_toks(g,ns,g.range(1,20))); probe("executed-in-listener"); return; }
      if(k=="X1"||k=="TE") { stop(i); if(k=="X1" && (a.size()<2||a[1].k!=Val::NIL)) violation("swarm-exec",fmt("step %ld: robot %d is still in a swarm context after all executions ended",w.t,w.ids[i])); return; }
      if(on[i]) { str s=k; for(size_t q=1;q<a.size();++q) s+=" "+a[q].repr(); if(got[i].size()<5000) got[i].push_back(s); }
   };
   w.after_step=[&](int i){ if(on[i]) violation("swarm-exec",fmt("step %ld: the script of robot %d did not go on after a swarm execution",w.t,w.ids[i])); };
   for(long t=0;t<T && !violated();++t) w.tick();
   if(maxdepth>=2) probe("nesting-2"); if(maxdepth>=4) probe("nesting-4"); if(skipped) probe("skipped-exec",skipped); if(execs) probe("swarm-exec",execs);
   g_out->nontrivial=maxdepth>=2;
}
RegProp r07("P07",gen07,run07,"seeded token streams drive nested swarm executions, calls, early returns, callbacks, joins and leaves in scripts and listeners of 1-3 robots; non-trivial: some execution was nested at least twice; distinct by hash of the full event trace");
}
