// P01 convergence, P02 sane reads, P03 conflict handlers, P18 limited bandwidth
#include "stig.hpp"

// the stigmergies of a run: small identifiers, or ones that agree in some of their bytes, or the extreme ones
static std::vector<int> stids(const Plan& p) {
   static const int v[4][4]={{1,2,3,4},{1,257,513,2},{0,256,65535,128},{65535,32768,255,32767}};
   std::vector<int> r; for(int i=0;i<std::min(4,(int)p.geti("stigs",1));++i) r.push_back(v[p.geti("sid",0)&3][i]); return r;
}
static std::vector<int> gen_stids(Plan& p, Rng& g) { p.setc("stigs",g.chance(0.1)?g.range(3,4):g.range(1,2)); if(g.chance(0.4)) p.setc("sid",g.range(1,3)); return stids(p); }
static void boot_creates(World& w) {
   auto S=stids(w.plan);
   w.on_boot=[&w,S](int i){ for(int s:S) w.enqueue(i,{Val::I(1),Val::I(s)}); };
}
// a burst of writes of one key, so that versions get far apart (numbers past every byte and sign boundary)
static void gen_burst(Plan& p, Rng& g, int n, long T, const std::vector<int>& S, const std::vector<Val>& K, double chance) {
   if(!g.chance(chance)) return;
   int b=g.range(1,3); long left=60000;
   for(int i=0;i<b;++i) { int c= g.chance(0.08)?g.range(30000,34000):g.chance(0.3)?g.range(200,600):g.range(60,300); if(p.geti("gc")!=0) c=std::min(c,300); if(c>left) continue; left-=c;
      p.add(op(g.range(1,(int)T-1),g.below(n),19,{Val::I(g.pick(S)),g.pick(K),Val::I(g.range(0,1000)),Val::I(c)})); }
}
struct KeySet { std::vector<Val> k; };
static KeySet keys_of(const Plan& p) { KeySet K; Rng g(1); int nk=(int)p.geti("keys",2), k0=(int)p.geti("key0",0); for(int i=0;i<nk;++i) K.k.push_back(i<8?gen_key(g,k0+i):i%3==0?Val::S(fmt("key%d",i)):i%3==1?Val::I(200+i*256):Val::F(1000.5f+i)); return K; }

// ------------------------------------------------------------ P02
static Plan gen02(uint64_t seed) {
   Rng g(seed*31+2); Plan p; p.seed=seed;
   int n=g.range(1,5); long T=g.range(10,60); gen_setup(p,g,n,T);
   auto S=gen_stids(p,g); int nk=g.range(1,5); p.setc("keys",nk); p.setc("key0",g.below(12));
   if(g.chance(0.3)) p.setc("bw",g.range(1,4));
   gen_gc(p,g,0.3);
   KeySet K=keys_of(p);
   double wr=g.range(2,40)/100.0, rd=g.range(0,60)/100.0, del=g.chance(0.6)?g.range(0,50)/100.0:0;
   bool rec=g.chance(0.1); bool many=g.chance(0.15);
   NetGen k=random_net(g);
   // a robot that loses its state reuses versions: then the order of processing matters and is fixed
   if(rec || k.crash>0 || g.chance(0.3)) p.setc("perpacket",1);
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      int m=g.chance(0.1)?g.range(2,6):1;
      for(int q=0;q<m;++q) {
         int s=g.pick(S); Val k= many ? Val::S(fmt("key%d",g.below(60))) : g.pick(K.k);
         if(g.chance(wr)) p.add(op(t,r,2,{Val::I(s),k,g.chance(del)?Val():gen_val(g)}));
         if(g.chance(rd)) p.add(op(t,r,3,{Val::I(s),k}));
         if(g.chance(0.05)) p.add(op(t,r,4,{Val::I(s)}));
         if(g.chance(0.08)) p.add(op(t,r,5,{Val::I(s)}));
         if(rec && g.chance(0.01)) p.add(op(t,r,1,{Val::I(s)}));
      }
   }
   gen_net(p,g,n,0,T,k);
   gen_burst(p,g,n,T,S,K.k,0.12);
   return p;
}
static void run02(const Plan& p) {
   World w(p); Stig o(w); o.hook(w); boot_creates(w);
   long T=p.geti("ticks"); auto S=stids(p); KeySet K=keys_of(p);
   for(long t=0;t<T && !violated();++t) w.tick();
   // everything is read once more at the end
   for(int i=0;i<w.n && !violated();++i) if(w.up[i]) {
      w.stall_until[i]=0;
      for(int s:S) { w.enqueue(i,{Val::I(4),Val::I(s)}); w.enqueue(i,{Val::I(5),Val::I(s)}); for(auto& k:K.k) w.enqueue(i,{Val::I(3),Val::I(s),k}); }
   }
   if(!violated()) w.tick();
   auto& pr=g_out->probes; g_out->nontrivial = pr["accept-new"]+pr["accept-newer-put"]+pr["accept-newer-query"]>0 && (pr["conflict"]>0 || pr["stale-put-ignored"]>0 || pr["answer-query"]>0);
}
static RegProp r02("P02",gen02,run02,"seeded plan of stigmergy operations and network faults over 1-5 robots; non-trivial: some robot accepted a remote version and a conflict, a stale update or an answered query occurred; distinct by hash of the full event trace");

// ------------------------------------------------------------ P01
static Plan gen01(uint64_t seed) {
   Rng g(seed*31+1); Plan p; p.seed=seed;
   bool big=g.chance(0.1); int n=big?g.range(7,12):g.range(2,6); long T=g.range(8,50); gen_setup(p,g,n,T);
   int mo=g.below(20); bool lossfree=mo<7, ask=mo>=16; p.setc("mode",lossfree?"lossfree":ask?"ask":"read");
   if(ask) { if(g.chance(0.6)) p.setc("topo","full"); p.setc("readers",g.range(1,(1<<n)-2)); }
   auto S=gen_stids(p,g); int nk=!big && g.chance(0.12)?g.range(9,30):g.range(1,4); p.setc("keys",nk); p.setc("key0",g.below(12));
   if(g.chance(0.35)) p.setc("bw",g.range(1,4));
   p.setc("readevery",g.range(1,3));
   KeySet K=keys_of(p);
   double wr=g.range(2,40)/100.0, rd= lossfree&&g.chance(0.7) ? 0 : g.range(0,40)/100.0, del=g.chance(0.6)?g.range(0,50)/100.0:0;
   bool burst=g.chance(0.4);       // everybody writes at the same moment: conflicts
   for(long t=2;t<T;++t) {
      bool b=burst && g.chance(0.15); int bs=g.pick(S); Val bk=g.pick(K.k);
      for(int r=0;r<n;++r) {
         if(b && g.chance(0.8)) p.add(op(t,r,2,{Val::I(bs),bk,g.chance(del)?Val():gen_val(g)}));
         if(g.chance(wr)) p.add(op(t,r,2,{Val::I(g.pick(S)),g.pick(K.k),g.chance(del)?Val():gen_val(g)}));
         if(g.chance(rd)) p.add(op(t,r,3,{Val::I(g.pick(S)),g.pick(K.k)}));
         if(g.chance(0.05)) p.add(op(t,r,8,{Val::S("noise"),Val::I(g.below(9))}));
      }
   }
   NetGen k=random_net(g);
   if(lossfree) { k.drop=k.mdrop=k.cut=k.crash=0; }
   gen_net(p,g,n,0,T,k);
   gen_burst(p,g,n,T,S,K.k,0.12);
   return p;
}
static void run01(const Plan& p) {
   World w(p); Stig o(w); o.check_reads=false; o.check_inv=false; o.restarted_readonly=true; o.hook(w); boot_creates(w);
   long T=p.geti("ticks"); auto S=stids(p); KeySet K=keys_of(p);
   bool lossfree=p.getc("mode")=="lossfree", ask=p.getc("mode")=="ask"; long mask=ask?p.geti("readers",1):-1;
   for(long t=0;t<T && !violated();++t) w.tick();
   if(violated()) return;
   w.heal_all();
   // what the connected robots hold when writes and faults stop
   std::map<Stig::SK,Ver> stop;
   for(int i=0;i<w.n;++i) for(auto& s : o.bot[i].st) for(auto& e : s.second) { auto& b=stop[{s.first,e.first}]; if(!b.has||less_ver(b,e.second)) b=e.second; }
   // a robot that asks gets at least what its neighbours hold, also when nobody else reads
   std::vector<std::map<Stig::SK,Ver>> near(w.n);
   if(ask) for(int i=0;i<w.n;++i) for(int j=0;j<w.n;++j) if(j==i || (w.link[i][j] && w.link[j][i])) for(auto& s : o.bot[j].st) for(auto& e : s.second) { auto& b=near[i][{s.first,e.first}]; if(!b.has||less_ver(b,e.second)) b=e.second; }
   bool differ=false;
   for(auto& e : stop) for(int i=0;i<w.n;++i) if(!o.held(i,e.first.first,e.first.second).same(e.second)) differ=true;
   if(differ) probe("replicas-differ-when-faults-stop");
   long bwl=p.geti("bw",-1); int d=w.diameter(); long nk=(long)(K.k.size()*S.size()), every=p.geti("readevery",1);
   long bound=20+d*(6+every*2); if(bwl>0) bound+= (d+1)*nk*(6+every)/bwl + T;
   for(long t=0;t<bound && !violated();++t) {
      if(!lossfree && t%every==0) for(int i=0;i<w.n;++i) if(mask&(1<<i)) for(int s:S) for(auto& k:K.k) w.enqueue(i,{Val::I(3),Val::I(s),k});
      w.tick();
   }
   if(violated()) return;
   o.lastread.clear();
   for(int i=0;i<w.n;++i) if(mask&(1<<i)) for(int s:S) for(auto& k:K.k) w.enqueue(i,{Val::I(3),Val::I(s),k});
   w.tick(); if(violated()) return;
   if(ask) {
      for(int i=0;i<w.n;++i) if(mask&(1<<i)) for(int s:S) for(auto& k:K.k) {
         str kr=k.repr(); const Ver& want=near[i][{s,kr}]; const Ver& h=o.held(i,s,kr); Val got=o.lastread[i][{s,kr}]; probe("reader-alone-checked");
         if((want.has && less_ver(h,want)) || got!=h.v) { violation("diverged",fmt("%ld steps after writes and faults stopped robot %d, which kept asking, reads key %s of stigmergy %d as %s; its neighbours held %s (mode ask)",bound,w.ids[i],kr.c_str(),s,got.repr().c_str(),want.text().c_str())); return; }
      }
      g_out->nontrivial=differ; return;
   }
   for(int s:S) for(auto& k:K.k) {
      str kr=k.repr(); Ver want;
      if(lossfree) { auto b=o.best.find({s,kr}); if(b!=o.best.end()) want=b->second; }
      else { auto b=stop.find({s,kr}); if(b!=stop.end()) want=b->second; for(int i=0;i<w.n;++i) { const Ver& h=o.held(i,s,kr); if(h.has && less_ver(want,h)) want=h; } }
      for(int i=0;i<w.n;++i) {
         Val got=o.lastread[i][{s,kr}];
         if(got!=want.v) { violation("diverged",fmt("%ld steps after writes and faults stopped robot %d reads key %s of stigmergy %d as %s; the newest write is %s (mode %s)",bound,w.ids[i],kr.c_str(),s,got.repr().c_str(),want.text().c_str(),p.getc("mode").c_str())); return; }
      }
      if(want.has && want.v.k==Val::NIL) probe("converged-to-deletion");
      if(want.has && want.v.k!=Val::NIL) probe("converged-to-value");
   }
   g_out->nontrivial=differ;
}
static RegProp r01("P01",gen01,run01,"seeded writes, deletions, reads and network faults over 2-6 robots, then faults and writes stop and the swarm gets a bounded number of steps; non-trivial: the replicas differed at the moment the faults stopped; distinct by hash of the full event trace");

// ------------------------------------------------------------ P03
static int gen_pol(Rng& g) { int x=g.below(14); return x==9 && !g.chance(0.3) ? 1 : x; }
static int gen_lost(Rng& g) { int x=g.below(7); return x==2 && !g.chance(0.3) ? 0 : x; }
static Plan gen03(uint64_t seed) {
   Rng g(seed*31+3); Plan p; p.seed=seed;
   int n=g.range(2,5); long T=g.range(10,50); gen_setup(p,g,n,T); p.setc("perpacket",1);
   auto S=gen_stids(p,g); int nk=g.range(1,3); p.setc("keys",nk); p.setc("key0",g.below(12));
   gen_gc(p,g,0.4);
   KeySet K=keys_of(p);
   double del=g.chance(0.5)?g.range(0,40)/100.0:0, chg=g.range(0,6)/100.0; int tag=1;
   for(int r=0;r<n;++r) for(int s:S) {
      if(g.chance(0.8)) p.add(op(1,r,6,{Val::I(s),Val::I(gen_pol(g)),Val::I(tag++)}));
      if(g.chance(0.7)) p.add(op(1,r,7,{Val::I(s),Val::I(gen_lost(g)),Val::I(tag++)}));
   }
   for(long t=2;t<T;++t) {
      bool b=g.chance(0.4); int bs=g.pick(S); Val bk=g.pick(K.k);
      for(int r=0;r<n;++r) {
         if(b && g.chance(0.7)) p.add(op(t,r,2,{Val::I(bs),bk,g.chance(del)?Val():gen_val(g)}));
         if(g.chance(0.1)) p.add(op(t,r,3,{Val::I(g.pick(S)),g.pick(K.k)}));
         if(g.chance(chg)) p.add(op(t,r,6,{Val::I(g.pick(S)),Val::I(gen_pol(g)),Val::I(tag++)}));
         if(g.chance(chg)) p.add(op(t,r,7,{Val::I(g.pick(S)),Val::I(gen_lost(g)),Val::I(tag++)}));
      }
   }
   gen_net(p,g,n,0,T,random_net(g));
   gen_burst(p,g,n,T,S,K.k,0.05);
   return p;
}
static void run03(const Plan& p) {
   World w(p); Stig o(w); o.hook(w); boot_creates(w);
   long T=p.geti("ticks"); auto S=stids(p);
   std::vector<str> got; bool inproc=false;
   auto ev0=w.on_event;
   w.on_event=[&](int i, const std::vector<Val>& a){
      if(a[0].s=="C"||a[0].s=="L") {
         str s=a[0].s; for(size_t k=1;k<a.size();++k) s+=" "+a[k].repr();
         if(!inproc) violation("handler-call",fmt("step %ld: robot %d runs a conflict handler although no message is being processed: ",w.t,w.ids[i])+s);
         got.push_back(s);
      }
      else ev0(i,a);
   };
   w.before_in=[&](int){ got.clear(); o.expect.clear(); };
   auto pk0=w.on_packet;
   w.on_packet=[&](int i, const Packet& q){ got.clear(); o.expect.clear(); pk0(i,q); inproc=true; };
   w.after_in=[&](int i){
      if(!inproc) return;
      inproc=false;
      if(got!=o.expect) {
         str a,b; for(auto& s:got) a+=" ["+s+"]"; for(auto& s:o.expect) b+=" ["+s+"]";
         violation("handler-call",fmt("step %ld: robot %d ran the conflict handlers",w.t,w.ids[i])+a+", expected"+b);
      }
      if(!got.empty()) probe("handler-ran",got.size());
   };
   w.after_tick=[&](int i){
      // with unlimited bandwidth the decision leaves in the same step
      if(!o.bot[i].dirty.empty()) {
         auto& e=*o.bot[i].dirty.begin();
         violation("not-passed-on",fmt("step %ld: robot %d decided on %s for key %s of stigmergy %d but did not pass it on",w.t,w.ids[i],o.held(i,e.first.first,e.first.second).text().c_str(),e.first.second.c_str(),e.first.first));
      }
   };
   for(long t=0;t<T && !violated();++t) {
      if(t>2) for(int i=0;i<w.n;++i) if(w.up[i] && w.stall_until[i]<=t) for(int s:S) w.ops[{t,i}].push_back({Val::I(5),Val::I(s)});
      w.tick();
   }
   auto& pr=g_out->probes; g_out->nontrivial=pr["handler-ran"]>0;
}
static RegProp r03("P03",gen03,run03,"seeded concurrent writes with conflict and conflict-lost handlers of 12 kinds (also failing, re-registered, collecting, and writing to the stigmergy themselves) over 2-5 robots under network faults; non-trivial: at least one handler ran; distinct by hash of the full event trace");

// ------------------------------------------------------------ P18
static Plan gen18(uint64_t seed) {
   Rng g(seed*31+18); Plan p; p.seed=seed;
   int n=g.range(2,4); long T=g.range(10,50); gen_setup(p,g,n,T);
   auto S=gen_stids(p,g); int nk=g.chance(0.1)?g.range(9,25):g.range(1,4), nw=g.range(1,4); p.setc("keys",nk); p.setc("key0",g.below(12)); p.setc("swarms",nw);
   p.setc("bw",g.range(1,3));
   KeySet K=keys_of(p);
   double bc=g.range(0,40)/100.0, wr=g.range(0,50)/100.0, rd=g.range(0,40)/100.0, sw=g.range(0,40)/100.0; int ser=1;
   if(g.chance(0.04)) { int t=g.below((int)T), r=g.below(n); for(int q=g.chance(0.7)?g.range(40,140):g.range(200,300);q>0;--q) p.add(op(t,r,8,{Val::S("burst"),Val::I(ser++)})); }
   for(long t=1;t<T;++t) {
      bool b=g.chance(0.2); int bs=g.pick(S); Val bk=g.pick(K.k);
      for(int r=0;r<n;++r) {
         int m=g.chance(0.15)?g.range(2,6):1;
         if(b && g.chance(0.7)) p.add(op(t,r,2,{Val::I(bs),bk,gen_val(g)}));
         for(int q=0;q<m;++q) {
            if(g.chance(bc)) p.add(op(t,r,8,{Val::S(fmt("t%d",g.below(3))),Val::I(ser++)}));
            if(g.chance(wr)) p.add(op(t,r,2,{Val::I(g.pick(S)),g.pick(K.k),g.chance(0.15)?Val():gen_val(g)}));
            if(g.chance(rd)) p.add(op(t,r,3,{Val::I(g.pick(S)),g.pick(K.k)}));
            if(g.chance(sw)) { int x=g.range(1,nw); if(g.chance(0.6)) p.add(op(t,r,g.chance(0.5)?21:22,{Val::I(x)})); else p.add(op(t,r,23,{Val::I(x),Val::I(g.below(2))})); }
         }
      }
      if(g.chance(0.05)) p.add(fmt("bw %ld %d %d",t,g.below(n),g.range(0,4)));
   }
   gen_net(p,g,n,0,T,random_net(g,false));
   return p;
}
static void run18(const Plan& p) {
   World w(p); Stig o(w); o.check_reads=false; o.check_inv=false; o.check_mono=true; o.hook(w); boot_creates(w);
   long T=p.geti("ticks"); int nw=(int)p.geti("swarms",1);
   std::vector<std::vector<str>> sent(w.n), out(w.n);
   struct SwHist { std::vector<int> h={0}; size_t ptr=0; int last=-1; };
   std::vector<std::map<int,SwHist>> sh(w.n);
   w.on_boot=[&](int i){
      for(int s:stids(p)) w.enqueue(i,{Val::I(1),Val::I(s)});
      for(int s=1;s<=nw;++s) w.enqueue(i,{Val::I(20),Val::I(s)});
   };
   auto op0=w.on_op; auto em0=w.on_emit;
   auto setm=[&](int i,int s,int v){ auto& H=sh[i][s].h; if(H.back()!=v) H.push_back(v); };
   w.on_op=[&](int i, std::vector<Val>& x){
      op0(i,x);
      switch(x[0].i) {
         case 8: sent[i].push_back(x[1].repr()+" "+x[2].repr()); break;
         case 20: sh[i][x[1].i]; break;
         case 21: setm(i,x[1].i,1); break;
         case 22: setm(i,x[1].i,0); break;
         case 23: setm(i,x[1].i,x[2].i?1:0); break;
      }
   };
   auto announce=[&](int i,int s,int v){
      SwHist& H=sh[i][s]; size_t k=H.ptr; while(k<H.h.size() && H.h[k]!=v) ++k;
      if(k>=H.h.size()) violation("stale-announcement",fmt("step %ld: robot %d announces that it is %s swarm %d, a membership it has already announced to have given up",w.t,w.ids[i],v?"in":"not in",s));
      else { H.ptr=k; H.last=v; }
   };
   w.on_emit=[&](int i, const Bytes& b, const Msg& m){
      em0(i,b,m);
      if(m.k==Msg::BAD) violation("malformed-output",fmt("step %ld: robot %d sends a message that cannot be decoded",w.t,w.ids[i]));
      if(m.k==Msg::BCAST) {
         str s=m.topic.repr()+" "+m.value.repr(); size_t k=out[i].size(); out[i].push_back(s);
         if(k>=sent[i].size() || sent[i][k]!=s) violation("broadcast-order",fmt("step %ld: broadcast number %zu to leave robot %d is %s, expected %s",w.t,k,w.ids[i],s.c_str(),k<sent[i].size()?sent[i][k].c_str():"none"));
      }
      if(m.k==Msg::JOIN) announce(i,m.ids[0],1);
      if(m.k==Msg::LEAVE) announce(i,m.ids[0],0);
      if(m.k==Msg::LIST) {
         std::set<int> ids(m.ids.begin(),m.ids.end());
         if(ids.size()!=m.ids.size()) violation("stale-announcement",fmt("step %ld: robot %d lists a swarm twice",w.t,w.ids[i]));
         for(auto& e : sh[i]) announce(i,e.first,ids.count(e.first)?1:0);
         for(int x : ids) if(!sh[i].count(x)) violation("stale-announcement",fmt("step %ld: robot %d lists unknown swarm %d",w.t,w.ids[i],x));
      }
   };
   auto at0=w.after_tick;
   w.after_tick=[&](int i){
      if(at0) at0(i);
      if(violated() || !w.r[i]->drained()) return;
      probe("nothing-waits");
      if(out[i].size()!=sent[i].size()) { violation("broadcast-lost",fmt("step %ld: nothing waits in robot %d, but %zu of its %zu broadcasts never left it",w.t,w.ids[i],sent[i].size()-out[i].size(),sent[i].size())); return; }
      for(auto& e : sh[i]) if(std::max(0,e.second.last)!=e.second.h.back()) { violation("announcement-lost",fmt("step %ld: nothing waits in robot %d, which is %s swarm %d, but its last announcement says otherwise",w.t,w.ids[i],e.second.h.back()?"in":"outside",e.first)); return; }
      for(auto& e : o.bot[i].dirty) { violation("update-lost",fmt("step %ld: nothing waits in robot %d, which never sent its newest state of key %s of stigmergy %d",w.t,w.ids[i],e.first.second.c_str(),e.first.first)); return; }
   };
   for(long t=0;t<T && !violated();++t) w.tick();
   if(violated()) return;
   w.heal_all(); size_t backlog=0;
   for(int i=0;i<w.n;++i) { w.bw[i]=std::max(1L,w.bw[i]); backlog=std::max(backlog,sent[i].size()-out[i].size()); }
   if(backlog>0) probe("broadcast-backlog",backlog);
   long bound=backlog+40+ (long)p.geti("stigs",1)*p.geti("keys",2)*w.n*6;
   for(long t=0;t<bound && !violated();++t) w.tick();
   if(violated()) return;
   for(int i=0;i<w.n;++i) {
      if(out[i].size()!=sent[i].size()) { violation("broadcast-lost",fmt("%zu of %zu broadcasts of robot %d never left it",sent[i].size()-out[i].size(),sent[i].size(),w.ids[i])); return; }
      for(auto& e : o.bot[i].dirty) { violation("update-lost",fmt("robot %d never sent its newest state of key %s of stigmergy %d (%s), due since step %ld",w.ids[i],e.first.second.c_str(),e.first.first,o.held(i,e.first.first,e.first.second).text().c_str(),e.second)); return; }
      for(auto& e : sh[i]) if(e.second.last!=e.second.h.back()) { violation("announcement-lost",fmt("robot %d ends %s swarm %d but its last announcement says otherwise",w.ids[i],e.second.h.back()?"in":"outside",e.first)); return; }
   }
   g_out->nontrivial = backlog>0 || g_out->probes["conflict"]>0;
}
static RegProp r18("P18",gen18,run18,"seeded broadcasts, stigmergy and swarm operations on 2-4 robots that may send 0-4 messages per step, then a drain; non-trivial: a broadcast backlog had built up or a write conflict occurred; distinct by hash of the full event trace");
