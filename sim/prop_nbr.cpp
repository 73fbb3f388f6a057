// P17: neighbour queries
#include "swarms.hpp"
namespace {
struct Pose { float d,a,e; };
typedef std::map<int,Pose> Nb;
str pt(int id, const Pose& p) { return Val::I(id).repr()+" "+Val::F(p.d).repr()+" "+Val::F(p.a).repr()+" "+Val::F(p.e).repr(); }
Plan gen17(uint64_t seed) {
   Rng g(seed*31+17); Plan p; p.seed=seed;
   bool sw=g.chance(0.4); int n=sw?g.range(2,5):g.range(1,3); long T=g.range(3,30); gen_setup(p,g,n,T);
   if(sw) { p.setc("swarms",g.range(1,3)); if(g.chance(0.5)) p.setc("zero",1); }
   bool crowd=g.chance(0.03); if(!crowd) gen_gc(p,g,0.5);
   if(crowd) { T=std::min(T,5l); p.setc("ticks",T); }
   int pool=crowd?g.range(100,300):g.chance(0.2)?g.range(10,60):g.range(1,8); double see=g.range(5,90)/100.0; bool wide=g.chance(0.4);
   std::vector<int> ids; for(int i=0;i<pool;++i) { static const int edge[]={0,1,255,256,32767,32768,65534,65535}; ids.push_back(wide?(g.chance(0.2)?edge[g.below(8)]:g.range(0,65535)):100+i); }
   auto num=[&]{ static const char* v[]={"0","1.5","-3.25","1e-38","3e38","12345.678","0.1"}; return g.chance(0.3)?str(v[g.below(7)]):fmt("%d.%02d",g.range(-3,200),g.below(100)); };
   auto id=[&]{ return Val::I(g.chance(0.8)?g.pick(ids):g.range(0,70000)); };
   double q=g.range(10,80)/100.0; std::vector<int> S; if(sw) S=swids(p);
   if(sw) for(int r=0;r<n;++r) for(int s:S) if(g.chance(0.6)) p.add(op(g.below(3),r,21,{Val::I(s)}));
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      if(!g.chance(0.1) && (!crowd || r==0)) for(int x:ids) { while(g.chance(see)) { p.add(fmt("nbr %ld %d %d ",t,r,x)+num()+" "+num()+" "+num()); if(!g.chance(0.15)) break; } }
      int m=g.range(1,6);
      for(int k=0;k<m;++k) if(g.chance(q)) {
         Val d=Val::I(g.below(5)), d2=Val::I(g.below(5));
         if(sw && g.chance(0.5)) {
            Val s=Val::I(g.pick(S));
            switch(g.below(7)) { case 0: gen_swop(p,g,t,r,S); break; case 1: case 2: p.add(op(t,r,48,{d,s})); break; case 3: case 4: p.add(op(t,r,49,{d,s})); break; default: p.add(op(t,r,g.range(56,57),{d,s,d2})); }
            if(g.chance(0.5)) p.add(op(t,r,36,{d}));
            continue;
         }
         switch(g.below(23)) {
            case 20: p.add(op(t,r,61,{Val::I(g.below(4))})); break;
            case 21: p.add(op(t,r,62)); break;
            case 22: p.add(op(t,r,63)); break;
            case 19: p.add(op(t,r,58,{d,d2})); break;
            case 0: p.add(op(t,r,30)); break;
            case 1: p.add(op(t,r,31)); break;
            case 2: p.add(op(t,r,32,{id()})); break;
            case 3: p.add(op(t,r,33)); break;
            case 4: p.add(op(t,r,34,{d})); break;
            case 5: p.add(op(t,r,35,{d,Val::F((float)g.range(0,150))})); break;
            case 6: case 7: p.add(op(t,r,36,{d})); break;
            case 8: p.add(op(t,r,37,{d})); break;
            case 9: p.add(op(t,r,38,{d})); break;
            case 10: p.add(op(t,r,39,{d,d2,id()})); break;
            case 11: p.add(op(t,r,41,{d,id()})); break;
            case 12: p.add(op(t,r,42,{d})); break;
            case 13: p.add(op(t,r,43,{d,d2})); break;
            case 14: p.add(op(t,r,44,{d,id(),Val::I(g.range(-1,1))})); break;
            case 15: p.add(op(t,r,45,{d,d2})); break;
            case 16: if(!crowd) p.add(op(t,r,46)); break;
            case 17: p.add(op(t,r,47,{d,Val::I(g.below(2))})); break;
            case 18: p.add(op(t,r,40,{Val::I(g.range(1,20))})); break;
         }
      }
   }
   gen_net(p,g,n,0,T,random_net(g));
   return p;
}
void run17(const Plan& p) {
   World w(p); std::vector<Nb> nb(w.n); std::vector<std::map<int,Nb>> dv(w.n); std::vector<std::multiset<str>> acc(w.n); std::vector<int> cnt(w.n,-1);
   struct Exp { std::vector<Val> o; bool has=false; };
   std::vector<std::vector<Val>> cur(w.n);
   long T=p.geti("ticks");
   Own own(w); Know kn(w); auto S=p.geti("swarms")?swids(p):std::vector<int>();
   w.on_boot=[&](int i){ for(int s:S) w.enqueue(i,{Val::I(20),Val::I(s)}); };
   w.on_packet=[&](int i, const Packet& q){ for(auto& x:q.msgs) kn.msg(i,w.ids[q.from],decode(x)); };
   w.after_in=[&](int i){ kn.aged(i); };
   w.before_in=[&](int i){ nb[i].clear(); };
   w.on_nbr=[&](int i,int id,float d,float a,float e){ nb[i][id]={d,a,e}; };
   w.on_down=[&](int i){ dv[i].clear(); nb[i].clear(); own.m[i].clear(); kn.b[i]=Know::Bot(); };
   auto bad=[&](int i,const str& what,const str& got,const str& want){ violation("query",fmt("step %ld: robot %d: %s gives %.600s, expected %.600s",w.t,w.ids[i],what.c_str(),got.c_str(),want.c_str())); };
   auto txt=[&](const std::vector<Val>& a){ str s; for(size_t k=0;k<a.size();++k) { if(k) s+=" "; s+= k?a[k].repr():a[k].s; } return s; };
   auto set=[&](const Nb& m){ std::multiset<str> s; for(auto& e:m) s.insert(pt(e.first,e.second)); return s; };
   auto mt=[&](const std::multiset<str>& s){ str r; for(auto& x:s) r+="["+x+"]"; return r; };
   auto sum=[&](const Nb& m){ int32_t s=0; for(auto& e:m) s+=e.first; return s; };
   w.on_op=[&](int i, std::vector<Val>& o){
      own.op(i,o); cur[i]=o; auto& D=dv[i]; auto& N=nb[i]; acc[i].clear(); cnt[i]=-1;
      if(N.size()>=2) probe("several-neighbours"); if(N.empty()) probe("no-neighbour");
      switch(o[0].i) {
         case 34: { Nb m; for(auto& e:N) m[e.first]={e.second.d*2.0f,(float)e.first,e.second.e}; D[o[1].i]=m; break; }
         case 35: { Nb m; for(auto& e:N) if(e.second.d<o[2].f) m.insert(e); D[o[1].i]=m; break; }
         case 37: case 47: D[o[1].i]=N; break;
         case 38: D[o[1].i]=Nb(); break;
         case 39: if(D.count(o[2].i)) { Nb m; for(auto& e:D[o[2].i]) if(e.first>o[3].i) m.insert(e); D[o[1].i]=m; } break;
         case 43: if(D.count(o[2].i)) { Nb m; for(auto& e:D[o[2].i]) m[e.first]={(float)e.first,e.second.a+1.0f,e.second.d}; D[o[1].i]=m; } break;
         case 44: { Nb m; if(o[3].i!=0) for(auto& e:N) if(e.first<=o[2].i) m.insert(e); D[o[1].i]=m; break; }
         case 48: case 49: case 56: case 57: {
            bool dr=o[0].i>=56, k=o[0].i==48||o[0].i==56; int s=o[2].i; if(!own.in(i,s) || (dr && !D.count(o[3].i))) break;
            Nb m; for(auto& e:dr?D[o[3].i]:N) if(kn.isin(i,e.first,s)==k) m.insert(e);
            probe(k?"in-swarm-kin":"in-swarm-nonkin"); if(!m.empty()) probe(k?"kin-nonempty":"nonkin-nonempty"); D[o[1].i]=m; break; }
         case 58: if(D.count(o[2].i)) D[o[1].i]=Nb(); break;
         case 45: if(D.count(o[2].i)) { Nb m=D[o[2].i]; D[o[1].i]=m; } break;
      }
   };
   // poses are compared as numbers: a map may have put integers where floats were
   auto numeq=[](const Val& v)->str { return v.k==Val::INT?Val::F((float)v.i).repr():v.repr(); };
   auto row=[&](const std::vector<Val>& a,size_t k){ return a[k].repr()+" "+numeq(a[k+1])+" "+numeq(a[k+2])+" "+numeq(a[k+3]); };
   auto want=[&](int i,int d){ return dv[i][d]; };
   w.on_event=[&](int i, const std::vector<Val>& a){
      const str& k=a[0].s; auto& N=nb[i]; auto& o=cur[i];
      if(k=="NC") { if(a[1]!=Val::I(N.size())) bad(i,"neighbors.count()",a[1].repr(),std::to_string(N.size())); probe("q-count"); }
      else if(k=="NF0"||k=="DF0") acc[i].clear();
      else if(k=="NF"||k=="DF") acc[i].insert(row(a,1));
      else if(k=="NF1") { if(acc[i]!=set(N)) bad(i,"neighbors.foreach()",mt(acc[i]),mt(set(N))); probe("q-foreach"); }
      else if(k=="NG") { auto x=N.find(a[1].i); str g=a[2].i?row(std::vector<Val>{a[1],a[3],a[4],a[5]},0):"nothing", e=x==N.end()?"nothing":pt(x->first,x->second); if(g!=e) bad(i,fmt("neighbors.get(%d)",a[1].i),g,e); probe("q-get"); }
      else if(k=="NR") { str g=txt(a), e="NR "+Val::I(N.size()).repr()+" "+Val::I(sum(N)).repr(); if(g!=e) bad(i,"neighbors.reduce()",g,e); probe("q-reduce"); }
      else if(k=="DC") cnt[i]=a[1].i;
      else if(k=="DF1") { int d=a[1].i; if(!dv[i].count(d)) return; Nb m=want(i,d); if(cnt[i]!=(int)m.size()) bad(i,"count() of a derived table",std::to_string(cnt[i]),std::to_string(m.size())); else if(acc[i]!=set(m)) bad(i,"foreach() of a derived table",mt(acc[i]),mt(set(m))); probe("q-derived"); }
      else if(k=="DG") { Nb m=want(i,a[1].i); auto x=m.find(a[2].i); str g=a[3].i?row(std::vector<Val>{a[2],a[4],a[5],a[6]},0):"nothing", e=x==m.end()?"nothing":pt(x->first,x->second); if(g!=e) bad(i,"get() of a derived table",g,e); }
      else if(k=="DR") { Nb m=want(i,a[1].i); str g=txt(a), e="DR "+a[1].repr()+" "+Val::I(m.size()).repr()+" "+Val::I(sum(m)).repr(); if(g!=e) bad(i,"reduce() of a derived table",g,e); }
      else if(k=="MC") { acc[i].clear(); cnt[i]=a[1].i; }
      else if(k=="MF"||k=="FF") acc[i].insert(txt(a));
      else if(k=="MF1") { std::multiset<str> e; for(auto& x:N) e.insert("MF "+Val::I(x.first).repr()+" "+(x.first%3==a[1].i?Val::nil():x.first%3==1?Val::I(0):Val::S("v")).repr()); if(acc[i]!=e || cnt[i]!=(int)N.size()) bad(i,fmt("map() with %d entries",cnt[i]),mt(acc[i]),mt(e)); probe("q-map-values"); }
      else if(k=="FF1") { std::multiset<str> e; for(auto& x:N) if(x.first%5==1||x.first%5==2||x.first%5==4) e.insert("FF "+Val::I(x.first).repr()+" "+Val::F(x.second.d).repr()); if(acc[i]!=e || cnt[i]!=(int)e.size()) bad(i,fmt("filter() with %d entries",cnt[i]),mt(acc[i]),mt(e)); probe("q-filter-values"); }
      else if(k=="RN") { Val e=N.empty()?Val::nil():Val::I((int)N.size()); if(a[1]!=e) bad(i,"reduce() from nil",a[1].repr(),e.repr()); }
      else if(k=="PF") acc[i].insert(txt(a));
      else if(k=="PF1") { std::multiset<str> e; for(auto& x:N) for(auto& y:N) if(x.first<y.first) e.insert("PF "+Val::I(x.first).repr()+" "+Val::I(y.first).repr()); if(acc[i]!=e) bad(i,"nested neighbors.foreach()",mt(acc[i]),mt(e)); }
   };
   for(long t=0;t<T && !violated();++t) w.tick();
   if(violated()) return;
   for(int i=0;i<w.n;++i) if(w.up[i]) { w.stall_until[i]=0; for(auto& e:dv[i]) w.enqueue(i,{Val::I(36),Val::I(e.first)}); w.enqueue(i,{Val::I(31)}); }
   w.tick();
   auto& pr=g_out->probes; g_out->nontrivial=pr["several-neighbours"]>0 && pr["q-foreach"]+pr["q-derived"]+pr["q-reduce"]>0;
}
RegProp r17("P17",gen17,run17,"seeded neighbourhoods (0-400 sensed robots per step, also re-sensed within a step, ids 0-65535) and compositions of neighbour queries (also kin and non-kin inside swarm executions) on 1-5 robots with collections in between; non-trivial: several neighbours and an enumeration; distinct by hash of the full event trace");
}
