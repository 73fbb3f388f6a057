// P08: malformed messages
#include "stig.hpp"
#include "bcast.hpp"
#include "swarms.hpp"
extern "C" {
#include <buzz/buzzmsg.h>
}
namespace {
void e8(Bytes& b, uint32_t x) { b.push_back(x); }
void e16(Bytes& b, uint32_t x) { e8(b,x>>8); e8(b,x); }
void e32(Bytes& b, uint32_t x) { e16(b,x>>16); e16(b,x); }
uint32_t wild(Rng& g) { static const uint32_t v[]={0,1,2,0x7f,0x80,0xff,0x7fff,0x8000,0xffff,0x10000,0x7fffffff,0x80000000u,0xffffffffu,3,4,5}; return g.chance(0.5)?v[g.below(16)]:(uint32_t)g.next(); }
void eval(Bytes& b, Rng& g, int depth) {        // a value, sometimes a wrong one
   int t=g.chance(0.08)?(int)wild(g)&255:g.below(6);
   e8(b,t);
   switch(t) {
      case 1: e32(b,g.chance(0.5)?g.below(9):wild(g)); break;
      case 2: e32(b,wild(g)); e32(b,g.chance(0.5)?g.range(-150,150):wild(g)); break;
      case 3: { int n=g.below(9); e16(b,g.chance(0.1)?wild(g):n); for(int i=0;i<n;++i) e8(b,g.chance(0.05)?g.below(256):g.range('a','e')); break; }
      case 4: { int n=depth>3?0:g.below(4); e8(b,g.chance(0.1)?wild(g):n); for(int i=0;i<n;++i) { if(g.chance(0.8)) { e8(b,3); e16(b,2); e8(b,'k'); e8(b,'a'+i); } else eval(b,g,depth+1); eval(b,g,depth+1); } break; }
      case 5: e8(b,g.chance(0.8)?g.below(2):wild(g)); e32(b,g.chance(0.5)?g.below(300):wild(g)); break;
   }
}
void estr(Bytes& b, const str& s) { e8(b,3); e16(b,s.size()); for(char c:s) e8(b,c); }
Bytes fresh(Rng& g, const Plan& p) {
   Bytes b; int k=g.chance(0.1)?(int)(g.next()&255):g.below(6); e8(b,k);
   switch(k) {
      case BUZZMSG_BROADCAST: if(g.chance(0.85)) estr(b,topic(g)); else eval(b,g,0); eval(b,g,0); break;
      case BUZZMSG_SWARM_LIST: { int n=g.below(5); e16(b,g.chance(0.2)?wild(g):n); for(int i=0;i<n;++i) e16(b,g.chance(0.7)?g.range(1,5):wild(g)); break; }
      case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: e16(b,g.chance(0.7)?g.range(1,5):wild(g)); break;
      case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY:
         e16(b,g.chance(0.8)?g.range(1,(int)p.geti("stigs",1)):wild(g));
         if(g.chance(0.8)) { Val key=gen_key(g,(int)p.geti("key0")+g.below((int)p.geti("keys",2))); if(key.k==Val::STR) estr(b,key.s); else if(key.k==Val::INT) { e8(b,1); e32(b,key.i); } else eval(b,g,0); } else eval(b,g,0);
         eval(b,g,0); e16(b,g.chance(0.8)?g.below(20):wild(g)); e16(b,g.chance(0.8)?g.range(1,6):wild(g)); break;
      default: for(int n=g.below(20);n>0;--n) e8(b,g.next()); 
   }
   return b;
}
void mutate(Bytes& b, Rng& g, const Bytes& other) {
   size_t n=b.size();
   switch(g.below(12)) {
      case 0: case 1: b.resize(g.below((int)n+1)); break;
      case 2: if(n) b.resize(n-1); break;
      case 3: for(int k=g.range(1,6);k>0;--k) b.push_back(g.next()); break;
      case 4: case 5: if(n) b[g.below((int)n)]^=1<<g.below(8); break;
      case 6: if(n) b[g.below((int)n)]=(uint8_t)wild(g); break;
      case 7: if(n) b[0]=g.chance(0.7)?g.below(8):(uint8_t)g.next(); break;
      case 8: if(n>1) { size_t k=1+g.below((int)std::min<size_t>(n-1,4)); b[k]=(uint8_t)wild(g); } break;
      case 9: if(n) b.erase(b.begin()+g.below((int)n)); break;
      case 10: b.insert(b.begin()+g.below((int)n+1),(uint8_t)wild(g)); break;
      case 11: { size_t k=g.below((int)n+1); b.resize(k); if(!other.empty()) { size_t q=g.below((int)other.size()); b.insert(b.end(),other.begin()+q,other.end()); } break; }
   }
}
// keys which the language itself does not tell apart reliably are left out
bool odd_key(const Val& k) {
   if(k.k==Val::FLT) return !(k.f!=(float)(int)k.f) || !(k.f>-1e6f && k.f<1e6f) || (k.f<1e-3f && k.f>-1e-3f);
   if(k.k==Val::STR) { if(k.s.empty()) return false; char c=k.s[0]; return (c>='0'&&c<='9')||c=='-'||c=='+'||c=='.'||c==' '||c=='i'||c=='n'||c=='I'||c=='N'; }
   return k.k!=Val::INT;
}
bool odd_val(const Val& v, int depth=0) {
   if(depth>5) return true;
   if(v.k==Val::TBL) for(auto& e:v.t) if(odd_key(e.first)||odd_val(e.second,depth+1)) return true;
   if(v.k==Val::FLT && v.f!=v.f) return true;
   return false;
}
bool usable(const Msg& m) {
   switch(m.k) {
      case Msg::BAD: return true;
      case Msg::BCAST: return !odd_val(m.value);
      case Msg::LIST: { std::set<int> s(m.ids.begin(),m.ids.end()); return s.size()==m.ids.size(); }
      case Msg::JOIN: case Msg::LEAVE: return true;
      case Msg::PUT: case Msg::QUERY: return !odd_key(m.key) && !odd_val(m.value) && m.ts<60000;
   }
   return false;
}
Plan gen08(uint64_t seed) {
   Rng g(seed*31+8); Plan p; p.seed=seed;
   int n=g.range(2,4); long T=g.range(6,35); gen_setup(p,g,n,T); p.setc("perpacket",1);
   int ns=g.range(1,2), nk=g.range(1,4), nw=g.range(1,4); p.setc("stigs",ns); p.setc("keys",nk); p.setc("key0",g.below(8)); p.setc("swarms",nw);
   gen_gc(p,g,0.3);
   std::vector<Val> K; for(int i=0;i<nk;++i) K.push_back(gen_key(g,(int)p.geti("key0")+i));
   std::vector<int> S; for(int i=1;i<=nw;++i) S.push_back(i);
   double a=g.range(5,50)/100.0, b=g.range(5,50)/100.0, c=g.range(5,40)/100.0, mal=g.range(10,90)/100.0; int tag=1;
   static const int pols[]={0,0,2,3,4,5,7,8}, cp[]={0,1,2,3,7,10,11};
   auto lst=[&](long t,int r){ p.add(op(t,r,9,{Val::S(topic(g)),Val::I(tag++),Val::I(pols[g.below(8)])})); };
   for(int r=0;r<n;++r) { for(int q=g.range(1,4);q>0;--q) lst(0,r); if(g.chance(0.4)) p.add(op(1,r,6,{Val::I(g.range(1,ns)),Val::I(cp[g.below(7)]),Val::I(tag++)})); }
   for(long t=0;t<T;++t) for(int r=0;r<n;++r) {
      if(g.chance(a)) { int s=g.range(1,ns); Val k=g.pick(K); if(g.chance(0.5)) p.add(op(t,r,2,{Val::I(s),k,g.chance(0.15)?Val():gen_val(g)})); else if(g.chance(0.7)) p.add(op(t,r,3,{Val::I(s),k})); else p.add(op(t,r,g.chance(0.5)?4:5,{Val::I(s)})); }
      if(g.chance(b)) p.add(op(t,r,8,{Val::S(topic(g)),bval(g)}));
      if(g.chance(0.05)) lst(t,r);
      if(g.chance(0.03)) p.add(op(t,r,10,{Val::S(topic(g))}));
      if(g.chance(c)) { if(g.chance(0.6)) gen_swop(p,g,t,r,S); else p.add(op(t,r,g.chance(0.5)?29:28,{Val::I(g.pick(S))})); }
      if(n>1) for(int q=g.chance(0.2)?g.range(2,8):1;q>0;--q) if(g.chance(mal)) p.add(fmt("mal %ld %d %d %d %d %d",t,r,(r+1+g.below(n-1))%n,g.chance(0.35)?-1:g.below(256),g.below(1000000000),g.below(8)));
   }
   NetGen k=random_net(g); gen_net(p,g,n,0,T,k);
   return p;
}
void run08(const Plan& p) {
   World w(p); Stig st(w); Bcast bc(w); Own ow(w); Know kn(w); long T=p.geti("ticks"); int ns=(int)p.geti("stigs",1), nk=(int)p.geti("keys",2), nw=(int)p.geti("swarms",1);
   std::vector<long> depth(w.n,0);
   w.on_boot=[&](int i){ for(int s=1;s<=ns;++s) w.enqueue(i,{Val::I(1),Val::I(s)}); for(int s=1;s<=nw;++s) w.enqueue(i,{Val::I(20),Val::I(s)}); };
   w.damage=[&](int i, const Line& l, Bytes& b){
      Rng g((uint64_t)l.num(5)+7); Bytes other; if(!w.captured.empty()) other=w.captured[(size_t)g.below((int)w.captured.size())];
      if(l.num(4)<0 || w.captured.empty()) { b=fresh(g,p); if(g.chance(0.4)) mutate(b,g,other); }
      else { b=w.captured[(size_t)l.num(4)%w.captured.size()]; for(int k=g.chance(0.3)?g.range(2,4):1;k>0;--k) mutate(b,g,other); }
      Msg m=decode(b); if(!usable(m)) return false;
      if(m.k==Msg::BAD) probe(b.empty()?"empty-message":fmt("malformed-kind-%d",b[0]>5?9:b[0]).c_str());
      else { probe("damaged-but-decodes"); if(m.k==Msg::PUT||m.k==Msg::QUERY) { Ver v; v.has=true; v.ts=m.ts; v.robot=m.robot; v.v=m.value; st.add_reg(m.stig,m.key.repr(),v); } }
      str h; for(size_t k=0;k<b.size()&&k<60;++k) h+=fmt("%02x",b[k]);
      ev(fmt("%ld %d damaged %zu ",w.t,w.ids[i],b.size())+h+" = "+m.text());
      return true;
   };
   w.on_op=[&](int i, std::vector<Val>& x){ if(x[0].i>=20&&x[0].i<30) ow.op(i,x); else { st.op(i,x); bc.op(i,x); } };
   w.on_event=[&](int i, const std::vector<Val>& a){
      if(a.empty()) return; const str& e=a[0].s; auto& B=kn.b[i];
      if(e=="B") bc.event(i,a);
      else if(e=="I") ow.event(i,a);
      else if(e=="G"||e=="Z"||e=="F0"||e=="F"||e=="F1") st.event(i,a);
      else if(e=="K0") { B.kin.clear(); B.non.clear(); B.sw=a[1].i; if(!ow.in(i,B.sw)) violation("exec",fmt("step %ld: robot %d executes for swarm %d without being in it",w.t,w.ids[i],B.sw)); }
      else if(e=="K") B.kin.insert(a[2].i);
      else if(e=="NK") B.non.insert(a[2].i);
      else if(e=="K1") { std::multiset<int> kin,non; for(int r:B.nb) (kn.isin(i,r,B.sw)?kin:non).insert(r);
         if(B.kin!=kin || B.non!=non) violation("kin",fmt("step %ld: robot %d in swarm %d sees kin %s and non-kin %s; its neighbours and what it heard say %s and %s",w.t,w.ids[i],B.sw,ms(B.kin).c_str(),ms(B.non).c_str(),ms(kin).c_str(),ms(non).c_str())); }
   };
   w.on_emit=[&](int i, const Bytes&, const Msg& m){ st.emit(i,m); bc.emit(i,m); ow.emit(i,m); };
   w.on_down=[&](int i){ st.reset(i); bc.bot[i]=Bcast::Bot(); ow.m[i].clear(); ow.ann[i].clear(); kn.b[i]=Know::Bot(); };
   w.before_in=[&](int i){ kn.b[i].nb.clear(); depth[i]=w.r[i]->stack_size(); };
   w.on_nbr=[&](int i,int id,float,float,float){ kn.b[i].nb.insert(id); };
   w.on_packet=[&](int i, const Packet& q){
      bc.bot[i].inproc=true;
      for(auto& x:q.msgs) { Msg m=decode(x);
         if(m.k==Msg::PUT||m.k==Msg::QUERY) st.apply(i,m);
         else if(m.k==Msg::BCAST) bc.bot[i].in[w.ids[q.from]].push_back({m.topic,m.value});
         else kn.msg(i,w.ids[q.from],m); }
   };
   w.after_in=[&](int i){
      bc.finish(i); kn.aged(i);
      if(w.r[i]->ready() && w.r[i]->stack_size()!=depth[i]) violation("stack",fmt("step %ld: processing messages changes the depth of robot %d's stack from %ld to %ld",w.t,w.ids[i],depth[i],w.r[i]->stack_size()));
   };
   w.after_tick=[&](int i){ ow.compare(i); };
   for(long t=0;t<T && !violated();++t) w.tick();
   if(violated()) return;
   for(int i=0;i<w.n;++i) if(w.up[i]) {
      w.stall_until[i]=0;
      for(int s=1;s<=ns;++s) { w.enqueue(i,{Val::I(4),Val::I(s)}); w.enqueue(i,{Val::I(5),Val::I(s)}); Rng g(1); for(int k=0;k<nk;++k) w.enqueue(i,{Val::I(3),Val::I(s),gen_key(g,(int)p.geti("key0")+k)}); }
      for(int s=1;s<=nw;++s) { w.enqueue(i,{Val::I(28),Val::I(s)}); w.enqueue(i,{Val::I(29),Val::I(s)}); }
   }
   w.tick();
   long bad=0; for(auto& e:g_out->probes) if(e.first.compare(0,9,"malformed")==0) bad+=e.second;
   g_out->nontrivial=bad>0 && (g_out->probes["handed-over"]>0 || g_out->probes["accept-new"]>0);
}
RegProp r08("P08",gen08,run08,"seeded stigmergy, broadcast and swarm traffic over 2-4 robots with damaged messages (captured or made up, then truncated, extended, spliced, bits flipped, lengths and types forged) arriving at arbitrary points; what each of them may do is predicted by an independent decoder and the reference models; non-trivial: at least one undecodable message arrived and a well-formed one was handed over or accepted; distinct by hash of the full event trace");
}
