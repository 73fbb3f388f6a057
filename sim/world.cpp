#include "world.hpp"
#include <cmath>

std::vector<std::vector<bool>> topology(const str& name, int n, uint64_t seed) {
   std::vector<std::vector<bool>> m(n,std::vector<bool>(n,false));
   auto on=[&](int a,int b){ if(a!=b) m[a][b]=m[b][a]=true; };
   if(name=="line") for(int i=0;i+1<n;++i) on(i,i+1);
   else if(name=="ring") for(int i=0;i<n;++i) on(i,(i+1)%n);
   else if(name=="star") for(int i=1;i<n;++i) on(0,i);
   else if(name=="rand") { Rng g(seed+77); for(int i=1;i<n;++i) on(i,g.below(i)); for(int i=0;i<n;++i) if(g.chance(0.5)) on(g.below(n),g.below(n)); }
   else for(int i=0;i<n;++i) for(int j=0;j<n;++j) on(i,j);
   return m;
}
World::World(const Plan& p):plan(p) {
   n=(int)p.geti("robots",3);
   for(int i=0;i<n;++i) ids.push_back((int)p.geti(fmt("id%d",i),i+1));
   for(int i=0;i<n;++i) r.emplace_back(new Robot);
   up.assign(n,false); stall_until.assign(n,0); bw.assign(n,p.geti("bw",-1)); booted_at.assign(n,-1); boots.assign(n,0);
   link=topology(p.getc("topo","full"),n,p.seed);
   queue.resize(n); qpos.assign(n,0);
   perpacket=p.geti("perpacket",0);
   for(int i=0;i<n;++i) { r[i]->gc.mode=(int)p.geti("gc",0); r[i]->gc.k=p.geti("gck",1); r[i]->gc.seed=p.seed; }
   for(auto& l : p.act) {
      long T=l.num(1);
      last_tick=std::max(last_tick,T);
      if(l[0]=="op") {
         std::vector<Val> o; o.push_back(Val::I((int)l.num(3)));
         for(size_t i=4;i<l.n();++i) o.push_back(Val::from(l[i]));
         ops[{T,(int)l.num(2)}].push_back(o);
      }
      else if(l[0]=="drop"||l[0]=="dup"||l[0]=="delay"||l[0]=="mdrop") netacts[{T,{(int)l.num(2),(int)l.num(3)}}].push_back(l);
      else if(l[0]=="mal") mals[{T,(int)l.num(2)}].push_back(l);
      else if(l[0]=="nbr") nbrs[{T,(int)l.num(2)}].push_back(l);
      else tickacts[T].push_back(l);
   }
}
void World::boot(int i) {
   up[i]=true; booted_at[i]=t; ++boots[i];
   evf("%ld boot %d",t,ids[i]);
   Robot& R=*r[i];
   R.on_event=[this,i](Robot&, const std::vector<Val>& a){
      str s=fmt("%ld %d ev",t,ids[i]); for(auto& v:a) s+=" "+v.repr(); ev(s);
      if(on_event) on_event(i,a);
   };
   R.next_op=[this,i](Robot&, std::vector<Val>& o){
      if(qpos[i]>=queue[i].size()) return false;
      o=queue[i][qpos[i]++];
      str s=fmt("%ld %d op",t,ids[i]); for(auto& v:o) s+=" "+v.repr(); ev(s);
      if(on_op) on_op(i,o);
      return true;
   };
   queue[i].clear(); qpos[i]=0;
   if(on_boot) on_boot(i);
   running=i;
   const Code& c=compile(program?program:DRIVER);
   if(!c.ok) { violation("compile","the program does not compile: "+c.err); return; }
   if(!R.boot(ids[i],c) && !(allow_error && R.vm && allow_error(i))) violation("robot-error",fmt("robot %d cannot boot: ",ids[i])+R.errmsg());
   queue[i].clear(); qpos[i]=0;
   running=-1;
}
static uint32_t mix(uint64_t a, uint64_t b, uint64_t c) { uint64_t z=a*0x9E3779B97F4A7C15ull+b*0xBF58476D1CE4E5B9ull+c*0x94D049BB133111EBull; z^=z>>31; z*=0x9E3779B97F4A7C15ull; z^=z>>29; return (uint32_t)z; }
void World::send(int i) {
   Robot& R=*r[i];
   std::vector<Bytes> msgs; Bytes b; long k=0;
   while((bw[i]<0||k<bw[i]) && R.take_msg(b)) {
      Msg m=decode(b);
      if(log_msgs) ev(fmt("%ld %d emit ",t,ids[i])+m.text());
      if(on_emit) on_emit(i,b,m);
      msgs.push_back(b); ++k;
      if(captured.size()<256) captured.push_back(b); else captured[(size_t)(seq*7+k)%256]=b;
      if(k>20000) { violation("flood",fmt("robot %d has more than 20000 messages to send in one step",ids[i])); return; }
   }
   for(int j=0;j<n;++j) if(j!=i) {
      if(!link[i][j]) { if(!quiet && !msgs.empty()) fault("partitioned-packet"); continue; }
      Packet p; p.due=t+1; p.seq=seq++; p.from=i; p.to=j; p.sent=t; p.msgs=msgs;
      uint32_t h=mix(t,ids[i],ids[j]);
      p.d=(h%1000)/10.0f; p.a=((h>>10)%628)/100.0f; p.e=((h>>20)%314)/100.0f;
      bool dead=false;
      if(!quiet) {
         auto f=netacts.find({t,{i,j}});
         if(f!=netacts.end()) for(auto& l : f->second) {
            if(l[0]=="drop") { dead=true; fault("packet-loss"); }
            else if(l[0]=="delay") { p.due=t+l.num(4); fault(l.num(4)==0?"packet-same-tick":"packet-delay"); }
            else if(l[0]=="dup") { Packet q=p; q.due=t+l.num(4); q.seq=seq++; air.push_back(q); fault("packet-duplicate"); }
            else if(l[0]=="mdrop") { if(!p.msgs.empty()) { p.msgs.erase(p.msgs.begin()+l.num(4)%p.msgs.size()); fault("message-loss"); } }
         }
      }
      if(!dead) air.push_back(p);
   }
}
void World::run_robot(int i) {
   Robot& R=*r[i];
   // operations of this tick
   auto o=ops.find({t,i});
   if(o!=ops.end()) for(auto& x : o->second) queue[i].push_back(x);
   running=i;
   if(R.ready()) R.begin();
   // packets that are due
   std::vector<Packet> in;
   for(size_t k=0;k<air.size();) if(air[k].to==i && air[k].due<=t) { in.push_back(air[k]); air.erase(air.begin()+k); } else ++k;
   std::stable_sort(in.begin(),in.end(),[](const Packet& a,const Packet& b){ return a.due!=b.due ? a.due<b.due : a.seq<b.seq; });
   auto ml=mals.find({t,i});
   if(ml!=mals.end() && damage) for(auto& l : ml->second) {
      Packet q; q.due=t; q.seq=seq++; q.from=(int)l.num(3)%n; q.to=i; q.sent=t; q.d=1; q.a=2; q.e=3; Bytes b;
      if(q.from==i || !damage(i,l,b)) continue;
      q.msgs.push_back(b); in.insert(in.begin()+l.num(6)%(in.size()+1),q); fault("damaged-message");
   }
   if(before_in) before_in(i);
   auto nb=nbrs.find({t,i});
   if(nb!=nbrs.end() && R.ready()) for(auto& l : nb->second) {
      float d=strtof(l[4].c_str(),0), a=strtof(l[5].c_str(),0), e=strtof(l[6].c_str(),0);
      if(on_nbr) on_nbr(i,(int)l.num(3),d,a,e);
      R.add_neighbor((uint16_t)l.num(3),d,a,e);
   }
   long maxsent=-1;
   for(auto& p : in) {
      if(p.sent<maxsent) fault("packet-reordered");
      maxsent=std::max(maxsent,p.sent);
      if(on_packet) on_packet(i,p);
      if(on_nbr) on_nbr(i,ids[p.from],p.d,p.a,p.e);
      if(R.ready()) R.add_neighbor(ids[p.from],p.d,p.a,p.e);
      for(auto& m : p.msgs) R.deliver(ids[p.from],m);
      if(perpacket) { if(R.ready()) R.process_in(); if(after_in) after_in(i); }
   }
   if(!perpacket) { if(R.ready()) R.process_in(); if(after_in) after_in(i); }
   if(before_step) before_step(i);
   if(R.ready()) R.step();
   queue[i].clear(); qpos[i]=0;
   if(g_out) g_out->simsteps++;
   if(after_step) after_step(i);
   if(R.ready()) R.process_out();
   if(!R.ready() && !(allow_error && allow_error(i)))
      violation("robot-error",fmt("robot %d is in the error state at step %ld: ",ids[i],t)+R.errmsg());
   if(R.ready()) send(i);
   if(after_tick) after_tick(i);
   running=-1;
}
void World::tick() {
   if(t==0) for(int i=0;i<n;++i) boot(i);
   auto a=tickacts.find(t);
   if(a!=tickacts.end()) for(auto& l : a->second) {
      int x=(int)l.num(2), y=(int)l.num(3);
      if(l[0]=="cut") { if(!quiet && x<n && y<n) { link[x][y]=link[y][x]=false; fault("link-cut"); evf("%ld cut %d %d",t,x,y); } }
      else if(l[0]=="cut1") { if(!quiet && x<n && y<n) { link[x][y]=false; fault("link-cut-oneway"); } }
      else if(l[0]=="heal") { if(!quiet && x<n && y<n) { link[x][y]=link[y][x]=true; fault("link-heal"); } }
      else if(l[0]=="crash") { if(!quiet && up[x]) { evf("%ld crash %d",t,ids[x]); if(on_down) on_down(x); r[x]->destroy(); up[x]=false; fault("crash"); } }
      else if(l[0]=="restart") { if(!up[x]) { boot(x); fault("restart"); } }
      else if(l[0]=="stall") { if(!quiet) { stall_until[x]=t+y; fault("stall"); } }
      else if(l[0]=="bw") { bw[x]=y; fault("bandwidth-change"); }
      else if(l[0]=="gc") { r[x]->gc.mode=y; r[x]->gc.k=l.num(4,1); fault("gc-schedule"); }
      if(violated()) return;
   }
   for(int i=0;i<n;++i) {
      if(!up[i]) {   // packets to a robot that is down are lost
         for(size_t k=0;k<air.size();) if(air[k].to==i && air[k].due<=t) { if(!air[k].msgs.empty()) fault("lost-while-down"); air.erase(air.begin()+k); } else ++k;
         continue;
      }
      if(stall_until[i]>t) continue;
      run_robot(i);
      if(violated()) return;
   }
   ++t; g_clock_us+=100000;
}
void World::heal_all() {
   quiet=true;
   auto base=topology(plan.getc("topo","full"),n,plan.seed);
   link=base;
   for(int i=0;i<n;++i) { stall_until[i]=0; if(!up[i]) boot(i); }
   for(auto& p : air) p.due=std::min(p.due,t+1);
}
std::vector<int> World::component(int s) const {
   std::vector<int> q={s}; std::vector<bool> seen(n,false); seen[s]=true;
   for(size_t k=0;k<q.size();++k) for(int j=0;j<n;++j) if(link[q[k]][j] && !seen[j]) { seen[j]=true; q.push_back(j); }
   return q;
}
int World::diameter() const {
   int d=0;
   for(int s=0;s<n;++s) { std::vector<int> dist(n,-1); dist[s]=0; std::vector<int> q={s}; for(size_t k=0;k<q.size();++k) for(int j=0;j<n;++j) if(link[q[k]][j]&&dist[j]<0) { dist[j]=dist[q[k]]+1; d=std::max(d,dist[j]); q.push_back(j); } }
   return d;
}

// ------------------------------------------------------------ generators
NetGen random_net(Rng& g, bool crashes) {
   NetGen k;
   if(g.chance(0.6)) k.drop=g.range(1,40)/100.0;
   if(g.chance(0.5)) k.dup=g.range(1,30)/100.0;
   if(g.chance(0.6)) k.delay=g.range(1,40)/100.0;
   if(g.chance(0.3)) k.mdrop=g.range(1,15)/100.0;
   if(g.chance(0.4)) k.cut=g.range(1,10)/100.0;
   if(crashes && g.chance(0.3)) k.crash=g.range(1,5)/100.0;
   if(g.chance(0.3)) k.stall=g.range(1,8)/100.0;
   if(g.chance(0.3)) k.zero=g.range(1,20)/100.0;
   return k;
}
void gen_net(Plan& p, Rng& g, int n, long from, long to, const NetGen& k) {
   for(long t=from;t<to;++t) {
      for(int a=0;a<n;++a) for(int b=0;b<n;++b) if(a!=b) {
         if(g.chance(k.drop)) p.add(fmt("drop %ld %d %d",t,a,b));
         else {
            if(g.chance(k.delay)) p.add(fmt("delay %ld %d %d %d",t,a,b,g.range(2,g.chance(0.2)?20:6)));
            else if(g.chance(k.zero)) p.add(fmt("delay %ld %d %d 0",t,a,b));
            if(g.chance(k.dup)) p.add(fmt("dup %ld %d %d %d",t,a,b,g.range(1,g.chance(0.2)?20:5)));
            if(g.chance(k.mdrop)) p.add(fmt("mdrop %ld %d %d %d",t,a,b,g.below(8)));
         }
      }
      if(n>1 && g.chance(k.cut)) { int a=g.below(n), b=(a+1+g.below(n-1))%n; p.add(fmt("%s %ld %d %d",g.chance(0.2)?"cut1":"cut",t,a,b)); p.add(fmt("heal %ld %d %d",t+g.range(1,15),a,b)); }
      if(g.chance(k.crash)) { int a=g.below(n); p.add(fmt("crash %ld %d",t,a)); p.add(fmt("restart %ld %d",t+g.range(1,10),a)); }
      if(g.chance(k.stall)) p.add(fmt("stall %ld %d %d",t,g.below(n),g.range(1,8)));
   }
}
void gen_setup(Plan& p, Rng& g, int n, long ticks) {
   p.setc("robots",n); p.setc("ticks",ticks);
   static const char* topo[]={"full","line","ring","star","rand"};
   p.setc("topo",topo[g.below(5)]);
   if(g.chance(0.3)) { std::set<int> used; for(int i=0;i<n;++i) { int x; do x= g.chance(0.3)? g.range(1,65535) : g.range(1,40); while(used.count(x)); used.insert(x); p.setc(fmt("id%d",i),x); } }
}
void gen_gc(Plan& p, Rng& g, double chance) {      // collection schedule: dense ones are expensive
   if(!g.chance(chance)) return;
   int m=g.below(20);
   if(m==0 && p.geti("ticks")<=15) p.setc("gc",GC_EVERY);
   else if(m<5) p.setc("gc",GC_NEVER);
   else { p.setc("gc",m<12?GC_EVERYK:GC_RANDOM); p.setc("gck",g.chance(0.2)?g.range(3,20):g.range(20,300)); }
}
Val gen_key(Rng& g, int which) {
   switch(which%12) {
      case 0: return Val::S("k");
      case 1: return Val::I(1);
      case 2: return Val::S("a longer key with spaces");
      case 3: return Val::F(2.5f);
      case 4: return Val::I(-7);
      case 5: return Val::S("");
      case 6: return Val::I(100000);
      case 7: return Val::F(-0.125f);
      case 8: return Val::F(-0.12500001f);
      case 9: return Val::F(-0.125001f);
      case 10: return Val::I(-100000);
      default: return Val::S("K");
   }
}
Val gen_val(Rng& g, int depth, bool tables) {
   switch(g.below(tables?7:5)) {
      case 0: case 1: return Val::I(g.chance(0.2) ? (int32_t)g.next() : g.range(-100,100));
      case 2: { static const float fs[]={0.5f,-1.25f,3.4e38f,1e-40f,1e-30f,123456.789f,0.0f,-7e-5f,16777216.0f,0.1f}; return Val::F(g.chance(0.5)?fs[g.below(10)]:(float)((int32_t)g.next())/1000.0f); }
      case 3: { str s; int n=g.chance(0.1)?g.range(200,400):g.below(12); for(int i=0;i<n;++i) s+=(char)(g.chance(0.1)?g.range(1,255):g.range('a','z')); return Val::S(s); }
      case 4: return Val::S(fmt("v%d",g.below(1000)));
      default: {
         Val t=Val::T(); int n=g.below(5);
         if(depth==0 && g.chance(0.04)) { for(n=g.range(20,250);n>0;--n) t.put(g.chance(0.8)?Val::I(g.below(2000)):Val::S(fmt("g%d",g.below(500))),g.chance(0.7)?Val::I(g.range(-9,9)):Val::S("w")); return t; }
         for(int i=0;i<n;++i) t.put(g.chance(0.1)?Val::F(g.below(9)+0.5f):g.chance(0.5)?Val::I(g.chance(0.1)?-g.range(1,300):g.below(20)):Val::S(fmt("f%d",g.below(10))), gen_val(g,depth+1,depth<2||(depth<7&&g.chance(0.15))));
         return t; }
   }
}
