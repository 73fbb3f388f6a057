// P10: robots in one process do not influence each other
#include "workload.hpp"
#include "fiber.hpp"
#include "seams.hpp"
namespace {
// a job is a small deployment of its own; its plan is written "j K line" in the plan of the run
Plan job_plan(const Plan& p, int k) {
   Plan q; str pre=fmt("j%d:",k); q.prop=p.prop;
   for(auto& l:p.cfg) if(l[1].compare(0,pre.size(),pre)==0) q.setc(l[1].substr(pre.size()),l[2]);
   for(auto& l:p.act) if(l[0]=="j" && l.num(1)==k) { Line x; x.w.assign(l.w.begin()+2,l.w.end()); q.act.push_back(x); }
   q.seed=strtoull(q.getc("seed","1").c_str(),0,10);
   return q;
}
// all deployments do the same kind of work at the same time, each with its own values
str focus(Rng& g, int what, int k) {
   str A=std::to_string(g.range(1,90)+100*k), B=std::to_string(g.range(2,9)), L="var q1 = 0 while(q1 < "+std::to_string(g.range(2,8))+") { q1 = q1 + 1 ";
   static const char* fn[]={"math.sin","math.cos","math.exp","math.sqrt","math.log","math.floor","math.round","math.atan"};
   switch(what) {
      case 0: return L+"simev(\"r\", math.rng.gaussian("+B+".0, "+A+".0), math.rng.uniform("+A+"), math.rng.exponential("+B+".0), math.rng.uniform("+A+".0, 1000.5)) }";
      case 1: return L+"var q2 = string.concat(\"k"+A+"\", string.tostring(q1 + "+A+"), string.tostring("+B+".5)) simev(\"s\", q2, string.sub(q2, 1, 4), string.length(q2), string.toint(string.sub(q2, 1, 3)), string.tofloat(string.sub(q2, 1))) }";
      case 2: return "var q3 = io.fopen(\"/w\", \"w\") "+L+"io.fwrite(q3, \"line\", "+A+" * q1, \" \", "+B+".25) } simev(\"z\", io.fsize(q3), io.errno) io.fclose(q3) q3 = io.fopen(\"/w\", \"r\") io.fforeach(q3, function(l) { simev(\"l\", l) }) io.fclose(q3) simev(\"e\", io.fopen(\"/no\", \"r\"), io.errno)";
      case 3: return L+"var q4 = {.a = q1, .b = {.c = "+A+", .d = \"x"+A+"\"}, ."+B+" = "+A+".5} simev(\"m\", map(q4, function(x, y) { return {.v = y} }), filter(q4, function(x, y) { return x == \"a\" }), reduce(q4, function(x, y, z) { return z + 1 }, "+A+"), clone(q4), size(q4)) foreach(q4, function(x, y) { simev(\"f\", x, y) }) }";
      case 4: return L+"st.put(q1 + "+A+", {.a = "+A+", .b = \"t"+A+"\"}) simev(\"g\", st.get(q1 + "+A+"), st.get(\"none"+A+"\"), st.size()) } st.foreach(function(x, y, z) { simev(\"sf\", x, y, z) })";
      case 5: return L+"neighbors.broadcast(\"a\", {.x = "+A+", .y = {.z = \"s"+A+"\", .w = "+B+".5}}) } neighbors.foreach(function(x, y) { simev(\"n\", x, y.distance, y.azimuth) }) simev(\"nm\", neighbors.map(function(x, y) { return y.distance * "+A+".0 }).reduce(function(x, y, z) { return z + y }, 0.0), neighbors.filter(function(x, y) { return y.distance > 10.0 }).count())";
      case 6: return "sw.join() "+L+"var q5 = swarm.create("+A+") q5.join() simev(\"w\", q5.in(), swarm.union("+B+", q5, sw).in(), swarm.difference(1"+B+", q5, sx).in(), q5.others(2"+B+").in()) q5.exec(function() { simev(\"x\", swarm.id(), neighbors.kin().count(), neighbors.nonkin().count()) sw.exec(function() { simev(\"y\", swarm.id(), swarm.id(1)) }) }) q5.select(q1 % 2) }";
      case 7: return L+"simev(\"h\", "+fn[g.below(8)]+"("+A+".25), "+fn[g.below(4)]+"("+B+".5), math.min("+A+", "+B+"), math.max("+A+".5, 1.0), math.abs(-"+A+"), "+A+" / 7.0, "+A+" % "+B+", "+B+" ^ 3) }";
      case 8: { static const char* bad[]={"size(%)","gs = % gs.x = 1","nosuch(%)","q9 = % + \"x\"","string.length(%)","foreach(%, %)","swarm.union(%, %, %)","st.put(nil, nil, %)"}; str b=bad[g.below(8)]; for(size_t i;(i=b.find('%'))!=str::npos;) b.replace(i,1,g.chance(0.5)?A:B+".5"); return "var q1 = 0 while(q1 < 9) { q1 = q1 + 1 simev(\"b\", "+A+") if(q1 == "+(g.chance(0.6)?str("1"):B)+") { "+b+" } }"; }
      case 9: return L+"gf = function(x, y) { var q6 = x + "+A+" return function(z) { return q6 + z + "+B+" } } simev(\"c\", gf(q1, 2)(3), type(gf), isnil(gf), gf(1, 1)(\"\" == \"\")) }";
      default: return "if(ga < "+B+") { sw.join() sx.join() } ga = ga + 1 sw.exec(function() { simev(\"x\", neighbors.kin().count(), neighbors.nonkin().count()) })";
   }
}
Plan gen_focus(uint64_t seed, Rng& g) {
   Plan p; p.seed=seed; int J=g.range(2,4), what=g.chance(0.1)?8:g.below(11); p.setc("jobs",J); p.setc("focus",what);
   static const long means[]={2,5,20,80,300}; p.setc("mean",what==10?means[g.range(2,4)]:means[g.chance(0.9)?g.range(1,4):0]);
   if(g.chance(0.6)) p.setc("rare",1<<g.range(1,5));
   long T=what==10?g.range(56,70):what==8?g.range(4,14):g.range(2,6); int n=what>=4&&what<=6?g.range(2,3):what==10?2:g.range(1,2); double loss=g.range(0,30)/100.0; long quiet=g.range(3,6);
   for(int k=0;k<J;++k) {
      Plan q; Rng h(g.next()); gen_setup(q,h,n,T); q.setc("kind","script"); q.setc("seed",std::to_string(1+h.below(1000000000)));
      q.add("f step "+focus(h,what,k));
      if(what==0) q.add(fmt("f init math.rng.setseed(%d)",h.range(1,1000)));
      if(what==8) for(int r=0;r<n;++r) for(long t=1;t+1<T;t+=2) { q.add(fmt("crash %ld %d",t,r)); q.add(fmt("restart %ld %d",t+1,r)); }
      if(what==10) { q.add(fmt("cut1 %ld 0 1",quiet)); q.add(fmt("cut1 %ld 1 0",quiet+h.below(2))); for(long t=quiet;t<T;++t) for(int r=0;r<2;++r) q.add(fmt("nbr %ld %d %ld 1.5 1 1",t,r,q.geti(fmt("id%d",1-r),2-r))); }
      else for(long t=0;t<T;++t) for(int a=0;a<n;++a) for(int b=0;b<n;++b) if(a!=b && h.chance(loss)) q.add(fmt("drop %ld %d %d",t,a,b));
      for(auto& l:q.cfg) p.setc(fmt("j%d:",k)+l[1],l[2]);
      for(auto& l:q.act) p.add(fmt("j %d ",k)+l.text());
   }
   return p;
}
Plan gen10(uint64_t seed) {
   Rng g(seed*31+10); Plan p; p.seed=seed;
   if(g.chance(0.4)) return gen_focus(seed,g);
   int J=g.range(2,4); p.setc("jobs",J);
   static const long means[]={5,20,80,300,1500,8000}; p.setc("mean",means[g.below(6)]);
   if(g.chance(0.3)) p.setc("rare",1<<g.range(1,5));
   std::vector<uint64_t> seeds;
   for(int k=0;k<J;++k) {
      uint64_t s = k>0 && g.chance(0.25) ? seeds[g.below(k)] : g.next()%1000000000; seeds.push_back(s);
      Rng h(s+11); Plan q; q.seed=s;
      bool script=h.chance(0.6); int n=script?h.range(1,2):h.range(1,2); long T=h.range(2,8);
      gen_setup(q,h,n,T); q.setc("kind",script?"script":"driver"); q.setc("seed",std::to_string(s));
      if(h.chance(0.5)) q.setc("perpacket",1);
      if(h.chance(0.3)) { q.setc("gc",GC_EVERYK); q.setc("gck",h.range(20,200)); }
      if(script) { gen_script(q,h); if(h.chance(0.25)) q.add(fmt("f step if(ga %% %d == %d) { %s }",h.range(2,4),h.below(2),h.chance(0.5)?"nosuch(1)":h.chance(0.5)?"ga = ga + \"x\"":"gt = 1 gt.x = 2")); }
      else { gen_mix(q,h,n,T,true); if(h.chance(0.3)) for(int r=0;r<n;++r) for(int x=h.range(1,3);x>0;--x) q.add(op(h.below((int)T),r,59,{Val::S(fmt("/f%d",r)),Val::I(h.range(0,20))})); }
      NetGen nk=random_net(h); if(h.chance(0.3)) nk.crash=0.1; gen_net(q,h,n,0,T,nk);
      for(auto& l:q.cfg) p.setc(fmt("j%d:",k)+l[1],l[2]);
      for(auto& l:q.act) p.add(fmt("j %d ",k)+l.text());
   }
   return p;
}
void job(const Plan& q, std::vector<str>& out) {
   TraceTap tap; g_clock_us=1000000; str src; Disk disk; g_disk=&disk;      // a disk of its own
   {
      World w(q);
      if(q.getc("kind")=="script") { src=script_of(q); w.program=src.c_str(); } else { mix_boot(w); mix_hooks(w); }
      std::vector<bool> err(w.n,false);
      w.allow_error=[&](int i){ if(!err[i]) { err[i]=true; evf("%ld %d error state %d: %s",w.t,w.ids[i],(int)w.r[i]->vm->state,w.r[i]->errmsg().c_str()); probe("script-error"); } return true; };
      w.on_down=[&](int i){ err[i]=false; };
      long T=q.geti("ticks");
      for(long t=0;t<T && !violated();++t) w.tick();
      for(int i=0;i<w.n;++i) if(w.up[i] && w.r[i]->vm) evf("%d ends with %ld values on its stack",w.ids[i],w.r[i]->stack_size());
   }
   g_disk=nullptr; out=tap.v;
}
void run10(const Plan& p) {
   int J=(int)p.geti("jobs",2); std::vector<Plan> q; std::vector<std::vector<str>> alone(J), inter(J);
   for(int k=0;k<J;++k) q.push_back(job_plan(p,k));
   // programs are compiled beforehand: the compiler is not part of a robot
   std::vector<Code> keep;
   for(int k=0;k<J;++k) { if(q[k].getc("kind")=="script") compile(script_of(q[k])); else compile(DRIVER); }
   for(int k=0;k<J && !violated();++k) job(q[k],alone[k]);
   if(violated()) return;
   std::vector<std::function<void()>> jobs;
   for(int k=0;k<J;++k) jobs.push_back([&,k]{ job(q[k],inter[k]); });
   long sw=0; bool tapless=true;
   Fibers::run(jobs,p.seed,p.geti("mean",30),sw,(int)p.geti("rare",0));
   if(violated()) return;
   fault("context-switch",sw);
   for(int k=0;k<J;++k) { str d=trace_diff(alone[k],inter[k],"alone","interleaved with the others"); if(!d.empty()) { violation("interference",fmt("job %d of %d: ",k,J)+d); return; } }
   size_t n=0; for(auto& a:alone) n+=a.size();
   g_out->nontrivial=sw>50 && n>20;
}
RegProp r10("P10",gen10,run10,"2-4 small deployments (generated scripts or driver operations, in 40% of the runs all of them busy with the same kind of work; some failing, crashing or restarting) run one after the other and then interleaved at basic blocks of the library under a seeded schedule (on average 5-8000 blocks between switches); each trace must be the same; non-trivial: more than 50 switches; distinct by hash of the full event trace");
}
