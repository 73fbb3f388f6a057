// P15: debugging does not change what a program does
#include "workload.hpp"
#include <cstring>
extern "C" {
#include <buzz/buzzdebug.h>
}
namespace {
enum { PLAIN, STEPPED, DEBUGGED };
struct At { int32_t pc; size_t nev; long stack; };
struct Call { std::vector<At> v; bool ok=false; };
struct Ref { std::vector<std::vector<Call>> calls; std::vector<std::vector<int32_t>> pcs; };
const uint64_t BUDGET=600ull*1000*1000;

Plan gen15(uint64_t seed) {
   Rng g(seed*31+15); Plan p; p.seed=seed;
   bool script=g.chance(0.75); int n=g.range(1,3); long T=script?g.range(1,6):g.range(2,6);
   gen_setup(p,g,n,T); p.setc("kind",script?"script":"driver");
   if(script && g.chance(0.04)) p.setc("big",g.chance(0.6)?g.range(1800,2400):g.range(3600,4000));       // code beyond 32K and 64K
   if(g.chance(0.4)) p.setc("perpacket",1);
   if(g.chance(0.2)) { p.setc("gc",GC_EVERYK); p.setc("gck",g.range(3,60)); }
   if(script) {
      gen_script(p,g);
      if(g.chance(0.25)) p.add(fmt("f step if(ga %% %d == %d) { %s }",g.range(2,4),g.below(2),g.chance(0.5)?"nosuch(1)":g.chance(0.5)?"ga = ga + \"x\"":"gt = 1 gt.x = 2"));
      for(int k=g.below(4);k>0;--k) p.add(fmt("hc %ld %d %d %d",(long)g.below((int)T),g.below(n),g.range(0,6),g.range(0,9)));
   }
   else gen_mix(p,g,n,T,g.chance(0.5));
   for(int r=0;r<n;++r) {
      int W=g.range(3,60), style=g.below(4); double dens=g.chance(0.3)?0.8:g.chance(0.5)?0.3:0.1;
      for(int k=g.range(1,style==0?12:4);k>0;--k) p.add(fmt("bp %d 0 set %d",r,g.below(100000)));
      for(int w=0;w<W;++w) if(g.chance(dens)) {
         int k=g.below(10);
         p.add(fmt("bp %d %d %s %d",r,w, k<4?"set":k<5?"setany":k<6?"line":k<8?"rm":k<9?(g.chance(0.3)?"clear":"dump"):"here", g.below(100000)));
      }
   }
   gen_net(p,g,n,0,T,random_net(g,g.chance(0.3)));
   return p;
}
struct Dbg {                                  // the debugger's side: one per robot
   buzzdebug_t d=nullptr; std::set<int32_t> on;     // the model's enabled breakpoints
   std::map<long,std::vector<Line>> acts; long when=0, stops=0; size_t call=0;
   std::vector<int32_t> offs, lines;                // offsets in the debug information
};
struct Pass {
   const Plan& p; int mode; Ref& ref; bool expect; TraceTap tap; std::vector<Dbg> D; str src; std::vector<str> stoplog; long stops=0, same=0;
   Pass(const Plan& pl, int m, Ref& r, bool e):p(pl),mode(m),ref(r),expect(e) {}
   ~Pass() { for(auto& d:D) if(d.d) buzzdebug_destroy(&d.d); }
   void decide(int i, Robot& R) {
      Dbg& d=D[i]; auto it=d.acts.find(d.when++); if(it==d.acts.end()) return;
      for(auto& l:it->second) {
         long a=l.num(4);
         auto set=[&](int32_t off){ buzzdebug_breakpoint_set_offset(d.d,off); if(!d.on.insert(off).second) probe("breakpoint-set-twice"); };
         if(l[3]=="set") { auto& v=ref.pcs[i]; if(!v.empty()) set(v[a%v.size()]); }
         else if(l[3]=="setany") set((int32_t)(a%(R.code->bc.size()+10)));
         else if(l[3]=="here") set(R.vm->pc);
         else if(l[3]=="line") {
            if(d.offs.empty()) continue;
            int32_t off=d.offs[a%d.offs.size()]; const buzzdebug_entry_t* e=buzzdebug_info_get_fromoffset(d.d,&off);
            if(!e) { violation("debug-info",fmt("offset %d has lost its position",off)); return; }
            const int32_t* o=buzzdebug_info_get_fromscript(d.d,(*e)->line,(*e)->col,(*e)->fname);
            if(!o) { violation("debug-info",fmt("position %lu:%lu of offset %d has no offset",(unsigned long)(*e)->line,(unsigned long)(*e)->col,off)); return; }
            // a position stands for the first instruction of what the script has there
            int32_t first=off; for(int32_t q:d.offs) { const buzzdebug_entry_t* x=buzzdebug_info_get_fromoffset(d.d,&q); if(x && (*x)->line==(*e)->line && (*x)->col==(*e)->col && !strcmp((*x)->fname,(*e)->fname)) { first=q; break; } }
            if(*o!=first) { violation("debug-info",fmt("position %lu:%lu starts at offset %d and a breakpoint there is set at %d",(unsigned long)(*e)->line,(unsigned long)(*e)->col,first,*o)); return; }
            set(*o); probe("breakpoint-by-position");
         }
         else if(l[3]=="rm") {
            int64_t c=buzzdebug_breakpoint_count(d.d); if(c<1) continue;
            int32_t off=buzzdebug_breakpoint_get_offset(d.d,a%c); buzzdebug_breakpoint_remove(d.d,a%c); d.on.erase(off); probe("breakpoint-removed");
         }
         else if(l[3]=="clear") { buzzdebug_breakpoint_clear(d.d); d.on.clear(); probe("breakpoints-cleared"); }
         else if(l[3]=="dump") { char* b=nullptr; size_t z=0; FILE* f=open_memstream(&b,&z); if(f) { buzzdebug_stack_dump(R.vm,1,f); fclose(f); free(b); probe("stack-dumped"); } }
      }
      std::set<int32_t> have; for(int64_t k=0;k<(int64_t)buzzdebug_breakpoint_count(d.d);++k) have.insert(buzzdebug_breakpoint_get_offset(d.d,k));
      if(have!=d.on) violation("breakpoint-set",fmt("robot %d: %zu breakpoints are listed and %zu are set",R.id,have.size(),d.on.size()));
      for(int32_t o:d.on) if(!buzzdebug_breakpoint_exists(d.d,o)) violation("breakpoint-set",fmt("breakpoint %d does not exist after it was set",o));
   }
   bool run(int i, Robot& R, const char* f, const std::vector<int>& a) {
      buzzvm_t vm=R.vm; Dbg& d=D[i];
      if(vm->state!=BUZZVM_STATE_READY && vm->state!=BUZZVM_STATE_DONE) return false;
      if(mode==STEPPED) {
         ref.calls[i].push_back(Call()); Call& c=ref.calls[i].back();
         auto rec=[&]{ c.v.push_back({vm->pc,tap.v.size(),R.stack_size()}); };
         if(!f) { while(vm->state==BUZZVM_STATE_READY) { rec(); buzzvm_step(vm); } c.ok=vm->state==BUZZVM_STATE_DONE; return c.ok; }
         vm->state=BUZZVM_STATE_READY;
         buzzvm_pushs(vm,buzzvm_string_register(vm,f,0)); buzzvm_gload(vm); buzzobj_t fn=buzzvm_stack_at(vm,1); buzzvm_pop(vm);
         if(fn->o.type!=BUZZTYPE_CLOSURE) return false;
         buzzvm_pushnil(vm); buzzvm_push(vm,fn); for(int x:a) buzzvm_pushi(vm,x);
         buzzvm_pushi(vm,a.size()); long depth=R.stacks();
         if(buzzvm_callc(vm)==BUZZVM_STATE_READY) while(R.stacks()>depth) { rec(); if(buzzvm_step(vm)!=BUZZVM_STATE_READY) break; }
         c.ok=vm->state==BUZZVM_STATE_READY; return c.ok;
      }
      // debugged
      if(d.stops>300) { buzzdebug_breakpoint_clear(d.d); d.on.clear(); }
      decide(i,R);
      const Call* c=nullptr; size_t at=0; bool here=false;
      if(expect && d.call<ref.calls[i].size()) c=&ref.calls[i][d.call];
      ++d.call;
      buzzvm_state s;
      bb_budget(BUDGET);
      if(f) { for(int x:a) buzzvm_pushi(vm,x); s=buzzdebug_function_call(vm,f,a.size(),d.d); } else s=buzzdebug_continue(vm,d.d);
      while(!violated()) {
         if(c) {
            size_t j=at; while(j<c->v.size() && !d.on.count(c->v[j].pc)) ++j;
            if(s==BUZZVM_STATE_STOPPED) {
               if(j>=c->v.size()) {
                  // the instruction a function returns to may hold a breakpoint, too
                  if(!(f && here && d.on.count(vm->pc) && R.stacks()<=1)) { violation("stop-nowhere",fmt("robot %d, call %zu (%s): stopped at %d after %ld stops, where no enabled breakpoint is reached",R.id,d.call,f?f:"script",vm->pc,d.stops)); return false; }
               }
               else {
                  const At& x=c->v[j];
                  if(vm->pc!=x.pc || tap.v.size()!=x.nev || R.stack_size()!=x.stack) { violation("stop-wrong",fmt("robot %d, call %zu (%s): stopped at %d with %zu events and %ld values on the stack; the next enabled breakpoint reached is %d with %zu events and %ld values",R.id,d.call,f?f:"script",vm->pc,tap.v.size(),R.stack_size(),x.pc,x.nev,x.stack)); return false; }
                  if(at>0 && x.pc==c->v[at-1].pc) { ++same; probe("same-breakpoint-again"); }
                  if(R.stacks()>1) probe("stop-inside-function");
               }
            }
            else if(j<c->v.size()) { violation("breakpoint-missed",fmt("robot %d, call %zu (%s): breakpoint %d was reached and the program did not stop (ended in state %d %s)",R.id,d.call,f?f:"script",c->v[j].pc,(int)s,R.errmsg().c_str())); return false; }
            at=j+1;
         }
         if(s!=BUZZVM_STATE_STOPPED) break;
         if(vm->state!=BUZZVM_STATE_STOPPED) { violation("stop-state",fmt("robot %d: the debugger answers stopped and the robot is in state %d",R.id,(int)vm->state)); return false; }
         ++d.stops; ++stops; here=true;
         stoplog.push_back(fmt("%d:%zu:%d:%zu",i,d.call,vm->pc,tap.v.size()));
         if(d.stops>300) { buzzdebug_breakpoint_clear(d.d); d.on.clear(); probe("stop-limit"); }
         decide(i,R); bb_budget(BUDGET);
         s=buzzdebug_continue(vm,d.d);
      }
      if(f && s==BUZZVM_STATE_DONE) { vm->state=BUZZVM_STATE_READY; return true; }
      return f ? s==BUZZVM_STATE_READY : s==BUZZVM_STATE_DONE;
   }
   void go() {
      World w(p); D.resize(w.n);
      if(mode==STEPPED) { ref.calls.assign(w.n,{}); ref.pcs.assign(w.n,{}); }
      if(p.getc("kind")=="script") { src=""; if(p.geti("big")) { src="function bigpad(x) {\n"; for(long k=0;k<p.geti("big");++k) src+="x = x + 1\n"; src+="}\n"; } src+=script_of(p)+"function one(n) {\n  var q = n + 1\n  simev(\"one\", q)\n  return q\n}\n"; w.program=src.c_str(); } else { mix_boot(w); mix_hooks(w); }
      const Code& code=compile(w.program?w.program:DRIVER);
      if(mode==DEBUGGED) {
         Disk disk; disk.files["/d.bdb"]=code.dbg; Disk* old=g_disk; g_disk=&disk;
         for(auto& d:D) {
            d.d=buzzdebug_new();
            if(!buzzdebug_fromfile(d.d,"/d.bdb")) { violation("debug-info","the debug information cannot be read"); break; }
            buzzdict_foreach(d.d->off2script,[](const void* k,void*,void* v){ ((std::vector<int32_t>*)v)->push_back(*(int32_t*)k); },&d.offs); std::sort(d.offs.begin(),d.offs.end());
         }
         disk_close_all(); g_disk=old;
         for(auto& l:p.act) if(l[0]=="bp" && l.num(1)<w.n) D[l.num(1)].acts[l.num(2)].push_back(l);
         if(violated()) return;
      }
      if(mode!=PLAIN) for(int i=0;i<w.n;++i) w.r[i]->runner=[this,i](Robot& R,const char* f,const std::vector<int>& a){ return run(i,R,f,a); };
      std::map<std::pair<long,int>,std::vector<Line>> hc; for(auto& l:p.act) if(l[0]=="hc") hc[{l.num(1),(int)l.num(2)}].push_back(l);
      w.after_step=[&](int i){
         auto it=hc.find({w.t,i}); if(it==hc.end()) return; Robot& R=*w.r[i];
         for(auto& l:it->second) {
            if(!R.ready()) return;
            long k=l.num(3), s0=R.stack_size(); std::vector<int> a={(int)k,(int)l.num(4)}; if(k>4) a={(int)l.num(4)};
            if(R.callv(k==4?"simev":k==5?"one":k==6?"simev":"F",a)) { evf("%ld %d host call returns %s, stack %+ld",w.t,w.ids[i],from_obj(buzzvm_stack_at(R.vm,1)).repr().c_str(),R.stack_size()-s0); buzzvm_pop(R.vm); }
         }
      };
      std::vector<bool> err(w.n,false);
      w.allow_error=[&](int i){ if(!err[i]) { err[i]=true; evf("%ld %d error state %d: %s",w.t,w.ids[i],(int)w.r[i]->vm->state,w.r[i]->errmsg().c_str()); } return true; };
      w.on_down=[&](int i){ err[i]=false; };
      long T=p.geti("ticks");
      for(long t=0;t<T && !violated();++t) w.tick();
      for(int i=0;i<w.n;++i) if(w.up[i] && w.r[i]->vm) { if(err[i]) probe("script-error"); evf("%d ends with %ld values on its stack",w.ids[i],w.r[i]->stack_size()); }
      if(mode==STEPPED) for(int i=0;i<w.n;++i) { std::set<int32_t> s; for(auto& c:ref.calls[i]) for(auto& x:c.v) s.insert(x.pc); ref.pcs[i].assign(s.begin(),s.end()); }
   }
};
void run15(const Plan& p) {
   Ref ref; std::vector<str> plain, stepped, debugged; bool expect; long stops; std::vector<str> log;
   { Pass a(p,PLAIN,ref,false); a.go(); if(violated()) return; plain=a.tap.v; }
   { Pass a(p,STEPPED,ref,false); a.go(); if(violated()) return; stepped=a.tap.v; }
   expect=trace_diff(plain,stepped,"","").empty(); if(!expect) probe("stepping-reference-differs");
   { Pass a(p,DEBUGGED,ref,expect); a.go(); if(violated()) return; debugged=a.tap.v; stops=a.stops; log=a.stoplog; }
   str d=trace_diff(plain,debugged,"without debugger","under the debugger");
   if(!d.empty()) { violation("debugger-visible",d); return; }
   for(auto& s:log) ev("stop "+s);
   fault("debugger-stop",stops);
   g_out->nontrivial=stops>3 && plain.size()>10;
}
RegProp r15("P15",gen15,run15,"each seeded plan (generated scripts or driver operations, 1-3 robots, network faults, restarts, collections, script errors, host calls with arguments) is executed three times: plainly, stepped instruction by instruction by the simulator, and under the debugger with seeded breakpoint commands before calls and at stops; the event traces must be equal and every stop must be exactly the next enabled breakpoint which the stepped execution reaches; non-trivial: more than 3 stops; distinct by hash of the event trace and stops");
}
