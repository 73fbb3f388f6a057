// P13: script file access
#include "vmhost.hpp"
#include <cerrno>
namespace {
const char* PROG13=R"BZZ(
h = {}
okm = io.error_message
function out(w, v) { simev(w, v, io.errno, isstring(io.error_message), (io.error_message == okm)) }
function init() { }
function step() {
  var c = simop()
  var s = simarg(1)
  if(c == 1) { h[s] = io.fopen(simarg(2), simarg(3)) out("open", (h[s] != nil)) simev("isnil", (h[s] == nil)) if(h[s] != nil) { simev("name", h[s].name) } }
  if(c == 2) { if(h[s] != nil) { io.fwrite(h[s], simarg(2)) out("write", 1) } }
  if(c == 3) { if(h[s] != nil) { io.fwrite(h[s], simarg(2), simarg(3), simarg(4)) out("write", 3) } }
  if(c == 4) { if(h[s] != nil) { io.fforeach(h[s], function(l) { simev("line", l) }) out("read", 1) } }
  if(c == 5) { if(h[s] != nil) { out("size", io.fsize(h[s])) } }
  if(c == 6) { if(h[s] != nil) { last = h[s] io.fclose(h[s]) h[s] = nil out("close", 1) } }
  if(c == 8) { if(h[s] != nil) { io.fforeach(h[s], function(l) { simev("line", l) var q = io.fopen("/nowhere", "r") }) out("read", 1) } }
  if(c == 9) { if(last != nil) { simev("late", s) if(s == 0) { io.fwrite(last, "x") } if(s == 1) { io.fclose(last) } if(s == 2) { io.fsize(last) } if(s == 3) { io.fforeach(last, function(l) { }) } simev("after", s) } }
  if(c == 7) { if(h[s] != nil) { var k = 0 while(k < simarg(3)) { io.fwrite(h[s], simarg(2), k) if(io.errno != 0) { simev("wfail", k, io.errno) } k = k + 1 } out("many", k) } }
  simev("end", c)
}
function reset() { }
function destroy() { }
)BZZ";
const int NS=3;
Val text(Rng& g) {
   switch(g.below(8)) {
      case 6: { static const char* t[]={"100%s done","%d%n","a\r","\r","tab\there","two\nlines","\n","caf\xc3\xa9 \xff","trailing ","\\n"}; return Val::S(t[g.below(10)]); }
      case 0: return Val::S("");
      case 1: return Val::S(str((size_t)g.range(1,300),'a'+g.below(26)));
      case 2: return Val::S(str((size_t)g.range(1000,9000),'A'+g.below(26)));
      case 3: return Val::I(g.range(-100000,100000));
      case 4: return Val::F(g.range(-1000,1000)/8.0f);
      case 5: return Val::S(fmt("line %d with words",g.below(1000)));
      default: return g.chance(0.2)?Val::nil():Val::S(fmt("x%d",g.below(100)));
   }
}
Plan gen13(uint64_t seed) {
   Rng g(seed*31+13); Plan p; p.seed=seed;
   int n=g.range(1,2); p.setc("robots",n);
   if(g.chance(0.4)) p.setc("maxio",g.range(1,50));
   if(g.chance(0.4)) p.setc("bufmode",g.range(1,2));
   if(g.chance(0.25)) p.setc("capacity",g.range(0,12000));
   if(g.chance(0.15)) p.setc("readonly",g.below(3));
   if(g.chance(0.5)) p.setc("old",g.range(0,5));
   if(g.chance(0.2)) { p.setc("gc",GC_EVERYK); p.setc("gck",g.range(1,20)); }
   static const char* modes[]={"w","w","w","a","r","r","r","r+","w+","a+","q"};
   int m=g.range(4,40); std::vector<int> open(n*NS,-1);
   for(int k=0;k<m;++k) {
      int r=g.below(n), s=g.range(1,NS); int& o=open[r*NS+s-1];
      if(g.chance(0.06) && n>1) { p.add(fmt("crash %d",r)); for(int i=0;i<NS;++i) open[r*NS+i]=-1; continue; }
      if(g.chance(0.03)) { p.add(fmt("op %d 9 i%d",r,g.below(4))); continue; }
      if(o<0 || g.chance(0.03)) { int md=g.below(11); str fn=fmt(g.chance(0.1)?"/tty%d%d":"/f%d%d",r,g.below(3)); if(fn[1]=='t' && md>=7) md=g.below(7); p.add(fmt("op %d 1 i%d ",r,s)+Val::S(fn).repr()+" "+Val::S(modes[md]).repr()); o=md; continue; }
      int c=g.below(10); bool wr=o<=3||o>=7, rd=o>=4; if(g.chance(0.08)) wr=rd=true;
      if(c<3) { p.add(fmt("op %d 6 i%d",r,s)); o=-1; }
      else if(c<4) p.add(fmt("op %d 5 i%d",r,s));
      else if(c<7 && rd) p.add(fmt("op %d %d i%d",r,g.chance(0.2)?8:4,s));
      else if(wr) {
         if(g.chance(0.2)) p.add(fmt("op %d 3 i%d ",r,s)+text(g).repr()+" "+text(g).repr()+" "+text(g).repr());
         else if(g.chance(0.15)) p.add(fmt("op %d 7 i%d ",r,s)+text(g).repr()+fmt(" i%d",g.range(2,40)));
         else p.add(fmt("op %d 2 i%d ",r,s)+text(g).repr());
      }
   }
   if(g.chance(0.75)) {
      static const char* kinds[]={"eio","eio","enospc","short","short","eintr","edquot","eacces","emfile"};
      int f=g.chance(0.6)?1:g.range(2,6); for(int i=0;i<f;++i) p.add(fmt("fault %d %s %d",g.chance(0.5)?g.range(1,20):g.range(1,120),kinds[g.below(9)],g.range(1,200)));
   }
   return p;
}
str shown(const Val& v) { switch(v.k) { case Val::INT: return fmt("%d",v.i); case Val::FLT: return fmt("%f",v.f); case Val::STR: return v.s; default: return "[nil]"; } }
struct Slot { bool open=false, rd=false, wr=false, app=false, tainted=false, lastread=false, lastwrite=false, dead=false; str path, mode; size_t pos=0; };
void run13(const Plan& p) {
   int n=(int)p.geti("robots",1);
   Disk disk; disk.armed=true; disk.maxio=p.geti("maxio"); disk.bufmode=(int)p.geti("bufmode"); disk.capacity=p.geti("capacity",-1);
   struct RD { ~RD() { disk_close_all(); g_disk=nullptr; } } rd; 
   const Code& code=compile(PROG13); if(!code.ok) { violation("compile",code.err); return; }
   g_disk=&disk;
   std::map<str,str> model;            // what each file holds when everything has been flushed
   std::set<str> unsure;               // files of which nothing is claimed any more
   if(p.geti("old",-1)>=0) { static const char* t[]={"one\n\ntwo\nthree","","\n","a\nbb\nccc\n","dos\r\nline\r\n\r\n","\r\n%s\n \t\n\xff\xfe"}; for(int r=0;r<n;++r) { str f=fmt("/f%d1",r); disk.files[f]=t[p.geti("old")]; model[f]=disk.files[f]; f=fmt("/tty%d1",r); disk.files[f]=t[p.geti("old")]; model[f]=disk.files[f]; } }
   if(p.geti("readonly",-1)>=0) for(int r=0;r<n;++r) disk.readonly.insert(fmt("/f%d%ld",r,p.geti("readonly")));
   for(auto& l:p.act) if(l[0]=="fault") disk.faults.push_back({l.num(1),l[2],l.num(3)});
   std::vector<std::unique_ptr<Robot>> R; std::vector<std::vector<Slot>> S(n,std::vector<Slot>(NS+1));
   std::vector<Val> cur; bool have=false; std::vector<std::vector<Val>> evs;
   auto boot=[&](int i){
      R[i]->gc.mode=(int)p.geti("gc",0); R[i]->gc.k=p.geti("gck",1);
      R[i]->on_event=[&,i](Robot&, const std::vector<Val>& a){ str s=fmt("%d",i); for(auto& v:a) s+=" "+v.repr(); ev(s); evs.push_back(a); };
      R[i]->next_op=[&](Robot&, std::vector<Val>& o){ if(!have) return false; have=false; o=cur; return true; };
      if(!R[i]->boot((uint16_t)(i+1),code)) violation("robot-error","the script cannot start: "+R[i]->errmsg());
   };
   for(int i=0;i<n;++i) { R.emplace_back(new Robot); boot(i); }
   // the same file is open for writing elsewhere, or twice: streams do not know of each other
   auto shared=[&](const str& path){ int k=0; bool w=false; for(auto& v:S) for(auto& s:v) if((s.open||s.dead) && s.path==path) { ++k; w|=s.wr; } return k>1 && w; };
   long ok=0, failed=0, t=0;
   for(auto& l:p.act) {
      if(violated()) return;
      if(l[0]=="crash") {
         int i=(int)l.num(1); if(i>=n) continue;
         R[i]->destroy(); fault("robot-destroyed");
         for(auto& s:S[i]) if(s.open) { s.open=false; if(s.wr) { s.dead=true; unsure.insert(s.path); } }      // its streams are never flushed
         boot(i); continue;
      }
      if(l[0]!="op") continue;
      int i=(int)l.num(1); if(i>=n) continue;
      ++t; if(g_out) g_out->simsteps++;
      cur.clear(); cur.push_back(Val::I((int)l.num(2))); for(size_t k=3;k<l.n();++k) cur.push_back(Val::from(l[k]));
      have=true; evs.clear(); int c=cur[0].i; Slot& s=S[i][c==9?0:cur[1].i];
      long fired0=disk.fired, fr0=disk.fired_read; size_t call0=disk.calls.size(); str before=model.count(s.path)?model[s.path]:"";
      R[i]->call("step");
      if(c==9) {                 // a file that has been closed (or failed to close) is no file any more: using it is a script error
         bool tried=false, after=false; for(auto& e:evs) { if(e[0].s=="late") tried=true; if(e[0].s=="after") after=true; }
         if(after || (tried && R[i]->ready())) { violation("closed",fmt("operation %ld: a file that has been closed can still be used",t)); return; }
         if(!tried) { if(!R[i]->ready()) violation("robot-error",R[i]->errmsg()); continue; }
         if(R[i]->errmsg().empty()) { violation("message",fmt("operation %ld: using a closed file stops the script without a message",t)); return; }
         probe("closed-file-refused"); R[i]->destroy();
         for(auto& s2:S[i]) if(s2.open) { s2.open=false; if(s2.wr) { s2.dead=true; unsure.insert(s2.path); } }
         boot(i); continue;
      }
      if(!R[i]->ready()) { violation("robot-error",fmt("operation %ld: ",t)+l.text().substr(0,120)+" stops the script: "+R[i]->errmsg()); return; }
      if(evs.empty() || evs.back()[0].s!="end") { violation("incomplete",fmt("operation %ld: ",t)+l.text().substr(0,120)+": the script did not go on"); return; }
      bool fired=c==8 ? disk.fired_read>fr0 : disk.fired>fired0;
      const std::vector<Val>* o=nullptr; for(auto& e:evs) if(e[0].s!="line" && e[0].s!="end" && e[0].s!="name" && e[0].s!="isnil" && e[0].s!="wfail") o=&e;
      if(c!=1 && !s.open) { if(o) violation("closed",fmt("operation %ld on a file that is not open: ",t)+l.text().substr(0,120)); continue; }
      if(!o) { violation("incomplete",fmt("operation %ld: no result",t)); return; }
      if(((*o)[2].i==0)!=((*o)[4].i!=0)) { violation("message",fmt("operation %ld (%s): error number %d and a message that %s",t,l.text().substr(0,100).c_str(),(*o)[2].i,(*o)[4].i?"tells of no error":"tells of an error")); return; }
      int err=(*o)[2].i; bool clean=!s.tainted && !unsure.count(s.path);
      auto bad=[&](const char* cls, const str& m){ violation(cls,fmt("operation %ld (%s): ",t,l.text().substr(0,100).c_str())+m); };
      if(c==7) for(auto& e:evs) if(e[0].s=="wfail") err=e[2].i;
      if(c==1) {
         str path=cur[2].s, mode=cur[3].s; bool opened=(*o)[1].i!=0; bool rdm=mode[0]=='r', exists=disk.files.count(path);
         if(opened && err!=0) bad("spurious",fmt("the file was opened but error %d is reported",err));
         if(!opened && err==0) bad("silent","the file was not opened but no error is reported");
         for(auto& e:evs) if(e[0].s=="isnil" && (e[1].i!=0)==opened) bad("silent",str("the script cannot tell whether the file was opened: the file ")+(opened?"":"not ")+"opened compares "+(opened?"equal":"unequal")+" to nil");
         if(opened && (*o)[3].i==0) bad("silent","no error message");
         if(opened && fired) bad("silent","opening failed but a file is returned");
         bool mustfail=mode=="q" || (rdm && !model.count(path)) || (mode!="r" && disk.readonly.count(path));
         if(opened && mustfail) bad("silent","a file that cannot be opened is returned");
         if(!opened && !mustfail && !fired) bad("spurious",fmt("the file could have been opened but error %d is reported",err));
         if(!opened && fired) { ++failed; }
         if(opened) {
            Slot old=s; if(old.open) { if(old.wr) { old.open=false; unsure.insert(old.path); } }
            bool lost=old.open||old.wr; (void)lost;
            s=Slot(); s.open=true; s.path=path; s.mode=mode; bool plus=mode.find('+')!=str::npos; s.rd=rdm||plus; s.wr=!rdm||plus; s.app=mode[0]=='a';
            if(mode[0]=='w' ) { model[path]=""; }
            if(!model.count(path)) model[path]="";
            if(shared(path)) unsure.insert(path);
            for(auto& e:evs) if(e[0].s=="name" && e[1].s!=path) bad("name","the file has the wrong name "+e[1].s);
            ++ok;
         } else if(s.open) { if(s.wr) unsure.insert(s.path); s=Slot(); }    // the script forgot its handle
         if(unsure.count(path)) {}
      }
      else if(c==2||c==3||c==7) {
         if(fired && err==0) bad("silent","writing failed but no error is reported");
         if(!s.wr && err==0) bad("silent","writing to a file that is open for reading only reports no error");
         if(s.wr && !fired && err!=0 && clean) bad("spurious",fmt("error %d is reported although nothing failed",err));
         if(s.wr) {
            if(err!=0||fired) { s.tainted=true; unsure.insert(s.path); ++failed; }
            str line; if(c==7) { for(int k=0;k<cur[3].i;++k) line+=shown(cur[2])+fmt("%d",k)+"\n"; } else { for(size_t k=2;k<cur.size();++k) line+=shown(cur[k]); line+="\n"; }
            if(s.lastread||s.tainted) unsure.insert(s.path);          // the C library wants a seek between reading and writing
            str& d=model[s.path]; if(s.app) s.pos=d.size(); if(d.size()<s.pos+line.size()) d.resize(s.pos+line.size()); d.replace(s.pos,line.size(),line); s.pos+=line.size(); s.lastwrite=true; s.lastread=false; ++ok;
         } else { s.tainted=true; ++failed; }
      }
      else if(c==4||c==8) {
         std::vector<str> got; for(auto& e:evs) if(e[0].s=="line") got.push_back(e[1].k==Val::STR?e[1].s:"?"+e[1].repr());
         if(fired && err==0) bad("silent","reading failed but no error is reported");
         if(!s.rd && err==0) bad("silent","reading from a file that is open for writing only reports no error");
         if(s.rd) {
            bool mixed=s.lastwrite; if(mixed) { unsure.insert(s.path); s.tainted=true; clean=false; }
            if(!fired && err!=0 && clean) bad("spurious",fmt("error %d is reported although nothing failed",err));
            if(clean) {
               std::vector<str> want; const str& d=model[s.path]; size_t q=std::min(s.pos,d.size()); while(q<d.size()) { size_t e=d.find('\n',q); if(e==str::npos) e=d.size(); want.push_back(d.substr(q,e-q)); q=e+1; }
               size_t k=0; while(k<got.size() && k<want.size() && got[k]==want[k]) ++k;
               if(k<got.size()) { if(!(err!=0 && fired && k+1==got.size() && k<want.size() && want[k].compare(0,got[k].size(),got[k])==0)) bad("lines",fmt("line %zu is \"%.60s\" instead of \"%.60s\"",k+1,got[k].c_str(),k<want.size()?want[k].c_str():"(end of file)")); }
               else if(k<want.size() && err==0) bad("lines",fmt("only %zu of %zu lines were handed over and no error is reported",k,want.size()));
               if(!fired && err==0) { s.pos=d.size(); ++ok; if(want.size()>1) probe("several-lines-read"); } else { s.tainted=true; ++failed; }
            }
            s.lastread=true;
         } else { s.tainted=true; ++failed; if(disk.fired>fired0) unsure.insert(s.path); }      // what was written before may be flushed now, and that fails
      }
      else if(c==5) {
         if(disk.fired_read>fr0) { s.tainted=true; clean=false; probe("read-ahead-failed"); }       // reading ahead is no part of the question
         if(disk.fired-disk.fired_read>fired0-fr0 && err==0) bad("silent","asking for the size failed but no error is reported");
         bool nosize=s.path[1]=='t';                // not seekable: there is no size
         if(nosize && err==0) bad("silent","the file has no size but no error is reported");
         if(!fired && !nosize && err!=0 && clean) bad("spurious",fmt("error %d is reported although nothing failed",err));
         if(nosize) { s.tainted=true; unsure.insert(s.path); ++failed; probe("no-size"); }
         if(fired) { s.tainted=true; unsure.insert(s.path); ++failed; }
         else if(clean && !nosize && err==0 && (*o)[1].i!=(int)model[s.path].size()) bad("size",fmt("the size is %d instead of %zu",(*o)[1].i,model[s.path].size()));
         s.lastread=s.lastwrite=false;
      }
      else if(c==6) {
         if(fired && err==0) bad("silent","closing failed but no error is reported");
         if(!fired && err!=0 && clean) bad("spurious",fmt("error %d is reported although nothing failed",err));
         if(fired) unsure.insert(s.path);
         if(!fired && clean && s.wr && disk.files[s.path]!=model[s.path]) bad("lost",fmt("no failure was reported but the file holds %zu bytes instead of %zu",disk.files[s.path].size(),model[s.path].size()));
         if(!fired && clean && s.wr) probe("complete-file-checked");
         s=Slot(); fired?++failed:++ok;
      }
      bool tape=c==5 && s.path[1]=='t';
      if(err!=0 && !tape && c!=8 && disk.fired==fired0+1 && err!=disk.last_errno) bad("errno",fmt("the error number is %d instead of %d",err,disk.last_errno));
      if(err!=0 && disk.fired==fired0) { int want = c==1 ? (cur[3].s=="q"?EINVAL:cur[3].s[0]=='r'&&!model.count(cur[2].s)?ENOENT:EACCES) : ((c==4||c==8)&&!s.rd)||((c==2||c==3||c==7)&&!s.wr)?EBADF:tape?ESPIPE:err; if(err!=want) bad("errno",fmt("the error number is %d instead of %d",err,want)); }
      if(err!=0 && !violated()) { for(auto& e:evs) if(e[0].s==(*o)[0].s && e[3].i==0) bad("silent","no error message"); probe("error-reported"); }
      // what has reached the disk is always the beginning of what was written
      for(auto& f:model) if(!unsure.count(f.first)) { bool over=false; for(auto& v:S) for(auto& x:v) if(x.open && x.path==f.first && x.wr && x.mode=="r+") over=true; const str& d=disk.files[f.first]; if(!over && f.second.compare(0,d.size(),d)!=0 && !violated()) bad("content","the file "+f.first+" holds something else than what was written"); }
   }
   g_out->nontrivial=ok>2;
   if(failed) probe("failed-operation",failed);
}
RegProp r13("P13",gen13,run13,"seeded sequences of open, write, read, size and close on up to three files of 1-2 robots over a simulated disk with short transfers, interrupted calls, failing opens, reads, writes and closes, a full or read-only disk and different stream buffering; lines, sizes, error numbers and the bytes on the disk compared with a model; non-trivial: more than two operations succeeded; distinct by hash of the full event trace");
}
