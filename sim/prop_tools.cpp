// P14: the compiler tools never report success over an incomplete output
#include "workload.hpp"
#include "bzzlibs.hpp"
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" { int bzzasm_main(int, char**); int bzzdeasm_main(int, char**); int bzzparse_main(int, char**); int bzzrun_main(int, char**); }
namespace {
struct Inv { str tool; std::vector<str> args, in, out; };
// the three steps on fixed file names
Inv step_of(int k, bool bst) {
   if(k==0) { Inv v{"bzzparse",{"/m.bzz","/m.basm"},{"/m.bzz"},{"/m.basm"}}; if(bst) { v.args.push_back("/s.bst"); v.in.push_back("/s.bst"); } return v; }
   if(k==1) return {"bzzasm",{"/m.basm","/m.bo","/m.bdb"},{"/m.basm"},{"/m.bo","/m.bdb"}};
   if(k==3) return {"bzzrun",{"/m.bo","/m.bdb"},{"/m.bo"},{}};
   return {"bzzdeasm",{"/m.bo","/m.bdb","/d.basm"},{"/m.bo","/m.bdb"},{"/d.basm"}};
}
int invoke(const Inv& v, str& err) {
   std::vector<str> a={v.tool}; for(auto& x:v.args) a.push_back(x);
   std::vector<char*> av; for(auto& x:a) av.push_back(&x[0]); av.push_back(nullptr); int ac=(int)a.size();
   stderr_capture(true); stdout_capture(true); bb_budget(600ull*1000*1000);
   int r=run_catching_exit([&]{ return v.tool=="bzzparse"?bzzparse_main(ac,av.data()):v.tool=="bzzasm"?bzzasm_main(ac,av.data()):v.tool=="bzzrun"?bzzrun_main(ac,av.data()):bzzdeasm_main(ac,av.data()); });
   bool armed=g_disk->armed; disk_close_all(); g_disk->armed=armed;      // the process ends: what is left open is closed, unnoticed
   stdout_capture(false); err=stderr_text(); stderr_capture(false);
   return r>=1000?r-1000:r;
}
// bzzc calls the other tools; it runs for real, in a directory of its own, with stand-ins for them that do what the plan says
void put(const str& f, const str& t, bool x=false) { std::ofstream o(f); o<<t; o.close(); if(x) chmod(f.c_str(),0755); }
bool get(const str& f, str& t) { std::ifstream i(f); if(!i) return false; std::stringstream s; s<<i.rdbuf(); t=s.str(); return true; }
void bzzc(const Line& l) {
   if(!*SCRIPT_bzzc) return;
   Disk* keep=g_disk; g_disk=nullptr; struct RG { Disk* d; ~RG() { g_disk=d; } } rg{keep};
   char exe[4096]; ssize_t z=readlink("/proc/self/exe",exe,sizeof(exe)-64); if(z<=0) return;
   exe[z]=0; str tm=str(exe); tm=tm.substr(0,tm.rfind('/'))+"/bzzsim.XXXXXX"; if(!mkdtemp(&tm[0])) return;
   str d=tm; struct RM { str d; ~RM() { if(d.size()>12 && system(("/bin/rm -rf '"+d+"'").c_str())) {} } } rm{d};
   // parse=RC asm=RC part=N (bytes of the output written before failing) mk=1 (no temporary file) b/d/a/i=1 (options)
   long prc=0, arc=0, mk=0, ob=0, od=0, oa=0, oi=0, dots=0;
   for(size_t i=1;i<l.n();++i) { const str& w=l.w[i]; size_t e=w.find('='); str k=w.substr(0,e); long x=atol(w.c_str()+e+1); if(k=="parse") prc=x; else if(k=="asm") arc=x; else if(k=="mk") mk=x; else if(k=="b") ob=x; else if(k=="d") od=x; else if(k=="a") oa=x; else if(k=="i") oi=x; else if(k=="dots") dots=x; }
   mkdir((d+"/bin").c_str(),0755); mkdir((d+"/w").c_str(),0755);
   auto stub=[&](long rc, const str& ok){ str s="#!/bin/sh\n"; if(rc==0) return s+ok; s+="echo 'cannot do it' >&2\n"; if(rc%2) s+="echo part > \"$2\"\n"; return s+(rc>=200?"kill -9 $$\n":fmt("exit %ld\n",rc)); };
   put(d+"/bin/xparse",stub(prc,"echo \"asm of $1 $BUZZ_INCLUDE_PATH\" > \"$2\"\n"),true);
   put(d+"/bin/xasm",stub(arc,"cat \"$1\" > \"$2\" || exit 1\necho debug > \"$3\"\n"),true);
   if(mk) { put(d+"/bin/mktemp","#!/bin/sh\necho 'mktemp: failed' >&2\nexit 1\n",true); fault("bzzc:no-temporary-file"); }
   put(d+"/bzzc",SCRIPT_bzzc,true);
   str name=dots?"my.first.script.bzz":"m.bzz", base=name.substr(0,name.size()-4); put(d+"/w/"+name,"x = 1\n");
   str bo=ob?"out.bo":base+".bo", bdb=od?"out.bdb":base+".bdb";
   str cmd="cd '"+d+"/w' && PATH='"+d+"/bin:/usr/bin:/bin' BZZPARSE='"+d+"/bin/xparse' BZZASM='"+d+"/bin/xasm' BUZZ_INCLUDE_PATH='' bash ../bzzc";
   if(ob) cmd+=" -b out.bo"; if(od) cmd+=" -d out.bdb"; if(oa) cmd+=" -a out.basm"; if(oi) cmd+=" -I /inc/x";
   cmd+=" "+name+" > ../out 2> ../err < /dev/null";
   int st=system(cmd.c_str()); int rc=WIFEXITED(st)?WEXITSTATUS(st):255; str err, out, x; get(d+"/err",err); get(d+"/out",out);
   bool fails=prc||arc||(mk&&!oa); if(prc) fault("bzzc:compiler-fails"); if(arc) fault("bzzc:assembler-fails");
   evf("%s -> %d",l.text().c_str(),rc);
   if(rc==127) return;                 // no shell here
   if(fails && rc==0) violation("silent","bzzc reports success although one of its steps failed: "+l.text());
   if(!fails && rc!=0) violation("refused",fmt("bzzc ends with status %d although nothing failed: ",rc)+l.text()+" "+err);
   if(fails && err.empty() && out.empty()) violation("message","bzzc fails without a message: "+l.text());
   if(!fails && rc==0) {
      str want="asm of "+name+" ";
      auto right=[&](const str& f){ return get(f,x) && x.compare(0,want.size(),want)==0 && x.back()=='\n' && (!oi || x.find("/inc/x")!=str::npos); };
      if(!right(d+"/w/"+bo)) violation("silent","bzzc reports success but "+bo+" is not complete: "+l.text());
      else if(!get(d+"/w/"+bdb,x) || x!="debug\n") violation("silent","bzzc reports success but "+bdb+" is not complete: "+l.text());
      else if(oa && !right(d+"/w/out.basm")) violation("silent","bzzc reports success but out.basm is not complete: "+l.text());
      probe("bzzc-complete");
   } else probe("bzzc-failed");
}
Plan gen14(uint64_t seed) {
   Rng g(seed*31+14); Plan p; p.seed=seed;
   p.setc("bst",g.chance(0.3)); p.setc("inc",g.below(4)); p.setc("pad",g.chance(0.3)?g.range(1,40):0);
   if(g.chance(0.15)) p.setc("tiny",1);
   if(g.chance(0.1)) p.setc("lname",g.chance(0.5)?g.range(495,515):g.range(1,1500));
   bool logs=g.chance(0.4); if(logs) { p.setc("logs",g.range(1,3)); if(g.chance(0.5)) p.setc("tiny",1); }
   gen_script(p,g);
   int n=g.range(2,8);
   for(int i=0;i<n;++i) {
      int k=g.below(logs?4:3);
      str s=fmt("run %d",k);
      if(g.chance(0.3)) s+=fmt(" maxio=%d",g.chance(0.5)?g.range(1,20):g.range(20,5000));
      if(g.chance(0.3)) s+=fmt(" buf=%d",g.range(1,2));
      if(g.chance(0.2)) s+=fmt(" room=%d",g.chance(0.5)?g.range(0,500):g.range(0,30000));
      if(g.chance(0.08)) s+=fmt(" ro=%d",g.below(2));
      if(g.chance(0.08)) s+=fmt(" miss=%d",g.below(2));
      if(g.chance(0.08)) s+=" old=1";
      if(g.chance(0.1)) s+=fmt(" tear=%d",g.range(0,999));
      if(g.chance(0.65)) {
         static const char* kinds[]={"eio","eio","enospc","short","eintr","edquot","eacces","emfile"};
         int f=g.chance(0.7)?1:g.range(2,4); for(int q=0;q<f;++q) s+=fmt(" f=%d:%s:%d",g.chance(0.5)?g.range(1,12):g.chance(0.5)?g.range(1,60):g.range(1,1500),kinds[g.below(8)],g.range(1,4000));
      }
      p.add(s);
   }
   if(g.chance(0.06)) for(int i=g.range(1,3);i>0;--i) {
      str s="bzzc"; static const int rcs[]={1,2,3,126,200,201};
      if(g.chance(0.35)) s+=fmt(" parse=%d",rcs[g.below(6)]); if(g.chance(0.35)) s+=fmt(" asm=%d",rcs[g.below(6)]); if(g.chance(0.15)) s+=" mk=1";
      for(auto o:{"b","d","a","i","dots"}) if(g.chance(0.35)) s+=fmt(" %s=1",o);
      p.add(s);
   }
   return p;
}
void run14(const Plan& p) {
   Disk d; g_disk=&d; struct RD { ~RD() { disk_close_all(); g_disk=nullptr; g_env.clear(); } } rd;
   bool bst=p.geti("bst"); str src= p.geti("tiny")?str("function init() { }\nx = 1\n"):script_of(p);
   if(bst) { str t; for(int i=0;i<5+p.geti("pad");++i) t+=fmt("extra string %d\n",i); t+=str(900,'w')+"\n"; d.files["/s.bst"]=t; }
   for(int i=0;i<p.geti("pad");++i) src+=fmt("function pad%d(a, b) { var c = a + b if(c > %d) { return \"pad %d\" } return {.x = c, .y = 1.5} }\n",i,i,i);
   std::vector<str> extra; int inc=(int)p.geti("inc");
   if(inc==1) { str nm="/"+str(p.geti("lname"),'n')+"lib.bzz"; d.files[nm]="function libf(x) { return x + 1 }\n"; src="include \""+nm+"\"\n"+src; extra.push_back(nm); }
   if(inc==2) { d.files["/inc/b/lib.bzz"]="function libf(x) { return x + 1 }\nlibv = \"from the path\"\n"; g_env["BUZZ_INCLUDE_PATH"]="/inc/a:/inc/b"; src="include \"lib.bzz\"\n"+src; extra.push_back("/inc/b/lib.bzz"); }
   if(inc==3) { d.files["/lib.bzz"]="include \"/lib2.bzz\"\nfunction libf(x) { return libg(x) + 1 }\n"; d.files["/lib2.bzz"]="function libg(x) { return x * 2 }\n"+str(3000,'#')+"\n"; src="include \"/lib.bzz\"\n"+src; extra={"/lib.bzz","/lib2.bzz"}; }
   long logs=p.geti("logs");       // something for bzzrun to print, and to fail at
   if(logs) src+="log(\"begin \", 1, \" \", 2.5, nil, {.a = 1})\nlogi = 0\nwhile(logi < 20) { log(\"line \", logi) logi = logi + 1 }\n"+str(logs==2?"nosuch(1)\n":logs==3?"logi.x = 1\n":"");
   d.files["/m.bzz"]=src;
   // what the tools produce when nothing happens
   str err; std::map<str,str> ref;
   for(int k=0;k<3;++k) { Inv v=step_of(k,bst); int r=invoke(v,err); if(r!=0) { violation("refused",v.tool+fmt(" ends with status %d for correct input: ",r)+err); return; } for(auto& f:v.out) if(!d.files.count(f)) { violation("incomplete",v.tool+" does not write "+f); return; } }
   ref=d.files; int runst=0; str runout;
   if(logs) {
      if(p.geti("tiny")==0) logs=0;            // those programs need functions of the robot
      else { runst=invoke(step_of(3,bst),err); runout=stdout_text(); if((runst!=0)!=(logs>1)) { violation("silent",fmt("bzzrun ends with status %d for a script that %s: ",runst,logs>1?"fails":"ends well")+err); return; } if(logs>1 && err.empty()) { violation("message","bzzrun does not tell that the script failed"); return; } }
   }
   long faulty=0, okruns=0;
   for(auto& l:p.act) {
      if(violated()) return;
      if(l[0]=="bzzc") { bzzc(l); continue; }
      if(l[0]!="run") continue;
      int k=(int)l.num(1); if(k==3 && !logs) continue;
      Inv v=step_of(k,bst); if(k==0) for(auto& x:extra) v.in.push_back(x);
      d.files=ref; for(auto& f:v.out) d.files.erase(f);
      d.faults.clear(); d.readonly.clear(); d.damaged.clear(); d.ops=0; d.calls.clear(); d.maxio=0; d.bufmode=0; d.capacity=-1; long f0=d.fired; bool impossible=false, soft=false, torn=false;
      for(size_t i=2;i<l.n();++i) {
         const str& w=l.w[i]; size_t e=w.find('='); str key=w.substr(0,e), val=w.substr(e+1); long x=atol(val.c_str());
         if(key=="maxio") d.maxio=x; else if(key=="buf") d.bufmode=(int)x; else if(key=="ro") { if(!v.out.empty()) { str f=v.out[x%v.out.size()]; d.readonly.insert(f); impossible=true; } }
         else if(key=="room") d.capacity=d.total()+x;
         else if(key=="miss") { d.files.erase(v.in[x%v.in.size()]); impossible=true; fault("input-missing"); }
         else if(key=="tear") { str& t=d.files[v.in[0]]; t.resize(t.size()*x/1000); torn=true; fault("input-torn"); }
         else if(key=="old") { for(auto& f:v.out) d.files[f]=str(20000,'o'); soft=true; }
         else if(key=="f") { size_t a=val.find(':'), b=val.find(':',a+1); d.faults.push_back({atol(val.substr(0,a).c_str()),val.substr(a+1,b-a-1),atol(val.substr(b+1).c_str())}); }
      }
      if(d.capacity>=0 && soft) d.capacity=-1;
      d.armed=true; int r=invoke(v,err); d.armed=false;
      if(g_out) g_out->simsteps++;
      bool fired=d.fired>f0; 
      evf("%s -> %d, %ld disk calls, fired %ld, message %zu bytes",l.text().c_str(),r,d.ops,d.fired-f0,err.size());
      str what=l.text(); bool outdam=false; for(auto& f:v.out) if(d.damaged.count(f)) outdam=true;
      if(k==3) {
         bool in=false; for(auto& c:d.damaged) if(c=="/m.bo") in=true;
         str out=stdout_text();
         if(torn) { if(r!=0 && err.empty()) violation("message","bzzrun fails without a message: "+what); continue; }
         if(impossible||in) {         // the bytecode may have been out of reach; the debug information is optional
            if(r==0 && (impossible||runst||out!=runout)) violation("silent","bzzrun reports success although the bytecode cannot be read: "+what);
            else if(r!=0 && err.empty()) violation("message","bzzrun fails without a message: "+what);
            ++faulty; continue;
         }
         if(r!=runst) violation(r?"refused":"silent",fmt("bzzrun ends with status %d instead of %d: ",r,runst)+what+" "+err);
         else if(out!=runout) violation("silent",fmt("bzzrun prints %zu bytes instead of %zu: ",out.size(),runout.size())+what);
         else if(runst && err.empty()) violation("message","bzzrun does not tell that the script failed: "+what);
         ++okruns; probe("bzzrun-compared"); continue;
      }
      if(torn) { if(r!=0 && err.empty()) violation("message",v.tool+fmt(" ends with status %d without a message: ",r)+what); probe("torn-input"); continue; }     // it may be another valid input
      if(r==0) {
         if(impossible) violation("silent",v.tool+" reports success although a file cannot be opened: "+what);
         for(auto& f:v.out) if(!violated()) {
            if(!d.files.count(f)) violation("silent",v.tool+" reports success but "+f+" was not written: "+what);
            else if(d.files[f]!=ref[f]) violation("silent",v.tool+fmt(" reports success but %s differs from the complete output (%zu bytes instead of %zu): ",f.c_str(),d.files[f].size(),ref[f].size())+what);
         }
         if(outdam && !violated()) violation("silent",v.tool+" reports success although writing its output failed: "+what);
         ++okruns; if(fired) probe("fault-survived"); if(!d.faults.empty()||d.maxio) probe("ok-under-faults");
      } else {
         if(!fired && !impossible) violation("refused",v.tool+fmt(" ends with status %d although nothing failed: ",r)+what+" "+err);
         else if(err.empty()) violation("message",v.tool+fmt(" ends with status %d without a message: ",r)+what);
         ++faulty; probe("failed-with-status");
      }
   }
   g_out->nontrivial=faulty+okruns>1;
}
RegProp r14("P14",gen14,run14,"seeded programs (with includes and string lists) through the real compiler, assembler and disassembler mains on a simulated disk; each of 2-8 runs gets its own short transfers, buffering, failing calls, full or read-only disk or missing input, and its exit status, message and output files are compared with the undisturbed run; non-trivial: more than one disturbed run; distinct by hash of the full event trace");
}
