// sim list | gen PROP SEED | exec PLANFILE [-v] | run PROP FIRST STRIDE COUNT SECONDS HASHFILE | min PLANFILE OUT SECONDS
#include "core.hpp"
#include "seams.hpp"
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ctime>
#include <fstream>
#include <sstream>
extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" int __real_close(int);
extern "C" char* __real_getenv(const char*);
extern "C" FILE* __real_fopen(const char*, const char*);

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4000:quarantine_size_mb=4:thread_local_quarantine_size_kb=256:malloc_context_size=4:symbolize=0:log_path=stderr"; }
static int g_mode=0; static uint64_t g_curseed=0;
static void out(const str& s) { size_t t=0; while(t<s.size()) { ssize_t w=__real_write(1,s.data()+t,s.size()-t); if(w<=0) _exit(9); t+=w; } }
void hang_abort() {
   g_bb_limit=0;
   out(fmt("HANG %llu\n",(unsigned long long)g_curseed));
   _exit(77);
}
static str slurp(const str& f) { FILE* h=__real_fopen(f.c_str(),"rb"); if(!h) { out("ERR cannot read "+f+"\n"); exit(3); } str r; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,h))>0) r.append(b,n); fclose(h); return r; }
static void spew(const str& f, const str& s) { FILE* h=__real_fopen(f.c_str(),"wb"); if(!h) { out("ERR cannot write "+f+"\n"); exit(3);} fwrite(s.data(),1,s.size(),h); fclose(h); }
static const Prop* find(const str& id) { for(auto& p:props()) if(p.id==id) return &p; out("ERR no such property "+id+"\n"); exit(3); }
#include <sys/time.h>
extern "C" int __real_gettimeofday(struct timeval*, void*);
static double wall() { struct timeval t; __real_gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }

static void run_plan(const Prop* p, const Plan& pl, Outcome& o) {
   g_out=&o; g_clock_us=1000000; g_clock_reads=0; g_env.clear(); bb_hook(nullptr); g_bb_each=false;
   p->run(pl);
   g_bb_limit=0; g_out=nullptr;
}
static str jmap(const std::map<str,long>& m) { str r="{"; bool f=true; for(auto& e:m) { if(!f) r+=","; f=false; r+="\""+e.first+"\":"+std::to_string(e.second); } return r+"}"; }

// runs a plan in a forked child; returns class ("" if no violation)
static str child_class(const Prop* p, const Plan& pl) {
   int fd[2]; if(pipe(fd)) exit(3);
   pid_t c=fork();
   if(c==0) {
      dup2(fd[1],1); __real_close(2); __real_close(fd[0]);
      struct rlimit rl={60,60}; setrlimit(RLIMIT_CPU,&rl);
      Outcome o; run_plan(p,pl,o);
      out(o.viol ? "CLS "+o.cls+"\n" : "OK\n");
      _exit(0);
   }
   __real_close(fd[1]);
   str got; char b[4096]; ssize_t n; while((n=__real_read(fd[0],b,sizeof b))>0) got.append(b,n);
   __real_close(fd[0]);
   int st; waitpid(c,&st,0);
   if(got.compare(0,3,"OK\n")==0) return "";
   if(got.compare(0,4,"CLS ")==0) return got.substr(4,got.size()-5);
   if(got.compare(0,4,"HANG")==0) return "hang";
   return "crash";
}

int main(int argc, char** argv) {
   // addresses are fixed, so that nothing depends on where the loader puts things
   if(!__real_getenv("SIM_NOASLR")) { setenv("SIM_NOASLR","1",1); if(personality(ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
   setvbuf(stdout,NULL,_IOLBF,0);
   str cmd = argc>1?argv[1]:"";
   stderr_capture(false);
   if(cmd=="list") { for(auto& p:props()) out(p.id+"\t"+p.rule+"\n"); return 0; }
   if(cmd=="gen") { const Prop* p=find(argv[2]); Plan pl=p->gen(strtoull(argv[3],0,10)); pl.prop=p->id; pl.seed=strtoull(argv[3],0,10); out(pl.text()); return 0; }
   if(cmd=="exec") {
      Plan pl=Plan::parse(slurp(argv[2])); const Prop* p=find(pl.prop); g_curseed=pl.seed;
      std::vector<str> log; if(argc>3) g_log=&log;
      Outcome o; run_plan(p,pl,o);
      for(auto& l:log) out("  "+l+"\n");
      out(fmt("HASH %016llx\n",(unsigned long long)o.hash));
      out("FAULTS "+jmap(o.faults)+"\nPROBES "+jmap(o.probes)+"\n");
      if(o.viol) { out("VIOL "+o.cls+" "+o.msg+"\n"); return 1; }
      out("OK\n"); return 0;
   }
   if(cmd=="run") {
      const Prop* p=find(argv[2]); uint64_t first=strtoull(argv[3],0,10), stride=strtoull(argv[4],0,10), count=strtoull(argv[5],0,10);
      double secs=atof(argv[6]); str hf=argc>7?argv[7]:"";
      FILE* hfd = hf.empty()?nullptr:__real_fopen(hf.c_str(),"ab");
      double t0=wall(), tl=t0; long runs=0, nontriv=0, steps=0; std::map<str,long> faults, probes;
      auto stats=[&](){ out(fmt("STATS {\"runs\":%ld,\"nontrivial\":%ld,\"simsteps\":%ld,\"blocks\":%ld,\"bb\":%llu,\"faults\":",runs,nontriv,steps,cov_count(),(unsigned long long)g_bb)+jmap(faults)+",\"probes\":"+jmap(probes)+"}\n"); if(hfd) fflush(hfd); };
      for(uint64_t i=0;i<count;++i) {
         uint64_t seed=first+i*stride; g_curseed=seed;
         out(fmt("B %llu\n",(unsigned long long)seed));
         Plan pl=p->gen(seed); pl.prop=p->id; pl.seed=seed;
         Outcome o; run_plan(p,pl,o);
         ++runs; steps+=o.simsteps; if(o.nontrivial) ++nontriv;
         for(auto& e:o.faults) faults[e.first]+=e.second;
         for(auto& e:o.probes) probes[e.first]+=e.second;
         if(hfd && o.nontrivial) fwrite(&o.hash,8,1,hfd);
         if(o.viol) { stats(); out(fmt("V %llu ",(unsigned long long)seed)+o.cls+" "+o.msg+"\n"); return 1; }
         double t=wall();
         if(t-tl>1) { stats(); tl=t; }
         if(t-t0>secs) break;
      }
      stats(); out("DONE\n");
      return 0;
   }
   if(cmd=="hashes") {   // determinism proof: hash per seed
      const Prop* p=find(argv[2]); uint64_t first=strtoull(argv[3],0,10), count=strtoull(argv[4],0,10);
      for(uint64_t i=0;i<count;++i) { Plan pl=p->gen(first+i); pl.prop=p->id; pl.seed=first+i; Outcome o; run_plan(p,pl,o); out(fmt("%llu %016llx\n",(unsigned long long)(first+i),(unsigned long long)o.hash)); }
      return 0;
   }
   if(cmd=="min") {
      Plan pl=Plan::parse(slurp(argv[2])); const Prop* p=find(pl.prop); double secs=atof(argv[4]); double t0=wall();
      str want=child_class(p,pl);
      if(want.empty()) { out("NOREPRO\n"); return 2; }
      long tries=0;
      auto fails=[&](const std::vector<Line>& a){ ++tries; Plan q=pl; q.act=a; return child_class(p,q)==want; };
      std::vector<Line> cur=pl.act; size_t n=2;
      while(cur.size()>=1 && wall()-t0<secs) {
         size_t chunk=(cur.size()+n-1)/n; bool red=false;
         for(size_t s=0;s<cur.size() && wall()-t0<secs;s+=chunk) {
            std::vector<Line> c(cur.begin(),cur.begin()+s);
            if(s+chunk<cur.size()) c.insert(c.end(),cur.begin()+s+chunk,cur.end());
            if(fails(c)) { cur=c; n=std::max<size_t>(n-1,2); red=true; break; }
         }
         if(!red) { if(n>=cur.size()) break; n=std::min(n*2,cur.size()); }
      }
      pl.act=cur; spew(argv[3],"# minimised plan: class "+want+"\n"+pl.text());
      out(fmt("MIN %zu lines, %ld tries, class ",cur.size(),tries)+want+"\n");
      return 0;
   }
   out("usage\n"); return 3;
}
