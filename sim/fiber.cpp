#include "fiber.hpp"
#include "seams.hpp"
#include <sys/mman.h>
#include <cerrno>
#include <cstring>
#if defined(__SANITIZE_ADDRESS__)
extern "C" { void __sanitizer_start_switch_fiber(void**, const void*, size_t); void __sanitizer_finish_switch_fiber(void*, const void**, size_t*); }
#endif
extern std::vector<str>* g_tap;
// switches stacks: saves the registers a function must preserve, without the system call of swapcontext
extern "C" void sim_switch(void** from, void* to);
asm(R"ASM(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)ASM");
namespace {
const size_t STK=4<<20;
struct Fib { void* c=nullptr; void* stk=nullptr; void* fake=nullptr; bool done=false; std::function<void()> f; std::vector<str>* tap=nullptr; int64_t clk=1000000; Disk* disk=nullptr; int err=0; uint64_t wake=0; };
std::vector<Fib>* F=nullptr; int cur=-1; void* maincx; void* mainfake; const void* mainlo; size_t mainsz;
Rng* R=nullptr; long mean_=1, left_=1, nsw=0;
void save() { Fib& f=(*F)[cur]; f.tap=g_tap; f.clk=g_clock_us; f.disk=g_disk; f.err=errno; }
void load() { Fib& f=(*F)[cur]; g_tap=f.tap; g_clock_us=f.clk; g_disk=f.disk; errno=f.err; }
// rare_: robots are held up at seldom visited places (one in rare_ of them, the first visits above all) while the others run on for long
int rare_=0; uint64_t salt_=0; const size_t CN=1<<14; uint16_t cnt_[CN];
bool held() {
   uint64_t h=(g_bb_pc^salt_)*0x9E3779B97F4A7C15ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
   if(h%rare_) return false;
   uint16_t& c=cnt_[(h>>8^(uint64_t)cur*7919)&(CN-1)]; if(c<65535) ++c;
   return c<=2 || R->below(c)==0;
}
void rearm() {
   if(rare_) { left_=10; for(int i=R->below(5);i>0;--i) left_*=10; left_=1+R->below((int)left_*2); return; }
   left_ = mean_<=1 ? 1 : 1+R->below((int)(2*mean_)); }
void sw_to(Fib* from, void** fc, void** fake, int to, bool dying) {
   // to<0: the main context
#if defined(__SANITIZE_ADDRESS__)
   if(to<0) __sanitizer_start_switch_fiber(dying?nullptr:fake,mainlo,mainsz); else __sanitizer_start_switch_fiber(dying?nullptr:fake,(*F)[to].stk,STK);
#endif
   sim_switch(fc, to<0?maincx:(*F)[to].c);
#if defined(__SANITIZE_ADDRESS__)
   __sanitizer_finish_switch_fiber(*fake,nullptr,nullptr);
#endif
}
// somebody else who can run; those held up only if there is nobody else
int pick(int but) {
   int n=(int)F->size(), k=R->below(n), to=-1;
   for(int i=0;i<n;++i) { int x=(k+i)%n; if(x==but || (*F)[x].done) continue; if(!rare_) return x; if(to<0 || std::max((*F)[x].wake,g_bb)<std::max((*F)[to].wake,g_bb)) to=x; }
   return to;
}
void hook() {
   bool due=g_bb>=g_bb_due;
   if(rare_) { if(held()) { uint64_t z=100; for(int i=R->below(5);i>0;--i) z*=10; (*F)[cur].wake=g_bb+1+R->below((int)z); due=true; } }
   if(!due) return;
   rearm(); bb_hook(hook,left_);
   int to=pick(cur);
   if(to<0) return;
   if(rare_ && (*F)[to].wake>std::max(g_bb,(*F)[cur].wake)) return;
   save(); int me=cur; cur=to; load(); ++nsw;
   sw_to(&(*F)[me],&(*F)[me].c,&(*F)[me].fake,to,false);
}
void entry() {
#if defined(__SANITIZE_ADDRESS__)
   const void* lo; size_t sz; void* x=nullptr; 
   __sanitizer_finish_switch_fiber(nullptr,&lo,&sz);
   if(!mainlo) { mainlo=lo; mainsz=sz; }
#endif
   (*F)[cur].f();
   int me=cur; (*F)[me].done=true; (*F)[me].tap=g_tap;
   int to=pick(-1);
   cur=to; if(to>=0) load();
   sw_to(&(*F)[me],&(*F)[me].c,&(*F)[me].fake,to,true);
}
}
void Fibers::run(std::vector<std::function<void()>> jobs, uint64_t seed, long mean, long& switches, int rare) {
   std::vector<Fib> fs(jobs.size()); Rng g(seed*977+3); F=&fs; R=&g; mean_=mean; nsw=0; mainlo=nullptr; mainsz=0; mainfake=nullptr;
   for(size_t i=0;i<jobs.size();++i) {
      fs[i].f=jobs[i]; fs[i].clk=1000000;
      static std::vector<void*> pool;      // stacks are reused
      while(pool.size()<=i) pool.push_back(mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0));
      fs[i].stk=pool[i];
      uintptr_t* top=(uintptr_t*)((char*)fs[i].stk+STK-64);      // entry finds the stack as after a call
      *--top=0; *--top=(uintptr_t)&entry; for(int r=0;r<6;++r) *--top=0;
      fs[i].c=top;
   }
   std::vector<str>* tap=g_tap; int64_t clk=g_clock_us; Disk* dk=g_disk;
   rare_=rare; salt_=seed*0x2545F4914F6CDD1Dull; if(rare) memset(cnt_,0,sizeof(cnt_)); g_bb_each=rare>0;
   rearm(); cur=g.below((int)fs.size()); load();
   bb_hook(hook,left_);
   sw_to(nullptr,&maincx,&mainfake,cur,false);
   bb_hook(nullptr); g_bb_each=false;
   g_tap=tap; g_clock_us=clk; g_disk=dk; F=nullptr; R=nullptr; switches+=nsw;
}
