#include "seams.hpp"
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
extern "C" {
#include <buzz/buzzvm.h>
}

Disk* g_disk=nullptr;
int64_t g_clock_us=1000000;
long g_clock_reads=0;
std::map<str,str> g_env;

// ------------------------------------------------------------ simulated disk
struct Handle { str path; size_t pos; bool rd, wr, app; bool open; };
static std::vector<Handle> g_handles;
static const int FD0 = 100000;

static const DiskFault* next_fault(const char* call, const str& path) {
   if(!g_disk) return nullptr;
   if(!g_disk->armed) return nullptr;
   long n = ++g_disk->ops;
   g_disk->calls.push_back(fmt("%ld %s %s",n,call,path.c_str()));
   for(auto& f : g_disk->faults) if(f.at==n) { ev("disk "+g_disk->calls.back()+" fault "+f.kind); return &f; }
   ev("disk "+g_disk->calls.back());
   return nullptr;
}
static bool sim_open(const str& path, bool rd, bool wr, bool create, bool trunc, bool app, int& h, bool faultable=true) {
   const DiskFault* f = faultable ? next_fault("open",path) : nullptr;
   if(f && (f->kind=="eacces"||f->kind=="eio"||f->kind=="enospc"||f->kind=="emfile")) {
      errno = f->kind=="eacces"?EACCES : f->kind=="emfile"?EMFILE : f->kind=="enospc"?ENOSPC : EIO;
      g_disk->fired++; g_disk->last_errno=errno; fault(("open:"+f->kind).c_str()); g_disk->damaged.insert(path); return false;
   }
   bool ex = g_disk->files.count(path);
   if(!ex && !create) { errno=ENOENT; return false; }
   if(wr && g_disk->readonly.count(path)) { errno=EACCES; fault("open:readonly"); g_disk->damaged.insert(path); return false; }
   if(!ex || trunc) g_disk->files[path]="";
   for(size_t i=0;i<g_handles.size();++i) if(!g_handles[i].open) { g_handles[i]={path,0,rd,wr,app,true}; h=(int)i; return true; }
   g_handles.push_back({path,0,rd,wr,app,true}); h=(int)g_handles.size()-1; return true;
}
static ssize_t sim_write(int h, const void* b, size_t n) {
   if(h<0||h>=(int)g_handles.size()||!g_handles[h].open||!g_handles[h].wr) { errno=EBADF; return -1; }
   Handle& H=g_handles[h];
   const DiskFault* f=next_fault("write",H.path);
   if(f) {
      if(f->kind=="eio"||f->kind=="enospc"||f->kind=="edquot") { errno= f->kind=="eio"?EIO: f->kind=="enospc"?ENOSPC:EDQUOT; g_disk->fired++; g_disk->last_errno=errno; fault(("write:"+f->kind).c_str()); g_disk->damaged.insert(H.path); return -1; }
      if(f->kind=="eintr") { errno=EINTR; fault("write:eintr"); return -2; }
      if(f->kind=="short" && n>1) { size_t m=std::max<long>(1,std::min<long>((long)n-1,f->arg)); if(m<n) { n=m; fault("write:short"); } }
   }
   if(g_disk->armed && g_disk->maxio>0 && (long)n>g_disk->maxio) { n=g_disk->maxio; fault("write:short"); }
   if(g_disk->armed && g_disk->capacity>=0) {
      long room=g_disk->capacity-g_disk->total();
      if(room<=0) { errno=ENOSPC; g_disk->fired++; g_disk->last_errno=errno; fault("write:disk-full"); g_disk->damaged.insert(H.path); return -1; }
      if((long)n>room) { n=room; fault("write:short"); }
   }
   str& d=g_disk->files[H.path];
   if(H.app) H.pos=d.size();
   if(d.size()<H.pos+n) d.resize(H.pos+n);
   memcpy(&d[H.pos],b,n); H.pos+=n;
   return n;
}
static ssize_t sim_read(int h, void* b, size_t n) {
   if(h<0||h>=(int)g_handles.size()||!g_handles[h].open||!g_handles[h].rd) { errno=EBADF; return -1; }
   Handle& H=g_handles[h];
   const DiskFault* f=next_fault("read",H.path);
   if(f) {
      if(f->kind=="eio"||f->kind=="enospc"||f->kind=="edquot") { errno=EIO; g_disk->fired++; g_disk->last_errno=errno; g_disk->fired_read++; fault("read:eio"); g_disk->damaged.insert(H.path); return -1; }
      if(f->kind=="short" && n>1) { size_t m=std::max<long>(1,std::min<long>((long)n-1,f->arg)); if(m<n) { n=m; fault("read:short"); } }
   }
   if(g_disk->armed && g_disk->maxio>0 && (long)n>g_disk->maxio) { n=g_disk->maxio; fault("read:short"); }
   str& d=g_disk->files[H.path];
   if(H.pos>=d.size()) return 0;
   n=std::min(n,d.size()-H.pos);
   memcpy(b,&d[H.pos],n); H.pos+=n;
   return n;
}
static int sim_seek(int h, off64_t* o, int wh) {
   if(h<0||h>=(int)g_handles.size()||!g_handles[h].open) { errno=EBADF; return -1; }
   Handle& H=g_handles[h];
   if(H.path.compare(0,4,"/tty")==0 && g_disk->armed) { errno=ESPIPE; fault("seek:not-seekable"); return -1; }       // a terminal, a serial line, a pipe
   off64_t base = wh==SEEK_SET?0 : wh==SEEK_CUR?(off64_t)H.pos : (off64_t)g_disk->files[H.path].size();
   off64_t p=base+*o; if(p<0) { errno=EINVAL; return -1; }
   H.pos=p; *o=p; return 0;
}
static int sim_close(int h) {
   if(h<0||h>=(int)g_handles.size()||!g_handles[h].open) { errno=EBADF; return -1; }
   Handle& H=g_handles[h];
   H.open=false;
   const DiskFault* f=next_fault("close",H.path);
   if(f && (f->kind=="eio"||f->kind=="enospc"||f->kind=="edquot")) { errno= f->kind=="eio"?EIO:f->kind=="enospc"?ENOSPC:EDQUOT; g_disk->fired++; g_disk->last_errno=errno; fault(("close:"+f->kind).c_str()); g_disk->damaged.insert(H.path); return -1; }
   return 0;
}
extern "C" {
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read((int)(intptr_t)c-1,b,n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
   size_t t=0;                                // like the C library's own stream write: loop over short writes
   while(t<n) { ssize_t w=sim_write((int)(intptr_t)c-1,b+t,n-t); if(w==-2) { fault("write:eintr-stream"); continue; } if(w<0) return t ? (ssize_t)t : 0; t+=w; }
   return t;
}
static int ck_seek(void* c, off64_t* o, int w) { return sim_seek((int)(intptr_t)c-1,o,w); }
static std::map<int,FILE*> g_streams;
static int ck_close(void* c) { int h=(int)(intptr_t)c-1; g_disk->open_streams--; g_streams.erase(h); return sim_close(h); }

FILE* __real_fopen(const char*, const char*);
int __real_open(const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
off_t __real_lseek(int, off_t, int);
char* __real_realpath(const char*, char*);
char* __real_getenv(const char*);
void __real_exit(int);
int __real_gettimeofday(struct timeval*, void*);
void __real_buzzheap_gc(struct buzzvm_s*);

void disk_close_all() { if(g_disk) g_disk->armed=false; while(!g_streams.empty()) { FILE* f=g_streams.begin()->second; g_streams.erase(g_streams.begin()); fclose(f); } }
FILE* __wrap_fopen(const char* p, const char* m) {
   if(!g_disk) return __real_fopen(p,m);
   bool plus=strchr(m,'+'); int h;
   bool r=m[0]=='r', w=m[0]=='w', a=m[0]=='a';
   if(!r&&!w&&!a) { errno=EINVAL; return NULL; }
   if(!sim_open(p, r||plus, w||a||plus, w||a, w, a, h)) return NULL;
   cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close};
   FILE* f=fopencookie((void*)(intptr_t)(h+1),m,io);
   g_disk->open_streams++; g_streams[h]=f;
   if(g_disk->armed && g_disk->bufmode==1) setvbuf(f,NULL,_IONBF,0);
   else if(g_disk->armed && g_disk->bufmode==2) setvbuf(f,NULL,_IOLBF,64);
   return f;
}
int __wrap_open(const char* p, int fl, ...) {
   if(!g_disk) { va_list a; va_start(a,fl); int mode=va_arg(a,int); va_end(a); return __real_open(p,fl,mode); }
   int h; int acc=fl&O_ACCMODE;
   if(!sim_open(p, acc!=O_WRONLY, acc!=O_RDONLY, fl&O_CREAT, fl&O_TRUNC, fl&O_APPEND, h)) return -1;
   return FD0+h;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return fd>=FD0 ? sim_read(fd-FD0,b,n) : (g_disk && fd<0) ? (errno=EBADF,-1) : __real_read(fd,b,n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
   if(fd>=FD0) { ssize_t w=sim_write(fd-FD0,b,n); if(w==-2) { g_disk->fired++; g_disk->last_errno=errno; return -1; } return w; }
   return (g_disk && fd<0) ? (errno=EBADF,-1) : __real_write(fd,b,n);
}
int __wrap_close(int fd) { return fd>=FD0 ? sim_close(fd-FD0) : (g_disk && fd<0) ? (errno=EBADF,-1) : __real_close(fd); }
off_t __wrap_lseek(int fd, off_t o, int w) {
   if(fd>=FD0) { off64_t x=o; return sim_seek(fd-FD0,&x,w)<0 ? -1 : (off_t)x; }
   if(g_disk && fd<0) { errno=EBADF; return -1; }
   return __real_lseek(fd,o,w);
}
char* __wrap_realpath(const char* p, char* r) {
   if(!g_disk) return __real_realpath(p,r);
   if(!g_disk->files.count(p)) { errno=ENOENT; return NULL; }
   if(r) { strcpy(r,p); return r; }
   return strdup(p);
}
char* __wrap_getenv(const char* n) {
   if(!g_disk) return __real_getenv(n);
   auto i=g_env.find(n); return i==g_env.end()?NULL:(char*)i->second.c_str();
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
   ++g_clock_reads;
   tv->tv_sec=g_clock_us/1000000; tv->tv_usec=g_clock_us%1000000; return 0;
}
time_t __wrap_time(time_t* t) { ++g_clock_reads; time_t x=g_clock_us/1000000; if(t) *t=x; return x; }
int __wrap_clock_gettime(int, struct timespec* ts) { ++g_clock_reads; ts->tv_sec=g_clock_us/1000000; ts->tv_nsec=(g_clock_us%1000000)*1000; return 0; }

static jmp_buf* g_exitjmp=nullptr; static int g_exitcode;
void __wrap_exit(int c) { if(g_exitjmp) { g_exitcode=c; longjmp(*g_exitjmp,1); } __real_exit(c); }
}
int run_catching_exit(const std::function<int()>& fn) {
   jmp_buf jb; int r; g_exitjmp=&jb;
   if(setjmp(jb)==0) r=fn(); else r=1000+g_exitcode;
   g_exitjmp=nullptr;
   return r;
}

// ------------------------------------------------------------ stderr of the library
static str g_err; static FILE* g_errf=nullptr; static FILE* g_olderr=nullptr; static bool g_errcap=false;
static ssize_t er_write(void*, const char* b, size_t n) { if(g_errcap && g_err.size()<65536) g_err.append(b,n); return n; }
void stderr_capture(bool on) {
   if(!g_errf) {
      cookie_io_functions_t io={NULL,er_write,NULL,NULL};
      g_errf=fopencookie(NULL,"w",io); setvbuf(g_errf,NULL,_IONBF,0);
      g_olderr=stderr; stderr=g_errf;
   }
   g_errcap=on; g_err.clear();
}
str& stderr_text() { return g_err; }
// what the code under test prints, while captured
static str g_outtext; static FILE* g_outf=nullptr; static FILE* g_oldout=nullptr;
static ssize_t ou_write(void*, const char* b, size_t n) { if(g_outtext.size()<(1u<<22)) g_outtext.append(b,n); return n; }
void stdout_capture(bool on) {
   if(!g_outf) { cookie_io_functions_t io={NULL,ou_write,NULL,NULL}; g_outf=fopencookie(NULL,"w",io); setvbuf(g_outf,NULL,_IONBF,0); g_oldout=stdout; }
   if(on) { g_outtext.clear(); stdout=g_outf; } else stdout=g_oldout;
}
str& stdout_text() { return g_outtext; }

// ------------------------------------------------------------ memory accounting of the library
long g_mem_bytes=0, g_mem_blocks=0;
// requested sizes by address; blocks that were not seen being allocated are ignored
extern "C" void* __real_calloc(size_t,size_t); extern "C" void __real_free(void*);
struct MemRec { uintptr_t p; size_t n; };
static MemRec* g_mt=nullptr; static size_t g_mtn=0, g_mtu=0; static bool g_mon=false;
static inline size_t m_slot(uintptr_t p) { return (size_t)((p*0x9E3779B97F4A7C15ull)>>20)&(g_mtn-1); }
static void m_put(uintptr_t p, size_t n) {
   if((g_mtu+1)*2>g_mtn) {
      MemRec* o=g_mt; size_t on=g_mtn; g_mtn=on?on*2:1<<16; g_mt=(MemRec*)__real_calloc(g_mtn,sizeof(MemRec));
      for(size_t i=0;i<on;++i) if(o[i].p) { size_t k=m_slot(o[i].p); while(g_mt[k].p) k=(k+1)&(g_mtn-1); g_mt[k]=o[i]; }
      __real_free(o);
   }
   size_t k=m_slot(p); while(g_mt[k].p && g_mt[k].p!=p) k=(k+1)&(g_mtn-1);
   if(g_mt[k].p) { g_mem_bytes-=g_mt[k].n; --g_mem_blocks; --g_mtu; }     // released behind our back
   g_mt[k]={p,n}; ++g_mtu; g_mem_bytes+=n; ++g_mem_blocks;
}
static bool m_del(uintptr_t p) {
   if(!g_mtu) return false;
   size_t k=m_slot(p); while(g_mt[k].p && g_mt[k].p!=p) k=(k+1)&(g_mtn-1);
   if(!g_mt[k].p) return false;
   g_mem_bytes-=g_mt[k].n; --g_mem_blocks; --g_mtu;
   size_t h=k;
   for(size_t j=(k+1)&(g_mtn-1);g_mt[j].p;j=(j+1)&(g_mtn-1)) {
      size_t w=m_slot(g_mt[j].p);
      if(((j-w)&(g_mtn-1))>=((j-h)&(g_mtn-1))) { g_mt[h]=g_mt[j]; h=j; }
   }
   g_mt[h].p=0; return true;
}
void mem_account(bool on) { g_mon=on; if(g_mt) memset(g_mt,0,g_mtn*sizeof(MemRec)); g_mtu=0; g_mem_bytes=g_mem_blocks=0; }
static inline void* m_in(void* p, size_t n) { if(p && g_mon) m_put((uintptr_t)p,n); return p; }
static inline void m_out(void* p) { if(p && g_mon) m_del((uintptr_t)p); }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
int __real_vasprintf(char**,const char*,va_list); ssize_t __real_getdelim(char**,size_t*,int,FILE*);
#define POINT() do { if(g_bb_hook) bb_point((uintptr_t)__builtin_return_address(0)); } while(0)          // robots may also be switched where memory is requested or returned
void bb_point(uintptr_t);
void* __wrap_malloc(size_t n) { POINT(); return m_in(__real_malloc(n),n); }
void* __wrap_calloc(size_t a, size_t b) { POINT(); return m_in(__real_calloc(a,b),a*b); }
void* __wrap_realloc(void* p, size_t n) {
   POINT();
   if(!g_mon) return __real_realloc(p,n);
   uintptr_t o=(uintptr_t)p; bool known=!p||m_del(o); void* q=__real_realloc(p,n);
   if(q && known) m_put((uintptr_t)q,n);
   return q;
}
void __wrap_free(void* p) { POINT(); m_out(p); __real_free(p); }
char* __wrap_strdup(const char* s) { size_t n=strlen(s)+1; char* r=(char*)__wrap_malloc(n); if(r) memcpy(r,s,n); return r; }
int __wrap_vasprintf(char** r, const char* f, va_list a) { POINT(); int n=__real_vasprintf(r,f,a); if(n>=0) m_in(*r,n+1); POINT(); return n; }
int __wrap_asprintf(char** r, const char* f, ...) { va_list a; va_start(a,f); int n=__wrap_vasprintf(r,f,a); va_end(a); return n; }
ssize_t __wrap_getdelim(char** l, size_t* c, int d, FILE* f) { m_out(*l); ssize_t n=__real_getdelim(l,c,d,f); m_in(*l,*c); POINT(); return n; }
ssize_t __wrap___getdelim(char** l, size_t* c, int d, FILE* f) { return __wrap_getdelim(l,c,d,f); }
ssize_t __wrap_getline(char** l, size_t* c, FILE* f) { return __wrap_getdelim(l,c,'\n',f); }
}

// ------------------------------------------------------------ collection schedule
static std::map<void*,GcCtl*> g_gc;
static void* g_gclast=nullptr; static GcCtl* g_gclastc=nullptr;
void gc_attach(void* vm, GcCtl* c) { g_gc[vm]=c; g_gclast=nullptr; }
void gc_detach(void* vm) { g_gc.erase(vm); g_gclast=nullptr; }
extern uint64_t g_bb, g_bb_limit;
extern "C" void __wrap_buzzheap_gc(struct buzzvm_s* vm) {
   GcCtl* c;
   if(vm==g_gclast) c=g_gclastc;
   else { auto i=g_gc.find(vm); c = i==g_gc.end()?nullptr:i->second; g_gclast=vm; g_gclastc=c; }
   if(!c || c->mode==GC_NATURAL) { __real_buzzheap_gc(vm); return; }
   uint64_t n=c->n++;
   bool go=false;
   switch(c->mode) {
      case GC_EVERY: go=true; break;
      case GC_NEVER: go=false; break;
      case GC_EVERYK: go=(n % (uint64_t)(c->k>0?c->k:1))==0; break;
      case GC_RANDOM: { uint64_t z=(n+c->seed)*0x9E3779B97F4A7C15ull; z^=z>>29; z*=0xBF58476D1CE4E5B9ull; z^=z>>32; go=(z % (uint64_t)(c->k>0?c->k:1))==0; break; }
      case GC_LIST: go=c->list && c->list->count(n); break;
   }
   // a forced collection is charged a tenth: it is our doing that there are so many
   if(go) { uint64_t b=g_bb; c->runs++; vm->heap->max_objs=0; __real_buzzheap_gc(vm); if(g_bb_limit) g_bb_limit+=(g_bb-b)/10*9; }
}

// ------------------------------------------------------------ basic-block hook
uint64_t g_bb=0, g_bb_limit=0; void (*g_bb_hook)()=nullptr;
static uint64_t g_bb_next=1;        // block at which the slow path is taken
static const size_t COVN=1<<16; static uintptr_t g_cov[COVN]; static long g_covn=0;
long cov_count() { return g_covn; }
void bb_budget(uint64_t n) { g_bb_limit=g_bb+n; }
bool g_bb_each=false; uintptr_t g_bb_pc=0; uint64_t g_bb_due=0;         // block at which the scheduler wants to be called
void bb_hook(void (*f)(), uint64_t after) { g_bb_hook=f; g_bb_due=g_bb+after; if(g_bb_next>g_bb_due) g_bb_next=g_bb_due; }
void hang_abort();
// every 61st block is looked at closely
static __attribute__((noinline,no_sanitize("address"))) void bb_slow(uintptr_t pc) {
   g_bb_next = g_bb_each ? g_bb+1 : g_bb+61; if(g_bb_hook && g_bb_next>g_bb_due) g_bb_next = g_bb_due>g_bb ? g_bb_due : g_bb+1;
   size_t i=(pc*0x9E3779B97F4A7C15ull)>>48;
   if(g_cov[i]!=pc) {
      size_t k=0;
      while(g_cov[i] && g_cov[i]!=pc && k<64) { i=(i+1)&(COVN-1); ++k; }
      if(!g_cov[i]) { g_cov[i]=pc; ++g_covn; }
   }
   if(g_bb_limit && g_bb>g_bb_limit) hang_abort();
   if(g_bb_hook && (g_bb_each || g_bb>=g_bb_due)) { g_bb_pc=pc; g_bb_hook(); }
}
extern "C" void bb_point(uintptr_t pc) { if(++g_bb>=g_bb_next) bb_slow(pc); }
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
   if(++g_bb>=g_bb_next) bb_slow((uintptr_t)__builtin_return_address(0));
}
