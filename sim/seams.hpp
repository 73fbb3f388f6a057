// The seams: simulated disk, clock, process exit, garbage-collection trigger.
#pragma once
#include "core.hpp"

struct DiskFault { long at; str kind; long arg; };   // at: ordinal of the call of that class ("op" below)
struct Disk {
   std::map<str,str> files;
   std::set<str> readonly;               // paths that cannot be opened for writing
   long capacity=-1;                     // bytes the disk can hold in total, -1: unlimited
   long maxio=0;                         // >0: transfers move at most this many bytes
   int bufmode=0;                        // stdio buffering of simulated streams: 0 default, 1 none, 2 tiny
   std::vector<DiskFault> faults;        // by global ordinal of disk calls
   long ops=0;                           // disk calls so far
   long fired=0;                         // faults that fired (hard ones)
   long fired_read=0;                    // of these, failed reads
   int last_errno=0;                     // of the last fault that fired
   bool armed=false;                     // faults and limits in effect
   std::vector<str> calls;               // call log
   std::set<str> damaged;                // files that had a hard write/close error
   int open_streams=0;
   long total() const { long n=0; for(auto& f:files) n+=f.second.size(); return n; }
};
extern Disk* g_disk;
extern "C" void disk_close_all();      // closes the streams a program left open
extern int64_t g_clock_us;
extern long g_clock_reads;
extern std::map<str,str> g_env;

// runs fn; returns its result, or 1000+status if it called exit(status)
int run_catching_exit(const std::function<int()>& fn);

// captured stderr stream of the library
void stderr_capture(bool on);
str& stderr_text();
void stdout_capture(bool on); str& stdout_text();

// garbage-collection schedule
enum GcMode { GC_NATURAL=0, GC_EVERY=1, GC_NEVER=2, GC_EVERYK=3, GC_RANDOM=4, GC_LIST=5 };
struct GcCtl { int mode=GC_NATURAL; long k=1; uint64_t n=0; uint64_t seed=0; uint64_t runs=0; const std::set<uint64_t>* list=nullptr; };
void gc_attach(void* vm, GcCtl* c);
void gc_detach(void* vm);

// memory the library holds: bytes and blocks
extern long g_mem_bytes, g_mem_blocks;
void mem_account(bool on);              // starts counting from zero
