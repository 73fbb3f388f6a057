// Core of the deterministic simulator: seeded PRNG, values, plans, trace, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>

typedef std::string str;

// ---------------------------------------------------------------- PRNG
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed=1) { s = seed*0x9E3779B97F4A7C15ull + 0x1234567ull; next(); next(); }
   uint64_t next() {              // splitmix64
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z>>30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z>>27)) * 0x94D049BB133111EBull;
      return z ^ (z>>31);
   }
   int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
   int range(int a, int b) { return a + below(b-a+1); }       // inclusive
   bool chance(double p) { return (next()>>11) * (1.0/9007199254740992.0) < p; }
   template<class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

inline uint64_t fnv(const str& x, uint64_t h=1469598103934665603ull) {
   for(unsigned char c : x) { h ^= c; h *= 1099511628211ull; }
   return h;
}

// ---------------------------------------------------------------- values
struct Val {
   enum K { NIL, INT, FLT, STR, TBL, FN, UD } k = NIL;
   int32_t i = 0; float f = 0; str s;
   std::vector<std::pair<Val,Val>> t;
   static Val nil() { return Val(); }
   static Val I(int32_t x) { Val v; v.k=INT; v.i=x; return v; }
   static Val F(float x) { Val v; v.k=FLT; v.f=x; return v; }
   static Val S(const str& x) { Val v; v.k=STR; v.s=x; return v; }
   static Val T() { Val v; v.k=TBL; return v; }
   Val& put(const Val& key, const Val& val);
   str repr() const;                       // canonical text (also the plan encoding)
   bool operator==(const Val& o) const { return repr()==o.repr(); }
   bool operator!=(const Val& o) const { return repr()!=o.repr(); }
   static bool parse(const str& in, size_t& pos, Val& out);
   static Val from(const str& in) { size_t p=0; Val v; if(!parse(in,p,v)) { fprintf(stderr,"bad value %s\n",in.c_str()); exit(3);} return v; }
};

// ---------------------------------------------------------------- plans
struct Line {
   std::vector<str> w;
   const str& operator[](size_t i) const { static str e; return i < w.size() ? w[i] : e; }
   long num(size_t i, long d=0) const { return i < w.size() ? strtol(w[i].c_str(),0,10) : d; }
   size_t n() const { return w.size(); }
   str text() const { str r; for(size_t i=0;i<w.size();++i) { if(i) r+=' '; r+=w[i]; } return r; }
};
struct Plan {
   std::vector<Line> cfg;     // never minimised away: "cfg key value"
   std::vector<Line> act;     // minimisable actions
   str prop; uint64_t seed = 0;
   void setc(const str& k, const str& v) { Line l; l.w={"cfg",k,v}; cfg.push_back(l); }
   void setc(const str& k, long v) { setc(k,std::to_string(v)); }
   str getc(const str& k, const str& d="") const { for(auto& l:cfg) if(l[1]==k) return l[2]; return d; }
   long geti(const str& k, long d=0) const { str s=getc(k); return s.empty()?d:strtol(s.c_str(),0,10); }
   void add(const str& text);
   str text() const;
   static Plan parse(const str& text);
};
Line split(const str& s);

// ---------------------------------------------------------------- outcome of a run
struct Outcome {
   bool viol=false; str cls, msg;
   uint64_t hash=0;                 // of the whole event trace
   bool nontrivial=false;           // by the property's rule
   long simsteps=0;                 // robot control steps (or the property's unit)
   std::map<str,long> faults;       // fault kind -> times it actually fired
   std::map<str,long> probes;       // rare condition -> times hit
};

extern Outcome* g_out;              // of the current run
extern std::vector<str>* g_log;     // verbose event log when replaying, else NULL
void ev(const str& s);              // append to the event trace
void evf(const char* fmt, ...) __attribute__((format(printf,1,2)));
void violation(const str& cls, const str& msg);     // records the first one
inline bool violated() { return g_out && g_out->viol; }
inline void fault(const char* k, long n=1) { if(g_out) g_out->faults[k]+=n; }
inline void probe(const char* k, long n=1) { if(g_out) g_out->probes[k]+=n; }
str fmt(const char* f, ...) __attribute__((format(printf,1,2)));

// ---------------------------------------------------------------- properties
struct Prop {
   str id;
   std::function<Plan(uint64_t)> gen;
   std::function<void(const Plan&)> run;
   str rule;
};
std::vector<Prop>& props();
struct RegProp { RegProp(const str& id, std::function<Plan(uint64_t)> g, std::function<void(const Plan&)> r, const str& rule) { props().push_back({id,g,r,rule}); } };

// ---------------------------------------------------------------- basic-block hook
extern uint64_t g_bb;               // basic blocks executed by library code
extern uint64_t g_bb_limit;         // hang budget: absolute value of g_bb, 0 = none
extern void (*g_bb_hook)();         // called when due, if set (preemption)
extern bool g_bb_each; extern uintptr_t g_bb_pc; extern uint64_t g_bb_due;      // whether the hook is called at each block; where the program is; when the hook is due
void bb_hook(void (*f)(), uint64_t after=1);          // to be called after so many blocks
void bb_budget(uint64_t n);         // allow n more blocks
long cov_count();                   // distinct blocks seen so far in the process
