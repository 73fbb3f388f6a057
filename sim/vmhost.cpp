#include "vmhost.hpp"
extern "C" {
#include <buzz/buzzparser.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzmsg.h>
}
#include <unistd.h>
#include <cmath>

static const uint64_t CALL_BUDGET = 600ull*1000*1000;

// ------------------------------------------------------------ compile
const Code& compile(const str& src, const str& fname) {
   static std::map<str,std::unique_ptr<Code>> cache;
   auto it=cache.find(src);
   if(it!=cache.end()) return *it->second;
   std::unique_ptr<Code> c(new Code);
   Disk d; Disk* old=g_disk; g_disk=&d; stderr_capture(true);
   d.files[fname]=src;
   char a0[]="bzzparse"; str a1=fname, a2="/s.basm";
   char* av[]={a0,&a1[0],&a2[0],NULL};
   buzzparser_t p=buzzparser_new(3,av);
   if(p) {
      int r=buzzparser_parse(p);
      buzzparser_destroy(&p);
      if(r==1) {
         uint8_t* buf=NULL; uint32_t sz=0; buzzdebug_t dbg=NULL;
         if(buzz_asm("/s.basm",&buf,&sz,&dbg)==0) {
            c->bc.assign(buf,buf+sz); c->ok=true; free(buf);
            buzzdebug_tofile("/s.bdb",dbg);
            c->dbg=d.files["/s.bdb"];
            buzzdebug_destroy(&dbg);
         }
      }
   }
   c->asmtext=d.files["/s.basm"];
   g_disk=old;
   if(!c->ok) c->err=stderr_text();
   stderr_capture(false);
   // caches stay small: generated programs are unbounded
   if(cache.size()>64) for(auto i=cache.begin();i!=cache.end();) { if(i->first.size()<20000 && i->first.find("#keep")==str::npos) i=cache.erase(i); else ++i; }
   const Code& r=*c; cache[src]=std::move(c); return r;
}

// ------------------------------------------------------------ values
struct conv { Val* v; int d; };
static void conv_el(const void* k, void* dt, void* p) {
   conv* c=(conv*)p;
   Val a=from_obj(*(buzzobj_t*)k,c->d+1), b=from_obj(*(buzzobj_t*)dt,c->d+1);
   c->v->t.push_back({a,b});
}
Val from_obj(buzzobj_t o, int depth) {
   Val v;
   if(!o) { v.k=Val::UD; return v; }
   switch(o->o.type) {
      case BUZZTYPE_NIL: return v;
      case BUZZTYPE_INT: return Val::I(o->i.value);
      case BUZZTYPE_FLOAT: return Val::F(o->f.value);
      case BUZZTYPE_STRING: return Val::S(o->s.value.str);
      case BUZZTYPE_TABLE: {
         v.k=Val::TBL; if(depth>6) return v;
         conv c={&v,depth}; buzzdict_foreach(o->t.value,conv_el,&c);
         std::sort(v.t.begin(), v.t.end(), [](const std::pair<Val,Val>& a, const std::pair<Val,Val>& b){ return a.first.repr()<b.first.repr(); });
         return v; }
      case BUZZTYPE_CLOSURE: v.k=Val::FN; v.s=fmt("%d:%d",o->c.value.isnative,o->c.value.ref); return v;
      default: v.k=Val::UD; return v;
   }
}
static void push_val(buzzvm_t vm, const Val& v) {
   switch(v.k) {
      case Val::INT: buzzvm_pushi(vm,v.i); break;
      case Val::FLT: buzzvm_pushf(vm,v.f); break;
      case Val::STR: buzzvm_pushs(vm,buzzvm_string_register(vm,v.s.c_str(),0)); break;
      case Val::TBL:
         buzzvm_pusht(vm);
         for(auto& e : v.t) { buzzvm_dup(vm); push_val(vm,e.first); push_val(vm,e.second); buzzvm_tput(vm); }
         break;
      default: buzzvm_pushnil(vm);
   }
}
buzzobj_t to_obj(buzzvm_t vm, const Val& v) { push_val(vm,v); buzzobj_t o=buzzvm_stack_at(vm,1); buzzvm_pop(vm); return o; }

// ------------------------------------------------------------ robots
static std::map<buzzvm_t,Robot*> g_robots;
Robot* robot_of(buzzvm_t vm) { auto i=g_robots.find(vm); return i==g_robots.end()?nullptr:i->second; }

static std::vector<Val> args_of(buzzvm_t vm) {
   std::vector<Val> a; int64_t n=buzzvm_lnum(vm);
   for(int64_t i=1;i<=n;++i) { buzzvm_lload(vm,i); a.push_back(from_obj(buzzvm_stack_at(vm,1))); buzzvm_pop(vm); }
   return a;
}
extern "C" {
static int h_simev(buzzvm_t vm) {
   Robot* r=robot_of(vm);
   std::vector<Val> a=args_of(vm);
   if(r && r->on_event) r->on_event(*r,a);
   return buzzvm_ret0(vm);
}
static int h_simop(buzzvm_t vm) {
   Robot* r=robot_of(vm);
   r->curop.clear();
   if(!r || !r->next_op || !r->next_op(*r,r->curop) || r->curop.empty()) { if(r) r->curop.clear(); buzzvm_pushi(vm,0); return buzzvm_ret1(vm); }
   buzzvm_pushi(vm,r->curop[0].i);
   return buzzvm_ret1(vm);
}
static int h_simarg(buzzvm_t vm) {
   Robot* r=robot_of(vm);
   std::vector<Val> a=args_of(vm);
   size_t n = a.empty()?0:(size_t)a[0].i;
   push_val(vm, r && n<r->curop.size() ? r->curop[n] : Val());
   return buzzvm_ret1(vm);
}
}
static int h_simtok(buzzvm_t vm) { Robot* r=robot_of(vm); buzzvm_pushi(vm, r && r->tokpos<r->toks.size() ? r->toks[r->tokpos++] : 0); return buzzvm_ret1(vm); }
static int h_simtick(buzzvm_t vm) { Robot* r=robot_of(vm); if(r && r->on_event) r->on_event(*r,{Val::S("TICK")}); return buzzvm_ret0(vm); }
static int h_simisfn(buzzvm_t vm) { std::vector<Val> a=args_of(vm); buzzvm_pushi(vm,!a.empty()&&a[0].k==Val::FN); return buzzvm_ret1(vm); }
static int h_simc(buzzvm_t vm) { buzzvm_pushi(vm,1); return buzzvm_ret1(vm); }      // a function of the robot that takes anything
static void regfun(buzzvm_t vm, const char* n, buzzvm_funp f) {
   buzzvm_pushs(vm,buzzvm_string_register(vm,n,1));
   buzzvm_pushcc(vm,buzzvm_function_register(vm,f));
   buzzvm_gstore(vm);
}
Robot::~Robot() { destroy(); }
void Robot::destroy() {
   if(!vm) return;
   bb_budget(CALL_BUDGET);
   g_robots.erase(vm); gc_detach(vm);
   buzzvm_destroy(&vm); vm=nullptr;
}
bool Robot::boot(uint16_t rid, const Code& c) {
   id=rid; code=&c; steps=0; dead=false; toks.clear(); tokpos=0;
   bb_budget(CALL_BUDGET);
   vm=buzzvm_new(id);
   g_robots[vm]=this; gc_attach(vm,&gc);
   if(buzzvm_set_bcode(vm,c.bc.data(),c.bc.size())!=BUZZVM_STATE_READY) return false;
   regfun(vm,"simev",h_simev); regfun(vm,"simop",h_simop); regfun(vm,"simarg",h_simarg);
   regfun(vm,"simtok",h_simtok); regfun(vm,"simtick",h_simtick); regfun(vm,"simisfn",h_simisfn); regfun(vm,"simc",h_simc);
   if(runner ? !runner(*this,NULL,{}) : buzzvm_execute_script(vm)!=BUZZVM_STATE_DONE) return false;
   if(!callv("init",{})) return false;
   buzzvm_pop(vm);
   return true;
}
bool Robot::callv(const char* f, const std::vector<int>& a) {
   bb_budget(CALL_BUDGET);
   if(runner) return runner(*this,f,a);
   if(vm->state!=BUZZVM_STATE_READY && vm->state!=BUZZVM_STATE_DONE) return false;
   for(int x:a) buzzvm_pushi(vm,x);
   return buzzvm_function_call(vm,f,a.size())==BUZZVM_STATE_READY;
}
bool Robot::call(const char* f) {
   if(!callv(f,{})) return false;
   buzzvm_pop(vm);
   return true;
}
void Robot::begin() { bb_budget(CALL_BUDGET); if(vm->state==BUZZVM_STATE_READY) buzzneighbors_reset(vm); }
void Robot::add_neighbor(uint16_t rid, float d, float a, float e) { buzzneighbors_add(vm,rid,d,a,e); }
void Robot::deliver(uint16_t from, const Bytes& b) {
   buzzmsg_payload_t p=buzzmsg_payload_frombuffer(b.data(),b.size());
   buzzinmsg_queue_append(vm,from,p);
}
void Robot::process_in() { bb_budget(CALL_BUDGET); buzzvm_process_inmsgs(vm); }
void Robot::step() { ++steps; call("step"); }
void Robot::process_out() { bb_budget(CALL_BUDGET); buzzvm_process_outmsgs(vm); }
bool Robot::drained() { return buzzoutmsg_queue_isempty(vm)!=0; }
bool Robot::take_msg(Bytes& out) {
   bb_budget(CALL_BUDGET);
   if(buzzoutmsg_queue_isempty(vm)) return false;
   buzzmsg_payload_t m=buzzoutmsg_queue_first(vm);
   out.assign((uint8_t*)m->data,(uint8_t*)m->data+buzzmsg_payload_size(m));
   buzzoutmsg_queue_next(vm);
   buzzmsg_payload_destroy(&m);
   return true;
}

// ------------------------------------------------------------ an independent decoder of the wire format
static bool g_u8(const Bytes& b, size_t& p, uint32_t& v) { if(p+1>b.size()) return false; v=b[p]; p+=1; return true; }
static bool g_u16(const Bytes& b, size_t& p, uint32_t& v) { if(p+2>b.size()) return false; v=(b[p]<<8)|b[p+1]; p+=2; return true; }
static bool g_u32(const Bytes& b, size_t& p, uint32_t& v) { if(p+4>b.size()) return false; v=((uint32_t)b[p]<<24)|(b[p+1]<<16)|(b[p+2]<<8)|b[p+3]; p+=4; return true; }
static bool g_val(const Bytes& b, size_t& p, Val& v, int depth=0) {
   uint32_t t,x,y;
   if(depth>200) return false;
   if(!g_u8(b,p,t)) return false;
   switch(t) {
      case 0: v=Val(); return true;
      case 1: if(!g_u32(b,p,x)) return false; v=Val::I((int32_t)x); return true;
      case 2: {
         if(!g_u32(b,p,x)||!g_u32(b,p,y)) return false;
         int64_t m=(int32_t)x; int32_t e=(int32_t)y;
         if(m==0 && e==INT32_MAX) { v=Val::F(NAN); return true; }
         if(m==0) { v=Val::F(0); return true; }
         float f=(float)((m<0?-m:m)-1)/4294967296.0f+0.5f;
         f=ldexpf(f,e); v=Val::F(m<0?-f:f); return true; }
      case 3: {
         if(!g_u16(b,p,x)||p+x>b.size()) return false;
         str s((const char*)b.data()+p,x); p+=x; s=s.c_str(); v=Val::S(s); return true; }
      case 4: {
         if(!g_u8(b,p,x)) return false;
         v=Val::T();
         for(uint32_t i=0;i<x;++i) {
            Val k,d; if(!g_val(b,p,k,depth+1)) return false;
            if(k.k!=Val::INT&&k.k!=Val::FLT&&k.k!=Val::STR) return false;
            if(!g_val(b,p,d,depth+1)) return false;
            v.put(k,d);
         }
         return true; }
      case 5: if(!g_u8(b,p,x)||!g_u32(b,p,y)) return false; v.k=Val::FN; v.s=fmt("%d:%d",(int)x,(int)y); return true;
   }
   return false;
}
Msg decode(const Bytes& b) {
   Msg m; if(b.empty()) return m;
   size_t p=1; uint32_t u,n;
   switch(b[0]) {
      case BUZZMSG_BROADCAST:
         if(!g_val(b,p,m.topic) || m.topic.k!=Val::STR || !g_val(b,p,m.value)) break;
         m.k=Msg::BCAST; break;
      case BUZZMSG_SWARM_LIST: {
         if(!g_u16(b,p,n)) break;
         bool ok=true;
         for(uint32_t i=0;i<n && ok;++i) { ok=g_u16(b,p,u); if(ok) m.ids.push_back(u); }
         if(ok) m.k=Msg::LIST;
         break; }
      case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE:
         if(!g_u16(b,p,u)) break;
         m.ids.push_back(u); m.k = b[0]==BUZZMSG_SWARM_JOIN?Msg::JOIN:Msg::LEAVE; break;
      case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY:
         if(!g_u16(b,p,u)) break;
         m.stig=u;
         if(!g_val(b,p,m.key) || m.key.k==Val::TBL || m.key.k==Val::FN) break;
         if(!g_val(b,p,m.value)||!g_u16(b,p,u)) break;
         m.ts=u; if(!g_u16(b,p,u)) break;
         m.robot=u; m.k = b[0]==BUZZMSG_VSTIG_PUT?Msg::PUT:Msg::QUERY; break;
   }
   return m;
}
str Msg::text() const {
   switch(k) {
      case BAD: return "BAD";
      case BCAST: return "BCAST "+topic.repr()+" "+value.repr();
      case LIST: case JOIN: case LEAVE: { str r= k==LIST?"LIST":k==JOIN?"JOIN":"LEAVE"; auto s=ids; std::sort(s.begin(),s.end()); for(int i:s) r+=" "+std::to_string(i); return r; }
      case PUT: case QUERY: return fmt("%s %d ",k==PUT?"PUT":"QUERY",stig)+key.repr()+" "+value.repr()+fmt(" ts%d r%d",ts,robot);
   }
   return "";
}
