#include "core.hpp"
#include <cstdarg>
#include <cmath>
#include <unistd.h>

Outcome* g_out = nullptr;
std::vector<str>* g_log = nullptr;
std::vector<str>* g_tap = nullptr;

str fmt(const char* f, ...) {
   char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b;
}
void ev(const str& s) {
   if(!g_out) return;
   g_out->hash = fnv(s, g_out->hash ? g_out->hash : 1469598103934665603ull);
   g_out->hash = fnv("\n", g_out->hash);
   if(g_log) g_log->push_back(s);
   if(g_tap) g_tap->push_back(s);
}
void evf(const char* f, ...) {
   char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); ev(b);
}
void violation(const str& cls, const str& msg) {
   if(!g_out || g_out->viol) return;
   g_out->viol=true; g_out->cls=cls; g_out->msg=msg;
   ev("VIOL "+cls+" "+msg);
}

// ---- Val
Val& Val::put(const Val& key, const Val& val) {
   str kr = key.repr();
   for(auto& p : t) if(p.first.repr()==kr) { p.second=val; return *this; }
   t.push_back({key,val});
   std::sort(t.begin(), t.end(), [](const std::pair<Val,Val>& a, const std::pair<Val,Val>& b){ return a.first.repr()<b.first.repr(); });
   return *this;
}
static void esc(str& r, const str& s) {
   for(unsigned char c : s) {
      if(isalnum(c) || c=='_' || c=='-' || c=='.' || c=='/') r+=(char)c;
      else { char b[8]; snprintf(b,sizeof b,"%%%02X",c); r+=b; }
   }
}
str Val::repr() const {
   switch(k) {
      case NIL: return "n";
      case INT: return "i"+std::to_string(i);
      case FLT: { if(std::isnan(f)) return "fnan"; float g = (f==0) ? 0.0f : f; uint32_t u; memcpy(&u,&g,4); return fmt("f%08x",u); }
      case STR: { str r="'"; esc(r,s); return r+"'"; }
      case TBL: { str r="{"; for(size_t j=0;j<t.size();++j) { if(j) r+=","; r+=t[j].first.repr()+"="+t[j].second.repr(); } return r+"}"; }
      case FN: return "fn:"+s;
      case UD: return "ud";
   }
   return "?";
}
bool Val::parse(const str& in, size_t& p, Val& o) {
   if(p>=in.size()) return false;
   char c=in[p];
   if(c=='n') { ++p; o=Val(); return true; }
   if(c=='i') { char* e; long x=strtol(in.c_str()+p+1,&e,10); p=e-in.c_str(); o=I((int32_t)x); return true; }
   if(c=='f') {
      if(in.compare(p,4,"fnan")==0) { p+=4; o=F(NAN); return true; }
      uint32_t u=strtoul(in.substr(p+1,8).c_str(),0,16); float f; memcpy(&f,&u,4); p+=9; o=F(f); return true; }
   if(c=='\'') {
      ++p; str s;
      while(p<in.size() && in[p]!='\'') {
         if(in[p]=='%') { s+=(char)strtoul(in.substr(p+1,2).c_str(),0,16); p+=3; }
         else s+=in[p++];
      }
      ++p; o=S(s); return true;
   }
   if(c=='{') {
      ++p; o=T();
      while(p<in.size() && in[p]!='}') {
         Val a,b; if(!parse(in,p,a)) return false;
         if(in[p]!='=') return false;
         ++p; if(!parse(in,p,b)) return false;
         o.t.push_back({a,b});
         if(in[p]==',') ++p;
      }
      ++p;
      std::sort(o.t.begin(), o.t.end(), [](const std::pair<Val,Val>& a, const std::pair<Val,Val>& b){ return a.first.repr()<b.first.repr(); });
      return true;
   }
   return false;
}

// ---- Plan
Line split(const str& s) {
   Line l; str cur;
   for(char c : s) { if(c==' '||c=='\t') { if(!cur.empty()) { l.w.push_back(cur); cur.clear(); } } else cur+=c; }
   if(!cur.empty()) l.w.push_back(cur);
   return l;
}
void Plan::add(const str& t) { act.push_back(split(t)); }
str Plan::text() const {
   str r="prop "+prop+"\nseed "+std::to_string(seed)+"\n";
   for(auto& l:cfg) r+=l.text()+"\n";
   for(auto& l:act) r+=l.text()+"\n";
   return r;
}
Plan Plan::parse(const str& t) {
   Plan p; size_t i=0;
   while(i<t.size()) {
      size_t j=t.find('\n',i); if(j==str::npos) j=t.size();
      str ln=t.substr(i,j-i); i=j+1;
      if(ln.empty()||ln[0]=='#') continue;
      Line l=split(ln); if(!l.n()) continue;
      if(l[0]=="prop") p.prop=l[1];
      else if(l[0]=="seed") p.seed=strtoull(l[1].c_str(),0,10);
      else if(l[0]=="cfg") p.cfg.push_back(l);
      else p.act.push_back(l);
   }
   return p;
}
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
