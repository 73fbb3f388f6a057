// Reference models of swarm membership (own) and of what a robot heard about its neighbours.
#pragma once
#include "world.hpp"
// ------------------------------------------------------------ own memberships
struct Own {
   World& w; std::vector<std::map<int,bool>> m; std::vector<std::map<int,bool>> ann; long lists=0; bool strict_list=false;
   explicit Own(World& W):w(W),m(W.n),ann(W.n) {}
   bool in(int i,int s) { auto x=m[i].find(s); return x!=m[i].end() && x->second; }
   // operations on swarms the script has not made are replaced
   bool op(int i, std::vector<Val>& o) {
      auto& M=m[i]; auto known=[&](size_t k){ return M.count(o[k].i)>0; };
      auto skip=[&]{ o={Val::I(40),Val::I(1)}; return false; };
      switch(o[0].i) {
         case 20: M.insert({o[1].i,false}); return true;
         case 21: if(!known(1)) return skip(); M[o[1].i]=true; return true;
         case 22: if(!known(1)) return skip(); M[o[1].i]=false; return true;
         case 23: if(!known(1)) return skip(); M[o[1].i]=o[2].i!=0; return true;
         case 24: case 25: case 26: {
            if(!known(2)||!known(3)) return skip();
            bool a=M[o[2].i], b=M[o[3].i]; M[o[1].i]= o[0].i==24 ? a||b : o[0].i==25 ? a&&b : a&&!b; return true; }
         case 27: if(!known(2)) return skip(); M[o[1].i]=!M[o[2].i]; return true;
         case 64: if(!known(1)) return skip(); if(M[o[1].i]) M.insert({o[2].i,false}); return true;
         case 65: if(!known(1)||!known(2)) return skip(); if(M[o[1].i]) M[o[2].i]=o[3].i!=0; return true;
         case 66: if(!known(2)||known(3)) return skip(); return true;
         case 55: if(!known(1)||!known(2)) return skip(); return true;
         case 28: case 29: case 48: case 49: case 56: case 57: if(!known(o[0].i>=48?2:1)) return skip(); return true;
      }
      return true;
   }
   void event(int i, const std::vector<Val>& a) {
      if(a[0].s=="I") { probe("asked");
         if(a.size()!=3 || a[2]!=Val::I(in(i,a[1].i)?1:0)) violation("membership",fmt("step %ld: robot %d is told %s when it asks for swarm %d, set semantics say %d",w.t,w.ids[i],a.size()>2?a[2].repr().c_str():"-",a[1].i,(int)in(i,a[1].i))); }
   }
   void emit(int i, const Msg& x) {
      auto& A=ann[i];
      if(x.k==Msg::BAD) violation("malformed-output",fmt("step %ld: robot %d sends a message that cannot be decoded",w.t,w.ids[i]));
      if(x.k==Msg::JOIN) A[x.ids[0]]=true;
      if(x.k==Msg::LEAVE) A[x.ids[0]]=false;
      if(x.k==Msg::LIST) { ++lists; A.clear(); for(int s:x.ids) A[s]=true;
         if(strict_list) { std::multiset<int> a(x.ids.begin(),x.ids.end()), b; for(auto& e:m[i]) if(e.second) b.insert(e.first);
            if(a!=b) { str s="lists",t="is in"; for(int y:a) s+=fmt(" %d",y); for(int y:b) t+=fmt(" %d",y); violation("listed",fmt("step %ld: robot %d ",w.t,w.ids[i])+s+" and "+t); } } }
   }
   void compare(int i) {
      std::set<int> a,b; for(auto& e:ann[i]) if(e.second) a.insert(e.first); for(auto& e:m[i]) if(e.second) b.insert(e.first);
      if(a!=b) { str s="announced:",t="actual:"; for(int x:a) s+=fmt(" %d",x); for(int x:b) t+=fmt(" %d",x);
         violation("announced",fmt("step %ld: robot %d, whose messages all left, ",w.t,w.ids[i])+s+", "+t); }
   }
};
inline std::vector<int> swids(const Plan& p) { std::vector<int> v; Rng g(p.seed*7+5); int n=(int)p.geti("swarms",3); for(int i=0;i<n;++i) v.push_back(p.geti("wide")?(g.chance(0.3)?65535-i:g.range(0,40)*n+i):p.geti("zero")?i:i+1); return v; }
inline void gen_swop(Plan& p, Rng& g, long t, int r, const std::vector<int>& S) {
   Val a=Val::I(g.pick(S)), b=Val::I(g.pick(S)), c=Val::I(g.pick(S));
   if(g.chance(0.12)) {      // back and forth before anything is sent
      for(int k=g.range(2,4);k>0;--k) p.add(op(t,r,g.chance(0.5)?21:22,{a}));
      return;
   }
   switch(g.below(9)) {
      case 0: p.add(op(t,r,20,{a})); break;
      case 1: case 2: p.add(op(t,r,21,{a})); break;
      case 3: p.add(op(t,r,22,{a})); break;
      case 4: p.add(op(t,r,23,{a,Val::I(g.chance(0.5)?0:g.chance(0.8)?1:g.range(-300,300))})); break;
      case 5: p.add(op(t,r,24,{a,b,c})); break;
      case 6: p.add(op(t,r,25,{a,b,c})); break;
      case 7: p.add(op(t,r,26,{a,b,c})); break;
      case 8: p.add(op(t,r,27,{a,b})); break;
   }
}
struct Know {
   World& w; struct E { std::set<int> s; int age=0; };
   struct Bot { std::map<int,E> k; std::set<int> nb; std::multiset<int> kin,non; bool open=false; int sw=0; long quietfor=0; };
   std::vector<Bot> b;
   explicit Know(World& W):w(W),b(W.n) {}
   void msg(int i, int from, const Msg& m) {
      auto& K=b[i].k;
      if(m.k==Msg::LIST) { if(m.ids.empty()) K.erase(from); else { auto& e=K[from]; e.s=std::set<int>(m.ids.begin(),m.ids.end()); e.age=0; } }
      else if(m.k==Msg::JOIN) { auto& e=K[from]; e.s.insert(m.ids[0]); e.age=0; }
      else if(m.k==Msg::LEAVE) { auto it=K.find(from); if(it!=K.end()) { it->second.age=0; it->second.s.erase(m.ids[0]); if(it->second.s.empty()) K.erase(it); } }
   }
   void aged(int i) { for(auto it=b[i].k.begin();it!=b[i].k.end();) if(++it->second.age>50) { it=b[i].k.erase(it); probe("forgotten"); } else ++it; }
   bool isin(int i,int r,int s) { auto it=b[i].k.find(r); return it!=b[i].k.end() && it->second.s.count(s); }
};
inline str ms(const std::multiset<int>& s) { str r="{"; for(int x:s) r+=fmt(" %d",x); return r+" }"; }
