// Reference model of neighbour broadcasts, fed with what scripts send and what is really delivered.
#pragma once
#include "world.hpp"
#include <deque>
#include <cmath>

struct Lst { int tag=0, pol=0; };
struct Bc { Val topic, value; };
struct Bcast {
   World& w;
   struct Bot { std::deque<Bc> out; std::map<str,Lst> lst; std::map<int,std::deque<Bc>> in; std::map<str,Val> keep; bool inproc=false; std::deque<str> next; std::map<str,Val> col; };
   std::vector<Bot> bot; std::map<str,int> fn;       // reference on the wire -> which function
   explicit Bcast(World& W):w(W),bot(W.n) {}
   static Val F(int n) { Val v; v.k=Val::FN; v.s=fmt("?%d",n); return v; }
   // expected value with functions by number against a decoded one
   bool match(const Val& want, const Val& got) {
      if(want.k==Val::FN) {
         if(got.k!=Val::FN) return false;
         int n=atoi(want.s.c_str()+1); auto it=fn.find(got.s);
         if(it!=fn.end()) return it->second==n;
         for(auto& e:fn) if(e.second==n) return false;
         fn[got.s]=n; return true;
      }
      if(want.k==Val::TBL) {
         if(got.k!=Val::TBL || got.t.size()!=want.t.size()) return false;
         for(size_t i=0;i<want.t.size();++i) if(want.t[i].first!=got.t[i].first || !match(want.t[i].second,got.t[i].second)) return false;
         return true;
      }
      return want==got;
   }
   static Val clean(const Val& v) {          // nil entries of tables do not exist
      if(v.k!=Val::TBL) return v;
      Val r=Val::T(); for(auto& e:v.t) if(e.second.k!=Val::NIL) r.put(e.first,clean(e.second));
      return r;
   }
   void sends(int i, const Val& t, const Val& v) { bot[i].out.push_back({t,clean(v)}); }
   bool collects(Bot& b, int from, const Bc& m) {         // neighbors.collect(): the latest value of each robot
      auto l=b.lst.find(m.topic.s); if(l==b.lst.end() || l->second.pol!=99) return false;
      if(!b.col.count(m.topic.s)) b.col[m.topic.s]=Val::T();
      b.col[m.topic.s].put(Val::I(from),m.value); probe("collected"); return true;
   }
   void op(int i, std::vector<Val>& o) {
      Bot& b=bot[i];
      switch(o[0].i) {
         case 8: sends(i,o[1],o[2]); break;
         case 9: b.lst[o[1].s]={o[2].i,o[3].i}; break;
         case 60: b.lst[o[1].s]={0,99}; break;
         case 61: b.col.erase(o[1].s); break;
         case 10: b.lst.erase(o[1].s); break;
         case 11: b.keep[o[1].repr()]=o[2]; break;
         case 12: sends(i,o[1],b.keep[o[2].repr()]); break;
         case 13: if(b.keep[o[1].repr()].k!=Val::TBL) o={Val::I(40),Val::I(1)}; else b.keep[o[1].repr()].put(o[2],o[3]); break;
         case 14: sends(i,o[1],F(o[2].i)); break;
         case 15: sends(i,o[1],Val()); break;
         case 16: { Val t=Val::T(); t.put(Val::S("f"),F(o[2].i)); t.put(Val::S("n"),Val::I(5)); sends(i,o[1],t); break; }
         case 17: { Val t=Val::T(); for(int k=0;k<o[2].i;++k) t.t.push_back({Val::I(k),Val::I(k*k)}); std::sort(t.t.begin(),t.t.end(),[](const std::pair<Val,Val>& a,const std::pair<Val,Val>& b){ return a.first.repr()<b.first.repr(); }); sends(i,o[1],t); break; }
         case 18: { str s="ab"; for(int k=0;k<o[2].i;++k) s+=s; sends(i,o[1],Val::S(s)); break; }
      }
   }
   void event(int i, const std::vector<Val>& a) {
      Bot& b=bot[i]; const str& k=a[0].s;
      str txt=k; for(size_t q=1;q<a.size();++q) txt+=" "+a[q].repr();
      if(k=="FR"||k=="FC") {
         if(b.next.empty() || b.next.front()!=txt) violation("received-function",fmt("step %ld: robot %d calls a received function and observes %s, expected %s",w.t,w.ids[i],txt.c_str(),b.next.empty()?"nothing":b.next.front().c_str()));
         else b.next.pop_front();
         return;
      }
      if(k=="M") {
         Val want=b.col.count(a[1].s)?clean(b.col[a[1].s]):Val();
         if(clean(a[2])!=want) violation("collected",fmt("step %ld: robot %d has collected %.300s, the messages handed to it say %.300s",w.t,w.ids[i],txt.c_str(),want.repr().c_str()));
         else if(want.k==Val::TBL) probe("collection-compared");
         return;
      }
      if(k!="B") return;
      if(!b.inproc) { violation("listener-call",fmt("step %ld: robot %d runs a listener although no message is being processed: %s",w.t,w.ids[i],txt.c_str())); return; }
      auto& q=b.in[a.size()>4?a[4].i:-1];
      while(!q.empty() && (!b.lst.count(q.front().topic.s) || collects(b,a[4].i,q.front()))) { q.pop_front(); probe("no-listener"); }
      if(q.empty()) { violation("listener-call",fmt("step %ld: robot %d runs a listener without a message to hand over: %.300s",w.t,w.ids[i],txt.c_str())); return; }
      Bc m=q.front(); q.pop_front(); Lst l=b.lst[m.topic.s];
      if(a[1]!=Val::I(l.tag) || a[2]!=m.topic || clean(a[3])!=clean(m.value)) {
         violation("listener-call",fmt("step %ld: robot %d runs %.300s, expected listener %d with topic %s, value %.300s of robot %d",w.t,w.ids[i],txt.c_str(),l.tag,m.topic.repr().c_str(),m.value.repr().c_str(),a[4].i)); return; }
      probe("handed-over");
      switch(l.pol) {
         case 1: sends(i,Val::S("echo"),m.value.k==Val::FN?F(fn[m.value.s]):refn(m.value)); probe("echo"); break;
         case 2: b.lst.erase(m.topic.s); probe("ignored-in-listener"); break;
         case 3: b.lst[m.topic.s]={l.tag+1000,0}; probe("replaced-in-listener"); break;
         case 5: sends(i,Val::S("echo"),Val::I(1)); b.lst["late"]={l.tag+2000,0}; break;
         case 6: if(m.value.k==Val::FN) {
            probe("received-function");
            int n=fn[m.value.s]; static const int res[]={0,21,42,60,20};
            if(n==2) b.next.push_back("FC "+Val::I(20).repr());
            b.next.push_back("FR "+Val::I(res[n]).repr()); } break;
         case 8: for(int x=0;x<25;++x) b.lst[fmt("x%d",x)]={l.tag+3000+x,0}; break;
      }
   }
   Val refn(const Val& v) { if(v.k==Val::FN) return F(fn[v.s]); Val r=v; for(auto& e:r.t) e.second=refn(e.second); return r; }
   void emit(int i, const Msg& m) {
      if(m.k==Msg::BAD) { violation("malformed-output",fmt("step %ld: robot %d sends a message that cannot be decoded",w.t,w.ids[i])); return; }
      if(m.k!=Msg::BCAST) return;
      Bot& b=bot[i];
      if(b.out.empty()) { violation("sent",fmt("step %ld: robot %d sends %.300s, which the script did not broadcast",w.t,w.ids[i],m.text().c_str())); return; }
      Bc x=b.out.front(); b.out.pop_front();
      if(x.topic!=m.topic || !match(x.value,clean(m.value))) violation("sent",fmt("step %ld: robot %d sends %.400s, expected topic %s value %.400s",w.t,w.ids[i],m.text().c_str(),x.topic.repr().c_str(),x.value.repr().c_str()));
   }
   void finish(int i) {
      Bot& b=bot[i]; if(!b.inproc) return;
      b.inproc=false;
      for(auto& e : b.in) { for(auto& m : e.second) if(collects(b,e.first,m)) {} else if(b.lst.count(m.topic.s)) { violation("not-delivered",fmt("step %ld: robot %d did not hand over topic %s value %.300s of robot %d",w.t,w.ids[i],m.topic.repr().c_str(),m.value.repr().c_str(),e.first)); return; } else probe("no-listener"); e.second.clear(); }
      if(!b.next.empty()) violation("received-function",fmt("step %ld: robot %d did not run a received function: %s",w.t,w.ids[i],b.next.front().c_str()));
   }
   void hook() {
      w.on_op=[this](int i, std::vector<Val>& o){ op(i,o); };
      w.on_event=[this](int i, const std::vector<Val>& a){ if(!a.empty()) event(i,a); };
      w.on_packet=[this](int i, const Packet& p){ bot[i].inproc=true; for(auto& x : p.msgs) { Msg m=decode(x); if(m.k==Msg::BCAST) bot[i].in[w.ids[p.from]].push_back({m.topic,m.value}); } };
      w.on_emit=[this](int i, const Bytes&, const Msg& m){ emit(i,m); };
      w.on_down=[this](int i){ bot[i]=Bot(); };
      w.after_in=[this](int i){ finish(i); };
   }
};
inline str topic(Rng& g) { static const char* t[]={"t0","t1","t2","","echo","late","x3","x17","a topic with spaces","distance","id"}; return t[g.chance(0.7)?g.below(3):g.below(11)]; }
inline Val bval(Rng& g) {
   if(g.chance(0.12)) { static const float fs[]={INFINITY,-INFINITY,NAN,3.4028235e38f,-3.4028235e38f,1.4e-45f,-1.17549435e-38f,0.99999994f}; return Val::F(fs[g.below(8)]); }
   if(g.chance(0.08)) return Val::I(g.chance(0.5)?INT32_MIN:INT32_MAX);
   if(g.chance(0.05)) return Val();
   return gen_val(g);
}
