// Reference model of virtual stigmergy, fed with the operations that run and the messages that are really delivered.
#pragma once
#include "world.hpp"

struct Ver { int ts=0, robot=0; Val v; bool has=false;
   str text() const { return has ? v.repr()+fmt(" version %d of robot %d",ts,robot) : str("nothing"); }
   bool same(const Ver& o) const { return has==o.has && ts==o.ts && robot==o.robot && v==o.v; } };
inline bool less_ver(const Ver& a, const Ver& b) {       // default total order
   if(a.has!=b.has) return !a.has;
   if(a.ts!=b.ts) return a.ts<b.ts;
   bool an=a.v.k!=Val::NIL, bn=b.v.k!=Val::NIL;
   if(an!=bn) return !an;
   return a.robot<b.robot;
}
struct Stig {
   World& w;
   typedef std::pair<int,str> SK;
   struct Handler { int policy=-1; int tag=0; };
   struct Bot {
      std::map<int,std::map<str,Ver>> st; std::map<int,std::map<str,Val>> keys;
      std::map<int,Handler> conf, lost;
      std::map<SK,long> dirty;                 // has something to announce since
      std::map<SK,Ver> lastout;
   };
   std::vector<Bot> bot;
   std::map<std::pair<SK,std::pair<int,int>>,std::set<str>> reg;     // every version that was ever made
   std::map<SK,Ver> best;                                            // greatest version written by anybody
   std::vector<str> expect;                                          // handler calls predicted for the current processing
   bool check_mono=false, check_inv=true, check_reads=true;
   bool restarted_readonly=false;
   // enumeration in progress
   std::map<int,std::vector<std::vector<Val>>> fe; std::map<int,bool> fopen_;
   std::map<int,std::map<SK,Val>> lastread;
   explicit Stig(World& W):w(W),bot(W.n) {}
   void reset(int i) { bot[i]=Bot(); }
   void add_reg(int s, const str& k, const Ver& v) { reg[{{s,k},{v.ts,v.robot}}].insert(v.v.repr()); auto& b=best[{s,k}]; if(!b.has||less_ver(b,v)) b=v; }
   void mark(int i, int s, const str& k) { bot[i].dirty[{s,k}]=w.t; }
   void put(int i, int s, const Val& k, const Val& v) {
      auto& B=bot[i]; if(!B.st.count(s)) return;
      auto& m=B.st[s]; str kr=k.repr(); auto it=m.find(kr);
      if(it==m.end() && v.k==Val::NIL) return;
      Ver x; x.has=true; x.ts=(it==m.end()?0:it->second.ts)+1; x.robot=w.ids[i]; x.v=v;
      m[kr]=x; B.keys[s][kr]=k; add_reg(s,kr,x); mark(i,s,kr);
      if(v.k==Val::NIL) probe("deletion");
   }
   void apply(int i, const Msg& m) {
      auto& B=bot[i]; if(!B.st.count(m.stig)) { if(m.k==Msg::QUERY) probe("relay-unknown-stig"); return; }
      auto& S=B.st[m.stig]; str kr=m.key.repr(); auto it=S.find(kr);
      Ver x; x.has=true; x.ts=m.ts; x.robot=m.robot; x.v=m.value;
      if(it==S.end()) {
         if(m.k==Msg::QUERY && m.value.k==Val::NIL && m.ts==0) { probe("query-nobody-knows-here"); return; }
         S[kr]=x; B.keys[m.stig][kr]=m.key; mark(i,m.stig,kr); probe("accept-new"); return;
      }
      Ver l=it->second;
      if(l.ts<x.ts) { it->second=x; mark(i,m.stig,kr); probe(m.k==Msg::PUT?"accept-newer-put":"accept-newer-query"); }
      else if(l.ts>x.ts) { if(m.k==Msg::QUERY) { mark(i,m.stig,kr); probe("answer-query"); } else probe("stale-put-ignored"); }
      else if(l.robot!=x.robot) { probe("conflict"); conflict(i,m.stig,m.key,l,x); }
   }
   static str tabl(const Ver& v) { return v.v.repr()+" "+Val::I(v.ts).repr()+" "+Val::I(v.robot).repr(); }
   void conflict(int i, int s, const Val& key, const Ver& l, const Ver& x) {
      auto& B=bot[i]; str kr=key.repr(); Ver c; bool ok=true; int me=w.ids[i];
      auto h=B.conf.find(s);
      if(h!=B.conf.end()) {
         int p=h->second.policy;
         expect.push_back("C "+Val::I(s).repr()+" "+Val::I(h->second.tag).repr()+" "+key.repr()+" "+tabl(l)+" "+tabl(x));
         switch(p) {
            case 0: c=l; break;
            case 1: c=x; break;
            case 2: c = l.robot<x.robot?l:x; break;
            case 3: c = l.robot>x.robot?l:x; break;
            case 4: case 5: case 6: ok=false; break;
            case 7: c=l; c.robot=me; c.v=Val::I(l.robot+x.robot*1000); break;
            case 8: put(i,s,Val::S("hk"),Val::I(l.robot)); c = l.robot>x.robot?l:x; break;
            case 9: for(int k=0;k<12;++k) put(i,s,Val::S(fmt("hk%d",k)),Val::I(k)); c=x; break;
            case 10: c = l.robot>x.robot?l:x; break;
            case 11: c = l.robot>x.robot?l:x; break;
            case 12: put(i,s,key,Val::I(l.robot+100)); c = l.robot>x.robot?l:x; break;
            case 13: B.conf[s]={3,-1}; c = l.robot<x.robot?l:x; break;
         }
         if(!ok) { probe("handler-no-answer"); return; }
         if(B.st[s][kr].ts!=l.ts) { probe("handler-wrote-the-key"); return; }     // the handler itself wrote a newer version
         c.has=true; c.ts=l.ts; add_reg(s,kr,c);
      }
      else { Ver a=l,b=x; c = less_ver(a,b)?b:a; }
      B.st[s][kr]=c; mark(i,s,kr);
      if(c.robot!=me && l.robot==me) {
         auto L=B.lost.find(s); probe("conflict-lost");
         if(L!=B.lost.end()) {
            expect.push_back("L "+Val::I(s).repr()+" "+Val::I(L->second.tag).repr()+" "+key.repr()+" "+tabl(l));
            int lp=L->second.policy;
            if(lp==5) put(i,s,key,l.v);
            if(lp==6) B.lost[s]={0,-1};
            if(lp==1) put(i,s,Val::S("lost"),l.v);
            if(lp==2) for(int k=0;k<12;++k) put(i,s,Val::I(1000+k),Val::I(k));
         }
      }
   }
   const Ver& held(int i, int s, const str& kr) { static Ver none; auto& B=bot[i]; auto a=B.st.find(s); if(a==B.st.end()) return none; auto b=a->second.find(kr); return b==a->second.end()?none:b->second; }
   void op(int i, std::vector<Val>& o) {
      int c=o[0].i;
      if((c==2||c==19) && restarted_readonly && w.boots[i]>1) { o={Val::I(3),o[1],o[2]}; return; }
      if(c==1) { int s=o[1].i; auto& B=bot[i]; B.st[s].clear(); B.keys[s].clear(); B.conf.erase(s); B.lost.erase(s);
         for(auto it=B.dirty.begin();it!=B.dirty.end();) if(it->first.first==s) it=B.dirty.erase(it); else ++it;
         for(auto it=B.lastout.begin();it!=B.lastout.end();) if(it->first.first==s) it=B.lastout.erase(it); else ++it; }
      else if(c==2) put(i,o[1].i,o[2],o[3]);
      else if(c==19) { for(int q=0;q<o[4].i;++q) put(i,o[1].i,o[2],Val::I(o[3].i+q)); probe("many-writes",o[4].i); }
      else if(c==6) bot[i].conf[o[1].i]={o[2].i,o[3].i};
      else if(c==7) bot[i].lost[o[1].i]={o[2].i,o[3].i};
   }
   void event(int i, const std::vector<Val>& a) {
      const str& k=a[0].s;
      if(k=="G") {
         Val want=held(i,a[1].i,a[2].repr()).v;
         lastread[i][{a[1].i,a[2].repr()}]=a[3];
         if(check_reads && a[3]!=want) violation("read",fmt("step %ld: robot %d reads key %s of stigmergy %d as %s but holds %s",w.t,w.ids[i],a[2].repr().c_str(),a[1].i,a[3].repr().c_str(),held(i,a[1].i,a[2].repr()).text().c_str()));
      }
      else if(k=="Z") {
         int want=0; for(auto& e : bot[i].st[a[1].i]) if(e.second.v.k!=Val::NIL) ++want;
         if(check_reads && a[2]!=Val::I(want)) violation("size",fmt("step %ld: robot %d reports size %s of stigmergy %d, expected %d",w.t,w.ids[i],a[2].repr().c_str(),a[1].i,want));
      }
      else if(k=="F0") fe[i].clear();
      else if(k=="F") fe[i].push_back(a);
      else if(k=="F1") {
         std::multiset<str> got,want;
         for(auto& e : fe[i]) got.insert(e[2].repr()+"="+e[3].repr()+" by "+e[4].repr());
         for(auto& e : bot[i].st[a[1].i]) if(e.second.v.k!=Val::NIL) want.insert(e.first+"="+e.second.v.repr()+" by "+Val::I(e.second.robot).repr());
         if(check_reads && got!=want) { str g,x; for(auto& s:got) g+=" ["+s+"]"; for(auto& s:want) x+=" ["+s+"]"; violation("enumeration",fmt("step %ld: robot %d enumerates stigmergy %d as",w.t,w.ids[i],a[1].i)+g+" but holds"+x); }
         if(got.size()>3) probe("enumeration-of-several");
      }
   }
   void emit(int i, const Msg& m) {
      if(m.k!=Msg::PUT && m.k!=Msg::QUERY) return;
      if(m.ts==0) return;
      str kr=m.key.repr(); Ver x; x.has=true; x.ts=m.ts; x.robot=m.robot; x.v=m.value;
      if(check_inv) {
         auto it=reg.find({{m.stig,kr},{m.ts,m.robot}});
         if(it==reg.end() || !it->second.count(m.value.repr())) violation("invented",fmt("step %ld: robot %d sends %s, a version that nobody wrote",w.t,w.ids[i],m.text().c_str()));
      }
      auto& B=bot[i]; if(!B.st.count(m.stig)) return;
      auto& lo=B.lastout[{m.stig,kr}];
      if(check_mono && lo.has && less_ver(x,lo)) violation("older-after-newer",fmt("step %ld: robot %d sends %s after having sent %s",w.t,w.ids[i],m.text().c_str(),lo.text().c_str()));
      lo=x;
      const Ver& h=held(i,m.stig,kr);
      if(h.same(x)) B.dirty.erase({m.stig,kr});
   }
   void hook(World& W) {
      W.on_op=[this](int i, std::vector<Val>& o){ op(i,o); };
      W.on_event=[this](int i, const std::vector<Val>& a){ if(!a.empty()) event(i,a); };
      W.on_packet=[this](int i, const Packet& p){ for(auto& b : p.msgs) { Msg m=decode(b); if(m.k==Msg::PUT||m.k==Msg::QUERY) apply(i,m); } };
      W.on_emit=[this](int i, const Bytes&, const Msg& m){ emit(i,m); };
      W.on_down=[this](int i){ reset(i); };
   }
};
