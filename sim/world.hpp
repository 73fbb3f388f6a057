// The simulated deployment: robots, radio links, time, and the fault schedule of a plan.
#pragma once
#include "vmhost.hpp"

struct Packet { long due; long seq; int from, to; long sent; std::vector<Bytes> msgs; float d,a,e; };

struct World {
   const Plan& plan;
   int n;                                    // robots 0..n-1
   std::vector<int> ids;                     // robot id on the wire, by index
   std::vector<std::unique_ptr<Robot>> r;
   std::vector<bool> up;
   std::vector<long> stall_until, bw, booted_at, boots;
   std::vector<std::vector<bool>> link;
   std::vector<Packet> air;
   long t=0, seq=0, last_tick=0;
   int running=-1;                           // robot whose code runs now
   bool perpacket=false;                     // messages of each packet processed separately
   bool quiet=false;                         // faults of the network ignored (after stop)
   const char* program=nullptr;
   // what the plan schedules
   std::map<std::pair<long,int>, std::vector<std::vector<Val>>> ops;
   std::map<long, std::vector<Line>> tickacts;
   std::map<std::pair<long,std::pair<int,int>>, std::vector<Line>> netacts;
   std::map<std::pair<long,int>, std::vector<Line>> nbrs;                    // nbr T ROBOT ID D A E: sensed without a message
   std::map<std::pair<long,int>, std::vector<Line>> mals;                    // mal T TO FROM SRC MUT POS: a damaged message arrives
   std::function<bool(int,const Line&,Bytes&)> damage;                       // makes it
   std::vector<std::vector<std::vector<Val>>> queue;      // ops of the current tick by robot
   std::vector<size_t> qpos;
   std::vector<Bytes> captured;              // messages that were really sent
   // hooks of the property
   std::function<void(int)> on_boot;                                         // after a robot (re)booted: push ops with enqueue()
   std::function<void(int)> on_down;
   std::function<void(int,std::vector<Val>&)> on_op;                         // just before an operation runs
   std::function<void(int,const std::vector<Val>&)> on_event;
   std::function<void(int,const Packet&)> on_packet;                         // packet handed to the robot, before processing
   std::function<void(int,int,float,float,float)> on_nbr;                    // a neighbour is added
   std::function<void(int)> before_in, after_in, after_step, after_tick, before_step;
   std::function<void(int,const Bytes&,const Msg&)> on_emit;
   std::function<bool(int)> allow_error;     // robot may be in the error state
   bool log_msgs=true;

   explicit World(const Plan& p);
   int index_of(int rid) const { for(int i=0;i<n;++i) if(ids[i]==rid) return i; return -1; }
   void enqueue(int i, const std::vector<Val>& op) { queue[i].push_back(op); }
   void boot(int i);
   void tick();
   void run_robot(int i);
   void send(int i);
   bool linked(int a, int b) const { return link[a][b]; }
   void heal_all();
   std::vector<int> component(int i) const;
   int diameter() const;
   long ticks() const { return plan.geti("ticks",40); }
};
std::vector<std::vector<bool>> topology(const str& name, int n, uint64_t seed);

// generators shared by the properties
struct NetGen { double drop=0, dup=0, delay=0, cut=0, crash=0, stall=0, bw=0, gc=0, mdrop=0, zero=0; };
NetGen random_net(Rng& g, bool crashes=true);
void gen_net(Plan& p, Rng& g, int n, long from, long to, const NetGen& k);
void gen_setup(Plan& p, Rng& g, int n, long ticks);
void gen_gc(Plan& p, Rng& g, double chance);
Val gen_key(Rng& g, int which);
Val gen_val(Rng& g, int depth=0, bool tables=true);
inline str op(long t, int r, int code, const std::vector<Val>& a={}) { str s=fmt("op %ld %d %d",t,r,code); for(auto& v:a) s+=" "+v.repr(); return s; }
