// A robot: one Buzz VM plus its host (the stand-in for the robot controller).
#pragma once
#include "core.hpp"
#include "seams.hpp"
extern "C" {
#include <buzz/buzzvm.h>
}
// some headers define macros that clash with C++ names
#undef str
typedef std::vector<uint8_t> Bytes;

struct Code { Bytes bc; bool ok=false; str err; str asmtext; str dbg; };
const Code& compile(const str& src, const str& fname="/s.bzz");      // real parser + real assembler on the simulated disk

Val from_obj(buzzobj_t o, int depth=0);
buzzobj_t to_obj(buzzvm_t vm, const Val& v);

struct Robot {
   uint16_t id=0;
   buzzvm_t vm=nullptr;
   const Code* code=nullptr;
   GcCtl gc;
   long steps=0;
   // script side hooks
   std::function<void(Robot&,const std::vector<Val>&)> on_event;     // simev(...)
   std::function<bool(Robot&,std::vector<Val>&)> next_op;            // simop(): fills op + args, false when no more
   std::vector<Val> curop;
   std::vector<int> toks; size_t tokpos=0;                           // simtok(): 0 when exhausted
   bool dead=false;       // in error state (seen)
   std::function<bool(Robot&,const char*,const std::vector<int>&)> runner;   // runs the script (NULL) or a function instead of the plain calls
   ~Robot();
   bool boot(uint16_t id, const Code& c);        // true if the script and init() ran
   void destroy();
   bool ready() const { return vm && vm->state==BUZZVM_STATE_READY; }
   bool call(const char* fname);                 // function call without arguments, result popped
   bool callv(const char* fname, const std::vector<int>& args);   // the same with integer arguments; the result stays on the stack
   // host loop pieces
   void begin();                                 // neighbors reset
   void add_neighbor(uint16_t rid, float d, float a, float e);
   void deliver(uint16_t from, const Bytes& payload);
   void process_in();
   void step();                                  // script's step()
   void process_out();
   bool drained();                               // nothing waits to be sent
   bool take_msg(Bytes& out);                    // next outgoing message, removed from the queue
   long stack_size() const { return buzzdarray_size(vm->stack); }
   long stacks() const { return buzzdarray_size(vm->stacks); }
   str errmsg() const { return vm && vm->errormsg ? vm->errormsg : ""; }
};
Robot* robot_of(buzzvm_t vm);

// decoded wire message, through the library's own decoder
struct Msg {
   enum K { BAD, BCAST, LIST, JOIN, LEAVE, PUT, QUERY } k=BAD;
   Val topic, value;                         // broadcast
   std::vector<int> ids;                     // list/join/leave
   int stig=0; Val key; int ts=0, robot=0;   // put/query (value above)
   str text() const;
};
Msg decode(const Bytes& b);
extern const char* DRIVER;
