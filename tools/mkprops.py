#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":["src/buzz/"+f for f in files],
       "mechanism":[{"name":n,"where":"src/buzz/"+w} for n,w in mech],
       "hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/buzz/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("P01","Virtual stigmergy converges on every robot",
 "Once writes to a virtual stigmergy stop and messages get through again, all the robots that share it, stay connected and keep reading its keys end up holding the same value for every key: the most recent write in version order, with same-version writes settled by the default rule (a value beats a deletion, then the higher robot id wins), and deletions included. "
 "This holds whatever loss, duplication, delay, reordering, partitioning, stalls or restarts came before; a robot that restarts empty recovers the values by reading. "
 "A robot that keeps reading ends up with at least what its neighbours held, even when nobody else reads. "
 "On a connected network without loss, writes and deletions reach everybody even when nobody reads.",
 ["schedules","fault_sequences","histories","configurations","crash_points"],
 "every topology, write history (fewer than 65535 writes per key), delivery schedule, loss/duplication/delay/partition/stall/crash pattern, and bandwidth budget",
 "The shipped tests run one VM with an empty message queue; no existing test delivers one message between two VMs, let alone under faults.",
 ["buzzvstig.c","buzzvm.c","buzzoutmsg.c","buzzinmsg.c"],
 [("versioned last-writer merge of PUT/QUERY messages","buzzvm.c:buzzvm_process_inmsgs"),
  ("put/get emit PUT/QUERY","buzzvstig.c:buzzvstig_put,buzzvstig_get"),
  ("queue de-duplication per key","buzzoutmsg.c:buzzoutmsg_queue_append_vstig")],
 [("vstigs","per-VM stigmergy contents","buzzvm.h:struct buzzvm_s")],
 ["script: stigmergy.get/size/foreach on each robot"])

p("P02","Virtual stigmergy reads are sane at every instant",
 "At every moment a robot's read of a key returns either nothing or a value that some robot really put under that same key of that same stigmergy, the robot's own write is visible to it at once, and what it holds never goes back to an older version because of late, duplicated or reordered messages. "
 "Each robot holds exactly the newest of what it wrote itself and what was delivered to it, keys and stigmergies never influence each other, and the size and the enumeration of a stigmergy list exactly the keys whose read is not nil, each once, with its value and the robot that wrote it.",
 ["schedules","fault_sequences","histories","inputs"],
 "every interleaving of puts, deletes, reads and deliveries, every key and value type that can travel, every stigmergy id",
 "Unit tests read back values in one VM; they never deliver stale, duplicate or reordered updates.",
 ["buzzvstig.c","buzzvm.c","buzzdict.c","buzztype.c","buzzmsg.c"],
 [("timestamp comparison before storing","buzzvm.c:buzzvm_process_inmsgs"),
  ("(de)serialisation of entries","buzzvstig.c:buzzvstig_elem_serialize")],
 None,["script: get right after every put and every delivery; size(); foreach()"])

p("P03","Stigmergy conflict handlers decide, once, and their decision sticks",
 "When two robots hold different same-version writes of a key, a robot that learns of the other write calls its conflict handler exactly once for that delivery with the key and the correct local and remote entries (value, robot, version), and the entry the handler returns is what the robot then holds and passes on to its neighbours; without a handler the default rule decides. "
 "The conflict-lost handler runs exactly once, with the key and the entry that was lost, on a robot whose own write was replaced, and on no other occasion. "
 "Handlers may be replaced, may fail to answer with a valid entry (the robot then keeps what it has) and may themselves use the stigmergy.",
 ["schedules","fault_sequences","histories","programs"],
 "every order in which conflicting writes meet, every handler policy and every re-registration of handlers",
 "No existing test creates a conflict: that needs two VMs and a chosen delivery order.",
 ["buzzvstig.c","buzzvm.c","buzzoutmsg.c"],
 [("conflict branch of PUT and QUERY handling","buzzvm.c:buzzvm_process_inmsgs"),
  ("handler invocation","buzzvstig.c:buzzvstig_onconflict_call,buzzvstig_onconflictlost_call")],
 None,["script handlers; get(); messages that leave the robot"])

p("P04","Neighbour broadcasts are delivered intact, in order, once",
 "Every broadcast that is delivered to a robot runs that robot's current listener for the topic exactly once per delivered copy, with the topic, a value equal to what the sender's value was at the moment of the broadcast (whatever its type, size limits of the wire aside) and the sender's id. "
 "Broadcasts of one sender are handed over in the order in which they were sent and delivered; topics that are ignored, unknown, or re-registered affect only themselves. The messages collected by the neighbours library are, per topic, the latest value of each robot.",
 ["schedules","fault_sequences","inputs","histories"],
 "every interleaving of broadcast, listen, ignore, mutation of sent values and (lossy, duplicating, reordering) deliveries; every value of every transmissible type",
 "No existing test passes a message between two VMs; the (de)serialisers are not tested at all.",
 ["buzzneighbors.c","buzzoutmsg.c","buzzinmsg.c","buzzvm.c","buzztype.c","buzzmsg.c"],
 [("value snapshot at broadcast","buzzoutmsg.c:buzzoutmsg_queue_append_broadcast"),
  ("FIFO per sender","buzzinmsg.c:buzzinmsg_queue_extract"),
  ("listener dispatch","buzzvm.c:buzzvm_process_inmsgs")],
 None,["listener calls (topic, value, robot id)"])

p("P05","A robot's own swarm memberships follow set semantics",
 "After any sequence of swarm create, join, leave, select, union, intersection, difference and others, asking a robot whether it is in a swarm answers exactly what set semantics over those operations say; unknown swarms are an error and operations on one swarm never change another. "
 "The memberships the robot announces to its neighbours are always the ones it has: once its announcements are delivered, a neighbour's knowledge equals the robot's actual memberships.",
 ["histories","schedules","inputs"],
 "every history of swarm operations over every swarm id, including re-creation and repeated operations, whatever is still queued for sending",
 "The existing script test performs one fixed sequence and never looks at the announcements.",
 ["buzzswarm.c","buzzoutmsg.c"],
 [("membership dictionary","buzzswarm.c"),("join/leave/list coalescing","buzzoutmsg.c:buzzoutmsg_queue_append_swarm_joinleave")],
 None,["swarm in(); kin()/nonkin() on a neighbour"])

p("P06","Knowledge of the neighbours' swarms converges and expires",
 "Once messages get through again, each robot's view of which neighbours are in a swarm (kin and non-kin inside a swarm execution) equals their real memberships within a bounded number of steps, whatever loss, delay or restart came before; until then it is what the announcements heard so far say. "
 "A robot that has not announced itself for 50 steps is forgotten, one that keeps announcing itself is not, and kin and non-kin always partition the current neighbours.",
 ["schedules","fault_sequences","histories","crash_points"],
 "every membership history, delivery schedule and fault pattern, on every topology",
 "Needs several VMs, lossy delivery and tens of steps of ageing; tests run one VM.",
 ["buzzswarm.c","buzzneighbors.c","buzzvm.c","buzzoutmsg.c"],
 [("periodic list announcements","buzzvm.c:buzzvm_process_outmsgs"),("ageing","buzzswarm.c:buzzswarm_members_update"),
  ("kin/nonkin filters","buzzneighbors.c:buzzneighbors_kin,buzzneighbors_nonkin")],
 None,["neighbors.kin()/nonkin() inside swarm exec"])

p("P07","Swarm execution runs iff a member, in the right swarm context",
 "Executing a function for a swarm runs it exactly once if the robot is a member at that moment and not at all otherwise; inside, the current swarm id and the enclosing ones are right at every nesting depth, also in functions called from there. "
 "When it ends, normally or by an early return at any depth, the previous swarm context is back and the script goes on right after the call.",
 ["programs","histories","schedules"],
 "every nesting of swarm executions, function calls, early returns and callbacks, with messages and garbage collection in between",
 "The shipped tests execute one flat case; nesting and early returns interacting with calls, handlers and collection are not covered.",
 ["buzzswarm.c","buzzvm.c"],
 [("swarm stack push/pop","buzzswarm.c:buzzswarm_exec; buzzvm.c:buzzvm_ret0,buzzvm_ret1"),("swarm id lookup","buzzswarm.c:buzzswarm_id")],
 None,["swarm.id() at each point; order of reported events"])

p("P08","Malformed messages are dropped without effect",
 "A message that is truncated, has an unknown kind, or contains values that cannot be decoded is discarded: the robot does not crash, hang or enter an error state, its stigmergies, memberships and listeners are as before, and well-formed messages before and after it are processed normally. "
 "A corrupted message that still decodes has at most the effect of a message with that content.",
 ["inputs","fault_sequences","schedules"],
 "every truncation and byte corruption of every kind of message, in every position among other messages and at every moment of an execution",
 "No test feeds a message to the VM; the space of corrupted messages is not enumerable.",
 ["buzzvm.c","buzzmsg.c","buzztype.c","buzzvstig.c","buzzinmsg.c"],
 [("bounds checks of the deserialisers","buzzmsg.c"),("malformed-message branches","buzzvm.c:buzzvm_process_inmsgs"),("object decoding","buzztype.c:buzzobj_deserialize")],
 None,["VM state; state digest before/after; sanitizers"])

p("P09","Garbage collection is invisible to programs",
 "What a program computes, sends and prints does not depend on when garbage collection runs: collecting at every instruction, never, or at any other moments gives the same observable behaviour. "
 "No live value, string, table, closure, captured variable, listener, conflict handler, stigmergy entry or queued message is ever reclaimed or changed by it.",
 ["programs","schedules","histories"],
 "every program and every schedule of collections",
 "Collection runs only when the heap passes a threshold, so short tests hardly ever trigger it, and never at a chosen point.",
 ["buzzheap.c","buzzstrman.c","buzzvm.c","buzzoutmsg.c"],
 [("mark from all roots","buzzheap.c:buzzheap_gc"),("string table sweep","buzzstrman.c:buzzstrman_gc_*")],
 None,["event trace under different collection schedules; sanitizers"])

p("P10","Robots running in one process do not influence each other",
 "Several virtual machines in one process behave exactly as each would alone with the same inputs, however their execution is interleaved, down to switching in the middle of any library operation. "
 "Creating, failing or destroying one of them has no effect on the others.",
 ["schedules","programs","configurations"],
 "every set of programs and every interleaving at the granularity of basic blocks",
 "Tests run one VM per process and never switch between VMs.",
 ["buzzvm.c","buzztype.c","buzzmath.c","buzzstrman.c","buzzdict.c"],
 [("all state kept in the VM structure","buzzvm.h:struct buzzvm_s")],
 None,["event trace per VM, interleaved vs alone"])

p("P11","Endless missions do not exhaust the robot",
 "A script whose own live data stays bounded runs for an unlimited number of steps in bounded memory: operand stack, call frames, heap objects, strings, registered functions and message queues all return to a steady level, whatever messages, handlers and callbacks run in between. "
 "Transient strings are recycled, so that programs may create more than 65536 different ones over time; each still reads back as its own text.",
 ["histories","schedules","programs"],
 "arbitrarily long executions (explored to thousands of steps) of every mix of operations and incoming messages",
 "Tests run for a fraction of a second and never measure residue.",
 ["buzzvm.c","buzzheap.c","buzzstrman.c","buzzvstig.c","buzzoutmsg.c","buzzneighbors.c"],
 [("balanced call protocol","buzzvm.c:buzzvm_closure_call,buzzvm_ret0,buzzvm_ret1"),("string id recycling","buzzstrman.c")],
 None,["stack depth between steps; live allocations per step after a collection"])

p("P12","A failing script is contained and reported",
 "An error in a script (wrong types, arguments, operands, calls, unknown functions or swarms, ...) puts that robot in the error state with a non-empty message (the same whatever function, callback or handler it happens in) and never crashes, hangs or corrupts the process: no further instruction of it has any effect, later steps and messages are refused, and it can be destroyed cleanly. "
 "Programs without an error never end up in the error state, and other robots carry on unaffected.",
 ["programs","inputs","histories"],
 "every kind of script error at every point of an execution: top level, nested calls, swarm execution, callbacks, listeners and conflict handlers",
 "Tests contain no failing script except for parsing; error paths at arbitrary depth are not enumerable.",
 ["buzzvm.c","buzzvm.h","buzztype.c","buzzswarm.c","buzzneighbors.c","buzzvstig.c"],
 [("type/stack/argument assertions","buzzvm.h:buzzvm_type_assert,buzzvm_lnum_assert,buzzvm_stack_assert"),("sticky error state","buzzvm.c:buzzvm_step,buzzvm_seterror")],
 None,["VM state and error message; event trace; sanitizers"])

p("P13","Script file access reports every failure and loses nothing silently",
 "A script that opens, writes, reads and closes files gets back exactly the lines it stored, in order, when nothing fails, including empty and long lines. "
 "When opening, writing, reading or closing fails (missing file, full disk, device error, short transfers), the call reports it and the error number is available, the script goes on, and no failure is reported as success.",
 ["fault_sequences","inputs","histories"],
 "every sequence of file operations and every point and kind of disk fault",
 "The shipped I/O test needs files that are not there, and no test injects a disk fault.",
 ["buzzio.c"],
 [("fopen/fclose/fwrite/fforeach/errno/error functions","buzzio.c")],
 None,["return values, io.errno(), bytes on the simulated disk"])

p("P14","The compiler tools never report success over an incomplete output",
 "The assembler, compiler and disassembler produce the same complete output files for the same input whatever short reads and writes the system makes. "
 "The bzzc driver succeeds only if every step did. bzzrun prints and returns the same for the same bytecode, non-zero exactly if the program failed or could not be read whole. If an input cannot be read or an output cannot be completely written (open failure, full disk, I/O error, error at close), the tool ends with a non-zero status and a message, without crashing or hanging.",
 ["fault_sequences","inputs","crash_points"],
 "every fault at every system call of a tool run, over the shipped and generated programs",
 "Tests only run the tools on a healthy disk.",
 ["buzzasm.c","buzzasm_main.c","buzzdeasm_main.c","buzzparse.c","buzzparser.c","buzzdebug.c","buzzlex.c","buzzrun.c"],
 [("write loops and error returns","buzzasm.c:buzz_asm,buzz_deasm; buzzasm_main.c"),("debug symbol file","buzzdebug.c:buzzdebug_tofile,buzzdebug_fromfile")],
 None,["exit status, messages, bytes on the simulated disk"])

p("P15","Debugging does not change what a program does",
 "Running a program under the debugger, with breakpoints at any place set or removed at any stop and continued from every stop, executes the same instructions with the same effects as running it without. "
 "It stops at every enabled breakpoint that the program itself reaches (callbacks that run inside a library call are not interrupted), before executing it, nowhere else, and always makes progress when continued.",
 ["programs","schedules","histories"],
 "every program, set of breakpoints, and sequence of continue/set/remove/clear commands",
 "There is no test of the debugger.",
 ["buzzdebug.c"],
 [("breakpoint checks","buzzdebug.c:buzzdebug_continue,buzzdebug_closure_call,buzzdebug_function_call")],
 None,["event trace with and without debugger; program counter at each stop"])

p("P16","Random numbers are reproducible from their seed",
 "The sequence of random numbers a script draws is a function of the seed it set and of the calls it made: the same seed gives the same sequence on every robot, at any time of day, whatever else runs, after reseeding again, and after a restart; different seeds give different sequences. "
 "Every number lies in the requested range.",
 ["schedules","histories","inputs","configurations"],
 "every seed, range and interleaving of draws with other work, clock values and other robots",
 "The shipped test draws without comparing sequences, and cannot control clock and interleaving.",
 ["buzzmath.c"],
 [("per-VM generator state","buzzmath.c"),("seeding","buzzmath.c:buzzmath_rng_setseed")],
 None,["drawn values"])

p("P17","Neighbour queries reflect the current neighbourhood",
 "At every step the neighbour table and its get, count, foreach, map, reduce, filter, kin and non-kin operations show exactly the robots heard in that step with their latest distance and angles: nobody missing, nobody left over from earlier steps, nobody twice. "
 "Derived neighbour tables stay as they were when made, and a query never changes the neighbourhood.",
 ["histories","schedules","inputs"],
 "every sequence of neighbourhoods and every composition of queries, with collections and messages in between",
 "Tests install no neighbours at all.",
 ["buzzneighbors.c","buzzdict.c"],
 [("reset/add by the host","buzzneighbors.c:buzzneighbors_reset,buzzneighbors_add"),("derived tables","buzzneighbors.c:buzzneighbors_map,buzzneighbors_filter,...")],
 None,["results of the queries"])

p("P18","Limited bandwidth delays messages but never loses or reorders them",
 "However few messages a robot may send per step, every broadcast leaves it exactly once, in order, and for every stigmergy key the newest state it has to announce (its own write, an accepted update, the answer to a query) eventually leaves it and no older state of that key leaves after a newer one. "
 "For each swarm, the announcements that leave it are, in order, memberships the robot really had and end in the current one.",
 ["schedules","histories","configurations"],
 "every interleaving of operations, deliveries and sending opportunities, down to one message per step or none for long periods",
 "Tests never drain the queue of outgoing messages.",
 ["buzzoutmsg.c","buzzvm.c"],
 [("priorities and de-duplication","buzzoutmsg.c")],
 None,["messages taken from the outgoing queue"])

p("P19","Compiled expressions compute what the language defines",
 "For every program, compiling and running an expression or control structure gives the value and the order of effects which the language reference defines.",
 ["programs","inputs"],
 "every program and input",
 "Tests sample a handful of expressions.",
 ["buzzparser.c","buzzvm.c"],
 [("code generation","buzzparser.c"),("instructions","buzzvm.c")])

import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
