ORACLE = "Assurance: every seeded run explored agreed with the oracle; nothing is said about schedules that were not sampled. Trusted: the simulator's network, disk and clock, the reference model, gcc and ASan. "
NOTE = {
"P01": ("seeded search over topologies, write histories and network/crash faults; convergence checked against the newest version in a bounded number of steps after faults stop", ORACLE),
"P02": ("seeded search; every read, size and enumeration compared with an executable reference model fed with the messages really delivered", ORACLE),
"P03": ("seeded search over conflict histories and handler policies; handler calls and resulting state compared with the reference model", ORACLE),
"P04": ("seeded search over broadcasts, listener changes, values and deliveries; what leaves a robot and every listener call compared with a reference model", ORACLE),
"P05": ("seeded histories of swarm operations; answers compared with set semantics and announcements with the actual memberships", ORACLE),
"P06": ("seeded swarm histories with loss, silence and restarts; kin and non-kin compared with a model of what was heard and, after faults stop, with the real memberships", ORACLE),
"P07": ("seeded token streams drive nested executions; observations compared with a reference interpreter", ORACLE),
"P08": ("seeded injection of damaged messages into live traffic; allowed effect predicted by an independent decoder and reference models", ORACLE),
"P09": ("each seeded run is repeated under a seeded collection schedule and compared event by event with a run that never collects", ORACLE),
"P10": ("deployments run alone and then interleaved at basic blocks of the library under a seeded schedule; traces compared", ORACLE),
"P11": ("seeded mission periods repeated; memory held by the library, stacks and transient strings examined over time", ORACLE),
"P12": ("seeded statements of known outcome in every calling context, with network faults and restarts; error states, refusals, silence after the error and what destroying leaves behind are examined", ORACLE),
"P13": ("seeded sequences of file operations of a script over a simulated disk with injected failures; lines, sizes, error numbers and stored bytes compared with a model", ORACLE),
"P14": ("compiler, assembler, disassembler and runner run in the simulated file system with seeded faults at system calls; exit status, messages and stored bytes compared with a fault-free run", ORACLE),
"P15": ("each seeded run is repeated under the debugger with seeded breakpoint commands and compared with the plain run and with a single-stepped reference execution", ORACLE),
"P16": ("seeded draws between other work, clock jumps, restarts and faults; every sequence repeated by a fresh robot, interleaved with others, and compared", ORACLE),
"P17": ("seeded neighbourhoods and compositions of queries compared with a reference model", ORACLE),
"P18": ("seeded search over bandwidth schedules; history check of everything that leaves a robot", ORACLE),
}
NA = {
"P19": "A single-threaded function of program and input: no schedule, time, I/O, message or crash takes part in it, so there is nothing for a simulator to schedule or inject; deciding it needs a language semantics and program generation (differential testing, translation validation), another family of technique.",
}
