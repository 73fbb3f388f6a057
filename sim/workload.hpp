// Workloads that mix all parts of the library: operation plans for the driver program and generated scripts.
#pragma once
#include "world.hpp"
void gen_mix(Plan& p, Rng& g, int n, long T, bool heavy=true);      // ops of every family; needs mix_boot
void mix_boot(World& w);                                            // creates stigmergies 1-2, swarms 1-4
void mix_hooks(World& w);                                           // token streams of op 50
void gen_script(Plan& p, Rng& g);                                   // adds lines "f NAME STATEMENT"
str script_of(const Plan& p);                                       // the source text
std::vector<int> gen_toks(Rng& g, int ns, int len);
struct TraceTap { std::vector<str> v; std::vector<str>* old; TraceTap(); ~TraceTap(); };   // records the event trace
// first difference of two traces, "" if none
str trace_diff(const std::vector<str>& a, const std::vector<str>& b, const char* na, const char* nb);
