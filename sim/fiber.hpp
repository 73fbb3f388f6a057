// Cooperative fibers that are switched at basic blocks of the library, under a seeded schedule.
#pragma once
#include "core.hpp"
struct Fibers {
   // runs all jobs to completion, interleaved; mean: average number of blocks between switches
   static void run(std::vector<std::function<void()>> jobs, uint64_t seed, long mean, long& switches, int rare=0);
};
