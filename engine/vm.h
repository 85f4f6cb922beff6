#ifndef SYMX_VM_H_
#define SYMX_VM_H_
#include <atomic>
#include <condition_variable>
#include <map>
#include <set>
#include <sys/mman.h>
#include "ir.h"

struct Dec { u8 kind, val, implied; u64 cv; };   // kind 0 branch, 1 concretise, 2 schedule
struct Work { std::vector<Dec> pre; ModelP model; };
struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> extra; bool sched = false, tie = false, real = false; std::vector<Dec> decs; std::string stack; };
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::string end; };
struct Shared {
  Program* P; std::string entry; std::map<std::string, i64> params;
  std::mutex mu; std::condition_variable cv; std::vector<Work> queue; int busy = 0; bool stop = false; double deadline = 0;
  std::atomic<u64> paths{0}, done{0}, infeasible{0}, fatal_ok{0}, errors{0}, unmodelled{0}, instrs{0}, decisions{0}, checks{0}, checks_sym{0}, aborted{0}, ties{0}, scheds{0};
  std::vector<Viol> viols; std::map<std::string, int> violn; bool prof = getenv("SYMX_FORKS"), proff = prof && atoi(getenv("SYMX_FORKS")) > 1; std::map<std::string, u64> forks; std::vector<Sample> samples; u64 nsamples = 0; std::map<std::string, u64> reach, unmod, fatals;
  SolverStats st; std::set<u32> fns; std::vector<std::pair<std::string, u64>> notes; double first_viol = 0;
  u64 maxsamples = 24; u64 seed = 1; u64 maxpath = 0;
};
double now_s();
#endif
