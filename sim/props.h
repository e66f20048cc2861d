#pragma once
#include "rt.h"
#include <set>
struct Finding { std::string cls, detail; int op = -1; };
struct Stats {
  uint64_t worlds = 0, steps = 0, simns = 0, cnt[CN_N] = {0}, ops = 0, opsOk = 0, maxSteps = 0, evals = 0;
  std::set<uint64_t> sched, trace; std::map<std::string, uint64_t> fn, st;
  std::string error;               // harness failure (never a verdict)
};
struct Judge {                     // verdict of one plan: a pure function of the plan and the code
  std::vector<Finding> f; Plan concrete; uint64_t hash = 17; bool nontrivial = false; std::string error;
};
struct PropDef { const char *id; Plan (*gen)(uint64_t seed, int tier); void (*judge)(const Plan &, Judge &); };
Plan propGen(const PropDef *d, uint64_t seed, int tier);
const PropDef *propFind(const std::string &id);
extern Stats stats;
WorldOut world(const Plan &p, const Env &e, Judge &j);
