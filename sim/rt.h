// Deterministic simulation runtime for ctsa.
// One World = one forked process = one exactly repeatable execution.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <setjmp.h>

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL) { next(); next(); }
  uint64_t next() { // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return u() < p; }
  double gauss(); // sum of uniforms: no libm dependence
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashstr(const char *s);

// ---------------------------------------------------------------- plan
struct OpSpec {
  int client = 0;
  std::string fn;
  std::map<std::string, long> a;
  long get(const char *k, long d) const { auto i = a.find(k); return i == a.end() ? d : i->second; }
};
struct Switch { int client; uint64_t step; int next; };
struct Plan {
  std::string prop;
  std::map<std::string, long> h;   // header: seed, env words, scheduler words
  std::vector<OpSpec> ops;
  std::vector<Switch> sw;          // explicit schedule (used when h["explicit"])
  long get(const char *k, long d) const { auto i = h.find(k); return i == h.end() ? d : i->second; }
};
std::string planText(const Plan &p);
bool planParse(const std::string &text, Plan &p);

// ---------------------------------------------------------------- environment of a world
enum { FILL_ZERO = 0, FILL_ONES, FILL_RANDBYTES, FILL_DOUBLES, FILL_HUGE, FILL_SMALLINT, FILL_CONST, FILL_N };
struct Env {
  int heapMode = FILL_CONST; uint64_t heapSeed = 1;
  int stackMode = FILL_CONST; uint64_t stackSeed = 1;
  uint64_t clock = 1700000000; int clockMode = 0; // 0 steady 1 jumps back 2 zero 3 huge
  uint64_t randSeed = 12345; int randMode = 0;
  int outFault = 0;     // 1: every write fails, 2: random failures
  int nest = 1;         // callbacks re-enter the library
  int interleave = 0;   // run clients concurrently
  int skipFaults = 0;   // ignore afail/die/corrupt attributes
  int onlyClient = -1;
  int teamMode = 0;     // simulated OpenMP: 0 serial, 1 interleaved
  uint64_t schedSeed = 1; int schedKind = 0; long schedMean = 1000;
  long opBudget = 0;    // simulated steps per op (0: default)
  int recordSwitches = 0;
  int flags = 0;
  int siteOp = -1;      // record the call site of every allocation of this call
};

// ---------------------------------------------------------------- results (shared memory)
enum Status { ST_NONE = 0, ST_OK, ST_EXIT, ST_SIGNAL, ST_BUDGET, ST_ABANDON, ST_SKIP, ST_DEADCLIENT };
const char *statusName(int);
struct Field { char name[20]; uint64_t h; };
struct OpResult {
  int client, idx, opno, status, code, claims; // claims: 1 success claimed, 0 failure claimed, -1 no status
  uint64_t steps, digest;
  uint32_t allocs, afired; int nf, glob; // glob: the call changed process-wide library state
  uint64_t faultaddr; char where[48];
  Field f[64];
};
struct Event { char prop[8]; char cls[48]; char detail[420]; int client, opno; };
struct ArgNote { int opno; char key[16]; long v; };
#define MAXARG 6000
#define MAXRES 256
#define MAXEV 64
#define MAXSITE 8192
#define MAXSW 40000
#define MAXCOV 65536
enum Counter { CN_SWITCH, CN_ALLOC, CN_FREE, CN_AFAIL, CN_EXIT, CN_SIGNAL, CN_ABANDON, CN_BUDGET, CN_OUTFAIL, CN_OUTCALL, CN_CBFAULT, CN_CBCALL,
  CN_NEST, CN_CORRUPT, CN_CLOCKREAD, CN_RANDREAD, CN_DIRTY, CN_ROINPUT, CN_GUARDOUT, CN_TEAM, CN_BADSET, CN_FITFAIL, CN_FITOK, CN_PREDICT, CN_REFCHECK, CN_SHARED, CN_REUSE, CN_N };
extern const char *counterName[CN_N];
struct Shm {
  int done; int nres; int nev; int covN;
  uint64_t tracehash, schedhash, steps, simns;
  uint64_t cnt[CN_N];
  uint64_t liveEnd, liveBytesEnd;
  int nsw, swOverflow, narg, nsite; uint32_t site[MAXSITE];
  ArgNote arg[MAXARG];
  OpResult res[MAXRES];
  Event ev[MAXEV];
  Switch sw[MAXSW];
  uint8_t cov[MAXCOV];
};
extern Shm *shm;

// ---------------------------------------------------------------- world
struct Ctx;
typedef void (*OpFn)(Ctx &);
struct World {
  Plan plan; Env env;
  std::vector<int> sel; // indices of plan.ops in execution order
};
// runs in a forked child; results land in *shm (copied out by the caller). returns 0 or abnormal exit information
struct WorldOut {
  bool abnormal = false; int wstatus = 0;
  std::vector<OpResult> res; std::vector<Event> ev; std::vector<Switch> sw; std::vector<ArgNote> args; std::vector<uint32_t> sites;
  uint64_t tracehash = 0, schedhash = 0, steps = 0, simns = 0, cnt[CN_N] = {0}, live = 0, liveBytes = 0;
  const OpResult *find(int client, int opno) const { for (auto &r : res) if (r.client == client && r.opno == opno) return &r; return nullptr; }
};
WorldOut runWorld(const Plan &p, const Env &e);
void rtInit();
extern uint8_t covAll[MAXCOV]; extern int covTotal;
extern FILE *dbg;

// ---------------------------------------------------------------- services for ops
void event(const char *prop, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void noteArg(int opno, const char *key, long v);
void sim_budget(uint64_t total, bool soft);
void sim_count(int c, uint64_t n = 1);
void sim_point();                 // preemption point usable from callbacks
extern "C" void *sim_malloc(size_t n);
extern "C" void sim_free(void *p);
int curClient();
const Env &curEnv();
uint64_t opSteps();
// guarded application buffers (not part of the library's ledger)
struct Buf { void *base; size_t len; char *data; size_t bytes; int kind; };
double *buf_in(const double *src, size_t n);       // read-only, right-aligned to a guard page
int *buf_in_int(const int *src, size_t n);
double *buf_out(size_t n);                          // filled with env garbage, guard page after, canary before
int *buf_out_int(size_t n);
double *buf_inout(const double *src, size_t n);
char *buf_str(const char *s);
void buf_release_all_op();         // checks canaries, releases buffers of the current op
void buf_keep(const void *p, bool k = true); // the buffer survives the op (owned by the client), its address is not given to a later call
uint64_t liveBlocks(int client);
uint64_t fillWord(int mode, uint64_t seed, uint64_t i);
// simulated team (OpenMP) support
extern int simTeamMode; 
