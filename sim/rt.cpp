#include "rt.h"
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unordered_map>
#include "ops.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
#endif

FILE *dbg = nullptr;
Shm *shm = nullptr;
uint8_t covAll[MAXCOV]; int covTotal = 0;
const char *counterName[CN_N] = {"context_switches", "allocations", "frees", "alloc_failures_injected", "process_exits_trapped", "fatal_signals_trapped",
  "clients_abandoned_mid_call", "step_budget_exceeded", "output_writes_failed", "output_writes", "callback_faults_injected", "callback_calls",
  "nested_library_calls", "samples_corrupted", "clock_reads", "random_reads", "dirty_blocks_filled", "read_only_inputs", "guarded_outputs", "team_regions",
  "invalid_settings_tried", "fits_reporting_failure", "fits_reporting_success", "forecasts", "reference_model_checks", "shared_filter_uses", "caller_arrays_at_reused_addresses"};

const char *statusName(int s) {
  static const char *n[] = {"none", "ok", "exit", "signal", "budget", "abandoned", "skipped", "deadclient"};
  return n[s];
}

// ---------------------------------------------------------------- small utilities
double Rng::gauss() { double s = 0; for (int i = 0; i < 12; i++) s += u(); return s - 6.0; }
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C159E3779B9ULL + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31);
}
uint64_t hashstr(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }

std::string planText(const Plan &p) {
  std::string o = "plan " + p.prop;
  for (auto &k : p.h) o += " " + k.first + "=" + std::to_string(k.second);
  o += "\n";
  for (auto &op : p.ops) {
    o += "op " + std::to_string(op.client) + " " + op.fn;
    for (auto &k : op.a) o += " " + k.first + "=" + std::to_string(k.second);
    o += "\n";
  }
  for (auto &s : p.sw) { char b[96]; snprintf(b, sizeof b, "sw %d %llu %d\n", s.client, (unsigned long long)s.step, s.next); o += b; }
  return o;
}
static std::vector<std::string> toks(const std::string &l) {
  std::vector<std::string> v; std::string c;
  for (char ch : l) { if (ch == ' ' || ch == '\t' || ch == '\r') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) v.push_back(c);
  return v;
}
bool planParse(const std::string &text, Plan &p) {
  size_t i = 0; p = Plan();
  while (i < text.size()) {
    size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size();
    auto t = toks(text.substr(i, e - i)); i = e + 1;
    if (t.empty() || t[0][0] == '#') continue;
    auto kv = [](const std::string &s, std::map<std::string, long> &m) { size_t q = s.find('='); if (q != std::string::npos) m[s.substr(0, q)] = atol(s.c_str() + q + 1); };
    if (t[0] == "plan") { p.prop = t[1]; for (size_t j = 2; j < t.size(); j++) kv(t[j], p.h); }
    else if (t[0] == "op") { OpSpec o; o.client = atoi(t[1].c_str()); o.fn = t[2]; for (size_t j = 3; j < t.size(); j++) kv(t[j], o.a); p.ops.push_back(o); }
    else if (t[0] == "sw") { Switch s; s.client = atoi(t[1].c_str()); s.step = strtoull(t[2].c_str(), 0, 10); s.next = atoi(t[3].c_str()); p.sw.push_back(s); }
  }
  return !p.prop.empty();
}

// ---------------------------------------------------------------- fibers
#define MAXCLIENT 6
#define STACKSZ (8 << 20)
struct Fiber {
  void *sp = nullptr; char *stk = nullptr;
  int id = 0; bool done = false, started = false;
  uint64_t steps = 0;
  Fiber *owner = nullptr; // team member -> the client fiber
  bool waiting = false; uint64_t work = 0; // team member: blocked at a barrier; work-sharing constructs entered
  int tid = 0;
};
struct Client : Fiber {
  std::vector<int> ops; size_t next = 0; // plan op indices
  sigjmp_buf jb; bool inop = false, dead = false;
  // current op
  int opno = -1, dieStatus = 0, dieCode = 0; uint64_t dieAddr = 0; char where[48];
  bool soft = false; uint64_t opStart = 0, budget = 0, stall = 0, progress = 0, dieAt = 0; uint32_t allocs = 0, afail = 0, afired = 0; int apersist = 0;
  uint64_t outHash = 0, outCount = 0;
  Store store;
};
static World *W;
static Client *clients; static int nclients;
static Fiber *cur;              // running fiber (client or team member)
static Client *curc;            // its client
static void *mainsp;
static int64_t slice;           // steps until slow()
static bool armed;              // instrumentation active
static uint64_t totalSteps;
static Rng *schedRng;
static size_t swIdx;
static uint64_t lastGuard;
struct Share { long next, end, incr, chunk; int left; uint64_t id; };
static struct Team { Fiber *m; int n, left, arrived; void *mastersp; bool lock; std::vector<Share> *shares; uint64_t base; } *team;
static int teamPick(); // a runnable member
int simTeamMode = 0;

#ifndef SIM_ASAN
extern "C" void sim_swtch(void **save, void *load);
__asm__(".text\n.globl sim_swtch\nsim_swtch:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
static char *teamStk[64];
static void fiberInit(Fiber *f, void (*entry)(), char *stk = nullptr) {
  if (stk) f->stk = stk; else f->stk = (char *)mmap(nullptr, STACKSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!stk) mprotect(f->stk, 4096, PROT_NONE);
  uint64_t *sp = (uint64_t *)(f->stk + STACKSZ + 4096);
  *--sp = 0; *--sp = (uint64_t)entry; // ret target; stack aligned so that entry sees rsp%16==8
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
}
#endif

int curClient() { return curc ? curc->id : -1; }
const Env &curEnv() { return W->env; }
uint64_t opSteps() { return curc ? curc->steps - curc->opStart : 0; }
void noteArg(int opno, const char *key, long v) { if (shm->narg >= MAXARG) return; ArgNote &a = shm->arg[shm->narg++]; a.opno = opno; snprintf(a.key, sizeof a.key, "%s", key); a.v = v; }
void sim_count(int c, uint64_t n) { shm->cnt[c] += n; }

void event(const char *prop, const char *cls, const char *fmt, ...) {
  if (shm->nev >= MAXEV) return;
  Event &e = shm->ev[shm->nev];
  snprintf(e.prop, sizeof e.prop, "%s", prop); snprintf(e.cls, sizeof e.cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(e.detail, sizeof e.detail, fmt, ap); va_end(ap);
  e.client = curc ? curc->id : -1; e.opno = curc ? curc->opno : -1;
  shm->nev++;
}

[[noreturn]] static void die(int status, int code, uint64_t addr) {
  Client *c = curc;
  c->dieStatus = status; c->dieCode = code; c->dieAddr = addr;
  armed = false; team = nullptr; cur = c;
  siglongjmp(c->jb, 1);
}

// ---------------------------------------------------------------- process-wide state of the library
// The unchanged library keeps none that a call writes; when a call does, the searches of C01, C02 and C13 concentrate on it.
extern "C" { extern char __start_libdata[] __attribute__((weak)); extern char __stop_libdata[] __attribute__((weak)); extern char __start_libbss[] __attribute__((weak)); extern char __stop_libbss[] __attribute__((weak)); }
struct TlsBlock { int client, tid; void *ctl; char *mem; size_t n; std::vector<char> snap; };
static std::vector<TlsBlock> *tls; static std::vector<char> *globSnap; static size_t globN, dataN; static uint64_t watchStride; static bool globWatch; static int globSeen;
// thread-local storage: every simulated caller (and every member of a simulated team) is a thread
struct EmuTls { size_t size, align; void *loc, *templ; };
extern "C" void *__emutls_get_address(EmuTls *e) {
  bool a = armed; armed = false; int c = curc ? curc->id : -1, t = cur ? cur->tid : 0; if (!tls) tls = new std::vector<TlsBlock>();
  for (auto &b : *tls) if (b.client == c && b.tid == t && b.ctl == e) { armed = a; return b.mem; }
  TlsBlock b; b.client = c; b.tid = t; b.ctl = e; b.n = e->size; size_t al = e->align < 16 ? 16 : e->align; b.mem = (char *)aligned_alloc(al, (e->size + al - 1) / al * al + al);
  if (e->templ) memcpy(b.mem, e->templ, e->size); else memset(b.mem, 0, e->size);
  b.snap.assign(b.mem, b.mem + b.n); tls->push_back(b); armed = a; return tls->back().mem;
}
static void globInit() {
  dataN = __start_libdata ? __stop_libdata - __start_libdata : 0; size_t bssN = __start_libbss ? __stop_libbss - __start_libbss : 0; globN = dataN + bssN; watchStride = 1 + globN / 512;
  if (globN > (4u << 20)) globN = dataN = 0; globSnap = new std::vector<char>(globN);
  if (dataN) memcpy(globSnap->data(), __start_libdata, dataN); if (globN > dataN) memcpy(globSnap->data() + dataN, __start_libbss, globN - dataN);
}
static bool globChanged() {
  bool ch = false;
  if (dataN && memcmp(globSnap->data(), __start_libdata, dataN)) { ch = true; memcpy(globSnap->data(), __start_libdata, dataN); }
  if (globN > dataN && memcmp(globSnap->data() + dataN, __start_libbss, globN - dataN)) { ch = true; memcpy(globSnap->data() + dataN, __start_libbss, globN - dataN); }
  if (tls && curc) for (auto &b : *tls) if (b.client == curc->id && memcmp(b.snap.data(), b.mem, b.n)) { ch = true; b.snap.assign(b.mem, b.mem + b.n); }
  return ch;
}

static void computeSlice();
static void toScheduler() {
#ifndef SIM_ASAN
  Fiber *f = cur;
  sim_swtch(&f->sp, mainsp);
#endif
}
static bool wantPreempt;
static uint64_t preemptAt; // client-local step
static void computeSlice() {
  uint64_t s = curc->steps, t = UINT64_MAX;
  if (curc->budget) t = curc->opStart + curc->budget;
  if (curc->stall && curc->progress + curc->stall < t) t = curc->progress + curc->stall;
  if (curc->dieAt && curc->opStart + curc->dieAt < t) t = curc->opStart + curc->dieAt;
  if (wantPreempt && preemptAt < t) t = preemptAt;
  if (globWatch || globN <= 4096) { uint64_t w = globWatch ? watchStride : 1024; if (s + w < t) t = s + w; }
  slice = t == UINT64_MAX ? INT64_MAX : (t > s ? (int64_t)(t - s) : 1);
}
static long drawSlice() {
  long m = W->env.schedMean < 1 ? 1 : W->env.schedMean;
  // geometric-like: mean m
  double u = schedRng->u(); long v = 1 + (long)(m * (u < 0.5 ? 2 * u * 0.6 : (0.6 + (u - 0.5) * 2.8)));
  return v;
}
// A fit may legitimately take very long (its optimiser bounds the evaluations, not the time), but every likelihood evaluation allocates:
// it has to keep doing so. soft: running out of the total is inconclusive.
void sim_budget(uint64_t total, bool soft) { Client *c = curc; if (!c || W->env.opBudget) return; bool a = armed; armed = false; c->budget = total; c->soft = soft; c->stall = 400000000ULL; c->progress = c->steps; computeSlice(); armed = a; }
static void slow() {
  armed = false;
  Client *c = curc;
  if (c->dieAt && c->steps - c->opStart >= c->dieAt) { shm->cnt[CN_ABANDON]++; die(ST_ABANDON, 0, 0); }
  if ((c->budget && c->steps - c->opStart >= c->budget) || (c->stall && c->steps - c->progress >= c->stall)) { bool total = c->budget && c->steps - c->opStart >= c->budget; shm->cnt[CN_BUDGET]++; die(ST_BUDGET, total && c->soft ? 2 : 0, 0); }
  bool ch = (globWatch || globN <= 4096) && globChanged(); if (ch) globSeen = 1;
#ifndef SIM_ASAN
  if (wantPreempt && (c->steps >= preemptAt || (ch && globWatch && !team && schedRng->below(5) < 3))) {
    if (team) {
      int pick = teamPick();
      preemptAt = c->steps + drawSlice();
      if (pick >= 0 && &team->m[pick] != cur) {
        Fiber *from = cur; cur = &team->m[pick]; shm->cnt[CN_SWITCH]++;
        shm->schedhash = mix(shm->schedhash, mix(lastGuard, cur->tid));
        computeSlice(); armed = true;
        sim_swtch(&from->sp, cur->sp);
        armed = true; computeSlice();
        return;
      }
    } else {
      toScheduler(); // resumes with slice recomputed
    }
  }
#endif
  computeSlice();
  armed = true;
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) { covTotal++; *x = covTotal < MAXCOV ? covTotal : 0; }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!armed) return;
  lastGuard = *g; shm->cov[*g] = 1;
  curc->steps++; totalSteps++;
  if (--slice <= 0) slow();
}
extern "C" void __sanitizer_cov_trace_pc() { // gcc variant
  if (!armed) return;
  uint64_t pc = (uint64_t)__builtin_return_address(0);
  lastGuard = pc & 0xffffff; shm->cov[(pc * 0x9E3779B97F4A7C15ULL) >> 48] = 1;
  curc->steps++; totalSteps++;
  if (--slice <= 0) slow();
}
void sim_point() { if (!armed || !curc) return; lastGuard = 0; curc->steps++; totalSteps++; if (--slice <= 0) slow(); }

// ---------------------------------------------------------------- simulated heap
uint64_t fillWord(int mode, uint64_t seed, uint64_t i) {
  switch (mode) {
  case FILL_ZERO: return 0;
  case FILL_ONES: return ~0ULL;
  case FILL_RANDBYTES: return mix(seed, i);
  case FILL_DOUBLES: { double d = ((double)(mix(seed, i) >> 40) / 16777216.0 - 0.5) * 4; uint64_t w; memcpy(&w, &d, 8); return w; }
  case FILL_HUGE: { double d = (mix(seed, i) & 1) ? 1e300 : -3e299; uint64_t w; memcpy(&w, &d, 8); return w; }
  case FILL_SMALLINT: { uint64_t a = mix(seed, i); return (a & 3) | ((a >> 2 & 3) << 32); }
  default: { double d = 0.8125; uint64_t w; memcpy(&w, &d, 8); return w; }
  }
}
static void fillMem(void *p, size_t n, int mode, uint64_t seed) {
  uint64_t *w = (uint64_t *)p; size_t k = n / 8, i;
  if (mode == FILL_ZERO) { memset(p, 0, n); return; }
  if (mode == FILL_ONES) { memset(p, 0xff, n); return; }
  if (mode == FILL_CONST) { uint64_t v = fillWord(mode, 0, 0); for (i = 0; i < k; i++) w[i] = v; }
  else for (i = 0; i < k; i++) w[i] = fillWord(mode, seed, i);
  uint64_t t = fillWord(mode, seed, k); memcpy((char *)p + k * 8, &t, n % 8);
}
struct Hdr { uint64_t magic; uint64_t size; int32_t client, opno; uint64_t seq; Hdr *prev, *next; uint64_t cls; void *ra; uint64_t full; uint64_t rz; };
static_assert(sizeof(Hdr) % 16 == 0, "alignment");
static std::unordered_map<size_t, std::vector<Hdr *>> *bigFree;
#define MAG_LIVE 0x51A11A11C0FFEE01ULL
#define MAG_FREE 0x51A1DEADDEADBEEFULL
static Hdr liveHead;
static uint64_t liveCount[MAXCLIENT + 1], liveBytes;
static char *arena, *arenaEnd, *bump;
#define NCLS 64
static Hdr *freeList[NCLS];
#define RZ 32
#ifdef SIM_ASAN
struct Side { size_t n; int client, opno; void *ra; };
static std::unordered_map<void *, Side> *side;
#endif
static bool inSim() { return curc && curc->inop; }
static bool allocFails(void *ra) {
  Client *c = curc;
  if (!c || !c->inop) return false;
  c->allocs++; c->progress = c->steps;
  shm->cnt[CN_ALLOC]++;
  if (c->opno == W->env.siteOp && shm->nsite < MAXSITE) shm->site[shm->nsite++] = (uint32_t)(uintptr_t)ra;
  if (c->afail && !W->env.skipFaults) {
    if (c->allocs == c->afail || (c->apersist && c->allocs > c->afail)) { c->afired++; shm->cnt[CN_AFAIL]++; return true; }
  }
  return false;
}
static uint64_t allocSeed() { return curc ? mix(W->env.heapSeed, mix(curc->id * 1000 + curc->opno, curc->allocs)) : W->env.heapSeed; }
static void *rawAlloc(size_t n, void *ra) {
#ifdef SIM_ASAN
  void *p = malloc(n); // AddressSanitizer's allocator
  if (!p) return p;
  (*side)[p] = Side{n, curc ? curc->id : -1, curc ? curc->opno : -1, ra};
  liveCount[curc ? curc->id : MAXCLIENT]++; liveBytes += n;
  return p;
#else
  if (n > (1ULL << 32)) return nullptr;
  size_t need = sizeof(Hdr) + n + RZ; int cls = 6; while (((size_t)1 << cls) < need) cls++;
  size_t sz = (size_t)1 << cls; if (sz > 65536) { sz = (need + 4095) & ~4095ULL; cls = 63; } // large blocks: whole pages, recycled by size
  Hdr *h = nullptr;
  if (cls != 63) { h = freeList[cls]; if (h) freeList[cls] = h->next; }
  else { auto it = bigFree->find(sz); if (it != bigFree->end() && !it->second.empty()) { h = it->second.back(); it->second.pop_back(); } }
  if (!h) { if (bump + sz > arenaEnd) return nullptr; h = (Hdr *)bump; bump += sz; }
  h->ra = ra; h->full = sz;
  h->magic = MAG_LIVE; h->size = n; h->client = curc ? curc->id : -1; h->opno = curc ? curc->opno : -1; h->seq = curc ? curc->allocs : 0; h->cls = cls;
  h->rz = 0xABABABABABABABABULL;
  h->next = liveHead.next; h->prev = &liveHead; if (h->next) h->next->prev = h; liveHead.next = h;
  liveCount[h->client < 0 ? MAXCLIENT : h->client]++; liveBytes += n;
  char *u = (char *)(h + 1); memset(u + n, 0xCD, RZ);
  return u;
#endif
}
static bool rzOk(Hdr *h) {
  if (h->rz != 0xABABABABABABABABULL) return false;
  unsigned char *t = (unsigned char *)(h + 1) + h->size;
  for (int i = 0; i < RZ; i++) if (t[i] != 0xCD) return false;
  return true;
}
static bool rzReported;
static void checkRedzones() {
#ifndef SIM_ASAN
  if (rzReported) return;
  for (Hdr *h = liveHead.next; h; h = h->next) if (!rzOk(h)) {
    rzReported = true; event("MEM", "heap-overrun", "block of %llu bytes allocated by client %d op %d was written past its end", (unsigned long long)h->size, h->client, h->opno); return;
  }
#endif
}
static void *doMalloc(size_t n, void *ra) {
  bool a = armed; armed = false; void *p = nullptr;
  if (!allocFails(ra)) { p = rawAlloc(n, ra); if (p) { fillMem(p, n, W ? W->env.heapMode : 0, allocSeed()); shm->cnt[CN_DIRTY]++; } }
  armed = a; sim_point(); return p;
}
extern "C" void *sim_malloc(size_t n) { return doMalloc(n, __builtin_return_address(0)); }
extern "C" void *sim_calloc(size_t a1, size_t b) {
  bool a = armed; armed = false; void *p = nullptr; size_t n;
  if (__builtin_mul_overflow(a1, b, &n)) n = (size_t)-1;
  if (!allocFails(__builtin_return_address(0)) && n != (size_t)-1) { p = rawAlloc(n, __builtin_return_address(0)); if (p) memset(p, 0, n); }
  armed = a; sim_point(); return p;
}
extern "C" void sim_free(void *p) {
  if (!p) return;
  bool a = armed; armed = false;
  shm->cnt[CN_FREE]++;
#ifdef SIM_ASAN
  auto it = side->find(p);
  if (it == side->end()) { event("MEM", "bad-free", "free of a pointer that is not a live block"); free(p); }
  else { liveCount[it->second.client < 0 ? MAXCLIENT : it->second.client]--; liveBytes -= it->second.n; side->erase(it); free(p); }
#else
  Hdr *h = (Hdr *)p - 1;
  if ((char *)h < arena || (char *)h >= bump || ((uintptr_t)p & 7) || h->magic != MAG_LIVE) {
    event("MEM", "bad-free", "free of a pointer that is not a live block (%s)", (char *)h >= arena && (char *)h < bump && h->magic == MAG_FREE ? "double free" : "wild pointer");
    die(ST_SIGNAL, SIGABRT, (uint64_t)p);
  }
  if (!rzOk(h) && !rzReported) { rzReported = true; event("MEM", "heap-overrun", "block of %llu bytes allocated by client %d op %d was written past its end", (unsigned long long)h->size, h->client, h->opno); }
  h->magic = MAG_FREE; if (h->prev) h->prev->next = h->next; if (h->next) h->next->prev = h->prev;
  liveCount[h->client < 0 ? MAXCLIENT : h->client]--; liveBytes -= h->size;
  fillMem(p, h->size, W->env.heapMode == FILL_ZERO ? FILL_ZERO : FILL_RANDBYTES, 0xDEAD);
  if (h->cls != 63) { h->next = freeList[h->cls]; freeList[h->cls] = h; } else (*bigFree)[h->full].push_back(h);
#endif
  armed = a; sim_point();
}
extern "C" void *sim_realloc(void *p, size_t n) {
  if (!p) return doMalloc(n, __builtin_return_address(0));
  bool a = armed; armed = false;
  size_t old;
#ifdef SIM_ASAN
  auto it = side->find(p); old = it == side->end() ? 0 : it->second.n;
#else
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAG_LIVE) { event("MEM", "bad-realloc", "realloc of a pointer that is not a live block"); die(ST_SIGNAL, SIGABRT, (uint64_t)p); }
  old = h->size;
#endif
  armed = a;
  void *q = doMalloc(n, __builtin_return_address(0)); if (!q) return q;
  armed = false; memcpy(q, p, old < n ? old : n); armed = a;
  sim_free(p); return q;
}
extern "C" int sim_posix_memalign(void **out, size_t, size_t n) { *out = doMalloc(n, __builtin_return_address(0)); return *out ? 0 : ENOMEM; }
extern "C" void *sim_aligned_alloc(size_t, size_t n) { return doMalloc(n, __builtin_return_address(0)); }
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)doMalloc(n, __builtin_return_address(0)); if (p) memcpy(p, s, n); return p; }
uint64_t liveBlocks(int c) { return liveCount[c < 0 ? MAXCLIENT : c]; }

// ---------------------------------------------------------------- clock, randomness
static uint64_t clockReads, randReads; static uint64_t randState;
static uint64_t nowSim() {
  shm->cnt[CN_CLOCKREAD]++; clockReads++;
  const Env &e = W->env;
  switch (e.clockMode) {
  case 1: return e.clock - 3600 * clockReads;      // jumps back
  case 2: return 0;
  case 3: return 0xfffffff0ULL + clockReads;       // beyond 32 bits
  default: return e.clock + clockReads + totalSteps / 100000000ULL;
  }
}
extern "C" long sim_time(long *t) { long v = (long)nowSim(); if (t) *t = v; return v; }
extern "C" long sim_clock(void) { return (long)(totalSteps / 100 + nowSim() % 1000); }
struct sim_tv { long s, u; };
extern "C" int sim_gettimeofday(sim_tv *tv, void *) { if (tv) { tv->s = (long)nowSim(); tv->u = (long)(totalSteps % 1000000); } return 0; }
extern "C" int sim_clock_gettime(int, sim_tv *tv) { if (tv) { tv->s = (long)nowSim(); tv->u = (long)(totalSteps % 1000000000); } return 0; }
extern "C" void sim_srand(unsigned s) { randState = mix(W->env.randSeed, s); }
extern "C" int sim_rand(void) {
  shm->cnt[CN_RANDREAD]++; randReads++;
  randState = mix(randState, randReads);
  const Env &e = W->env; uint32_t v = (uint32_t)(randState >> 33); // 31 bits
  switch (e.randMode) {
  case 1: if (randReads <= 40) return 0; break;                       // long run of zeros first
  case 2: if (randReads <= 40) return 2147483647; break;              // long run of maxima first
  case 3: v &= ~0xffffu; break;                                       // coarse generator
  case 4: if (randReads % 3 == 0) return (int)(2147483647 / 2); break;
  case 5: v = (uint32_t)((randReads % 2 ? 0x3fffffff : 0x40000001) + (v & 0xfffff)); break; // near the centre: tiny radius
  case 6: if (randReads % 7 < 5) return (int)((randReads * 7919u) & 0x7fffffff); break;
  }
  return (int)(v & 0x7fffffff);
}
extern "C" long sim_random(void) { return sim_rand(); }
extern "C" void sim_srandom(unsigned s) { sim_srand(s); }
extern "C" int sim_rand_r(unsigned *) { return sim_rand(); }
extern "C" double sim_drand48(void) { return sim_rand() / 2147483648.0; }
extern "C" void sim_srand48(long s) { sim_srand((unsigned)s); }

// ---------------------------------------------------------------- output
static int outWrite(const char *b, int n) {
  Client *c = curc; shm->cnt[CN_OUTCALL]++;
  if (!c) return n;
  for (int i = 0; i < n; i++) c->outHash = (c->outHash ^ (unsigned char)b[i]) * 1099511628211ULL;
  c->outCount += n;
  if (W->plan.get("echo", 0) && dbg) fwrite(b, 1, n, dbg);
  const Env &e = W->env;
  if (e.outFault == 1 || (e.outFault == 2 && (mix(e.heapSeed, shm->cnt[CN_OUTCALL]) & 3) == 0)) { shm->cnt[CN_OUTFAIL]++; errno = e.outFault == 1 ? EPIPE : ENOSPC; return -1; }
  return n;
}
static char fmtbuf[65536];
extern "C" int sim_vprintf(const char *f, va_list ap) { bool a = armed; armed = false; int n = vsnprintf(fmtbuf, sizeof fmtbuf, f, ap); if (n > (int)sizeof fmtbuf - 1) n = sizeof fmtbuf - 1; int r = outWrite(fmtbuf, n); armed = a; sim_point(); return r; }
extern "C" int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vprintf(f, ap); va_end(ap); return r; }
extern "C" int sim_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vprintf(f, ap); va_end(ap); return r; }
extern "C" int sim_vfprintf(FILE *, const char *f, va_list ap) { return sim_vprintf(f, ap); }
extern "C" int sim_puts(const char *s) { bool a = armed; armed = false; int r = outWrite(s, (int)strlen(s)), r2 = outWrite("\n", 1); if (r2 < 0) r = r2; armed = a; sim_point(); return r; }
extern "C" int sim_putchar(int ch) { bool a = armed; armed = false; char b = (char)ch; int r = outWrite(&b, 1); armed = a; sim_point(); return r < 0 ? -1 : ch; }
extern "C" int sim_fputs(const char *s, FILE *) { bool a = armed; armed = false; int r = outWrite(s, (int)strlen(s)); armed = a; return r; }
extern "C" int sim_fputc(int ch, FILE *) { return sim_putchar(ch); }
extern "C" size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *) { bool a = armed; armed = false; int r = outWrite((const char *)p, (int)(s * n)); armed = a; return r < 0 ? 0 : n; }
extern "C" int sim_fflush(FILE *) { return W->env.outFault == 1 ? -1 : 0; }
extern "C" void sim_perror(const char *s) { bool a = armed; armed = false; outWrite(s, (int)strlen(s)); armed = a; }

// ---------------------------------------------------------------- process death
[[noreturn]] static void simExit(int code, void *ra) {
  if (!inSim()) _exit(98);
  armed = false; shm->cnt[CN_EXIT]++;
  Dl_info di; if (dladdr(ra, &di) && di.dli_sname) snprintf(curc->where, sizeof curc->where, "%s", di.dli_sname);
  die(ST_EXIT, code, 0);
}
extern "C" [[noreturn]] void sim_exit(int code) { simExit(code, __builtin_return_address(0)); }
extern "C" [[noreturn]] void sim__exit(int code) { simExit(code, __builtin_return_address(0)); }
extern "C" [[noreturn]] void sim_abort() { simExit(134, __builtin_return_address(0)); }
extern "C" [[noreturn]] void sim___assert_fail(const char *, const char *, unsigned, const char *) { simExit(134, __builtin_return_address(0)); }
extern "C" int sim_atexit(void (*)(void)) { return 0; }

// ---------------------------------------------------------------- guarded buffers
// A buffer ends at a guard page (over-reads fault); under a plan's "la" word some start right behind one instead (under-reads fault).
struct BufRec { char *page; size_t pages; char *data; size_t bytes; int kind; int client, opno; bool bad, kept; };
// Under a plan's "ru" word a call gets its caller's arrays at the addresses an earlier, finished call of the same caller used for arrays of that size.
static std::vector<BufRec> *bufs; static char *bufArena, *bufBump, *bufEnd;
#define CANARY 0x5C
static char *bufNew(size_t bytes, int kind, const void *src) {
#ifdef SIM_ASAN
  char *d = (char *)malloc(bytes ? bytes : 1);
  BufRec r{nullptr, 0, d, bytes, kind, curClient(), curc ? curc->opno : -1, false, false};
  if (src) memcpy(d, src, bytes); else fillMem(d, bytes, W->env.heapMode, mix(W->env.heapSeed, 77 + bufs->size()));
  bufs->push_back(r);
  return d;
#else
  if (curc && curc->opno >= 0 && W->plan.get("ru", 0)) for (auto &b : *bufs) {
    if (b.kept || b.bad || b.client != curc->id || b.opno < 0 || b.opno >= curc->opno || b.bytes != bytes || b.kind != kind || !bytes) continue;
    mprotect(b.page, b.pages * 4096, PROT_READ | PROT_WRITE); b.opno = curc->opno;
    if (src) memcpy(b.data, src, bytes); else fillMem(b.data, bytes, W->env.heapMode, mix(W->env.heapSeed, 77 + bufs->size() + curc->opno));
    if (kind == 0 || kind == 3) mprotect(b.page, b.pages * 4096, PROT_READ);
    shm->cnt[CN_REUSE]++; return b.data;
  }
  size_t tot = ((bytes + 15) & ~15ULL) + 64, pages = (tot + 4095) / 4096;
  if (bufBump + (pages + 1) * 4096 > bufEnd) { fprintf(stderr, "buffer arena exhausted\n"); _exit(96); }
  char *pg = bufBump; bufBump += (pages + 1) * 4096;
  mprotect(pg, pages * 4096, PROT_READ | PROT_WRITE);
  char *end = pg + pages * 4096, *d = end - ((bytes + 7) & ~7ULL);
  if (kind == 3) d = end - bytes; // strings: exact
  uint64_t la = (uint64_t)W->plan.get("la", 0);
  if (la && (mix(mix(la, bufs->size()), 0x1A) & 1)) d = pg;
  memset(pg, CANARY, d - pg);
  if ((size_t)(end - d) > bytes) memset(d + bytes, CANARY, end - d - bytes);
  if (src) memcpy(d, src, bytes); else if (bytes) fillMem(d, bytes, W->env.heapMode, mix(W->env.heapSeed, 77 + bufs->size()));
  if (kind == 0 || kind == 3) { mprotect(pg, pages * 4096, PROT_READ); shm->cnt[CN_ROINPUT]++; } else shm->cnt[CN_GUARDOUT]++;
  bufs->push_back(BufRec{pg, pages, d, bytes, kind, curClient(), curc ? curc->opno : -1, false, false});
  return d;
#endif
}
double *buf_in(const double *s, size_t n) { bool a = armed; armed = false; auto r = (double *)bufNew(n * 8, 0, s); armed = a; return r; }
int *buf_in_int(const int *s, size_t n) { return (int *)bufNew(n * 4, 0, s); }
double *buf_out(size_t n) { return (double *)bufNew(n * 8, 1, nullptr); }
int *buf_out_int(size_t n) { return (int *)bufNew(n * 4, 1, nullptr); }
double *buf_inout(const double *s, size_t n) { return (double *)bufNew(n * 8, 2, s); }
char *buf_str(const char *s) { return bufNew(strlen(s) + 1, 3, s); }
void buf_release_all_op() {
#ifndef SIM_ASAN
  for (auto &b : *bufs) {
    if (b.bad || b.kind == 0 || b.kind == 3) continue;
    bool ok = true; char *end = b.page + b.pages * 4096;
    for (char *p = b.data - 64 < b.page ? b.page : b.data - 64; p < b.data; p++) if (*p != CANARY) ok = false;
    for (char *p = b.data + b.bytes; p < end; p++) if (*p != CANARY) ok = false;
    if (!ok) { b.bad = true; event("OUT", "output-canary", "write outside an output array of %zu bytes (op %d)", b.bytes, b.opno); }
  }
#endif
}
void buf_keep(const void *p, bool k) { if (p) for (auto &b : *bufs) if (b.data == p) b.kept = k; }

// ---------------------------------------------------------------- signals
static void onSignal(int sig, siginfo_t *si, void *uc) {
  if (!inSim()) { _exit(97); }
  bool wasArmed = armed; (void)wasArmed; armed = false;
  shm->cnt[CN_SIGNAL]++;
  uint64_t addr = (uint64_t)si->si_addr, pc = (uint64_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  bool wr = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2;
  Dl_info di; curc->where[0] = 0; if (dladdr((void *)pc, &di) && di.dli_sname) snprintf(curc->where, sizeof curc->where, "%s", di.dli_sname);
#ifndef SIM_ASAN
  if (sig == SIGSEGV || sig == SIGBUS) {
    char *p = (char *)addr;
    if (p >= bufArena && p < bufEnd) {
      const BufRec *hit = nullptr; for (auto &b : *bufs) if (p >= b.page && p < b.page + (b.pages + 1) * 4096) hit = &b;
      for (auto &b : *bufs) if (p >= b.page - 4096 && p < b.page && b.data == b.page && (!hit || b.page - p <= p - (hit->data + hit->bytes))) hit = &b;
      if (hit && p < hit->page) event(hit->kind == 0 || hit->kind == 3 ? "INP" : "OUT", wr ? "write-before-buffer" : "read-before-buffer", "%s %ld bytes before the start of a %zu byte argument array in %s", wr ? "write" : "read", (long)(hit->page - p), hit->bytes, curc->where);
      else if (hit && p < hit->page + hit->pages * 4096) event("INP", "input-written", "write into a read-only input array of %zu bytes at offset %ld in %s", hit->bytes, (long)(p - hit->data), curc->where);
      else if (hit) event(hit->kind == 0 || hit->kind == 3 ? "INP" : "OUT", wr ? "write-past-buffer" : "read-past-buffer", "%s %ld bytes past the start of a %zu byte argument array in %s", wr ? "write" : "read", (long)(p - hit->data), hit->bytes, curc->where);
    }
  }
#endif
  die(ST_SIGNAL, sig, addr);
}
#ifdef SIM_ASAN
static void asanReport(const char *rep) {
  char type[48] = "asan"; const char *p = strstr(rep, "AddressSanitizer: ");
  if (p) { p += 18; int i = 0; while (*p && *p != ' ' && *p != '\n' && i < 47) type[i++] = *p++; type[i] = 0; }
  // Signals are handled by us, never by ASan. First frame naming a library function:
  char fn[64] = "?"; const char *f = rep;
  while ((f = strstr(f, " in "))) { f += 4; int i = 0; char b[64]; while (f[i] && f[i] != ' ' && f[i] != '\n' && i < 63) { b[i] = f[i]; i++; } b[i] = 0;
    if (strncmp(b, "__", 2) && strncmp(b, "sim_", 4) && strcmp(b, "malloc") && strcmp(b, "free") && strcmp(b, "memcpy") && strcmp(b, "memset") && strcmp(b, "memmove")) { strcpy(fn, b); break; } }
  event("MEM", type, "AddressSanitizer %s in %s", type, fn);
  shm->done = 1; _exit(0);
}
#endif

// ---------------------------------------------------------------- op execution
static void __attribute__((noinline)) fillStack() {
#ifndef SIM_ASAN
  volatile uint64_t buf[96 * 1024 / 8];
  const Env &e = W->env;
  for (size_t i = 0; i < sizeof(buf) / 8; i++) buf[i] = fillWord(e.stackMode, mix(e.stackSeed, curc->opno), i);
  __asm__ volatile("" ::"r"(buf) : "memory");
#endif
}
static void finishSlice(); 
static void __attribute__((noinline)) runBody(Ctx &x, const OpDef *d) {
  Client *c = curc;
  c->inop = true; computeSlice(); armed = true;
  d->run(x);
  armed = false; c->inop = false;
}
static void runOp(Client *c, int planIdx) {
  const OpSpec &o = W->plan.ops[planIdx];
  if (shm->nres >= MAXRES) return;
  OpResult *r = &shm->res[shm->nres++]; memset(r, 0, sizeof *r);
  r->client = c->id; r->idx = (int)c->next; r->opno = planIdx; r->claims = -1;
  const OpDef *d = opFind(o.fn.c_str());
  if (!d) { r->status = ST_SKIP; return; }
  if (c->dead) { r->status = ST_DEADCLIENT; return; }
  int ef = W->env.flags;
  if (((ef & EF_SKIP_HIST) && o.get("hist", 0)) || ((ef & EF_SKIP_BAD) && o.get("bad", 0)) || ((ef & EF_SKIP_QUERY) && o.get("query", 0))) { r->status = ST_SKIP; return; }
  c->opno = planIdx; c->opStart = c->steps; c->allocs = 0; c->afired = 0; c->where[0] = 0;
  c->afail = (uint32_t)o.get("afail", 0); c->apersist = (int)o.get("apersist", 0);
  c->dieAt = W->env.skipFaults ? 0 : (uint64_t)o.get("die", 0);
  c->budget = W->env.opBudget ? W->env.opBudget : 400000000ULL; c->stall = 0; c->soft = false; c->progress = c->steps;
  c->outHash = 1469598103934665603ULL; c->outCount = 0;
  fillStack(); globSeen = 0; if (globChanged()) {}
  Ctx *x = new Ctx(); x->op = &o; x->r = r; x->st = &c->store; x->client = c->id; x->env = &W->env;
  if (sigsetjmp(c->jb, 0) == 0) {
    runBody(*x, d);
    r->status = x->skipped ? ST_SKIP : ST_OK;
  } else {
    armed = false; c->inop = false; cur = c; curc = c;
    r->status = c->dieStatus; r->code = c->dieCode; r->faultaddr = c->dieAddr;
    memcpy(r->where, c->where, sizeof r->where);
    c->dead = true; // the caller's process died: no further ops of this client
  }
  if (globChanged()) globSeen = 1; r->glob = globSeen;
  r->steps = c->steps - c->opStart; r->allocs = c->allocs; r->afired = c->afired;
  { static FILE *sf = getenv("SIM_STEPS") ? fopen(getenv("SIM_STEPS"), "a") : nullptr; if (sf) { fprintf(sf, "%s kind=%ld st=%d steps=%llu\n", o.fn.c_str(), o.get("kind", -1), r->status, (unsigned long long)r->steps); fflush(sf); } }
  if (!x->noprint) x->digInt("stdout", (long)(c->outHash ^ c->outCount));
  buf_release_all_op();
  if (r->status == ST_OK && opDebugRedzone) checkRedzones();
  uint64_t h = 7; for (int i = 0; i < r->nf; i++) h = mix(h, mix(hashstr(r->f[i].name), r->f[i].h));
  r->digest = h;
  shm->tracehash = mix(shm->tracehash, mix(mix(r->client, r->opno), mix(mix(r->status, r->code), mix(r->digest, mix(r->steps, r->allocs)))));
}
bool opDebugRedzone = true;

static void clientMain(Client *c) {
  while (c->next < c->ops.size()) { int k = c->ops[c->next]; runOp(c, k); c->next++; }
}

#ifndef SIM_ASAN
static void fiberEntry() {
  Client *c = (Client *)cur;
  clientMain(c);
  c->done = true;
  toScheduler();
  abort();
}
static void (*teamFn)(void *); static void *teamArg;
static void teamEntry() {
  Fiber *f = cur; armed = true;
  teamFn(teamArg);
  armed = false; f->done = true; team->left--;
  Team *t = team;
  if (t->left == 0) { void *dummy; cur = f->owner; sim_swtch(&dummy, t->mastersp); }
  if (t->arrived && t->arrived == t->left) { t->arrived = 0; for (int i = 0; i < t->n; i++) t->m[i].waiting = false; }
  int pick = teamPick();
  void *dummy; cur = &t->m[pick]; shm->schedhash = mix(shm->schedhash, 1000 + pick); computeSlice(); armed = true; sim_swtch(&dummy, t->m[pick].sp);
  abort();
}
static int teamPick() { Team *t = team; int n = 0, pick = -1; for (int i = 0; i < t->n; i++) if (!t->m[i].done && !t->m[i].waiting) n++; int k = (int)schedRng->below(n); for (int i = 0; i < t->n; i++) if (!t->m[i].done && !t->m[i].waiting && k-- == 0) { pick = i; break; } return pick; }
static void teamSwitch() { // the current member gives up its turn (armed is false)
  int pick = teamPick(); if (pick < 0) abort();
  if (&team->m[pick] != cur) { Fiber *from = cur; cur = &team->m[pick]; shm->cnt[CN_SWITCH]++; shm->schedhash = mix(shm->schedhash, mix(3000, cur->tid)); preemptAt = curc->steps + drawSlice(); computeSlice(); armed = true; sim_swtch(&from->sp, cur->sp); }
  armed = false;
}
void simTeamBarrier() {
  if (!team) return; bool a = armed; armed = false; Team *t = team;
  if (++t->arrived == t->left) { t->arrived = 0; for (int i = 0; i < t->n; i++) t->m[i].waiting = false; teamSwitch(); } else { cur->waiting = true; while (cur->waiting) teamSwitch(); }
  computeSlice(); armed = a;
}
void simTeamLock() { if (!team) return; while (team->lock) { bool a = armed; armed = false; curc->steps++; teamSwitch(); computeSlice(); armed = a; if (a && --slice <= 0) slow(); } team->lock = true; }
void simTeamUnlock() { if (team) team->lock = false; }
// dynamically shared loops: one descriptor per construct, in the order the members meet them
static Share *shareOf(uint64_t id) { for (auto &s : *team->shares) if (s.id == id) return &s; return nullptr; }
void simTeamLoopInit(long start, long end, long incr, long chunk) { Share s; s.next = start; s.end = end; s.incr = incr; s.chunk = chunk < 1 ? 1 : chunk; s.left = team ? team->n : 1; s.id = ++cur->work; if (team && !shareOf(s.id)) team->shares->push_back(s); }
bool simTeamLoopNext(long *is, long *ie) { sim_point(); Share *s = shareOf(cur->work); if (!s || (s->incr > 0 ? s->next >= s->end : s->next <= s->end)) return false; long e = s->next + s->chunk * s->incr; if (s->incr > 0 ? e > s->end : e < s->end) e = s->end; *is = s->next; *ie = e; s->next = e; return true; }
bool simTeamSingle() { if (!team) return true; uint64_t id = ++cur->work; if (shareOf(id)) return false; Share s; memset(&s, 0, sizeof s); s.id = id; team->shares->push_back(s); return true; }
int simTeamNum() { return team ? cur->tid : 0; }
int simTeamSize() { return team ? team->n : 1; }
void simTeamRun(void (*fn)(void *), void *data, int n, long ls, long le, long li, long lc) {
  if (!curc || team) { fn(data); return; }
  if (n > simTeamMode || n <= 0) n = simTeamMode; if (n < 1) n = 1;
  bool a = armed; armed = false;
  shm->cnt[CN_TEAM]++;
  Team t; std::vector<Share> sh; Fiber *m = new Fiber[n]; t.m = m; t.n = n; t.left = n; t.arrived = 0; t.lock = false; t.shares = &sh; team = &t; teamFn = fn; teamArg = data;
  if (li) { Share s; s.next = ls; s.end = le; s.incr = li; s.chunk = lc < 1 ? 1 : lc; s.left = n; s.id = 1; sh.push_back(s); for (int i = 0; i < n; i++) m[i].work = 1; }
  for (int i = 0; i < n; i++) { fiberInit(&m[i], teamEntry, i < 64 ? teamStk[i] : nullptr); if (i < 64) teamStk[i] = m[i].stk; m[i].owner = cur; m[i].tid = i; }
  Fiber *master = cur; int first = (int)schedRng->below(n); cur = &m[first];
  shm->schedhash = mix(shm->schedhash, 2000 + first);
  wantPreempt = true; preemptAt = curc->steps + drawSlice(); computeSlice(); armed = true;
  sim_swtch(&t.mastersp, m[first].sp);
  cur = master; team = nullptr; wantPreempt = false;
  delete[] m; computeSlice(); armed = a;
}
#else
int simTeamNum() { return 0; }
int simTeamSize() { return 1; }
void simTeamRun(void (*fn)(void *), void *data, int, long, long, long, long) { fn(data); }
#endif

// ---------------------------------------------------------------- world
static void childMain() {
  const Plan &p = W->plan; const Env &e = W->env;
  rzReported = false; memset(liveCount, 0, sizeof liveCount); liveBytes = 0; liveHead.next = nullptr;
  bigFree = new std::unordered_map<size_t, std::vector<Hdr *>>();
  randState = mix(e.randSeed, 99); bufs = new std::vector<BufRec>();
#ifdef SIM_ASAN
  side = new std::unordered_map<void *, Side>();
#else
  arena = (char *)mmap((void *)0x100000000000ULL, 6ULL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) _exit(95);
  bump = arena; arenaEnd = arena + (6ULL << 30);
  bufArena = (char *)mmap((void *)0x200000000000ULL, 1ULL << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (bufArena == MAP_FAILED) _exit(95);
  bufBump = bufArena + 4096; bufEnd = bufArena + (1ULL << 30);
#endif
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}; for (int s : sigs) sigaction(s, &sa, nullptr);
  schedRng = new Rng(e.schedSeed); tls = nullptr; globInit(); globWatch = e.interleave && e.schedKind == 2 && !p.get("explicit", 0);
  simTeamMode = e.teamMode;
  nclients = 0; for (auto &o : p.ops) if (o.client + 1 > nclients) nclients = o.client + 1;
  if (nclients > MAXCLIENT) nclients = MAXCLIENT;
  clients = new Client[MAXCLIENT];
  for (int i = 0; i < nclients; i++) clients[i].id = i;
  for (size_t i = 0; i < p.ops.size(); i++) { int c = p.ops[i].client; if (c >= 0 && c < nclients && (e.onlyClient < 0 || e.onlyClient == c)) clients[c].ops.push_back((int)i); }
  shm->tracehash = 11; shm->schedhash = 13;
  opsWorldInit(p);
#ifdef SIM_ASAN
  __asan_set_error_report_callback(asanReport);
  for (int i = 0; i < nclients; i++) { cur = &clients[i]; curc = &clients[i]; wantPreempt = false; clientMain(curc); clients[i].done = true; }
#else
  for (int i = 0; i < nclients; i++) { fiberInit(&clients[i], fiberEntry); if (clients[i].ops.empty()) clients[i].done = true; }
  if (!e.interleave) {
    for (int i = 0; i < nclients; i++) { if (clients[i].done) continue; cur = &clients[i]; curc = &clients[i]; wantPreempt = false; sim_swtch(&mainsp, cur->sp); }
  } else {
    bool expl = p.get("explicit", 0) != 0; swIdx = 0;
    int run = -1; int pctLeft = 0;
    if (e.schedKind == 1) pctLeft = 1 + (int)schedRng->below(6);
    // first client
    auto alive = [&](std::vector<int> &v) { v.clear(); for (int i = 0; i < nclients; i++) if (!clients[i].done) v.push_back(i); };
    std::vector<int> al; alive(al);
    if (!al.empty()) run = expl ? al[0] : al[schedRng->below(al.size())];
    if (expl && !p.sw.empty() && p.sw[0].client < 0) { run = p.sw[0].next; swIdx = 1; if (run < 0 || run >= nclients || clients[run].done) run = al[0]; }
    auto rec = [&](int c, uint64_t st, int nx) { if (e.recordSwitches) { if (shm->nsw < MAXSW) shm->sw[shm->nsw++] = Switch{c, st, nx}; else shm->swOverflow = 1; } };
    rec(-1, 0, run);
    while (run >= 0) {
      Client &c = clients[run];
      wantPreempt = al.size() > 1; 
      if (expl) {
        while (swIdx < p.sw.size() && p.sw[swIdx].client == run && p.sw[swIdx].step != UINT64_MAX && p.sw[swIdx].step <= c.steps) swIdx++;
        if (swIdx < p.sw.size() && p.sw[swIdx].client == run && p.sw[swIdx].step != UINT64_MAX) preemptAt = p.sw[swIdx].step; else wantPreempt = false;
      } else if (e.schedKind == 1) { if (pctLeft > 0) { preemptAt = c.steps + 1 + schedRng->below((uint64_t)e.schedMean * 40 + 1); } else wantPreempt = false; }
      else preemptAt = c.steps + drawSlice();
      cur = &c; curc = &c; computeSlice();
      bool resumeArmed = c.inop; if (resumeArmed) armed = true;
      armed = c.inop;
      sim_swtch(&mainsp, c.sp);
      armed = false;
      alive(al); if (al.empty()) { rec(run, UINT64_MAX, -1); break; }
      int nx;
      if (expl) {
        if (swIdx < p.sw.size() && p.sw[swIdx].client == run) { nx = p.sw[swIdx].next; swIdx++; } else nx = -1;
        if (nx < 0 || nx >= nclients || clients[nx].done) nx = al[0];
      } else {
        do { nx = al[schedRng->below(al.size())]; } while (nx == run && al.size() > 1 && !c.done);
        if (e.schedKind == 1 && !c.done) pctLeft--;
      }
      rec(run, c.done ? UINT64_MAX : c.steps, nx);
      shm->cnt[CN_SWITCH]++; shm->schedhash = mix(shm->schedhash, mix(mix(run, lastGuard), nx));
      run = nx;
    }
  }
#endif
  curc = nullptr; armed = false;
  checkRedzones();
  uint64_t live = 0; for (int i = 0; i <= MAXCLIENT; i++) live += liveCount[i];
  shm->liveEnd = live; shm->liveBytesEnd = liveBytes;
  for (int i = 0; i < nclients; i++) { // conservation: nothing a live caller's calls allocated may outlive its objects
    if (clients[i].dead || clients[i].ops.empty() || !storeEmpty(i) || !liveCount[i]) continue;
    curc = &clients[i]; curc->opno = -1; event("MEM", "leak", "%llu blocks still live after all objects were freed, oldest allocated in %s: %s", (unsigned long long)liveCount[i], liveOwner(i).c_str(), liveDescription(i).c_str()); curc = nullptr;
  }
  opsWorldEnd(nclients);
  shm->steps = totalSteps; shm->simns = totalSteps * 4 + clockReads * 1000000000ULL;
  shm->covN = covTotal; shm->done = 1;
}
// description of what is still live (for the leak oracle)
static std::string ownerName(void *ra) { Dl_info di; return dladdr(ra, &di) && di.dli_sname ? di.dli_sname : "?"; }
std::string liveDescription(int c) {
  std::string s; int k = 0;
#ifdef SIM_ASAN
  for (auto &e : *side) { if (e.second.client != c || k++ > 3) continue; char b[160]; snprintf(b, sizeof b, "[%zu bytes allocated in %s, op %d] ", e.second.n, ownerName(e.second.ra).c_str(), e.second.opno); s += b; }
#else
  for (Hdr *h = liveHead.next; h && k < 4; h = h->next) { if (h->client != c) continue; k++; char b[160]; snprintf(b, sizeof b, "[%llu bytes allocated in %s, op %d] ", (unsigned long long)h->size, ownerName(h->ra).c_str(), h->opno); s += b; }
#endif
  return s;
}
std::string liveOwner(int c) {
#ifdef SIM_ASAN
  for (auto &e : *side) if (e.second.client == c) return ownerName(e.second.ra);
#else
  std::string last; for (Hdr *h = liveHead.next; h; h = h->next) if (h->client == c) last = ownerName(h->ra); // the oldest
  if (!last.empty()) return last;
#endif
  return "?";
}
bool storeEmpty(int c) { for (auto &s : clients[c].store.s) if (s.kind != SK_NONE) return false; return true; }
Store *storeOf(int c) { return &clients[c].store; }
uint64_t liveForClient(int c) { return liveCount[c]; }
bool clientDead(int c) { return clients[c].dead; }

void rtInit() {
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shm == MAP_FAILED) { perror("mmap"); exit(3); }
}
WorldOut runWorld(const Plan &p, const Env &e) {
  WorldOut o;
  // clear only what is read
  shm->done = 0; shm->narg = 0; shm->nsite = 0; shm->nres = 0; shm->nev = 0; shm->nsw = 0; shm->swOverflow = 0; shm->steps = 0; shm->simns = 0; memset(shm->cnt, 0, sizeof shm->cnt);
  shm->liveEnd = shm->liveBytesEnd = 0; shm->tracehash = 0;
  World w; w.plan = p; w.env = e; W = &w;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 600; setitimer(ITIMER_REAL, &tv, nullptr);
    childMain();
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o.wstatus = st; o.abnormal = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->done == 1);
  o.res.assign(shm->res, shm->res + shm->nres); o.ev.assign(shm->ev, shm->ev + shm->nev);
  if (e.recordSwitches) o.sw.assign(shm->sw, shm->sw + shm->nsw);
  o.sites.assign(shm->site, shm->site + shm->nsite);
  o.args.assign(shm->arg, shm->arg + shm->narg);
  o.tracehash = shm->tracehash; o.schedhash = shm->schedhash; o.steps = shm->steps; o.simns = shm->simns; memcpy(o.cnt, shm->cnt, sizeof o.cnt);
  o.live = shm->liveEnd; o.liveBytes = shm->liveBytesEnd;
  W = nullptr;
  return o;
}
