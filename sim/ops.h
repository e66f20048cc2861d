// Operations on the library that simulated callers can perform.
#pragma once
#include "rt.h"
#include <memory>

enum SlotKind { SK_NONE = 0, SK_ARIMA, SK_SARIMA, SK_SARIMAX, SK_AR, SK_AUTO, SK_WRAP, SK_MYARIMA, SK_AA, SK_REG, SK_OPT, SK_NLS,
  SK_WAVE, SK_WT, SK_WTREE, SK_WPT, SK_FFT, SK_RFFT, SK_CONV, SK_ACF, SK_SPEC, SK_N };
extern const char *slotKindName[SK_N];

struct Slot {
  int kind = SK_NONE; void *obj = nullptr;
  std::map<std::string, long> cfg;          // constructor arguments
  bool fitted = false, fitok = false; int fitserial = 0;
  long fitDs = 0, fitDk = 0, fitN = 0;
  double *y = nullptr, *xreg = nullptr;      // argument arrays of the last fit (owned by the caller, read-only)
  std::vector<double> yv, xv, sig, aux;      // copies known to the caller
  std::vector<double> fc, fa; long fcKey = 0; // longest forecast seen since the fit
  void *owned = nullptr;                     // private wavelet of a transform object
  double *varcovar = nullptr, *res = nullptr;
  int lastMode = 0;
  int tdone = 0;                             // transform state valid
};
#define NSLOT 6
struct Store { Slot s[NSLOT]; };

struct Ctx {
  const OpSpec *op = nullptr; OpResult *r = nullptr; Store *st = nullptr; int client = 0; const Env *env = nullptr;
  bool skipped = false, noprint = false;
  // arguments, folded into [lo,hi] so that every shrunk plan stays valid
  // an argument the plan does not name comes from the op's "seed" attribute (else the default); every resolved value is reported
  int A(const char *k, long lo, long hi, long dflt) const;
  bool has(const char *k) const { return op->a.count(k) != 0; }
  // recorded observations
  void digInt(const char *name, long v);
  void digD(const char *name, double v) { dig(name, &v, 1); }
  void dig(const char *name, const double *v, size_t n);
  void digI(const char *name, const int *v, size_t n);
  void status(int code, int ok) { r->code = code; r->claims = ok; digInt("status", ok ? code : code); }
  // data
  std::vector<double> series(int n, const char *dsKey = "ds", const char *dkKey = "dk", bool corrupt = true);
};

typedef void (*OpRun)(Ctx &);
enum { T_PURE = 1, T_OBJ = 2, T_CB = 4, T_STATUS = 8, T_HEAVY = 16, T_PRINT = 32, T_DATA = 64, T_RNG = 128, T_NOSTATUS = 256, T_MAT = 512 };
struct OpDef { std::string name; OpRun run; int tags; int weight; };
const OpDef *opFind(const char *name);
const std::vector<OpDef> &opAll();
struct OpReg { OpReg(const char *n, OpRun f, int tags, int weight); };
#define OPW(nm, tags, weight) static void op_##nm(Ctx &X); static OpReg reg_##nm(#nm, op_##nm, tags, weight); static void op_##nm(Ctx &X)
#define OP(nm, tags) OPW(nm, tags, 10)

extern bool opDebugRedzone;
struct Client;
void opsWorldInit(const Plan &p);
void opsWorldEnd(int nclients);
bool storeEmpty(int client);
Store *storeOf(int client);
uint64_t liveForClient(int c); bool clientDead(int c); std::string liveDescription(int c); std::string liveOwner(int c);

// data generation (no library code, no process state)
std::vector<double> makeSeries(int n, long ds, long kind, int f);
void corruptSeries(std::vector<double> &v, long pos, long kind, long cnt);
void slotFree(Ctx &X, Slot &s);
typedef std::vector<double> DV;
inline double *IN(const DV &v) { return buf_in(v.data(), v.size()); }
inline double *IO(const DV &v) { return buf_inout(v.data(), v.size()); }
inline double *OUT(size_t n) { return buf_out(n); }
inline int *OUTI(size_t n) { return buf_out_int(n); }
DV noise(size_t n, uint64_t seed, double sd);
DV stableAR(int p, uint64_t seed);   // coefficients of a stationary polynomial
// env.flags
enum { EF_SKIP_HIST = 1, EF_SKIP_BAD = 2, EF_SKIP_QUERY = 4, EF_NO_ORACLE = 8 };
bool finiteAll(const double *v, size_t n);
uint64_t hashD(const double *v, size_t n);
