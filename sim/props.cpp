// Per-property generators (seed -> plan) and judges (plan -> findings).
#include "props.h"
#include "ops.h"
#include <algorithm>
#include <functional>
#include <stdarg.h>
Stats stats;

WorldOut world(const Plan &p, const Env &e, Judge &j) {
  Env e2 = e; if (!e2.opBudget && p.prop == "C09") e2.opBudget = 80000000; // some fifty times what the longest minimisation takes
  if (!e2.opBudget && p.prop != "C14" && p.prop != "C15" && p.prop != "C17") e2.opBudget = 1000000000; // the others do not judge termination
  WorldOut o = runWorld(p, e2);
  stats.worlds++; stats.steps += o.steps; stats.simns += o.simns; for (int i = 0; i < CN_N; i++) stats.cnt[i] += o.cnt[i];
  stats.sched.insert(o.schedhash); stats.trace.insert(o.tracehash);
  for (auto &r : o.res) { stats.ops++; stats.st[statusName(r.status)]++; if (r.status == ST_OK) stats.opsOk++; if (r.opno >= 0 && r.opno < (int)p.ops.size() && r.status != ST_SKIP && r.status != ST_DEADCLIENT) stats.fn[p.ops[r.opno].fn]++; if (r.steps > stats.maxSteps) stats.maxSteps = r.steps; }
  j.hash = mix(j.hash, o.tracehash); for (auto &ev : o.ev) j.hash = mix(j.hash, hashstr(ev.cls));
  if (o.abnormal) { char b[160]; snprintf(b, sizeof b, "world ended abnormally (wait status %#x)", o.wstatus); j.error = b; }
  return o;
}
static std::string fnOf(const Plan &p, int opno) { return opno >= 0 && opno < (int)p.ops.size() ? p.ops[opno].fn : std::string("-"); }
static void add(Judge &j, const std::string &cls, const std::string &detail, int op = -1) { for (auto &f : j.f) if (f.cls == cls) return; j.f.push_back(Finding{cls, detail, op}); }
static std::string fmt(const char *f, ...) { char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
// events recorded during the run that speak about this property
static void takeEvents(Judge &j, const Plan &p, const WorldOut &o, std::initializer_list<const char *> props) {
  for (auto &e : o.ev) for (auto q : props) if (!strcmp(e.prop, q)) add(j, std::string(e.cls) + "/" + fnOf(p, e.opno), fmt("%s (client %d, op %d %s)", e.detail, e.client, e.opno, fnOf(p, e.opno).c_str()), e.opno);
}
static void takeStatus(Judge &j, const Plan &p, const WorldOut &o, int status, const char *cls) {
  for (auto &r : o.res) if (r.status == status && !(status == ST_BUDGET && r.code == 2)) add(j, std::string(cls) + "/" + fnOf(p, r.opno), fmt("call %s (client %d, op %d) ended with %s code %d in %s after %llu steps", fnOf(p, r.opno).c_str(), r.client, r.opno, statusName(status), r.code, r.where, (unsigned long long)r.steps), r.opno);
}
static std::string firstDiff(const OpResult &a, const OpResult &b) {
  if (a.status != b.status) return fmt("status %s (%d) versus %s (%d)", statusName(a.status), a.code, statusName(b.status), b.code);
  if (a.code != b.code && a.status != ST_SIGNAL) return fmt("return code %d versus %d", a.code, b.code);
  for (int i = 0; i < a.nf && i < b.nf; i++) if (strcmp(a.f[i].name, b.f[i].name) || a.f[i].h != b.f[i].h) return fmt("field %s", a.f[i].name);
  return fmt("number of fields %d versus %d", a.nf, b.nf);
}
static std::string diffField(const OpResult &a, const OpResult &b) {
  if (a.status != b.status) return "status"; if (a.code != b.code) return "code";
  for (int i = 0; i < a.nf && i < b.nf; i++) if (strcmp(a.f[i].name, b.f[i].name) || a.f[i].h != b.f[i].h) return a.f[i].name;
  return "fields";
}
static bool same(const OpResult &a, const OpResult &b) { return a.status == b.status && (a.status != ST_OK || a.digest == b.digest) && (a.status != ST_EXIT || a.code == b.code); }
static Env envOf(const Plan &p, const char *suf = "") {
  Env e; std::string s = suf; auto g = [&](const char *k, long d) { return p.get((std::string(k) + s).c_str(), d); };
  e.heapMode = (int)g("hm", FILL_CONST); e.heapSeed = g("hs", 1); e.stackMode = (int)g("sm", FILL_CONST); e.stackSeed = g("ss", 1);
  e.clock = g("ck", 1700000000); e.clockMode = (int)g("cm", 0); e.randSeed = g("rs", 12345); e.randMode = (int)g("rm", 0); e.outFault = (int)g("of", 0);
  return e;
}
static bool argsOf(Plan &p, const WorldOut &o) { // replace lazily drawn arguments by the values used
  std::set<int> ran; for (auto &r : o.res) if (r.status != ST_DEADCLIENT && r.status != ST_SKIP) ran.insert(r.opno);
  for (auto &a : o.args) if (ran.count(a.opno)) p.ops[a.opno].a[a.key] = a.v;
  for (int i : ran) p.ops[i].a.erase("seed");
  return true;
}
// replace only when the concrete plan still shows the finding: the driver checks that

// ---------------------------------------------------------------- generators
struct G {
  Rng r; Plan p; int client = 0; int tier; std::set<int> usedSet;
  G(const char *prop, uint64_t seed, int t) : r(mix(hashstr(prop), seed)), tier(t) { p.prop = prop; p.h["seed"] = (long)(seed & 0x7fffffffffffLL); }
  long sd() { return (long)r.below(1000000); }
  OpSpec &op(const char *fn) { OpSpec o; o.client = client; o.fn = fn; p.ops.push_back(o); return p.ops.back(); }
  OpSpec &opS(const char *fn) { auto &o = op(fn); o.a["seed"] = sd(); return o; }
  OpSpec &opL(const char *fn, int slot) { auto &o = opS(fn); o.a["slot"] = slot; return o; }
  void corrupt(OpSpec &o) { o.a["ck"] = r.below(8); o.a["cp"] = r.below(200); o.a["cc"] = r.chance(0.6) ? 1 : 1 + r.below(12); }
};
static const std::vector<const OpDef *> &pureOps(int need, int forbid) {
  static std::map<std::pair<int, int>, std::vector<const OpDef *>> cache; auto &v = cache[{need, forbid}];
  const char *only = getenv("SIM_OPS"); // development aid: restrict the stateless operations to one name prefix
  if (v.empty()) for (auto &d : opAll()) if ((!only || !strncmp(d.name.c_str(), only, strlen(only))) && d.weight > 0 && (d.tags & need) == need && !(d.tags & forbid)) for (int k = 0; k < d.weight; k++) v.push_back(&d);
  return v;
}
static OpSpec &genPure(G &g, int forbid = T_RNG) { auto &v = pureOps(0, forbid); auto *d = v[g.r.below(v.size())]; auto &o = g.opS(d->name.c_str()); if (d->tags & T_OBJ) o.a["slot"] = 5; return o; }
static void callbackExtras(G &g, OpSpec &o, bool faults, bool nest) { if (faults && g.r.chance(0.4)) { o.a["fk"] = 1 + g.r.below(9); o.a["fa"] = g.r.chance(0.5) ? 1 + g.r.below(12) : 1 + g.r.below(200); } if (faults && g.r.chance(0.1)) { o.a["gk"] = 1; o.a["fa"] = 1 + g.r.below(20); } if (nest && g.r.chance(0.5)) o.a["nest"] = 1 + g.r.below(5); }
static bool isCb(const std::string &f) { auto *d = opFind(f.c_str()); return d && (d->tags & T_CB); }

// object histories
enum Kind { K_ARIMA, K_SARIMA, K_SARIMAX, K_AR, K_AUTO, K_REG, K_OPT, K_NLS, K_WAVE, K_SPEC, K_N };
static int setCount(int k) { return k == K_ARIMA || k == K_SARIMA ? 3 : k == K_SARIMAX ? 2 : k == K_AUTO ? 12 : 0; }
static void hNew(G &g, int k, int slot) {
  switch (k) {
  case K_ARIMA: case K_SARIMA: case K_SARIMAX: case K_AR: case K_AUTO: { auto &o = g.opL("m_new", slot); o.a["kind"] = k; if (g.r.chance(0.25)) o.a["big"] = 1; } break;
  case K_REG: g.opL("r_new", slot); break; case K_OPT: g.opL("o_new", slot); break; case K_NLS: g.opL("n_new", slot); break; case K_WAVE: g.opL("w_new", slot); break; case K_SPEC: g.opL("f_new", slot); break;
  }
}
// a valid setting; wanted >= 0 forces which one
static int hSet(G &g, int k, int slot, int wanted = -1, long val = -1) {
  if (k == K_REG) { auto &o = g.opL("r_set", slot); int w = wanted >= 0 ? wanted : (int)g.r.below(2); o.a["what"] = w; o.a["val"] = val >= 0 ? val : (long)g.r.below(w ? 3 : 2); return w; }
  if (k == K_OPT) { auto &o = g.opL("o_set", slot); int w = wanted >= 0 ? wanted : (int)g.r.below(3); o.a["what"] = w; return w; }
  if (k == K_NLS) { g.opL("o_set", slot); return 0; }
  if (k == K_WAVE) { auto &o = g.opL("w_set", slot); int w = wanted >= 0 ? wanted : (int)g.r.below(3); o.a["what"] = w; return w; }
  int n = setCount(k); if (!n) return -1; auto &o = g.opL("m_set", slot); int w = wanted >= 0 ? wanted : (int)g.r.below(n); if (k == K_AUTO && w == 2) w = 3; if (k == K_AUTO && w == 11 && wanted < 0) w = 4;
  o.a["what"] = w; if (w == 11) o.a["val"] = 0; if (w == 0 && k != K_AUTO && g.r.chance(0.3)) o.a["val"] = g.r.below(3); return w;
}
static OpSpec &hFit(G &g, int k, int slot, double pcorrupt) {
  OpSpec *o;
  switch (k) { case K_REG: o = &g.opL("r_fit", slot); break; case K_OPT: o = &g.opL("o_run", slot); break; case K_NLS: o = &g.opL("n_run", slot); break; case K_WAVE: o = &g.opL("w_fwd", slot); break; case K_SPEC: o = &g.opL("f_run", slot); break; default: o = &g.opL("m_fit", slot); }
  if (k == K_OPT || k == K_NLS) callbackExtras(g, *o, pcorrupt > 0, false);
  else if (g.r.chance(pcorrupt)) g.corrupt(*o);
  if (k <= K_AUTO && g.r.chance(0.7)) { static const long good[] = {0, 4, 7, 1, 3, 2, 5, 6}; o->a["dk"] = good[g.r.below(8)]; }
  static const std::set<std::string> col = {"C01", "C02", "C03", "C04", "C05", "C06", "C14", "C15"};
  if ((k == K_SARIMAX || k == K_AUTO || k == K_REG) && col.count(g.p.prop) && g.r.chance(0.12)) o->a["xdup"] = g.r.below(2); // collinear or constant regressors
  return *o;
}
static OpSpec &hQuery(G &g, int k, int slot) {
  switch (k) {
  case K_REG: if (g.r.chance(0.6)) { return g.opL("r_query", slot); } return g.opL("r_show", slot);
  case K_OPT: case K_NLS: return g.opL(g.r.chance(0.5) ? "o_show" : "o_summary", slot);
  case K_WAVE: { static const char *q[] = {"w_show", "w_summary", "w_coef", "w_mra", "w_inv"}; return g.opL(q[g.r.below(5)], slot); }
  case K_SPEC: return g.opL("f_run", slot);
  default: { static const char *q[] = {"m_show", "m_summary", "m_vcov", "m_forecast", "m_forecast", "m_forecast"}; return g.opL(q[g.r.below(6)], slot); }
  }
}
static int anyKind(G &g, bool autoToo = true) { static const int w[] = {K_ARIMA, K_ARIMA, K_SARIMA, K_SARIMA, K_SARIMAX, K_SARIMAX, K_SARIMAX, K_AR, K_AUTO, K_REG, K_REG, K_OPT, K_NLS, K_WAVE, K_WAVE, K_WAVE, K_SPEC, K_SPEC}; for (;;) { int k = w[g.r.below(18)]; if (k == K_AUTO && !autoToo) continue; return k; } }
// one random object history on a slot
static void history(G &g, int k, int slot, int len, double pcorrupt) {
  hNew(g, k, slot); bool fitted = false;
  for (int i = 0; i < len; i++) { double u = g.r.u(); if (u < 0.22) hSet(g, k, slot); else if (u < 0.6 || !fitted) { hFit(g, k, slot, pcorrupt); fitted = true; } else hQuery(g, k, slot); }
  if (g.r.chance(0.4)) g.opL("obj_free", slot);
}
static void envRandom(G &g, const char *suf = "") {
  std::string s = suf; g.p.h["hm" + s] = g.r.below(FILL_N); g.p.h["hs" + s] = g.sd(); g.p.h["sm" + s] = g.r.below(FILL_N); g.p.h["ss" + s] = g.sd(); g.p.h["cm" + s] = g.r.below(4); g.p.h["ck" + s] = 1000000 + g.sd() * 1000; g.p.h["rs" + s] = g.sd(); g.p.h["rm" + s] = g.r.below(7);
}
static void mixedScript(G &g, int n, double pcorrupt, bool cbFaults, bool nest, int forbid, bool autoToo) {
  for (int i = 0; i < n; i++) {
    if (g.r.chance(0.55)) { auto &o = genPure(g, forbid); if (isCb(o.fn)) callbackExtras(g, o, cbFaults, nest); else if (g.r.chance(pcorrupt)) g.corrupt(o); }
    else history(g, anyKind(g, autoToo), (int)g.r.below(3), 2 + (int)g.r.below(4), pcorrupt);
  }
}

// ---------------------------------------------------------------- C01
static Plan gen01(uint64_t seed, int tier) {
  G g("C01", seed, tier); int nc = 2 + (int)g.r.below(3); g.p.h["sched"] = g.sd(); g.p.h["kind"] = g.r.below(2); static const long means[] = {3, 20, 150, 1000, 8000}; g.p.h["mean"] = means[g.r.below(5)];
  bool sharedW = g.r.chance(0.3); int dieClient = g.r.chance(0.35) ? (int)g.r.below(nc) : -1;
  int common = g.r.chance(0.4) ? 1 : 0; auto &pv = pureOps(0, T_RNG | T_HEAVY); const OpDef *d0 = pv[g.r.below(pv.size())]; int k0 = anyKind(g, false); bool useKind = g.r.chance(0.4);
  for (int c = 0; c < nc; c++) {
    g.client = c; size_t from = g.p.ops.size(); int n = 1 + (int)g.r.below(3);
    for (int i = 0; i < n; i++) {
      if (sharedW && g.r.chance(0.6)) { int sl = (int)g.r.below(3); auto &o = g.opL("w_new", sl); o.a["shared"] = g.r.below(4); if (g.r.chance(0.5)) g.opL("w_set", sl); g.opL("w_fwd", sl); if (g.r.chance(0.6)) g.opL("w_inv", sl); g.opL("w_show", sl); }
      else if (common && useKind) history(g, k0, i, 3, 0.1);                       // neighbours inside the same functions
      else if (common && g.r.chance(0.7)) { auto &o = g.opS(d0->name.c_str()); if (d0->tags & T_OBJ) o.a["slot"] = 5; if (isCb(o.fn)) callbackExtras(g, o, true, true); }
      else mixedScript(g, 1, 0.1, true, true, T_RNG | T_HEAVY, g.r.chance(0.1));
    }
    if (c == dieClient) { bool nests = false; for (size_t i = from; i < g.p.ops.size(); i++) nests |= g.p.ops[i].a.count("nest") > 0; auto &o = g.p.ops[from + g.r.below(g.p.ops.size() - from)]; if (!nests) { if (g.r.chance(0.6)) o.a["die"] = 1 + g.r.below(g.r.chance(0.5) ? 500 : 50000); else o.a["afail"] = 1 + g.r.below(20); } }
  }
  return g.p;
}
// Guided search: where a call of the plan changes process-wide library state (on the unchanged tree none does), twins of that
// call with other data are put next to it, and the scheduler prefers to switch where that state has just changed.
static bool seedKey(const std::string &k) { return k == "xs" || k == "cs" || k == "ws" || (k.size() <= 3 && k.compare(0, 2, "ds") == 0); }
static void twist(OpSpec &o, Rng &r, bool perturb) {
  std::vector<std::string> ks; for (auto &k : o.a) { if (seedKey(k.first)) k.second = r.below(100000); else if (k.first != "slot" && k.first != "shared" && k.first != "what" && k.first != "hist" && k.first != "nest") ks.push_back(k.first); }
  if (o.a.count("seed")) o.a["seed"] = r.below(1000000); else if (perturb && !ks.empty()) { auto &v = o.a[ks[r.below(ks.size())]]; v += r.chance(0.5) ? 1 : -1; if (v < 0) v = 1; }
}
static void harmless(OpSpec &o) { for (auto k : {"die", "afail", "apersist", "nest", "hist", "bad", "query", "target", "fk", "fa"}) o.a.erase(k); }
static int guidedWorlds = 0; static const int guidedMax = 1500;
static bool guideSearch(const Plan &p, const WorldOut &A, Judge &j, bool inter, const std::function<void(const Plan &, Judge &)> &sub) {
  if (p.get("guided", 0) || p.get("explicit", 0)) return false;
  for (auto &f : A.res) { if (!f.glob || guidedWorlds >= guidedMax) continue;
    Plan q = p; argsOf(q, A); std::vector<OpSpec> scr; for (int i = 0; i <= f.opno; i++) if (q.ops[i].client == f.client) { scr.push_back(q.ops[i]); harmless(scr.back()); scr.back().client = 0; }
    if (scr.size() > 1 && (opFind(scr.back().fn.c_str())->tags & T_PURE)) scr.erase(scr.begin(), scr.end() - 1);
    Rng r(mix(p.get("seed", 1), f.opno * 16 + inter)); uint64_t cost = 0; for (auto &o : A.res) if (o.client == f.client && o.opno <= f.opno) cost += o.steps; if (cost > 20000000) continue;
    for (int t = 0; t < 8; t++) {
      Plan g = p; g.ops.clear(); g.sw.clear(); g.h["guided"] = 1; std::vector<OpSpec> tw = scr; for (auto &o : tw) { if (t % 4 == 3 && seedKey("ds")) o.a.erase("x"); twist(o, r, t & 1); }
      if (t >= 6) { const OpSpec &src = p.ops[f.opno]; if (src.a.count("seed") && tw.size() == 1) { tw[0].a = src.a; harmless(tw[0]); tw[0].a["seed"] = r.below(1000000); } }
      if (inter) { for (auto &o : tw) o.client = 1; static const long ms[] = {1000000, 30, 4, 300, 1000000, 2000, 100000, 10}; g.h["kind"] = 2; g.h["mean"] = ms[t]; g.h["sched"] = r.below(1000000); g.ops = scr; g.ops.insert(g.ops.end(), tw.begin(), tw.end()); }
      else { for (auto &o : tw) o.a["hist"] = 1; g.ops = tw; g.ops.insert(g.ops.end(), scr.begin(), scr.end()); }
      Judge k; k.concrete = g; uint64_t w0 = stats.worlds; sub(g, k); guidedWorlds += (int)(stats.worlds - w0); j.hash = mix(j.hash, k.hash); if (!k.error.empty()) continue;
      if (!k.f.empty()) { for (auto &x : k.f) add(j, x.cls, x.detail, x.op); j.concrete = k.concrete; return true; }
    }
  }
  return false;
}
static void judge01(const Plan &p, Judge &j) {
  Env a = envOf(p); a.interleave = 1; a.flags = EF_NO_ORACLE; a.schedSeed = p.get("sched", 1); a.schedKind = (int)p.get("kind", 0); a.schedMean = p.get("mean", 100); a.recordSwitches = 1; a.nest = 1;
  WorldOut A = world(p, a, j); takeEvents(j, p, A, {"C01"}); j.nontrivial = A.cnt[CN_SWITCH] >= 3;
  int nc = 0; for (auto &o : p.ops) nc = std::max(nc, o.client + 1); std::vector<WorldOut> lone;
  for (int c = 0; c < nc; c++) {
    Env b = a; b.interleave = 0; b.onlyClient = c; b.nest = 0; b.recordSwitches = 0; WorldOut B = world(p, b, j); takeEvents(j, p, B, {"C01"});
    for (auto &r : B.res) if (r.glob) { lone.push_back(B); break; }
    for (auto &r : B.res) { auto *q = A.find(r.client, r.opno); if (!q) { add(j, "missing/" + fnOf(p, r.opno), "call did not run when interleaved"); break; } if (!same(r, *q)) { add(j, "isolation/" + fnOf(p, r.opno), fmt("call %s of client %d (op %d) gives another result when %d callers interleave: %s", fnOf(p, r.opno).c_str(), c, r.opno, nc, firstDiff(*q, r).c_str()), r.opno); break; } }
  }
  j.concrete = p; if (!A.sw.empty() && A.sw.size() < 3000) { j.concrete.h["explicit"] = 1; j.concrete.sw = A.sw; } 
  if (j.f.empty()) for (auto &B : lone) if (guideSearch(p, B, j, true, judge01)) break;
}

// ---------------------------------------------------------------- differential histories: C02, C06, C16
static void finalSegment(G &g, int k, int slot, const std::set<int> &used) {
  for (int w : used) hSet(g, k, slot, w);
  auto &f = hFit(g, k, slot, 0); (void)f;
  if (k <= K_AUTO) { g.opL("m_show", slot); auto &o = g.opL("m_forecast", slot); (void)o; if (k <= K_SARIMAX) g.opL("m_vcov", slot); }
  else if (k == K_REG) g.opL("r_show", slot); else if (k == K_WAVE) { g.opL("w_show", slot); if (g.r.chance(0.5)) g.opL("w_inv", slot); else g.opL("w_mra", slot); } else if (k != K_SPEC) g.opL("o_show", slot);
}
static Plan gen02(uint64_t seed, int tier) {
  G g("C02", seed, tier); static const int ks[] = {K_ARIMA, K_ARIMA, K_SARIMA, K_SARIMA, K_SARIMAX, K_SARIMAX, K_AR, K_AUTO, K_AUTO, K_REG, K_OPT, K_OPT, K_NLS, K_NLS}; int k = ks[g.r.below(14)];
  hNew(g, k, 0); std::set<int> used; int n = 1 + (int)g.r.below(5); bool fitted = false;
  if (g.r.chance(0.5)) for (int i = 1 + (int)g.r.below(3); i > 0; i--) { int w = hSet(g, k, 0); if (k == K_OPT && w == 0) g.p.ops.back().a["mis"] = 0; } // settings that stay: part of both executions
  for (int i = 0; i < n; i++) { size_t at = g.p.ops.size(); double u = g.r.u(); if (u < 0.3) { int w = hSet(g, k, 0); if (w >= 0) used.insert(w); } else if (u < 0.75 || !fitted) { hFit(g, k, 0, 0.25); fitted = true; } else hQuery(g, k, 0); for (; at < g.p.ops.size(); at++) g.p.ops[at].a["hist"] = 1; }
  finalSegment(g, k, 0, used); g.p.h["hm"] = FILL_CONST; return g.p;
}
static void judgeDiff(const Plan &p, Judge &j, int flag, const char *attr, const char *what, int outFault, std::initializer_list<const char *> evs) {
  Env a = envOf(p); a.flags = EF_NO_ORACLE; a.outFault = outFault; if (evs.size() > 0 && strcmp(*evs.begin(), "C02")) a.flags = 0; Env b = a; b.flags |= flag; b.outFault = 0;
  WorldOut A = world(p, a, j); takeEvents(j, p, A, evs); WorldOut B = world(p, b, j); takeEvents(j, p, B, evs);
  argsOf(j.concrete, A);
  bool dead = false; for (auto &r : A.res) if (r.status != ST_OK && r.status != ST_SKIP && p.ops[r.opno].get(attr, 0)) dead = true; // the extra call stopped the process: nothing to compare
  if (dead) return;
  int cmpd = 0;
  for (auto &r : B.res) { if (p.ops[r.opno].get(attr, 0)) continue; auto *q = A.find(r.client, r.opno); if (!q) continue; cmpd++; if (!same(r, *q)) { add(j, std::string("differs/") + fnOf(p, r.opno) + "/" + diffField(*q, r), fmt("call %s (op %d) %s: %s", fnOf(p, r.opno).c_str(), r.opno, what, firstDiff(*q, r).c_str()), r.opno); break; } if (r.status != ST_OK && r.status != ST_SKIP) break; }
  j.nontrivial = cmpd >= 2 || p.get("guided", 0);
  if (flag == EF_SKIP_HIST && j.f.empty() && guideSearch(p, B, j, false, [&](const Plan &g, Judge &k) { judgeDiff(g, k, flag, attr, what, outFault, evs); })) return;
}
static void judge02(const Plan &p, Judge &j) { judgeDiff(p, j, EF_SKIP_HIST, "hist", "gives another result on a used object than on a fresh one", 0, {"C02"}); }
static Plan gen06(uint64_t seed, int tier) {
  G g("C06", seed, tier); static const int ks[] = {K_ARIMA, K_SARIMA, K_SARIMAX, K_SARIMAX, K_AR, K_AUTO, K_REG, K_REG, K_OPT, K_NLS, K_WAVE}; int k = ks[g.r.below(11)]; bool wrap = g.r.chance(0.2);
  g.p.h["of"] = g.r.below(3);
  if (wrap) { auto &o = g.opL("m_wrap", 0); o.a["which"] = g.r.chance(0.6) ? 0 : 1 + (int)g.r.below(2); k = K_SARIMAX; }
  else { hNew(g, k, 0); int ns = (int)g.r.below(3); for (int i = 0; i < ns; i++) hSet(g, k, 0); hFit(g, k, 0, 0); }
  int n = 2 + (int)g.r.below(6); for (int i = 0; i < n; i++) { auto &o = hQuery(g, k, 0); if (g.r.chance(0.6)) o.a["query"] = 1; }
  if (k <= K_AUTO) { g.opL("m_show", 0); g.opL("m_forecast", 0); g.opL("m_vcov", 0); g.opL("m_summary", 0); } else if (k == K_REG) { g.opL("r_show", 0); g.opL("r_query", 0); } else if (k == K_WAVE) { g.opL("w_show", 0); g.opL("w_inv", 0); g.opL("w_summary", 0); } else { g.opL("o_show", 0); g.opL("o_summary", 0); }
  return g.p;
}
static void judge06(const Plan &p, Judge &j) { judgeDiff(p, j, EF_SKIP_QUERY, "query", "answers differently after other queries", (int)p.get("of", 0), {"C06"}); }
static Plan gen16(uint64_t seed, int tier) {
  G g("C16", seed, tier);
  if (g.r.chance(0.3)) { static const char *e[] = {"e_fit", "e_fit", "e_fit", "e_auto", "e_reg", "e_opt", "e_opt", "e_wave"}; g.opL(e[g.r.below(8)], 0); return g.p; }
  static const int ks[] = {K_ARIMA, K_SARIMA, K_SARIMAX, K_AUTO, K_AUTO, K_REG, K_WAVE, K_OPT}; int k = ks[g.r.below(8)]; hNew(g, k, 0); int n = 1 + (int)g.r.below(5);
  for (int i = 0; i < n; i++) {
    if (g.r.chance(0.3)) hSet(g, k, 0); if (g.r.chance(0.15)) hFit(g, k, 0, 0);
    if (k == K_OPT) { hSet(g, k, 0); continue; }
    auto &o = g.opL(k == K_REG ? "r_set" : k == K_WAVE ? "w_set" : "m_set", 0); o.a["bad"] = 1; if (k <= K_AUTO) { int ns = setCount(k); o.a["what"] = g.r.chance(0.7) ? g.r.below(2) : g.r.below(ns); if (k == K_AUTO && g.r.chance(0.6)) { static const int w[] = {0, 1, 3, 4, 5, 6}; o.a["what"] = w[g.r.below(6)]; } if (k == K_AUTO && i == n - 1 && g.r.chance(0.25)) o.a["what"] = 7 + g.r.below(2); }
    if (g.r.chance(0.3)) hSet(g, k, 0);
  }
  finalSegment(g, k, 0, {}); return g.p;
}
static void judge16(const Plan &p, Judge &j) {
  if (p.ops.size() == 1 && p.ops[0].fn[0] == 'e') { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C16"}); j.nontrivial = A.cnt[CN_REFCHECK] > 0; return; }
  judgeDiff(p, j, EF_SKIP_BAD, "bad", "behaves differently after a rejected setting", 0, {"C16"}); }

// ---------------------------------------------------------------- C03
static Plan gen03(uint64_t seed, int tier) {
  G g("C03", seed, tier); envRandom(g, ""); envRandom(g, "B"); if (g.p.h["hm"] == g.p.h["hmB"]) g.p.h["hmB"] = (g.p.h["hm"] + 1 + g.r.below(FILL_N - 1)) % FILL_N; if (g.p.h["sm"] == g.p.h["smB"]) g.p.h["smB"] = (g.p.h["sm"] + 1) % FILL_N;
  if (g.r.chance(0.5)) { int k = anyKind(g); history(g, k, 0, 3 + (int)g.r.below(4), 0.1); } else if (g.r.chance(0.15)) { g.opL("m_wrap", 0); g.opL("m_show", 0); g.opL("m_forecast", 0); } else mixedScript(g, 2 + (int)g.r.below(4), 0.1, true, false, T_RNG, true);
  return g.p;
}
static void judge03(const Plan &p, Judge &j) {
  Env a = envOf(p, ""), b = envOf(p, "B"); a.flags = b.flags = EF_NO_ORACLE; WorldOut A = world(p, a, j), B = world(p, b, j); argsOf(j.concrete, A); int n = 0;
  for (auto &r : A.res) { auto *q = B.find(r.client, r.opno); if (!q) break; n++; if (!same(r, *q)) { add(j, "environment/" + fnOf(p, r.opno) + "/" + diffField(r, *q), fmt("call %s (op %d) depends on stale memory, clock or random state: %s", fnOf(p, r.opno).c_str(), r.opno, firstDiff(r, *q).c_str()), r.opno); break; } if (r.status != ST_OK && r.status != ST_SKIP) break; }
  j.nontrivial = n >= 1 && A.cnt[CN_DIRTY] > 0;
}

// ---------------------------------------------------------------- single-world properties
static Plan genMixed(const char *id, uint64_t seed, int tier, double pcorrupt, bool rng, bool freeall) {
  G g(id, seed, tier); envRandom(g, "");
  double u = g.r.u();
  if (u < 0.5) { history(g, anyKind(g), 0, 2 + (int)g.r.below(6), pcorrupt); if (g.r.chance(0.4)) history(g, anyKind(g), g.r.chance(0.5) ? 0 : 1, 2 + (int)g.r.below(4), pcorrupt); }
  else if (u < 0.6) { auto &o = g.opL("m_wrap", 0); if (g.r.chance(pcorrupt)) g.corrupt(o); for (int i = 0; i < 3; i++) hQuery(g, K_SARIMAX, 0); }
  else if (rng && u < 0.65) g.opS("x_rsvd");
  else mixedScript(g, 2 + (int)g.r.below(4), pcorrupt, true, true, T_RNG, true);
  if (freeall) g.op("freeall");
  return g.p;
}
static Plan gen04(uint64_t s, int t) { return genMixed("C04", s, t, 0.12, true, true); }
static void judge04(const Plan &p, Judge &j) {
  Env a = envOf(p); a.flags = EF_NO_ORACLE; WorldOut A = world(p, a, j); argsOf(j.concrete, A); takeEvents(j, p, A, {"MEM"}); j.nontrivial = A.cnt[CN_ALLOC] > 2;
  bool arg = false; for (auto &e : A.ev) arg |= !strcmp(e.prop, "INP") || !strcmp(e.prop, "OUT") || !strcmp(e.prop, "MEM"); if (!arg) takeStatus(j, p, A, ST_SIGNAL, "signal");
}
static Plan gen05(uint64_t s, int t) { Plan p = genMixed("C05", s, t, 0.05, true, false); Rng r(mix(s, 0x05)); if (r.chance(0.6)) p.h["la"] = 1 + (long)r.below(1000000); return p; }
static void judge05(const Plan &p, Judge &j) { Env a = envOf(p); a.flags = EF_NO_ORACLE; WorldOut A = world(p, a, j); argsOf(j.concrete, A); takeEvents(j, p, A, {"INP", "OUT"}); j.nontrivial = A.cnt[CN_ROINPUT] > 0; }
static Plan genFits(const char *id, uint64_t seed, int tier, bool autoToo, bool reg) {
  G g(id, seed, tier); double u = g.r.u();
  if (reg && u < 0.2) { hNew(g, K_REG, 0); for (int i = 0, n = 2 + (int)g.r.below(4); i < n; i++) { if (g.r.chance(0.4)) hSet(g, K_REG, 0); hFit(g, K_REG, 0, 0.05); if (g.r.chance(0.3)) hQuery(g, K_REG, 0); } return g.p; }
  if (u < 0.32) { auto &o = g.opL("m_wrap", 0); o.a["which"] = g.r.chance(0.5) ? 0 : g.r.chance(0.6) ? 1 : 2; if (g.r.chance(0.7)) { static const long good[] = {0, 4, 7, 2, 3, 6}; o.a["dk"] = good[g.r.below(6)]; } g.opL("m_forecast", 0); g.opL("m_summary", 0); auto &l = g.opL("m_forecast", 0); l.a["L"] = 24; return g.p; }
  static const int ks[] = {K_ARIMA, K_ARIMA, K_SARIMA, K_SARIMA, K_SARIMAX, K_SARIMAX, K_SARIMAX, K_AR}; int k = autoToo && g.r.chance(0.12) ? (int)K_AUTO : ks[g.r.below(8)];
  hNew(g, k, 0); int n = 1 + (int)g.r.below(3); Rng rr(mix(seed, 0x5A2)); bool sar2 = k == K_AUTO && rr.chance(0.6);
  if (sar2) { auto &o = g.p.ops.back(); o.a["Px"] = 1; o.a["nul"] = 1; o.a["s"] = 2 + (long)rr.below(3); o.a["Dmax"] = 0; o.a["n"] = 76; o.a["pmax"] = 2; n = 1; }
  for (int i = 0; i < n; i++) { int ns = (int)g.r.below(3); for (int t = 0; t < ns && !sar2; t++) hSet(g, k, 0); auto &ff = hFit(g, k, 0, i + 1 < n ? 0.1 : 0.0); if (sar2) ff.a["sar2"] = 1; if (g.r.chance(0.4)) hQuery(g, k, 0); g.opL("m_forecast", 0); }
  auto &l = g.opL("m_forecast", 0); l.a["L"] = 24; return g.p;
}
static Plan gen07(uint64_t s, int t) { return genFits("C07", s, t, true, false); }
static void judge07(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C07"}); j.nontrivial = A.cnt[CN_PREDICT] > 0 && A.cnt[CN_REFCHECK] > 0; }
static Plan gen08(uint64_t s, int t) { return genFits("C08", s, t, true, true); }
static void judge08(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C08"}); j.nontrivial = A.cnt[CN_REFCHECK] > 0; }
static Plan gen09(uint64_t seed, int tier) {
  G g("C09", seed, tier); static const char *f[] = {"o_fminunc", "o_fminunc", "o_fminunc", "o_fminnewt", "o_fminsearch", "o_fminbnd", "o_brentzero", "o_levmar", "o_levmar"}; int n = 1 + (int)g.r.below(3);
  for (int i = 0; i < n; i++) {
    if (g.r.chance(0.3)) { int k = g.r.chance(0.6) ? K_OPT : K_NLS; hNew(g, k, 0); if (g.r.chance(0.5)) hSet(g, k, 0); for (int t = 0, m = 1 + (int)g.r.below(3); t < m; t++) { hFit(g, k, 0, 1); } }
    else { auto &o = g.opS(f[g.r.below(9)]); callbackExtras(g, o, true, true); }
  }
  return g.p;
}
static void judge09(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C09"}); takeStatus(j, p, A, ST_BUDGET, "unbounded"); j.nontrivial = A.cnt[CN_CBCALL] > 3; }
static Plan gen10(uint64_t seed, int tier) { G g("C10", seed, tier); envRandom(g, ""); int n = 1 + (int)g.r.below(3); for (int i = 0; i < n; i++) g.opS("x_rsvd"); return g.p; }
static void judge10(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C10", "INP"}); takeStatus(j, p, A, ST_SIGNAL, "signal"); takeStatus(j, p, A, ST_EXIT, "exit"); takeStatus(j, p, A, ST_BUDGET, "unbounded"); j.nontrivial = A.cnt[CN_RANDREAD] > 0; }
static Plan gen11(uint64_t seed, int tier) {
  G g("C11", seed, tier); g.p.h["team"] = 2 + g.r.below(7); g.p.h["sched"] = g.sd(); static const long means[] = {2, 7, 40, 300, 3000}; g.p.h["mean"] = means[g.r.below(5)];
  // half the plans: the kernels; the other half: whatever part of the library calls them
  if (g.r.chance(0.55)) { static const char *f[] = {"ma_arith", "ma_arith", "ma_bigmul", "ma_kernel", "ma_kernel", "ma_kernel", "ma_kernel"}; int n = 1 + (int)g.r.below(3); for (int i = 0; i < n; i++) g.opS(f[g.r.below(7)]); return g.p; }
  if (g.p.h["mean"] < 40) g.p.h["mean"] = 40;
  if (g.r.chance(0.7)) { int n = 1 + (int)g.r.below(2); for (int i = 0; i < n; i++) { auto &v = pureOps(T_MAT, T_RNG); g.opS(v[g.r.below(v.size())]->name.c_str()); }; }
  else if (g.r.chance(0.7)) { static const int k[] = {K_WAVE, K_SPEC, K_REG, K_OPT}; int q = k[g.r.below(4)]; hNew(g, q, 0); hFit(g, q, 0, 0); }
  else { static const int k[] = {K_ARIMA, K_SARIMA, K_SARIMAX}; int q = k[g.r.below(3)]; hNew(g, q, 0); hFit(g, q, 0, 0); }
  return g.p;
}
static void judge11(const Plan &p, Judge &j) {
  Env a = envOf(p); a.flags = EF_NO_ORACLE; a.teamMode = (int)p.get("team", 4); a.schedSeed = p.get("sched", 1); a.schedMean = p.get("mean", 20); Env b = a; b.teamMode = 0; WorldOut A = world(p, a, j), B = world(p, b, j); argsOf(j.concrete, A); j.nontrivial = A.cnt[CN_TEAM] > 0 && A.cnt[CN_SWITCH] > 1;
  for (auto &r : B.res) { auto *q = A.find(r.client, r.opno); if (!q) break; if (!same(r, *q)) { add(j, "schedule/" + fnOf(p, r.opno), fmt("call %s (op %d) with a team of %d gives another result than serially: %s", fnOf(p, r.opno).c_str(), r.opno, a.teamMode, firstDiff(*q, r).c_str()), r.opno); break; } }
}
static Plan gen12(uint64_t seed, int tier) {
  G g("C12", seed, tier); hNew(g, K_WAVE, 0); int n = 2 + (int)g.r.below(5);
  for (int i = 0; i < n; i++) { if (g.r.chance(0.45)) hSet(g, K_WAVE, 0); hFit(g, K_WAVE, 0, 0.04); if (g.r.chance(0.7)) g.opL("w_inv", 0); if (g.r.chance(0.4)) g.opL("w_mra", 0); if (g.r.chance(0.3)) g.opL("w_coef", 0); if (g.r.chance(0.2)) g.opL("w_inv", 0); }
  return g.p;
}
static void judge12(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C12"}); takeStatus(j, p, A, ST_SIGNAL, "signal"); takeStatus(j, p, A, ST_EXIT, "exit"); j.nontrivial = A.cnt[CN_REFCHECK] > 0; }
static Plan gen13(uint64_t seed, int tier) {
  G g("C13", seed, tier); int other = g.r.chance(0.5); hNew(g, K_SPEC, 0); if (other) { hNew(g, K_SPEC, 1); g.p.ops.back().a["hist"] = 1; }
  int n = 1 + (int)g.r.below(5); for (int i = 0; i < n; i++) { if (g.r.chance(0.2)) { g.opS("f_convolve"); } else { auto &o = g.opL("f_run", other && g.r.chance(0.4) ? 1 : 0); o.a["hist"] = 1; if (g.r.chance(0.05)) g.corrupt(o); } }
  if (other && g.r.chance(0.4)) { g.opL("obj_free", 1).a["hist"] = 1; }
  for (int i = 0, m = 1 + (int)g.r.below(2); i < m; i++) g.opL("f_run", 0); return g.p;
}
static void judge13(const Plan &p, Judge &j) { judgeDiff(p, j, EF_SKIP_HIST, "hist", "gives another result on a used plan than on its first use", 0, {"C13"}); }

// ---------------------------------------------------------------- C14
static Plan gen14(uint64_t seed, int tier) {
  G g("C14", seed, tier); double u = g.r.u(); int target; auto &by = genPure(g, T_RNG | T_HEAVY | T_CB | T_OBJ); (void)by;
  if (u < 0.45) { int k = anyKind(g, g.r.chance(0.3)); bool early = g.r.chance(0.15); hNew(g, k, 0); if (early) target = (int)g.p.ops.size() - 1; if (g.r.chance(0.3)) hSet(g, k, 0); bool refit = g.r.chance(0.25); if (refit) hFit(g, k, 0, 0); hFit(g, k, 0, 0); if (!early) target = (int)g.p.ops.size() - 1; if (!early && g.r.chance(0.35)) { hQuery(g, k, 0); target = (int)g.p.ops.size() - 1; } if (k <= K_AUTO) { g.opL("m_show", 0); g.opL("m_forecast", 0); } else if (k == K_WAVE) g.opL("w_show", 0); else if (k == K_REG) g.opL("r_show", 0); }
  else if (u < 0.52) { g.opL("m_wrap", 0); target = (int)g.p.ops.size() - 1; g.opL("m_forecast", 0); }
  else { genPure(g, T_RNG); target = (int)g.p.ops.size() - 1; }
  g.p.h["target"] = target; g.p.h["persist"] = g.r.below(3) == 0; g.p.h["pick"] = g.sd(); g.p.h["points"] = tier ? 40 : 14;
  auto cp = g.p.ops[0]; g.p.ops.push_back(cp); // the bystander call again, after the fault
  g.p.ops[target].a["target"] = 1; return g.p;
}
static void judge14(const Plan &p, Judge &j) {
  int t = -1; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].get("target", 0)) t = (int)i; if (t < 0) return;
  Plan q = p; q.ops[t].a.erase("afail"); Env a = envOf(p); a.flags = EF_NO_ORACLE; a.siteOp = t; WorldOut B = world(q, a, j); a.siteOp = -1; auto *b = B.find(p.ops[t].client, t); if (!b || b->status != ST_OK) return;
  std::vector<long> ks; long fixed = p.ops[t].get("afail", 0), n = b->allocs;
  if (fixed) ks.push_back(fixed); else { long pts = p.get("points", 14); Rng r(p.get("pick", 1)); if (n <= pts) for (long k = 1; k <= n; k++) ks.push_back(k); else { std::set<long> s; s.insert(1 + (long)r.below(5)); s.insert(n);
      std::map<uint32_t, std::pair<long, long>> site; for (size_t i = 0; i < B.sites.size(); i++) { auto &e = site[B.sites[i]]; if (r.below((uint64_t)++e.second) == 0) e.first = (long)i + 1; } // one allocation of every call site first
      std::vector<long> sv; for (size_t i = 0; i < B.sites.size(); i++) { auto it = site.find(B.sites[i]); if (it != site.end() && it->second.first == (long)i + 1) sv.push_back((long)i + 1); }
      for (size_t i = sv.size(); i > 1; i--) std::swap(sv[i - 1], sv[r.below(i)]);
      for (long k : sv) if ((long)s.size() < pts && k <= n) s.insert(k);
      while ((long)s.size() < pts) s.insert(1 + (long)r.below(n)); ks.assign(s.begin(), s.end()); } }
  j.nontrivial = !ks.empty();
  for (long k : ks) {
    q.ops[t].a["afail"] = k; q.ops[t].a["apersist"] = p.get("persist", 0); Env e = a; e.opBudget = (long)(b->steps * 30 + 20000000); WorldOut A = world(q, e, j); auto *x = A.find(p.ops[t].client, t); if (!x) continue; stats.evals++;
    size_t before = j.f.size();
    if (x->status == ST_BUDGET) add(j, "loops/" + fnOf(p, t), fmt("call %s with allocation %ld of %ld failing did not return within %ld steps (normally %llu)", fnOf(p, t).c_str(), k, n, e.opBudget, (unsigned long long)b->steps), t);
    else if (x->status == ST_OK && x->afired) {
      bool bad = x->claims != 0 && x->digest != b->digest;
      if (bad) add(j, "wrong-answer/" + fnOf(p, t) + "/" + diffField(*x, *b), fmt("call %s with allocation %ld of %ld failing returned normally with a wrong answer: %s", fnOf(p, t).c_str(), k, n, firstDiff(*x, *b).c_str()), t);
      else for (auto &r : B.res) { if (r.opno <= t || r.status != ST_OK) continue; if (x->claims == 0 && r.opno + 1 != (int)p.ops.size()) continue; auto *y = A.find(r.client, r.opno); if (y && !same(r, *y)) { add(j, "later/" + fnOf(p, r.opno), fmt("after %s with allocation %ld of %ld failing (%s), call %s (op %d) differs: %s", fnOf(p, t).c_str(), k, n, x->claims ? "success reported" : "failure reported", fnOf(p, r.opno).c_str(), r.opno, firstDiff(*y, r).c_str()), r.opno); break; } }
      for (auto &ev : A.ev) if (!strcmp(ev.prop, "MEM") && strcmp(ev.cls, "leak")) { add(j, "corruption/" + fnOf(p, t), fmt("call %s with allocation %ld of %ld failing corrupts memory: %s", fnOf(p, t).c_str(), k, n, ev.detail), t); }
    }
    if (j.f.size() > before && !fixed) { j.concrete = q; j.concrete.h.erase("points"); argsOf(j.concrete, B); }
  }
  if (j.concrete.ops.empty() || fixed) { j.concrete = p; argsOf(j.concrete, B); }
}

// ---------------------------------------------------------------- C15, C17
static Plan gen15(uint64_t seed, int tier) {
  G g("C15", seed, tier); double u = g.r.u();
  if (u < 0.45) { static const int ks[] = {K_ARIMA, K_ARIMA, K_SARIMA, K_SARIMA, K_SARIMAX, K_SARIMAX, K_AR, K_REG, K_REG}; int k = g.r.chance(0.12) ? (int)K_AUTO : ks[g.r.below(9)]; hNew(g, k, 0); if (g.r.chance(0.6)) hSet(g, k, 0); if (k <= K_SARIMAX && g.r.chance(0.5)) hSet(g, k, 0, 0); for (int i = 0, n = 1 + (int)g.r.below(2); i < n; i++) { auto &o = hFit(g, k, 0, 0); g.corrupt(o); if (g.r.chance(0.4)) o.a["ck"] = g.r.below(3); if (g.r.chance(0.3)) o.a["cx"] = 0; if (g.r.chance(0.4)) hQuery(g, k, 0); } }
  else if (u < 0.55) { auto &o = g.opL("m_wrap", 0); g.corrupt(o); if (g.r.chance(0.3)) o.a["cx"] = 0; }
  else if (u < 0.60) { auto &v = pureOps(T_MAT, T_RNG | T_OBJ | T_HEAVY); for (int i = 0, n = 1 + (int)g.r.below(3); i < n; i++) { auto &o = g.opS(g.r.chance(0.2) ? "po_roots" : v[g.r.below(v.size())]->name.c_str()); g.corrupt(o); } }
  else if (u < 0.68) { int k = g.r.chance(0.5) ? K_WAVE : K_SPEC; hNew(g, k, 0); g.corrupt(hFit(g, k, 0, 0)); }
  else { auto &v = pureOps(T_DATA, T_RNG | T_OBJ); for (int i = 0, n = 1 + (int)g.r.below(4); i < n; i++) { auto &o = g.opS(v[g.r.below(v.size())]->name.c_str()); g.corrupt(o); if (g.r.chance(0.15)) o.a["dk"] = 12; } }
  return g.p;
}
static void judge15(const Plan &p, Judge &j) { Env a = envOf(p); WorldOut A = world(p, a, j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C15"}); takeStatus(j, p, A, ST_BUDGET, "unbounded"); j.nontrivial = A.cnt[CN_CORRUPT] > 0; }
static Plan gen17(uint64_t seed, int tier) {
  G g("C17", seed, tier);
  if (g.r.chance(0.4)) { auto &o = g.opL("m_wrap", 0); o.a["which"] = 2; if (g.r.chance(0.15)) g.corrupt(o); if (g.r.chance(0.4)) { o.a["stw"] = 0; if (g.r.chance(0.5)) { o.a["maxc"] = 1 + (long)g.r.below(3); o.a["stat"] = g.r.chance(0.5); o.a["seas"] = 1; if (g.r.chance(0.7)) o.a["dk"] = 15; } } for (int i = (int)g.r.below(4); i > 0; i--) g.opL("m_better", 0); g.opL("m_forecast", 0); return g.p; }
  hNew(g, K_AUTO, 0); for (int i = 0, n = 1 + (int)g.r.below(2); i < n; i++) { for (int t = 0, m = (int)g.r.below(5); t < m; t++) hSet(g, K_AUTO, 0); hFit(g, K_AUTO, 0, 0.15); for (int b = (int)g.r.below(4); b > 0; b--) g.opL("m_better", 0); if (g.r.chance(0.5)) g.opL("m_forecast", 0); }
  return g.p;
}
static void judge17(const Plan &p, Judge &j) { WorldOut A = world(p, envOf(p), j); argsOf(j.concrete, A); takeEvents(j, p, A, {"C17"}); takeStatus(j, p, A, ST_BUDGET, "unbounded"); takeStatus(j, p, A, ST_SIGNAL, "signal"); j.nontrivial = A.cnt[CN_REFCHECK] > 0; }

static const PropDef defs[] = {
  {"C01", gen01, judge01}, {"C02", gen02, judge02}, {"C03", gen03, judge03}, {"C04", gen04, judge04}, {"C05", gen05, judge05}, {"C06", gen06, judge06}, {"C07", gen07, judge07}, {"C08", gen08, judge08}, {"C09", gen09, judge09},
  {"C10", gen10, judge10}, {"C11", gen11, judge11}, {"C12", gen12, judge12}, {"C13", gen13, judge13}, {"C14", gen14, judge14}, {"C15", gen15, judge15}, {"C16", gen16, judge16}, {"C17", gen17, judge17}};
Plan propGen(const PropDef *d, uint64_t seed, int tier) { Plan p = d->gen(seed, tier); if (mix(seed, 0x2B05E) & 1) p.h["ru"] = 1;
  for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].fn == "m_new" && p.ops[i].get("kind", 0) == K_AUTO && mix(mix(seed, i), 0x3A1F) % 4 == 0) { // a seasonal search with room to move in both seasonal orders
    p.ops[i].a["walk"] = (long)(mix(mix(seed, i), 0x77) % 16);
    for (size_t k = i + 1; k < p.ops.size(); k++) if (p.ops[k].fn == "m_fit" && p.ops[k].client == p.ops[i].client && p.ops[k].get("slot", 0) == p.ops[i].get("slot", 0)) p.ops[k].a["smix"] = (long)(mix(mix(seed, k), 0x99) % 100000);
  }
  for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].fn == "m_forecast" && mix(mix(seed, i), 0x10A6) % 10 == 0) p.ops[i].a["Lx"] = 1 + (long)(mix(seed, i) % 150); // a horizon beyond the series
  return p; }
const PropDef *propFind(const std::string &id) { for (auto &d : defs) if (id == d.id) return &d; return nullptr; }
