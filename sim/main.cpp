// simctsa: gen PROP SEED | run FILE | batch PROP SEED0 STRIDE COUNT SECONDS TIER OUT | min FILE OUT SECONDS
#include "props.h"
#include "ops.h"
#include <time.h>
#include <unistd.h>
#include <regex.h>
#include <sys/personality.h>
#include <algorithm>
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const char *f) { std::string s; FILE *h = fopen(f, "r"); if (!h) { fprintf(stderr, "cannot read %s\n", f); exit(3); } char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
// listed findings (SIM_KNOWN: lines "prop TAB class-regexp TAB detail-regexp") are counted, not reported
struct Known { std::string prop; regex_t c, d; uint64_t hits = 0; };
static std::vector<Known *> known;
static void loadKnown() {
  const char *f = getenv("SIM_KNOWN"); if (!f || !*f) return; std::string t = slurp(f); size_t i = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1; size_t a = l.find('\t'), b = a == std::string::npos ? a : l.find('\t', a + 1); if (b == std::string::npos) continue;
    auto *k = new Known; k->prop = l.substr(0, a); if (regcomp(&k->c, ("^(" + l.substr(a + 1, b - a - 1) + ")$").c_str(), REG_EXTENDED | REG_NOSUB) || regcomp(&k->d, l.substr(b + 1).c_str(), REG_EXTENDED | REG_NOSUB)) { fprintf(stderr, "bad pattern %s\n", l.c_str()); exit(3); } known.push_back(k); }
}
static Judge judge(const Plan &p) {
  Judge j; j.concrete = p; const PropDef *d = propFind(p.prop); if (!d) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); exit(3); } stats.evals++; d->judge(p, j); if (!j.error.empty()) stats.error = j.error;
  std::vector<Finding> keep; for (auto &f : j.f) { bool k = false; for (auto *q : known) if (q->prop == p.prop && !regexec(&q->c, f.cls.c_str(), 0, 0, 0) && !regexec(&q->d, f.detail.c_str(), 0, 0, 0)) { q->hits++; k = true; break; } if (!k) keep.push_back(f); }
  j.f = keep; return j;
}
static const Finding *has(const Judge &j, const std::string &cls) { for (auto &f : j.f) if (f.cls == cls) return &f; return nullptr; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static bool holds(const Plan &p, const std::string &cls) { Judge j = judge(p); return j.error.empty() && has(j, cls); }

static Plan minimise(Plan p, const std::string &cls, double secs) {
  double end = now() + secs; { Judge j = judge(p); Plan c = j.concrete; if (!c.ops.empty() && planText(c) != planText(p) && holds(c, cls)) p = c; }
  auto remap = [](Plan q) { return q; }; (void)remap;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, p.ops.size() / 2); blk >= 1 && now() < end; blk /= 2) {
      for (size_t i = 0; i + blk <= p.ops.size() && now() < end;) { Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + blk); if (!q.ops.empty() && holds(q, cls)) { p = q; progress = true; } else i++; }
      if (blk == 1) break;
    }
    for (size_t blk = std::max<size_t>(1, p.sw.size() / 2); blk >= 1 && !p.sw.empty() && now() < end; blk /= 2) {
      for (size_t i = 0; i + blk <= p.sw.size() && now() < end;) { Plan q = p; q.sw.erase(q.sw.begin() + i, q.sw.begin() + i + blk); if (holds(q, cls)) { p = q; progress = true; } else i += blk; }
      if (blk == 1) break;
    }
    { Judge j = judge(p); Plan c = j.concrete; if (!c.ops.empty() && planText(c) != planText(p) && holds(c, cls)) { p = c; } }
    for (size_t i = 0; i < p.ops.size() && now() < end; i++) {
      std::vector<std::string> keys; for (auto &k : p.ops[i].a) keys.push_back(k.first);
      for (auto &k : keys) {
        if (k == "slot" || k == "target") continue;
        { Plan q = p; q.ops[i].a.erase(k); if (k != "seed" && holds(q, cls)) { p = q; progress = true; continue; } }
        if (!p.ops[i].a.count(k) || k == "seed") continue;
        long v = p.ops[i].a[k]; if (k == "what" || k == "kind" || k == "which" || k == "val" || k == "tfm" || k == "method") continue;
        for (int t = 0; t < 12 && v > 0 && now() < end; t++) { long w = t % 2 ? v - 1 : v / 2; if (w == v) break; Plan q = p; q.ops[i].a[k] = w; if (holds(q, cls)) { p = q; v = w; } else if (t % 2) break; }
      }
    }
  }
  return p;
}
int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage\n"); return 3; }
  std::string c = argv[1];
  if (!getenv("SIM_NOASLR") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { setenv("SIM_NOASLR", "1", 1); if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  loadKnown(); rtInit();
  if (getenv("SIM_DBG")) dbg = stderr;
  if (c == "gen") { printf("%s", planText(propGen(propFind(argv[2]), strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0)).c_str()); return 0; }
  if (c == "run") {
    Plan p; if (!planParse(slurp(argv[2]), p)) { fprintf(stderr, "bad plan\n"); return 3; }
    Judge j = judge(p); for (auto &f : j.f) printf("FINDING %s | %s\n", f.cls.c_str(), f.detail.c_str());
    printf("HASH %016llx\n", (unsigned long long)j.hash); if (!j.error.empty()) { printf("ERROR %s\n", j.error.c_str()); return 3; } return j.f.empty() ? 0 : 1;
  }
  if (c == "seed") { Plan p = propGen(propFind(argv[2]), strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0); printf("%s", planText(p).c_str()); Judge j = judge(p); for (auto &f : j.f) printf("FINDING %s | %s\n", f.cls.c_str(), f.detail.c_str()); printf("HASH %016llx nontrivial %d %s\n", (unsigned long long)j.hash, j.nontrivial, j.error.c_str()); return j.f.empty() ? 0 : 1; }
  if (c == "min") {
    Plan p; if (!planParse(slurp(argv[2]), p)) return 3; std::string cls = argv[3]; if (!holds(p, cls)) { fprintf(stderr, "does not reproduce\n"); return 3; }
    Plan q = minimise(p, cls, atof(argv[5])); FILE *o = fopen(argv[4], "w"); if (!o) return 3; fputs(planText(q).c_str(), o); fclose(o); return 0;
  }
  if (c == "batch") {
    std::string prop = argv[2]; uint64_t s0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); int tier = atoi(argv[7]); FILE *o = fopen(argv[8], "w"); if (!o) return 3;
    const PropDef *d = propFind(prop); double t0 = now(); uint64_t done = 0, nontriv = 0; std::set<uint64_t> plans; std::map<std::string, int> seen; int errors = 0;
    for (uint64_t i = 0; i < count && now() - t0 < secs; i++) {
      uint64_t seed = s0 + i * stride; Plan p = propGen(d, seed, tier); Judge j = judge(p); done++;
      if (!j.error.empty()) { if (errors++ < 5) fprintf(o, "E\t%llu\t%s\n", (unsigned long long)seed, j.error.c_str()); continue; }
      if (j.nontrivial && plans.insert(j.hash).second) nontriv++;
      for (auto &f : j.f) if (seen[f.cls]++ < 3) { fprintf(o, "V\t%llu\t%s\t%s\n", (unsigned long long)seed, f.cls.c_str(), f.detail.c_str()); fflush(o); }
      fprintf(o, "H\t%llu\t%016llx\t%d\n", (unsigned long long)seed, (unsigned long long)j.hash, (int)j.nontrivial);
    }
    fprintf(o, "S\t{\"plans\":%llu,\"nontrivial\":%llu,\"worlds\":%llu,\"steps\":%llu,\"simns\":%llu,\"ops\":%llu,\"ops_ok\":%llu,\"max_steps\":%llu,\"evals\":%llu,\"wall\":%.3f,\"errors\":%d,\"cnt\":{", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)stats.worlds, (unsigned long long)stats.steps, (unsigned long long)stats.simns, (unsigned long long)stats.ops, (unsigned long long)stats.opsOk, (unsigned long long)stats.maxSteps, (unsigned long long)stats.evals, now() - t0, errors);
    for (int i = 0; i < CN_N; i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", counterName[i], (unsigned long long)stats.cnt[i]);
    fprintf(o, "},\"fn\":{"); { bool first = true; for (auto &k : stats.fn) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; } }
    fprintf(o, "},\"status\":{"); { bool first = true; for (auto &k : stats.st) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; } }
    fprintf(o, "},\"sched\":["); { int n = 0; for (auto h : stats.sched) { if (n >= 200000) break; fprintf(o, "%s\"%llx\"", n++ ? "," : "", (unsigned long long)h); } }
    fprintf(o, "],\"known\":["); for (size_t i = 0; i < known.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)known[i]->hits);
    fprintf(o, "],\"edges\":%d,\"edges_total\":%d}\n", (int)std::count(shm->cov, shm->cov + MAXCOV, 1), covTotal); fclose(o); return 0;
  }
  if (c == "ops") { for (auto &d : opAll()) printf("%s tags %d weight %d\n", d.name.c_str(), d.tags, d.weight); return 0; }
  return 3;
}
