"""What each check runs: (build variant, plans quick, seconds cap quick, plans thorough, seconds cap thorough)."""
FAULT_COUNTERS = ["alloc_failures_injected", "process_exits_trapped", "fatal_signals_trapped", "clients_abandoned_mid_call", "step_budget_exceeded", "output_writes_failed",
  "callback_faults_injected", "samples_corrupted", "clock_reads", "random_reads", "dirty_blocks_filled", "invalid_settings_tried", "context_switches", "nested_library_calls"]
STUBS = {"real": "every source file of the ctsa library as listed in src/CMakeLists.txt, compiled from /repo's working tree; the C library's mathematics and qsort",
  "simulated": "malloc/calloc/realloc/free (deterministic arena, ledger, red zones, seeded fill of fresh blocks, injected failures), stack contents before each call, time(), rand()/srand(), stdout functions, exit(), caller threads (fibers pre-empted at basic-block edges), OpenMP team (only C11)",
  "stub": "objective functions, design callbacks and input series are the simulator's own"}
ASSUME = ["the library is compiled with clang -O1 and edge instrumentation (gcc -O0 -fopenmp for C11), not with the shipped RelWithDebInfo flags",
  "caller pre-emption happens at basic-block edges; weak-memory effects between threads are not simulated",
  "seeded sampling: a quiet run is evidence over the plans explored, not a proof"]
HOURS = {}
def c(level, rule, runs, note, technique, assume=()): return dict(level=level, rule=rule, runs=runs, note=note, technique=technique, assume=list(assume))
SIM = "deterministic simulation: "
CONFIG = {
 "C01": c("exploration", "2-4 caller scripts on distinct objects, interleaved by a seeded scheduler at basic-block edges (including scripts abandoned inside a call and calls made from callbacks), then each script alone; non-trivial when a switch happened inside a library call; distinct by trace hash",
   [("sim", 1500, 240, 60000, 800)], "Seeded interleavings and abandoned callers; the oracle is bitwise equality with each caller alone.", SIM + "seeded pre-emptive scheduling of caller scripts, differential against each caller alone"),
 "C02": c("exploration", "a history of fits, settings and queries on one object, and the same calls on a fresh object holding the same settings; non-trivial when a compared call had a predecessor; distinct by trace hash",
   [("sim", 1800, 240, 60000, 800)], "Seeded object histories; the oracle is bitwise equality with a fresh object given the same settings and data.", SIM + "seeded object histories, differential against fresh objects"),
 "C03": c("exploration", "one seeded script run in two environments that differ in heap and stack contents, clock, random state and output faults; non-trivial when a call succeeded in both; distinct by trace hash",
   [("sim", 2000, 240, 60000, 800)], "Every seam (fresh memory contents, stack residue, time(), rand(), stdout) is set from a seed and varied; the oracle is bitwise equality.", SIM + "the same script under two seeded environments"),
 "C04": c("exploration", "a seeded lifecycle script including malformed data, re-use, shows, frees in any order, under red-zone/ledger checking (sim) and AddressSanitizer (asan); non-trivial when a call allocated; distinct by trace hash",
   [("sim", 1500, 160, 60000, 500), ("asan", 600, 160, 16000, 400)], "Seeded lifecycles under an allocation ledger with red zones, and under AddressSanitizer.", SIM + "seeded lifecycles with allocation ledger, red zones and AddressSanitizer"),
 "C05": c("exploration", "a seeded script with all caller buffers exactly sized, guarded and checked; inputs compared before and after; non-trivial when a call returned with guarded buffers; distinct by trace hash",
   [("sim", 2400, 240, 100000, 800)], "Seeded calls with exactly sized guarded buffers; the oracle is unchanged inputs, untouched guards, fully written outputs.", SIM + "seeded calls on guarded buffers"),
 "C06": c("exploration", "a seeded history, and the same history without its query calls; non-trivial when a removed query preceded a compared call; distinct by trace hash",
   [("sim", 2500, 240, 80000, 800)], "Queries (forecasts, shows, coefficient reads) are removed from seeded histories, with output writes failing; the oracle is bitwise equality of everything else.", SIM + "query removal and output-fault injection, differential histories"),
 "C07": c("exploration", "a seeded history of fits and forecasts; every forecast compared with an independent state-space reference evaluated on the published coefficients, and overlapping horizons with one another; non-trivial when a forecast was compared; distinct by trace hash",
   [("sim", 2100, 240, 60000, 800)], "Seeded histories of fits, refits and forecasts; oracle is an independent exact state-space (Kalman) reference on the published model.", SIM + "seeded fit/forecast histories against an executable reference model"),
 "C08": c("exploration", "a seeded history of fits; residuals, variance, log-likelihood, criteria and covariance compared with what the published coefficients imply; non-trivial when a fit was judged; distinct by trace hash",
   [("sim", 2100, 240, 60000, 800)], "Seeded histories of fits; oracles are the exact likelihood, innovation and residual recursions on the published coefficients.", SIM + "seeded fit histories against an executable reference model"),
 "C09": c("exploration", "a seeded minimisation or root search under injected callback faults (NaN, infinities, jumps, noise at chosen evaluations); non-trivial when the routine returned a status; distinct by trace hash",
   [("sim", 220000, 240, 4000000, 800)], "Seeded objectives with callback faults; oracles recompute the objective at the returned point.", SIM + "callback fault injection with recomputed objective oracles"),
 "C10": c("exploration", "a seeded factorisation, solve or randomised decomposition with the library's random stream and clock controlled; non-trivial when a result was checked; distinct by trace hash",
   [("sim", 200000, 240, 3000000, 800)], "Seeded matrices, right-hand sides and random streams; oracles are residuals of the defining equations.", SIM + "controlled random stream and clock, residual oracles"),
 "C11": c("exploration", "a seeded script of matrix kernels and of library calls built on them, run by a simulated OpenMP team of 2-8 members switched at basic-block edges and before every access to shared memory, and run serially; non-trivial when a parallel region was entered and the team was switched; distinct by trace hash",
   [("gomp", 14000, 200, 400000, 800)], "The OpenMP runtime is replaced by a team of fibers under the seeded scheduler; the oracle is bitwise equality with the serial run.", SIM + "simulated OpenMP team under a seeded scheduler, differential against the serial run"),
 "C12": c("exploration", "a seeded history of transforms, mode changes, inverses, multiresolution and coefficient queries on one wavelet object; non-trivial when at least one reconstruction or reference comparison was evaluated; distinct by trace hash",
   [("sim", 100000, 240, 1500000, 800)], "Seeded histories over every wavelet, extension, convolution kind and level the constructors accept; oracles are exact reconstruction, sum of components and equality with a fresh object.", SIM + "seeded object histories against reconstruction and fresh-object oracles"),
 "C13": c("exploration", "a seeded history of uses of one or two spectral plans, run with and without its earlier uses; non-trivial when a use had a predecessor; distinct by trace hash",
   [("sim", 30000, 240, 500000, 800)], "Seeded plan histories; oracles are bitwise equality with the first use and naive DFT / direct sums.", SIM + "seeded plan-reuse histories, differential against first use and direct sums"),
 "C16": c("exploration", "a seeded history with invalid setter calls, compared with the same history without them; non-trivial when a rejected setting preceded a fit; distinct by trace hash",
   [("sim", 1700, 240, 60000, 800)], "Seeded histories with rejected settings injected at arbitrary points; oracle is bitwise equality with the history without them.", SIM + "rejected-setting injection, differential histories"),
 "C14": c("fault_enumeration", "a seeded call, then the same call once per injected allocation failure (every allocation when there are few, a seeded sample otherwise); non-trivial when the unfaulted call succeeded and allocated; distinct by trace hash",
   [("sim", 2000, 240, 60000, 800)], "Every allocation (or a seeded sample of them) of seeded calls is made to fail, transiently or persistently; oracle is the unfaulted result or a stop/reported failure, plus an unrelated call afterwards.", SIM + "allocation-failure enumeration at every allocation of seeded calls"),
 "C15": c("exploration", "a seeded call on degenerate, extreme or corrupted data (NaN, infinities, constants, huge and tiny scales, very short series); non-trivial when the call was carried to an end; distinct by trace hash",
   [("sim", 5000, 240, 200000, 800)], "Corrupted and degenerate inputs; oracles are termination within a step budget, no fatal signal, no clean success carrying non-finite results.", SIM + "input corruption faults, step budgets and stall detection"),
 "C17": c("exploration", "a seeded configuration of automatic selection followed by selections on one or several series; non-trivial when a model was selected; distinct by trace hash",
   [("sim", 2400, 240, 60000, 800)], "Seeded limit configurations and histories of selections; oracle is every limit the caller set, and agreement of the reported model with itself.", SIM + "seeded selection histories against the configured limits"),
}
