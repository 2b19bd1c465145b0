// Simulation runtime: the seams behind which every source of nondeterminism
// and every fault of the simulated system lives.  Never compiled with
// -fsanitize=thread itself: it *is* the runtime that instrumented code calls.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

constexpr int MAXT = 8;        // task 0 is the controller
constexpr int MAXSCHED = 20000;

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

// ------------------------------------------------------------------- faults
enum FaultKind : int { F_NONE = 0, F_NTH, F_FROM, F_SIZE, F_PROB, F_BUDGET };
struct Fault {
  int kind = F_NONE;
  uint64_t a = 0;     // n-th request / from n-th / size in bytes / probability in 1e-6 / bytes to be had on top of what is held
  uint64_t seed = 0;  // F_PROB
};

// -------------------------------------------------------------- environment
enum Fill : int { FILL_KEEP = 0, FILL_ZERO, FILL_NAN, FILL_AA, FILL_RAND, FILL_ONES, FILL_N };
enum Reuse : int { REUSE_NEVER = 0, REUSE_LIFO, REUSE_FIFO, REUSE_N };
enum ClockMode : int { CLK_STEPS = 0, CLK_FROZEN, CLK_FORWARD, CLK_BACKWARD, CLK_WILD, CLK_N };
enum Strat : int { ST_NONE = 0, ST_GAP, ST_PCT, ST_RACE, ST_REPLAY };

struct Env {
  int fill = FILL_RAND;
  int reuse = REUSE_NEVER;
  int derived_exc = 0;       // injected failure throws a class derived from bad_alloc
  uint64_t layout_seed = 1;
  int clock = CLK_STEPS;
  uint64_t clock_seed = 1;
  bool race = false;         // happens-before race detection
  int strat = ST_NONE;
  uint64_t sched_seed = 1;
  double gap = 1000;         // ST_GAP mean gap
  int skip = 0;              // twin runs: 1 leave locale operations out
  int pct_d = 3;
  uint64_t pct_len = 20000;
  int rounds = 0;            // the whole history again and again (0: once)
  uint64_t sur = 0;          // what the process's surroundings answer (0: as they are)
  int fpu = 0;               // caller's floating-point mode: 0-3 rounding (nearest, down, up, to zero), +4 denormals flushed
};

struct SchedEnt { int32_t from; int32_t to; uint64_t step; };

// ------------------------------------------------------- results in shared mem
enum Stat : int {
  S_STEPS, S_OPS, S_OPS_OK, S_OPS_FAILED, S_OPS_SKIPPED, S_ALLOCS, S_OOM_NTH, S_OOM_FROM, S_OOM_SIZE, S_OOM_PROB,
  S_SWITCH, S_PREEMPT, S_CLOCK_READS, S_CLOCK_JUMPS, S_LOG_BYTES, S_LOG_FAULTS, S_LOCALE, S_BADREQ, S_RECYCLED,
  S_RACE_CHECKS, S_SHARED_ACC, S_SYNC, S_THREADS, S_CHECKS, S_SIMNS, S_FPU, S_SUR, S_CLIENT, S_OOM_BUDGET,
  S_P0, S_PEND = S_P0 + 64, S_N
};
struct Shm {
  volatile int status;           // 0 running, 1 finished clean, 2 violation
  char cls[128];
  char detail[2000];
  uint64_t props;                // bit mask of properties concerned
  uint64_t hash;                 // rolling trace hash
  uint64_t sched_hash;
  int64_t cur_op[MAXT];          // index of op being executed per task
  int32_t cur_code[MAXT];
  uint64_t stat[S_N];
  uint64_t opdig[512];           // per operation: digest of its results (no addresses, steps, times)
  int32_t nsched;
  int32_t sched_overflow;
  SchedEnt sched[MAXSCHED];
  uint64_t opsteps_max;
  uint64_t n_opsteps;
  uint64_t reflen;               // reference children write here
  unsigned char ref[1 << 20];
};
extern Shm* shm;

void startup_ends();
void init_process();                        // once, in the zygote
void child_start(const Env&);               // in every run child
void set_replay_sched(const std::vector<SchedEnt>&);

// -------------------------------------------------------- ops on current task
void begin_op(const Fault& f, uint64_t budget);
struct OpStats { uint64_t steps, allocs, fired; uint32_t fp_was = 0, fp_is = 0; /* floating-point control state the call found and left */ unsigned amb = 0; /* process-wide state it reached for */ uint64_t peak = 0, stack = 0; /* bytes above what was held before; bytes of stack */ };
enum Amb : unsigned { A_SETLOCALE = 1, A_RAND = 2, A_SIGNAL = 4, A_ENVIRON = 8, A_CWD = 16, A_UMASK = 32, A_HANDLER = 64, A_FILES = 128 };
void fpu_set(int mode);
OpStats end_op();
bool in_op();
int task_id();
uint64_t live_bytes();
uint64_t live_blocks();

void run_tasks(const std::vector<std::function<void()>>& fns, const std::vector<std::function<void()>>& at_thread_exit = {});

[[noreturn]] void violate(const std::string& cls, uint64_t props, const std::string& detail);
void mix(uint64_t v);                       // into the trace hash
void note_cur(int64_t op, int code);

bool is_arena(const void*);
bool block_live(const void* p);             // exact start of a live arena block

// simulated clock for reports
uint64_t sim_now_ns();
void advance(uint64_t ns);                  // something stalls

} // namespace rt
