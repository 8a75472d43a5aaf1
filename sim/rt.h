// Simulator runtime: fibers, scheduler, conflict detector, heap, clock, randomness, disk.
// The runtime is written without standard library containers: the library under test and the
// workloads share one executable, and an instrumented copy of a template must never end up in here.
#pragma once
#include <stddef.h>
#include <stdint.h>

namespace sim {

// ---------------------------------------------------------------- random numbers
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s = 1;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- configuration of one run
enum Policy { P_SEQ = 0, P_REV = 1, P_RAND = 2, P_RR = 3, P_PCT = 4, P_STALL = 5, P_EXPLICIT = 6 };

struct Config {
    // scheduler
    int threads = 1;        // what omp_get_max_threads() says
    int vary = 0;           // team size varies per region (1..threads)
    int policy = P_SEQ;
    int param = 64;         // mean gap / quantum / horizon exponent
    int depth = 2;          // change points of P_PCT
    uint64_t seed = 1;
    // heap
    int reuse = 0;          // 0 never, 1 last freed first, 2 random, 3 first freed first
    int order = 0;          // 0 ascending, 1 descending, 2 scattered
    int gap = 1;            // extra gap up to gap*16 bytes
    int fill = 0;           // 0 zero, 1 0xff, 2 0xa5, 3 random bytes, 4 small doubles
    uint64_t hseed = 1;
    // clock
    int clock = 0;          // 0 steady 1us/read, 1 frozen, 2 coarse, 3 jumps forward, 4 jumps backward, 5 wild, 6 epoch extremes
    uint64_t cseed = 1;
    // random device
    uint64_t rseed = 1;
    int rfail = 0;          // entropy source unavailable
    // budget
    uint64_t stepcap = 400000000ull;
    int slow = 0;           // a run that is not done by then is no failure
};

// ---------------------------------------------------------------- fault bookkeeping
enum FaultKind {
    F_PREEMPT, F_STALL, F_ALLOC, F_ALLOC_PERSIST, F_OPEN_ERR, F_WRITE_ERR, F_DISK_FULL, F_SHORT_WRITE, F_SHORT_READ,
    F_EINTR, F_READ_ERR, F_CLOSE_ERR, F_LOST_DATA, F_TRUNCATED, F_FLIPPED, F_CRASH, F_CLOCK_BACK, F_CLOCK_FWD,
    F_CLOCK_FREEZE, F_RANDOM_FAIL, F_ADDR_REUSE, F_TEAM_SIZE, F_SEEK_ERR, F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

struct SwitchRec { uint64_t step; int32_t target; int32_t pad; };
enum { MAXLOG = 1 << 16, MAXPROBE = 64 };
struct Probe { char name[40]; uint64_t n; };

enum Outcome { O_NONE = 0, O_OK = 1, O_VIOLATION = 2, O_TOOL_ERROR = 3 };

struct Result {  // lives in memory shared with the parent
    int outcome;
    char cls[96];
    char msg[2048];
    char sample[1024];
    uint64_t hash, steps, mtsteps, switches, regions, allocs, ioops, clockreads, randoms, simns;
    uint64_t schedhash, shapehash;
    uint64_t lib_calls, oracle_checks;
    uint64_t pc1, pc2;
    uint64_t fired[F_NKINDS];
    Probe probes[MAXPROBE];
    uint32_t nlog;
    uint32_t logfull;
    SwitchRec log[MAXLOG];
};

// ---------------------------------------------------------------- fibers
enum { MAXT = 64 };
enum VState { V_FREE = 0, V_RUN = 1, V_BLOCK = 2, V_DONE = 3 };

struct Team;
struct VThread {
    int id;
    int state;
    int on;                 // inside library code: hooks active, simulated heap in use
    int prio;
    void *sp;
    char *stack;
    void (*fn)(void *);
    void *arg;
    Team *team;
    int tid;                // number within the team
    int level;              // nesting of parallel regions
    int nthreads;           // omp_set_num_threads
    int spin;               // consecutive atomic loads
    void *waiton;
    int stream;             // which random stream this thread draws from
    void *eh[2];
    void *once[2];  // what std::call_once is about to call
    struct { void (*fn)(void *); void *obj; } atexit[64];  // destructors of thread-local objects
    int natexit;
    bool keeps;  // the program itself: ends with the process
    char *tls;
    uint32_t vc[MAXT];
    // work sharing bookkeeping
    uint64_t wscount;
};

struct State {
    // hot part
    int on;
    int mt;
    uint64_t steps, cap;
    uint64_t mtstep, mtnext;
    uint64_t hash;
    VThread *cur;
    // rest
    Config cfg;
    Result *res;
    int nlive;
    int race_on;
    uint64_t clk;  // simulated nanoseconds beyond the step count
    int64_t clock_offset;
    uint64_t clk_stop;
    uint64_t clockreads;
    // allocation faults
    uint64_t alloc_count;      // allocations made inside library code since arming
    uint64_t alloc_fail_at;    // 1-based, 0 = never
    int alloc_persist;
    uint64_t alloc_failed;
    // explicit schedule
    const SwitchRec *sw;
    uint32_t nsw, isw;
    // memory checker
    int mem_on;
    // watched range (pinned memory)
    uintptr_t watch_lo, watch_hi;
    void (*watch_cb)(uintptr_t addr, unsigned n, void *pc);
    // set by watch_cb: called before the next event
    void (*watch_after)();
    // called when the process is about to be terminated by the library
    void (*on_terminate)(int how, const char *what);
};
extern State g;

// one-time initialisation of fixed mappings (parent)
void rt_init();
// start of one run (child)
void rt_begin(const Config &cfg, Result *res);
// runs fn(arg) as the first virtual thread on a fixed stack; returns when it is done
void rt_main(void (*fn)(void *), void *arg);

// caller threads: start n virtual threads running fn(args[i]) and wait for all of them
void run_callers(int n, void (*fn)(void *), void **args);
void set_stream(int k);     // random stream of the current thread and of the threads it starts
// a voluntary scheduling point (used by workloads between operations)
void yield_point();

// leave the simulation with a verdict
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void tool_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();

inline void fired(FaultKind k) { if (g.res) g.res->fired[k]++; }
void probe(const char *name, uint64_t n = 1);
inline void hash_in(uint64_t v) { g.hash = (g.hash ^ v) * 0x100000001b3ull; g.hash ^= g.hash >> 29; }

inline void checked(uint64_t n = 1) { if (g.res) g.res->oracle_checks += n; }
inline void shape(uint64_t v) { if (g.res) g.res->shapehash = mix64(g.res->shapehash ^ v); }

// scope guard: code inside is library code
struct Lib {
    int old;
    Lib() : old(g.on) { g.on = 1; if (g.res) g.res->lib_calls++; }
    ~Lib() { g.on = old; }
};
struct NoLib {
    int old;
    NoLib() : old(g.on) { g.on = 0; }
    ~NoLib() { g.on = old; }
};

void arm_alloc_fault(uint64_t nth, bool persist);
void disarm_alloc_fault();

uint64_t sim_now_ns();

// ---------------------------------------------------------------- heap
bool heap_is_live(const void *p, size_t n);
void heap_reset_policy(const Config &cfg);
void *real_malloc_like(size_t n);
uint64_t heap_live_blocks();
uint64_t heap_live_bytes();

// ---------------------------------------------------------------- disk
struct DiskFault {
    int kind;       // FaultKind
    uint64_t at;    // n-th call of that operation (1-based) or byte offset
    int err;        // errno
    uint64_t arg;
};
void disk_reset();
void disk_put(const char *path, const void *data, size_t n);
bool disk_get(const char *path, const unsigned char **data, size_t *n);
int disk_count();
const char *disk_name(int i);
void disk_faults(const DiskFault *f, int n);
void disk_transfer_limits(int maxread, int maxwrite, double eintr, uint64_t seed);
void disk_capacity(int64_t bytes);  // -1 unlimited
bool disk_fault_fired();
void disk_set_crash_hook(void (*cb)());
uint64_t disk_touched_hash_except(const char *path);
int disk_open_handles();

}  // namespace sim
