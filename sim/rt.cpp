// Fibers, scheduler, conflict detector, simulated heap, clock and randomness.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <mutex>
#include "rt.h"

#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <random>
#include <stdexcept>
#include <typeinfo>

#include <cxxabi.h>

extern "C" char __libc_single_threaded;

namespace sim {

const char *const fault_names[F_NKINDS] = {
    "preemption", "stalled_thread", "allocation_failure", "allocation_failure_persistent", "open_error", "write_error",
    "disk_full", "short_write", "short_read", "interrupted_call", "read_error", "close_error", "lost_unsynced_data",
    "truncated_file", "flipped_byte", "crash", "clock_jump_back", "clock_jump_forward", "clock_frozen",
    "entropy_source_failure", "address_reuse", "team_size_change", "seek_error"};

State g;

// ================================================================ fixed layout
static const uintptr_t STACKS = 0x100000000000ull;
static const size_t STACKSZ = 8u << 20;
static const uintptr_t SBASE = 0x200000000000ull;
static const size_t SSIZE = 3ull << 30;
static const uintptr_t SHADOW = 0x210000000000ull;
static const uintptr_t BBASE = 0x300000000000ull;
static const size_t BSIZE = 8ull << 30;
static const uintptr_t CELLS = 0x400000000000ull;

static VThread vt[MAXT];
static VThread rootvt;  // the real stack
static uint32_t clkctr[MAXT];
static Rng srng(1), hrng(1), crng(1), rrngs[MAXT + 1], krng(1);
#define rrng (rrngs[g.cur->stream])

// ================================================================ verdicts
static void close_out() {
    Result *r = g.res;
    if (!r) return;
    r->hash = g.hash;
    r->steps = g.steps;
    r->mtsteps = g.mtstep;
    r->clockreads = g.clockreads;
    r->simns = g.steps + g.clk;
}
void finish_ok() {
    close_out();
    if (g.res) g.res->outcome = O_OK;
    _exit(0);
}
static void put(char *dst, size_t n, const char *fmt, va_list ap) { vsnprintf(dst, n, fmt, ap); }
void violation(const char *cls, const char *fmt, ...) {
    g.on = 0;
    close_out();
    if (g.res) {
        snprintf(g.res->cls, sizeof g.res->cls, "%s", cls);
        va_list ap;
        va_start(ap, fmt);
        put(g.res->msg, sizeof g.res->msg, fmt, ap);
        va_end(ap);
        g.res->outcome = O_VIOLATION;
    }
    _exit(0);
}
void tool_error(const char *fmt, ...) {
    g.on = 0;
    close_out();
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    put(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (g.res) {
        snprintf(g.res->cls, sizeof g.res->cls, "tool-error");
        snprintf(g.res->msg, sizeof g.res->msg, "%s", buf);
        g.res->outcome = O_TOOL_ERROR;
    } else {
        fprintf(stderr, "sim: %s\n", buf);
    }
    _exit(3);
}

void probe(const char *name, uint64_t n) {
    if (!g.res) return;
    for (int i = 0; i < MAXPROBE; i++) {
        Probe &p = g.res->probes[i];
        if (!p.name[0]) snprintf(p.name, sizeof p.name, "%s", name);
        if (!strncmp(p.name, name, sizeof p.name - 1)) {
            p.n += n;
            return;
        }
    }
}

// ================================================================ fibers
extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_fiber_boot
.type sim_fiber_boot,@function
sim_fiber_boot:
    .cfi_startproc
    .cfi_undefined rip
    movq %r12, %rdi
    xorl %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_fiber_boot,.-sim_fiber_boot
)");
extern "C" void sim_fiber_boot();

// thread local storage of the executable
static char *tls_live;
static const char *tls_init;
static size_t tls_size, tls_filesz;

static int find_tls(struct dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tls_live = (char *)info->dlpi_tls_data;
            tls_init = (const char *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
            tls_size = info->dlpi_phdr[i].p_memsz;
            tls_filesz = info->dlpi_phdr[i].p_filesz;
        }
    return 1;  // only the first object: the executable
}
static char tls_pool[MAXT + 1][4096];

static void resume(VThread *n) {
    VThread *o = g.cur;
    if (o == n) return;
    void **eh = (void **)abi::__cxa_get_globals();
    o->eh[0] = eh[0];
    o->eh[1] = eh[1];
    o->on = g.on;
    if (tls_live) {
        memcpy(o->tls, tls_live, tls_size);
        memcpy(tls_live, n->tls, tls_size);
    }
    o->once[0] = (void *)std::__once_callable;
    o->once[1] = (void *)std::__once_call;
    g.cur = n;
    g.on = n->on;
    eh[0] = n->eh[0];
    eh[1] = n->eh[1];
    std::__once_callable = n->once[0];
    std::__once_call = (void (*)())n->once[1];
    sim_switch(&o->sp, n->sp);
}

static void sched_exit();
extern "C" void sim_fiber_main(VThread *v) noexcept {
    v->fn(v->arg);
    while (v->natexit && !v->keeps) {
        v->natexit--;
        v->atexit[v->natexit].fn(v->atexit[v->natexit].obj);
    }
    sched_exit();
    __builtin_trap();
}

static uint16_t incarnation[MAXT];
static VThread *spawn(void (*fn)(void *), void *arg, int on) {
    int i = 0;
    while (i < MAXT && vt[i].state != V_FREE) i++;
    if (i == MAXT) return nullptr;
    VThread *v = &vt[i];
    char *stack = v->stack;
    memset((void *)v, 0, sizeof *v);
    v->id = i;
    incarnation[i]++;
    v->stack = stack;
    v->state = V_RUN;
    v->fn = fn;
    v->arg = arg;
    v->on = on;
    v->nthreads = g.cfg.threads;
    v->tls = tls_pool[i];
    if (tls_live) {
        memset(v->tls, 0, tls_size);
        memcpy(v->tls, tls_init, tls_filesz);
    }
    v->prio = (int)krng.below(1u << 20) + 1000;
    char *top = stack + STACKSZ - 256 + 8;
    uint64_t *sp = (uint64_t *)top;
    *--sp = 0;
    *--sp = (uint64_t)&sim_fiber_boot;
    *--sp = 0;            // rbp
    *--sp = 0;            // rbx
    *--sp = (uint64_t)v;  // r12
    *--sp = 0;
    *--sp = 0;
    *--sp = 0;
    *--sp = 0x1f80ull | (0x37full << 32);
    v->sp = sp;
    g.nlive++;
    return v;
}

// ================================================================ scheduler
static int pick_runnable_from(int start, int dir) {
    int i = start;
    for (int k = 0; k < MAXT; k++) {
        if (vt[i].state == V_RUN) return i;
        i = (i + dir + MAXT) % MAXT;
    }
    return -1;
}
static int count_runnable() {
    int n = 0;
    for (int i = 0; i < MAXT; i++) n += vt[i].state == V_RUN;
    return n;
}
static int nth_runnable(int k) {
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_RUN && k-- == 0) return i;
    return -1;
}
static uint64_t pct_points[16];
static int pct_n, pct_i;
static int stall_id = -1;

static uint64_t next_gap() {
    // geometric-like gap with mean cfg.param
    uint64_t m = g.cfg.param < 1 ? 1 : (uint64_t)g.cfg.param;
    uint64_t r = krng.next();
    if ((r & 15) == 0) return 1 + (r >> 8) % (8 * m);
    return 1 + (r >> 8) % (2 * m);
}
static void plan_next() {
    switch (g.cfg.policy) {
    case P_RAND:
    case P_STALL: g.mtnext = g.mtstep + next_gap(); break;
    case P_RR: g.mtnext = g.mtstep + (g.cfg.param < 1 ? 1 : g.cfg.param); break;
    case P_PCT:
        while (pct_i < pct_n && pct_points[pct_i] <= g.mtstep) pct_i++;
        g.mtnext = pct_i < pct_n ? pct_points[pct_i] : UINT64_MAX;
        break;
    case P_EXPLICIT:
        while (g.isw < g.nsw && g.sw[g.isw].step < g.mtstep) g.isw++;
        g.mtnext = g.isw < g.nsw ? g.sw[g.isw].step : UINT64_MAX;
        if (g.mtnext == g.mtstep) g.mtnext++;
        break;
    default: g.mtnext = UINT64_MAX;
    }
}
// who runs next; forced: the current thread cannot go on
static int choose(bool forced) {
    int cur = g.cur->id;
    int t;
    switch (g.cfg.policy) {
    case P_REV: return pick_runnable_from(MAXT - 1, -1);
    case P_RAND: return nth_runnable((int)krng.below(count_runnable()));
    case P_RR: return pick_runnable_from((cur + 1) % MAXT, 1);
    case P_PCT: {
        if (!forced) g.cur->prio = -(int)(pct_i + 1);
        int best = -1;
        for (int i = 0; i < MAXT; i++)
            if (vt[i].state == V_RUN && (best < 0 || vt[i].prio > vt[best].prio)) best = i;
        return best;
    }
    case P_STALL: {
        int n = count_runnable();
        if (stall_id >= 0 && stall_id < MAXT && vt[stall_id].state == V_RUN && n > 1) {
            fired(F_STALL);
            int k = (int)krng.below(n - 1);
            for (int i = 0; i < MAXT; i++)
                if (vt[i].state == V_RUN && i != stall_id && k-- == 0) return i;
        }
        return nth_runnable((int)krng.below(n));
    }
    case P_EXPLICIT:
        for (uint32_t i = g.isw; i < g.nsw && g.sw[i].step <= g.mtstep; i++)
            if (g.sw[i].step == g.mtstep) {
                t = g.sw[i].target;
                if (t >= 0 && t < MAXT && vt[t].state == V_RUN) return t;
            }
        if (!forced) return cur;
        return pick_runnable_from(0, 1);
    default: return pick_runnable_from(0, 1);
    }
}
static void log_switch(int target, bool forced) {
    Result *r = g.res;
    r->switches++;
    r->schedhash = mix64(r->schedhash ^ (g.mtstep * 131 + (uint64_t)target));
    if (!forced) fired(F_PREEMPT);
    if (forced && target == pick_runnable_from(0, 1)) return;  // the default
    if (r->nlog < MAXLOG) {
        r->log[r->nlog].step = g.mtstep;
        r->log[r->nlog].target = target;
        r->nlog++;
    } else {
        r->logfull = 1;
    }
}
// a scheduling decision while the current thread could continue
static void preempt_point() {
    int t = choose(false);
    plan_next();
    if (t < 0 || t == g.cur->id) return;
    log_switch(t, false);
    hash_in(0x5157ull ^ (uint64_t)t << 20);
    resume(&vt[t]);
}
static void refresh_mt() {
    int mt = g.nlive > 1;
    if (mt && !g.mt) {
        g.mt = 1;
        plan_next();
    }
    if (!mt) g.mt = 0;
}
static void die_hang() {
    if (g.cfg.slow) {
        g.on = 0;
        probe("not-done-in-time");
        finish_ok();
    }
    violation("hang", "no progress within %llu steps of simulated execution", (unsigned long long)g.cap);
}
static inline void sched_event() {
    g.steps++;
    if (g.steps >= g.cap) die_hang();
    if (g.mt) {
        if (++g.mtstep >= g.mtnext) preempt_point();
    }
}
// the current thread cannot go on until somebody marks it runnable
static void block_current() {
    g.cur->state = V_BLOCK;
    g.mtstep++;
    g.steps++;
    int t = choose(true);
    if (t < 0) violation("deadlock", "no simulated thread can run (blocked thread %d)", g.cur->id);
    log_switch(t, true);
    plan_next();
    resume(&vt[t]);
}
static void wake(VThread *v) {
    if (v->state == V_BLOCK) v->state = V_RUN;
}
static void force_yield() {
    if (!g.mt) return;
    // leave the processor to somebody else, in a fixed order
    int t = pick_runnable_from((g.cur->id + 1) % MAXT, 1);
    if (t < 0 || t == g.cur->id) return;
    g.res->switches++;  // not a decision: not part of the recorded schedule
    plan_next();
    resume(&vt[t]);
}
static void vc_join(uint32_t *a, const uint32_t *b) {
    for (int i = 0; i < MAXT; i++)
        if (b[i] > a[i]) a[i] = b[i];
}
static void new_epoch(VThread *v) { v->vc[v->id] = ++clkctr[v->id]; }

static VThread *fork_vthread(void (*fn)(void *), void *arg, int on) {
    VThread *v = spawn(fn, arg, on);
    if (!v) return nullptr;
    memcpy(v->vc, g.cur->vc, sizeof v->vc);
    v->stream = g.cur->stream;
    new_epoch(v);
    new_epoch(g.cur);
    refresh_mt();
    return v;
}
static void sched_exit() {
    VThread *v = g.cur;
    v->state = V_DONE;
    g.nlive--;
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_BLOCK && vt[i].waiton == v) wake(&vt[i]);
    g.mtstep++;
    int t = choose(true);
    if (t < 0) {
        // last one: back to the real stack
        if (g.nlive > 0) violation("deadlock", "no simulated thread can run (thread %d ended)", v->id);
        resume(&rootvt);
        __builtin_trap();
    }
    if (g.nlive > 1) log_switch(t, true);
    plan_next();
    if (g.nlive <= 1) g.mt = 0;
    resume(&vt[t]);
    __builtin_trap();
}
static void join_vthread(VThread *v) {
    while (v->state != V_DONE) {
        g.cur->waiton = v;
        block_current();
    }
    g.cur->waiton = nullptr;
    vc_join(g.cur->vc, v->vc);
    v->state = V_FREE;
}

// ================================================================ synchronisation variables
struct SyncVar {
    uintptr_t key;
    uint32_t vc[MAXT];
    VThread *owner;
    int depth;
    uint64_t sig;
};
enum { NSYNC = 1 << 17 };
static SyncVar *syncs;
static SyncVar *sync_of(const void *p) {
    uint64_t h = mix64((uintptr_t)p);
    for (int i = 0; i < NSYNC; i++) {
        SyncVar *s = &syncs[(h + i) & (NSYNC - 1)];
        if (s->key == (uintptr_t)p) return s;
        if (!s->key) {
            s->key = (uintptr_t)p;
            return s;
        }
    }
    tool_error("too many synchronisation variables");
}
static void acquire_from(const void *p) { vc_join(g.cur->vc, sync_of(p)->vc); }
static void release_to(const void *p) {
    vc_join(sync_of(p)->vc, g.cur->vc);
    new_epoch(g.cur);
}
static void lock_sim(const void *p, bool recursive) {
    SyncVar *s = sync_of(p);
    sched_event();
    if (s->owner == g.cur) {
        if (recursive) {
            s->depth++;
            return;
        }
        violation("deadlock", "a thread waits for a lock it already holds");
    }
    while (s->owner) {
        g.cur->waiton = s;
        block_current();
    }
    g.cur->waiton = nullptr;
    s->owner = g.cur;
    s->depth = 1;
    vc_join(g.cur->vc, s->vc);
}
static bool trylock_sim(const void *p) {
    SyncVar *s = sync_of(p);
    sched_event();
    if (s->owner) return false;
    s->owner = g.cur;
    s->depth = 1;
    vc_join(g.cur->vc, s->vc);
    return true;
}
static void unlock_sim(const void *p) {
    SyncVar *s = sync_of(p);
    if (--s->depth > 0) return;
    s->owner = nullptr;
    vc_join(s->vc, g.cur->vc);
    new_epoch(g.cur);
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_BLOCK && vt[i].waiton == s) wake(&vt[i]);
    sched_event();
}

// ================================================================ conflict detector
struct Acc {
    uint32_t clk;
    uint32_t pc;
    uint8_t tid, mask;
};
struct Cell {
    uint64_t key;
    uint32_t gen;
    uint32_t rr;
    Acc w;
    Acc r[3];
};
enum { NCELL = 1 << 18 };
static Cell *cells;
static uint32_t cellgen = 1;

static void race_report(const Acc &o, bool ow, uintptr_t a, bool w, void *pc) {
    g.res->pc1 = o.pc;
    g.res->pc2 = (uint64_t)pc;
    violation("data-race",
              "unordered conflicting accesses to %p: %s by thread %d at pc 0x%x, %s by thread %d at pc %p", (void *)a,
              ow ? "write" : "read", o.tid, o.pc, w ? "write" : "read", g.cur->id, pc);
}
static inline bool unordered(const Acc &o, VThread *c) { return o.tid != c->id && o.clk > c->vc[o.tid]; }

static void race_granule(uintptr_t addr, uint8_t mask, bool w, void *pc) {
    // the stack of an ended thread is handed to a later one: accesses to it by the former do not count
    uintptr_t gran = addr;
    if (addr - STACKS < STACKSZ * MAXT) gran ^= (uintptr_t)incarnation[(addr - STACKS) / STACKSZ] << 48;
    uint64_t h = mix64(gran);
    Cell *c = nullptr;
    for (int i = 0; i < 8; i++) {
        Cell *k = &cells[(h + i) & (NCELL - 1)];
        if (k->gen == cellgen && k->key == gran) {
            c = k;
            break;
        }
        if (k->gen != cellgen) {
            memset((void *)k, 0, sizeof *k);
            k->gen = cellgen;
            k->key = gran;
            c = k;
            break;
        }
    }
    if (!c) {
        c = &cells[(h + ((gran >> 3) & 7)) & (NCELL - 1)];
        memset((void *)c, 0, sizeof *c);
        c->gen = cellgen;
        c->key = gran;
    }
    VThread *v = g.cur;
    uint32_t clk = v->vc[v->id];
    if ((c->w.mask & mask) && unordered(c->w, v)) race_report(c->w, true, addr, w, pc);
    if (w) {
        for (int i = 0; i < 3; i++)
            if ((c->r[i].mask & mask) && unordered(c->r[i], v)) race_report(c->r[i], false, addr, w, pc);
        if (c->w.mask && c->w.tid == v->id && c->w.clk == clk)
            c->w.mask |= mask;
        else {
            c->w.tid = (uint8_t)v->id;
            c->w.clk = clk;
            c->w.mask = mask;
        }
        c->w.pc = (uint32_t)(uintptr_t)pc;
    } else {
        int slot = -1;
        for (int i = 0; i < 3; i++)
            if (c->r[i].mask && c->r[i].tid == v->id) {
                slot = i;
                break;
            }
        if (slot < 0)
            for (int i = 0; i < 3; i++)
                if (!c->r[i].mask || c->r[i].clk <= v->vc[c->r[i].tid]) {
                    slot = i;
                    break;
                }
        if (slot < 0) slot = (int)(c->rr++ % 3);
        Acc &r = c->r[slot];
        if (r.mask && r.tid == v->id && r.clk == clk)
            r.mask |= mask;
        else {
            r.tid = (uint8_t)v->id;
            r.clk = clk;
            r.mask = mask;
        }
        r.pc = (uint32_t)(uintptr_t)pc;
    }
}
enum : uintptr_t { TLS_BELOW = 16384 };
static uintptr_t thread_block;
static void race_check(uintptr_t a, size_t n, bool w, void *pc) {
    // own stack: nobody else can look at it without going through a recorded pointer, but OpenMP
    // regions do share the parent's frame, so only the own fiber stack is exempt when n is small
    uintptr_t end = a + n;
    uintptr_t x = a & ~7ull;
    // thread-local storage: every simulated thread has its own contents behind the same addresses
    if (a - (thread_block - TLS_BELOW) < TLS_BELOW + 4096) return;
    if (n > 4096) {  // large ranges: sample their ends
        race_granule(x, 0xff, w, pc);
        race_granule((end - 1) & ~7ull, 0xff, w, pc);
        end = a + 4096;
    }
    for (; x < end; x += 8) {
        unsigned lo = x < a ? (unsigned)(a - x) : 0;
        unsigned hi = x + 8 > end ? (unsigned)(end - x) : 8;
        race_granule(x, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), w, pc);
    }
}
// memory was handed to a new owner: earlier accesses no longer count
static void race_forget(uintptr_t a, size_t n) {
    if (!g.mt || !g.race_on) return;
    if (n > (1u << 20)) return;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
        uint64_t h = mix64(x);
        for (int i = 0; i < 8; i++) {
            Cell *k = &cells[(h + i) & (NCELL - 1)];
            if (k->gen != cellgen) break;
            if (k->key == x) {
                k->w.mask = 0;
                k->r[0].mask = k->r[1].mask = k->r[2].mask = 0;
                break;
            }
        }
    }
}

// ================================================================ heap
struct Hdr {
    uint32_t magic;
    uint32_t cls;
    uint64_t size;
    uint64_t cap;
    Hdr *next;
};
static_assert(sizeof(Hdr) == 32, "header");
enum { M_LIVE = 0x51be11fe, M_FREED = 0x51bedead, M_ALIGNED = 0x51bea119 };
enum { NCLS = 64 + 40, NREG = 64 };

static struct {
    bool mapped;
    uintptr_t lo[NREG], hi[NREG];
    int nreg;
    Hdr *head[NCLS], *tail[NCLS];
    uint64_t live, bytes;
    uint64_t freed_any;
} H;
static struct {
    bool mapped;
    uintptr_t p;
    Hdr *head[NCLS];
} B;

static uint8_t *const shadow = (uint8_t *)SHADOW;

static void *map_fixed(uintptr_t a, size_t n, int prot) {
    void *p = mmap((void *)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) {
        static const char m[] = "sim: cannot map fixed region\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(3);
    }
    return p;
}
static int cls_of(size_t cap) {
    if (cap <= 1024) return (int)((cap + 15) / 16) - (cap ? 1 : 0);
    int b = 64 - __builtin_clzll(cap - 1);
    return 64 + (b - 10 < 39 ? b - 10 : 39);
}
static size_t cap_of(size_t n) {
    if (n < 16) n = 16;
    if (n <= 1024) return (n + 15) & ~15ull;
    return 1ull << (64 - __builtin_clzll(n - 1));
}
static void *base_alloc(size_t n, size_t align) {
    if (!B.mapped) {
        map_fixed(BBASE, BSIZE, PROT_READ | PROT_WRITE);
        B.p = BBASE;
        B.mapped = true;
    }
    size_t cap = cap_of(n);
    int c = cls_of(cap);
    if (align <= 16) {
        Hdr *h = B.head[c];
        if (h) {
            B.head[c] = h->next;
            h->magic = M_LIVE;
            h->size = n;
            return h + 1;
        }
        align = 16;
    }
    uintptr_t p = (B.p + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
    if (p + cap > BBASE + BSIZE) return nullptr;
    Hdr *h = (Hdr *)p - 1;
    h->magic = align > 16 ? M_ALIGNED : M_LIVE;
    h->cls = (uint32_t)c;
    h->size = n;
    h->cap = cap;
    B.p = p + cap;
    return h + 1;
}
static void base_free(void *q) {
    Hdr *h = (Hdr *)q - 1;
    if (h->magic == M_ALIGNED) return;
    if (h->magic != M_LIVE) return;
    h->magic = M_FREED;
    h->next = B.head[h->cls];
    B.head[h->cls] = h;
}
static inline bool in_s(uintptr_t a) { return a - SBASE < SSIZE; }

static void fill_mem(void *p, size_t n, int how) {
    if (n > (64u << 20)) return;
    switch (how) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0xa5, n); break;
    case 3: {
        uint64_t *q = (uint64_t *)p;
        for (size_t i = 0; i + 8 <= n; i += 8) *q++ = hrng.next();
        break;
    }
    default: {
        double *q = (double *)p;
        for (size_t i = 0; i + 8 <= n; i += 8) *q++ = (double)(1 + (i >> 3)) * 0.125;
    }
    }
}
static void shadow_set(uintptr_t a, size_t n) {
    uint8_t *s = shadow + ((a - SBASE) >> 3);
    memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = (uint8_t)(n & 7);
}
static void shadow_clear(uintptr_t a, size_t cap) { memset(shadow + ((a - SBASE) >> 3), 0, (cap + 7) >> 3); }

static void *s_alloc(size_t n, size_t align) {
    Result *r = g.res;
    if (r) r->allocs++;
    g.alloc_count++;
    if (g.alloc_fail_at && (g.alloc_count == g.alloc_fail_at || (g.alloc_persist && g.alloc_count > g.alloc_fail_at))) {
        g.alloc_failed++;
        fired(g.alloc_persist ? F_ALLOC_PERSIST : F_ALLOC);
        errno = ENOMEM;
        return nullptr;
    }
    if (n > (1ull << 30)) {
        errno = ENOMEM;
        return nullptr;
    }
    size_t cap = cap_of(n);
    int c = cls_of(cap);
    Hdr *h = nullptr;
    if (align <= 16 && g.cfg.reuse && H.head[c]) {
        Hdr **pp = &H.head[c];
        if (g.cfg.reuse == 2) {
            int k = (int)hrng.below(8);
            while (k-- > 0 && (*pp)->next) pp = &(*pp)->next;
            if (hrng.below(4) == 0) pp = nullptr;
        }
        if (pp) {
            h = *pp;
            *pp = h->next;
            if (H.tail[c] == h) {
                H.tail[c] = nullptr;
                for (Hdr *t = H.head[c]; t; t = t->next)
                    if (!t->next) H.tail[c] = t;
            }
            fired(F_ADDR_REUSE);
        }
    }
    if (!h) {
        if (align < 16) align = 16;
        size_t gap = g.cfg.gap > 0 ? 16 * hrng.below((uint64_t)g.cfg.gap + 1) : 0;
        int k = g.cfg.order == 2 ? (int)hrng.below(NREG) : 0;
        size_t need = cap + sizeof(Hdr) + gap + align + 16;
        if (g.cfg.order == 2) {
            int tries = 0;
            while (H.hi[k] - H.lo[k] < need && tries++ < NREG) k = (k + 1) % NREG;
        }
        if (H.hi[k] - H.lo[k] < need) {
            if (g.cfg.reuse == 0 && align <= 16 && H.head[c]) {
                h = H.head[c];
                H.head[c] = h->next;
                if (H.tail[c] == h) H.tail[c] = nullptr;
            } else if (n >= (1u << 20)) {
                // only a damaged size asks for this much in one piece
                errno = ENOMEM;
                return nullptr;
            } else
                tool_error("simulated heap exhausted (request %zu)", n);
        } else {
            uintptr_t p;
            if (g.cfg.order == 1) {
                p = (H.hi[k] - 16 - gap - cap) & ~(uintptr_t)(align - 1);
                H.hi[k] = p - sizeof(Hdr);
            } else {
                p = (H.lo[k] + gap + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
                H.lo[k] = p + cap + 16;
            }
            h = (Hdr *)p - 1;
            h->cls = (uint32_t)c;
            h->cap = cap;
        }
    }
    h->magic = align > 16 ? M_ALIGNED : M_LIVE;
    h->size = n;
    h->next = nullptr;
    H.live++;
    H.bytes += n;
    fill_mem(h + 1, cap, g.cfg.fill);
    shadow_set((uintptr_t)(h + 1), n);
    race_forget((uintptr_t)(h + 1), n);
    hash_in((uintptr_t)(h + 1));
    sched_event();
    return h + 1;
}
static void s_free(void *q) {
    Hdr *h = (Hdr *)q - 1;
    if (h->magic != M_LIVE && h->magic != M_ALIGNED) {
        if (g.mem_on)
            violation("memory-error", h->magic == M_FREED ? "block %p freed twice" : "free of %p which is not a block", q);
        return;
    }
    bool aligned = h->magic == M_ALIGNED;
    // freeing is a write to the whole block
    if (g.mt && g.on && g.race_on) race_check((uintptr_t)q, h->size ? h->size : 1, true, __builtin_return_address(0));
    h->magic = M_FREED;
    H.live--;
    H.bytes -= h->size;
    H.freed_any++;
    fill_mem(q, h->cap, g.cfg.fill == 0 ? 1 : g.cfg.fill);
    shadow_clear((uintptr_t)q, h->cap);
    race_forget((uintptr_t)q, h->size);
    if (!aligned) {
        int c = (int)h->cls;
        if (g.cfg.reuse == 3) {
            h->next = nullptr;
            if (H.tail[c]) H.tail[c]->next = h;
            else H.head[c] = h;
            H.tail[c] = h;
        } else {
            h->next = H.head[c];
            H.head[c] = h;
            if (!H.tail[c]) H.tail[c] = h;
        }
    }
    if (g.on) sched_event();
}
bool heap_is_live(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!in_s(a)) return true;
    const uint8_t *s = shadow + ((a - SBASE) >> 3);
    unsigned off = a & 7;
    while (n) {
        unsigned m = 8 - off;
        if (m > n) m = (unsigned)n;
        if (*s < off + m) return false;
        n -= m;
        off = 0;
        s++;
    }
    return true;
}
uint64_t heap_live_blocks() { return H.live; }
uint64_t heap_live_bytes() { return H.bytes; }

static void mem_report(uintptr_t a, size_t n, bool w, void *pc) {
    g.res->pc1 = (uint64_t)pc;
    // find out whether the address lies in a freed block
    violation("memory-error", "%s of %zu bytes at %p which is not inside a live heap block (pc %p)", w ? "write" : "read",
              n, (void *)a, pc);
}

void heap_reset_policy(const Config &cfg) {
    g.cfg.reuse = cfg.reuse;
    g.cfg.order = cfg.order;
    g.cfg.gap = cfg.gap;
    g.cfg.fill = cfg.fill;
    g.cfg.hseed = cfg.hseed;
    hrng = Rng(cfg.hseed);
    // keep blocks that are in use, start a fresh area for what follows
    uintptr_t lo = SBASE + 4096, hi = SBASE + SSIZE - 4096;
    if (H.nreg) {
        uintptr_t mx = lo;
        (void)mx;
    }
    for (int i = 0; i < NREG; i++) {
        size_t part = (hi - lo) / NREG & ~4095ull;
        H.lo[i] = lo + part * i;
        H.hi[i] = H.lo[i] + part;
    }
    if (cfg.order != 2) {
        H.lo[0] = lo;
        H.hi[0] = hi;
    }
    H.nreg = NREG;
}

void arm_alloc_fault(uint64_t nth, bool persist) {
    g.alloc_count = 0;
    g.alloc_fail_at = nth;
    g.alloc_persist = persist;
    g.alloc_failed = 0;
}
void disarm_alloc_fault() { g.alloc_fail_at = 0; }

// ================================================================ clock
uint64_t sim_now_ns() {
    const uint64_t epoch = 1700000000ull * 1000000000ull;
    g.clockreads++;
    switch (g.cfg.clock) {
    case 1: fired(F_CLOCK_FREEZE); return epoch;
    case 2: {
        g.clk += 1000;
        uint64_t t = g.steps + g.clk;
        return epoch + t - t % 15600000ull;
    }
    case 3:
        g.clk += 1000;
        if (crng.below(4) == 0) {
            g.clk += crng.below(3600ull * 1000000000ull);
            fired(F_CLOCK_FWD);
        }
        return epoch + g.steps + g.clk;
    case 4:
        g.clk += 1000;
        if (crng.below(3) == 0) {
            g.clock_offset -= (int64_t)crng.below(600ull * 1000000000ull);
            fired(F_CLOCK_BACK);
        }
        return epoch + g.steps + g.clk + (uint64_t)g.clock_offset;
    case 5: {
        g.clk += 1000;
        int64_t o = (int64_t)(crng.below(20) == 0 ? crng.below(1ull << 61) : crng.below(400ull * 86400 * 1000000000ull));
        if (crng.below(2)) o = -o;
        fired(o < 0 ? F_CLOCK_BACK : F_CLOCK_FWD);
        return epoch + (uint64_t)o;
    }
    case 6:
        // runs for a while, is then set back and stops there
        g.clk += 1000;
        if (g.clock_offset == 0 && crng.below(3) == 0) {
            g.clock_offset = -(int64_t)(1 + crng.below(crng.below(2) ? 86400ull * 1000000000ull : 2000000ull));
            g.clk_stop = epoch + g.steps + g.clk + (uint64_t)g.clock_offset;
            fired(F_CLOCK_BACK);
        }
        if (g.clock_offset != 0) {
            fired(F_CLOCK_FREEZE);
            return g.clk_stop;
        }
        return epoch + g.steps + g.clk;
    case 7:
        // runs backwards
        g.clk += 1 + crng.below(3000000ull);
        fired(F_CLOCK_BACK);
        return epoch - g.clk;
    default: g.clk += 1000; return epoch + g.steps + g.clk;
    }
}

// ================================================================ start up
void rt_init() {
    map_fixed(SBASE, SSIZE, PROT_READ | PROT_WRITE);
    map_fixed(SHADOW, SSIZE / 8, PROT_READ | PROT_WRITE);
    map_fixed(STACKS, STACKSZ * MAXT, PROT_READ | PROT_WRITE);
    for (int i = 0; i < MAXT; i++) {
        vt[i].stack = (char *)(STACKS + STACKSZ * i);
        mprotect(vt[i].stack, 65536, PROT_NONE);
    }
    cells = (Cell *)map_fixed(CELLS, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE);
    static SyncVar sv[NSYNC];
    syncs = sv;
    dl_iterate_phdr(find_tls, nullptr);
    thread_block = (uintptr_t)__builtin_thread_pointer();
    if (tls_size > sizeof tls_pool[0]) {
        fprintf(stderr, "sim: thread local storage too large\n");
        _exit(3);
    }
    rootvt.id = MAXT;
    rootvt.tls = tls_pool[MAXT];
    g.cur = &rootvt;
    g.race_on = 1;
    g.mem_on = 1;
}

static void term_handler() {
    g.on = 0;
    const std::type_info *t = abi::__cxa_current_exception_type();
    const char *what = "";
    static char buf[256];
    if (t) {
        try {
            throw;
        } catch (const std::exception &e) {
            snprintf(buf, sizeof buf, "%s: %s", t->name(), e.what());
            what = buf;
        } catch (...) {
            snprintf(buf, sizeof buf, "%s", t->name());
            what = buf;
        }
    }
    if (g.on_terminate) g.on_terminate(t ? 1 : 0, what);
    if (t)
        violation("terminate", "the process was terminated by an exception nobody could catch (%s)", what);
    else
        violation("terminate", "the library terminated the process");
}
static char altstack[65536];
static void on_signal(int sig, siginfo_t *si, void *) {
    g.on = 0;
    if (sig == SIGALRM) {
        close_out();
        if (g.res) {
            snprintf(g.res->cls, sizeof g.res->cls, "hang");
            snprintf(g.res->msg, sizeof g.res->msg, "run exceeded its real-time limit");
            g.res->outcome = g.cfg.slow ? O_OK : O_VIOLATION;
        }
        _exit(0);
    }
    if (g.on_terminate && sig == SIGABRT) g.on_terminate(2, "abort");
    violation("crash", "signal %d at address %p", sig, si ? si->si_addr : nullptr);
}

void rt_begin(const Config &cfg, Result *res) {
    g.cfg = cfg;
    g.res = res;
    g.cap = cfg.stepcap;
    g.steps = g.mtstep = 0;
    g.mtnext = UINT64_MAX;
    g.hash = 0xcbf29ce484222325ull;
    srng = Rng(cfg.seed ^ 0x11);
    krng = Rng(cfg.seed ^ 0x5ced);
    crng = Rng(cfg.cseed ^ 0xc10c);
    for (int i = 0; i <= MAXT; i++) rrngs[i] = Rng(cfg.rseed * 1000003 + 0x4a4d + (uint64_t)i);
    hrng = Rng(cfg.hseed ^ 0x4ea9);
    heap_reset_policy(cfg);
    cellgen++;
    __libc_single_threaded = 0;
    if (cfg.policy == P_PCT) {
        pct_n = cfg.depth > 15 ? 15 : cfg.depth;
        uint64_t horizon = 1ull << (cfg.param < 1 ? 1 : cfg.param > 40 ? 40 : cfg.param);
        for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + krng.below(horizon);
        for (int i = 0; i < pct_n; i++)
            for (int j = i + 1; j < pct_n; j++)
                if (pct_points[j] < pct_points[i]) {
                    uint64_t t = pct_points[i];
                    pct_points[i] = pct_points[j];
                    pct_points[j] = t;
                }
        pct_i = 0;
    }
    if (cfg.policy == P_STALL) stall_id = (int)krng.below((uint64_t)(cfg.threads > 1 ? cfg.threads : 2));
    std::set_terminate(term_handler);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);
}
void rt_main(void (*fn)(void *), void *arg) {
    VThread *v = spawn(fn, arg, 0);
    v->keeps = true;
    new_epoch(v);
    resume(v);
}

struct CallerStart {
    void (*fn)(void *);
    void *arg;
};
void run_callers(int n, void (*fn)(void *), void **args) {
    VThread *vs[MAXT];
    cellgen++;
    for (int i = 0; i < n; i++) {
        vs[i] = fork_vthread(fn, args[i], 0);
        if (!vs[i]) tool_error("too many simulated threads");
    }
    for (int i = 0; i < n; i++) join_vthread(vs[i]);
    refresh_mt();
    if (g.nlive <= 1) cellgen++;
}
void yield_point() { sched_event(); }
void set_stream(int k) { g.cur->stream = k; }

// ================================================================ OpenMP runtime
struct WorkShare {
    int used;      // construct number + 1
    int arrived;   // threads that finished it
    int inited;
    long next, end, incr, chunk;
    int guided;
    unsigned long long unext, uend, uincr, uchunk;
    bool up;
    void *copy;
    int single_taken;
    int nsections;
    int ordered_next;
};
enum { NWS = 64 };
struct Team {
    int n;
    int barrier_count;
    uint64_t barrier_gen;
    uint32_t bvc[MAXT], bvc_out[MAXT];
    WorkShare ws[NWS];
    Team *parent;
    void (*fn)(void *);
    void *data;
    // loop set up by a combined construct
    bool preset;
};
struct Member {
    Team *team;
    int tid;
    int level;
};
static Team team_pool[MAXT];
static int team_used[MAXT];

static void team_member(void *p) {
    Team *t = (Team *)p;
    t->fn(t->data);
}
static Team *team_new(int n) {
    for (int i = 0; i < MAXT; i++)
        if (!team_used[i]) {
            team_used[i] = 1;
            memset((void *)&team_pool[i], 0, sizeof(Team));
            team_pool[i].n = n;
            return &team_pool[i];
        }
    tool_error("too many nested parallel regions");
}
static void team_free(Team *t) { team_used[t - team_pool] = 0; }

static int team_size(unsigned req) {
    int n = req ? (int)req : g.cur->nthreads;
    if (g.cur->level >= 1) n = 1;
    if (!g.on) n = 1;
    int room = MAXT - 1 - g.nlive;
    if (g.cfg.vary && n > 1) {
        int m = 1 + (int)srng.below((uint64_t)n);
        if (m != n) fired(F_TEAM_SIZE);
        n = m;
    }
    if (n > room) n = room > 1 ? room : 1;
    if (n < 1) n = 1;
    return n;
}
static void run_team(Team *t, void (*fn)(void *), void *data, int n) {
    VThread *me = g.cur;
    Team *oldteam = me->team;
    int oldtid = me->tid, oldlevel = me->level;
    uint64_t oldws = me->wscount;
    t->fn = fn;
    t->data = data;
    t->parent = oldteam;
    if (g.res) g.res->regions++;
    if (g.nlive <= 1) {
        cellgen++;
        if (cellgen == 0) cellgen = 1;
    }
    VThread *vs[MAXT];
    if (g.cfg.policy == P_STALL) stall_id = -1;
    int stall = n > 1 ? (int)krng.below((uint64_t)n) : 0;
    for (int i = 1; i < n; i++) {
        vs[i] = fork_vthread(team_member, t, 1);
        if (!vs[i]) tool_error("too many simulated threads");
        vs[i]->team = t;
        vs[i]->tid = i;
        vs[i]->level = oldlevel + (n > 1);
        vs[i]->nthreads = me->nthreads;
        if (g.cfg.policy == P_STALL && i == stall) stall_id = vs[i]->id;
    }
    me->team = t;
    me->tid = 0;
    me->level = oldlevel + (n > 1);
    me->wscount = 0;
    if (g.cfg.policy == P_STALL && n > 1 && stall == 0) stall_id = me->id;
    if (n > 1) {
        hash_in(0x7ea3ull + (uint64_t)n);
        if (g.cfg.policy != P_SEQ && g.cfg.policy != P_EXPLICIT) {
            // the master does not necessarily start first
            g.steps++;
            g.mtstep++;
            preempt_point();
        } else
            sched_event();
    }
    fn(data);
    for (int i = 1; i < n; i++) join_vthread(vs[i]);
    me->team = oldteam;
    me->tid = oldtid;
    me->level = oldlevel;
    me->wscount = oldws;
    refresh_mt();
    team_free(t);
    sched_event();
}

static WorkShare *ws_enter(Team *t) {
    uint64_t k = g.cur->wscount++;
    WorkShare *w = &t->ws[k % NWS];
    if (w->used != (int)(k + 1)) {
        memset((void *)w, 0, sizeof *w);
        w->used = (int)(k + 1);
    }
    return w;
}
static WorkShare *ws_cur(Team *t) { return &t->ws[(g.cur->wscount - 1) % NWS]; }

static Team solo_team;
static Team *my_team() {
    if (g.cur->team) return g.cur->team;
    if (solo_team.n == 0) solo_team.n = 1;
    return &solo_team;
}
static void team_barrier() {
    Team *t = my_team();
    if (t->n <= 1) {
        sched_event();
        return;
    }
    vc_join(t->bvc, g.cur->vc);
    new_epoch(g.cur);
    if (++t->barrier_count == t->n) {
        t->barrier_count = 0;
        t->barrier_gen++;
        memcpy(t->bvc_out, t->bvc, sizeof t->bvc);
        memset(t->bvc, 0, sizeof t->bvc);
        for (int i = 0; i < MAXT; i++)
            if (vt[i].state == V_BLOCK && vt[i].waiton == t) wake(&vt[i]);
    } else {
        uint64_t gen = t->barrier_gen;
        while (t->barrier_gen == gen) {
            g.cur->waiton = t;
            block_current();
        }
        g.cur->waiton = nullptr;
    }
    vc_join(g.cur->vc, t->bvc_out);
    sched_event();
}
static void ws_loop_init(WorkShare *w, long start, long end, long incr, long chunk, int guided) {
    if (w->inited) return;
    w->inited = 1;
    w->next = start;
    w->end = end;
    w->incr = incr;
    w->chunk = chunk < 1 ? 1 : chunk;
    w->guided = guided;
}
static bool ws_loop_next(WorkShare *w, long *istart, long *iend) {
    sched_event();
    Team *t = my_team();
    if (w->guided == 2) {  // static schedule through the generic interface: chunk per thread, round robin
        w->guided = 0;
    }
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long c = w->chunk;
    if (w->guided) {
        long q = (left + t->n - 1) / t->n;
        if (q > c) c = q;
    }
    if (c > left) c = left;
    *istart = w->next;
    w->next += c * w->incr;
    *iend = w->next;
    return true;
}

}  // namespace sim
using namespace sim;

// ================================================================ C interface: OpenMP
extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    int n = team_size(nt);
    run_team(team_new(n), fn, data, n);
}
#define PARLOOP(NAME, GUIDED)                                                                                       \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long chunk, \
                                   unsigned) {                                                                      \
        int n = team_size(nt);                                                                                      \
        Team *t = team_new(n);                                                                                      \
        t->ws[0].used = 1;                                                                                          \
        ws_loop_init(&t->ws[0], s, e, i, chunk, GUIDED);                                                            \
        t->preset = true;                                                                                           \
        run_team(t, fn, data, n);                                                                                   \
    }
PARLOOP(static, 0)
PARLOOP(dynamic, 0)
PARLOOP(guided, 1)
PARLOOP(nonmonotonic_dynamic, 0)
PARLOOP(nonmonotonic_guided, 1)
#define PARLOOPR(NAME)                                                                                      \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i,     \
                                   unsigned) {                                                              \
        int n = team_size(nt);                                                                              \
        Team *t = team_new(n);                                                                              \
        t->ws[0].used = 1;                                                                                  \
        ws_loop_init(&t->ws[0], s, e, i, 1, 0);                                                             \
        t->preset = true;                                                                                   \
        run_team(t, fn, data, n);                                                                           \
    }
PARLOOPR(runtime)
PARLOOPR(nonmonotonic_runtime)
PARLOOPR(maybe_nonmonotonic_runtime)

#define LOOPSTART(NAME, GUIDED)                                                                          \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long chunk, long *is, long *ie) {              \
        WorkShare *w = ws_enter(my_team());                                                              \
        ws_loop_init(w, s, e, i, chunk, GUIDED);                                                         \
        return ws_loop_next(w, is, ie);                                                                  \
    }                                                                                                    \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) {                                                   \
        Team *t = my_team();                                                                             \
        if (g.cur->wscount == 0) g.cur->wscount = 1;                                                     \
        return ws_loop_next(ws_cur(t), is, ie);                                                          \
    }
LOOPSTART(static, 0)
LOOPSTART(dynamic, 0)
LOOPSTART(guided, 1)
LOOPSTART(nonmonotonic_dynamic, 0)
LOOPSTART(nonmonotonic_guided, 1)
LOOPSTART(ordered_static, 0)
LOOPSTART(ordered_dynamic, 0)
LOOPSTART(ordered_guided, 1)
#define LOOPSTARTR(NAME)                                                                                 \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) {                          \
        WorkShare *w = ws_enter(my_team());                                                              \
        ws_loop_init(w, s, e, i, 1, 0);                                                                  \
        return ws_loop_next(w, is, ie);                                                                  \
    }                                                                                                    \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) {                                                   \
        Team *t = my_team();                                                                             \
        if (g.cur->wscount == 0) g.cur->wscount = 1;                                                     \
        return ws_loop_next(ws_cur(t), is, ie);                                                          \
    }
LOOPSTARTR(runtime)
LOOPSTARTR(nonmonotonic_runtime)
LOOPSTARTR(maybe_nonmonotonic_runtime)

#define ULLSTART(NAME)                                                                                               \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,     \
                                      unsigned long long chunk, unsigned long long *is, unsigned long long *ie) {    \
        (void)up;                                                                                                    \
        WorkShare *w = ws_enter(my_team());                                                                          \
        ws_loop_init(w, (long)s, (long)e, (long)i, (long)chunk, 0);                                                  \
        return ws_loop_next(w, (long *)is, (long *)ie);                                                              \
    }                                                                                                                \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) {                               \
        return ws_loop_next(ws_cur(my_team()), (long *)is, (long *)ie);                                              \
    }
ULLSTART(static)
ULLSTART(dynamic)
ULLSTART(guided)
ULLSTART(nonmonotonic_dynamic)
ULLSTART(nonmonotonic_guided)

void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() { sched_event(); }
void GOMP_barrier() { team_barrier(); }
bool GOMP_barrier_cancel() { team_barrier(); return false; }
static char default_critical, atomic_lock;
void GOMP_critical_start() { lock_sim(&default_critical, false); }
void GOMP_critical_end() { unlock_sim(&default_critical); }
void GOMP_critical_name_start(void **p) { lock_sim(p, false); }
void GOMP_critical_name_end(void **p) { unlock_sim(p); }
void GOMP_atomic_start() { lock_sim(&atomic_lock, false); }
void GOMP_atomic_end() { unlock_sim(&atomic_lock); }
bool GOMP_single_start() {
    sched_event();
    WorkShare *w = ws_enter(my_team());
    if (w->single_taken) return false;
    w->single_taken = 1;
    return true;
}
void *GOMP_single_copy_start() {
    sched_event();
    WorkShare *w = ws_enter(my_team());
    if (!w->single_taken) {
        w->single_taken = 1;
        return nullptr;
    }
    team_barrier();
    return w->copy;
}
void GOMP_single_copy_end(void *data) {
    ws_cur(my_team())->copy = data;
    team_barrier();
}
unsigned GOMP_sections_next() {
    if (g.cur->wscount == 0) g.cur->wscount = 1;
    WorkShare *w = ws_cur(my_team());
    sched_event();
    if (w->next >= w->nsections) return 0;
    return (unsigned)++w->next;
}
unsigned GOMP_sections_start(unsigned count) {
    WorkShare *w = ws_enter(my_team());
    if (!w->inited) {
        w->inited = 1;
        w->nsections = (int)count;
        w->next = 0;
    }
    return GOMP_sections_next();
}
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() { sched_event(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned) {
    int n = team_size(nt);
    Team *t = team_new(n);
    t->ws[0].used = 1;
    t->ws[0].inited = 1;
    t->ws[0].nsections = (int)count;
    run_team(t, fn, data, n);
}
static char ordered_lock;
void GOMP_ordered_start() { lock_sim(&ordered_lock, false); }
void GOMP_ordered_end() { unlock_sim(&ordered_lock); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, bool, unsigned, void **,
               int, void *) {
    sched_event();
    if (cpyfn) {
        char *buf = (char *)__builtin_alloca((size_t)(asz + aal));
        char *arg = (char *)(((uintptr_t)buf + (uintptr_t)aal - 1) & ~(uintptr_t)(aal - 1));
        cpyfn(arg, data);
        fn(arg);
    } else
        fn(data);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, unsigned, unsigned long, int,
                   long start, long end, long) {
    // one task for the whole range
    sched_event();
    char *buf = (char *)__builtin_alloca((size_t)(asz + aal));
    char *arg = (char *)(((uintptr_t)buf + (uintptr_t)aal - 1) & ~(uintptr_t)(aal - 1));
    if (cpyfn) cpyfn(arg, data);
    else memcpy(arg, data, (size_t)asz);
    ((long *)arg)[0] = start;
    ((long *)arg)[1] = end;
    if (start != end) fn(arg);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, unsigned f, unsigned long t, int p,
                       unsigned long long start, unsigned long long end, unsigned long long step) {
    GOMP_taskloop(fn, data, cpyfn, asz, aal, f, t, p, (long)start, (long)end, (long)step);
}
void GOMP_taskwait() { sched_event(); }
void GOMP_taskyield() { sched_event(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

void omp_set_num_threads(int n) { g.cur->nthreads = n < 1 ? 1 : n; }
int omp_get_num_threads() { return my_team()->n; }
int omp_get_thread_num() { return g.cur->team ? g.cur->tid : 0; }
int omp_get_max_threads() { return g.cur->nthreads > 0 ? g.cur->nthreads : 1; }
int omp_get_num_procs() { return g.cfg.threads; }
int omp_in_parallel() { return g.cur->level > 0; }
int omp_get_dynamic() { return g.cfg.vary; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return g.cur->level; }
int omp_get_active_level() { return g.cur->level; }
int omp_get_team_size(int) { return my_team()->n; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_thread_limit() { return MAXT; }
int omp_in_final() { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
double omp_get_wtime() { return (double)sim_now_ns() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *l) { memset(l, 0, 4); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock_sim(l, false); }
void omp_unset_lock(void *l) { unlock_sim(l); }
int omp_test_lock(void *l) { return trylock_sim(l); }
void omp_init_nest_lock(void *l) { memset(l, 0, 8); }
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { lock_sim(l, true); }
void omp_unset_nest_lock(void *l) { unlock_sim(l); }

// ================================================================ C interface: threads and locks
int pthread_mutex_lock(pthread_mutex_t *m) { if (g.on) lock_sim(m, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (g.on) return trylock_sim(m) ? 0 : EBUSY; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (g.on) unlock_sim(m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    SyncVar *s = sync_of(c);
    uint64_t sig = s->sig;
    unlock_sim(m);
    while (s->sig == sig) {
        g.cur->waiton = s;
        block_current();
    }
    g.cur->waiton = nullptr;
    lock_sim(m, true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    SyncVar *s = sync_of(c);
    s->sig++;
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_BLOCK && vt[i].waiton == s) wake(&vt[i]);
    sched_event();
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return pthread_cond_broadcast(c); }
// a wait with a deadline lets the others run for a while; then the deadline is said to have passed
static int timed_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    SyncVar *s = sync_of(c);
    uint64_t sig = s->sig;
    unlock_sim(m);
    for (int k = 0; k < 64 && s->sig == sig; k++) {
        sched_event();
        force_yield();
    }
    bool late = s->sig == sig;
    if (late) g.clk += 1000000000ull;
    lock_sim(m, true);
    return late ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return timed_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return timed_wait(c, m); }
// what std::future waits with
bool futex_wait_until(void *, unsigned *a, unsigned v, bool timed, long, long) asm(
    "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool futex_wait_steady(void *, unsigned *a, unsigned v, bool timed, long, long) asm(
    "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
void futex_notify_all(void *, unsigned *a) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
bool futex_wait_until(void *, unsigned *a, unsigned v, bool timed, long, long) {
    SyncVar *s = sync_of(a);
    for (int k = 0; *(volatile unsigned *)a == v; k++) {
        if (timed && k == 64) {
            g.clk += 1000000000ull;
            return false;
        }
        if (timed) {
            sched_event();
            force_yield();
        } else {
            g.cur->waiton = s;
            block_current();
        }
    }
    g.cur->waiton = nullptr;
    return true;
}
bool futex_wait_steady(void *f, unsigned *a, unsigned v, bool timed, long sec, long ns) { return futex_wait_until(f, a, v, timed, sec, ns); }
void futex_notify_all(void *, unsigned *a) {
    SyncVar *s = sync_of(a);
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_BLOCK && vt[i].waiton == s) wake(&vt[i]);
    sched_event();
}
struct PStart { void *(*fn)(void *); void *arg; };
static PStart pstarts[MAXT];
static VThread *pthr[MAXT];
static void pthread_boot(void *p) { PStart *s = (PStart *)p; s->fn(s->arg); }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    for (int i = 0; i < MAXT; i++)
        if (!pthr[i]) {
            pstarts[i] = {fn, arg};
            pthr[i] = fork_vthread(pthread_boot, &pstarts[i], g.on);
            if (!pthr[i]) return EAGAIN;
            *t = (pthread_t)(i + 1);
            sched_event();
            return 0;
        }
    return EAGAIN;
}
int pthread_join(pthread_t t, void **) {
    int i = (int)t - 1;
    if (i < 0 || i >= MAXT || !pthr[i]) return ESRCH;
    join_vthread(pthr[i]);
    pthr[i] = nullptr;
    refresh_mt();
    return 0;
}
int sched_yield() { if (g.on) sched_event(); return 0; }

int pthread_detach(pthread_t) { return 0; }
int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *dso);
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) noexcept {
    VThread *v = g.cur;
    if (!v || v == &rootvt || v->natexit == 64) return __cxa_thread_atexit_impl(fn, obj, dso);
    v->atexit[v->natexit].fn = fn;
    v->atexit[v->natexit++].obj = obj;
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)()) {
    if (*o == 2) {
        if (g.on) acquire_from(o);
        return 0;
    }
    if (g.on) lock_sim(o, false);
    if (*o != 2) {
        try {
            fn();
        } catch (...) {
            if (g.on) unlock_sim(o);
            throw;
        }
        *o = 2;
    }
    if (g.on) unlock_sim(o);
    return 0;
}
// owner: the writer; depth: number of readers
static int rw_lock(pthread_rwlock_t *l, bool write, bool wait) {
    if (!g.on) return 0;
    SyncVar *s = sync_of(l);
    sched_event();
    while (s->owner || (write && s->depth > 0)) {
        if (!wait) return EBUSY;
        g.cur->waiton = s;
        block_current();
    }
    g.cur->waiton = nullptr;
    if (write) s->owner = g.cur;
    else s->depth++;
    vc_join(g.cur->vc, s->vc);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!g.on) return 0;
    SyncVar *s = sync_of(l);
    if (s->owner == g.cur) s->owner = nullptr;
    else if (s->depth > 0) s->depth--;
    vc_join(s->vc, g.cur->vc);
    new_epoch(g.cur);
    for (int i = 0; i < MAXT; i++)
        if (vt[i].state == V_BLOCK && vt[i].waiton == s) wake(&vt[i]);
    sched_event();
    return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t *gd) {
    char *b = (char *)gd;
    if (b[0]) {
        if (g.on) acquire_from(gd);
        return 0;
    }
    while (b[1] && g.nlive > 0) {
        SyncVar *s = sync_of(gd);
        if (s->owner == g.cur) violation("deadlock", "recursive initialisation of a local static");
        g.cur->waiton = s;
        block_current();
        g.cur->waiton = nullptr;
        if (b[0]) {
            if (g.on) acquire_from(gd);
            return 0;
        }
    }
    b[1] = 1;
    if (g.on) sync_of(gd)->owner = g.cur;
    return 1;
}
static void guard_done(uint64_t *gd, char v) {
    char *b = (char *)gd;
    if (g.on) {
        SyncVar *s = sync_of(gd);
        release_to(gd);
        s->owner = nullptr;
        for (int i = 0; i < MAXT; i++)
            if (vt[i].state == V_BLOCK && vt[i].waiton == s) wake(&vt[i]);
    }
    b[1] = 0;
    b[0] = v;
}
void __cxa_guard_release(uint64_t *gd) { guard_done(gd, 1); }
void __cxa_guard_abort(uint64_t *gd) { guard_done(gd, 0); }

// ================================================================ C interface: instrumentation
// where the harness keeps its own objects depends on what the process did before this run
static inline uintptr_t fixed_addr(uintptr_t a) { return a < BBASE ? a : 2; }
static inline __attribute__((always_inline)) void access_hook(uintptr_t a, size_t n, bool w, void *pc) {
    if (!g.on) return;
    if (__builtin_expect(g.watch_after != nullptr, 0)) {
        auto f = g.watch_after;
        g.watch_after = nullptr;
        f();
    }
    g.steps++;
    g.hash = (g.hash ^ (fixed_addr(a) + (w ? 1 : 0))) * 0x100000001b3ull;
    if (__builtin_expect(g.steps >= g.cap, 0)) die_hang();
    if (g.mt) {
        g.cur->spin = 0;
        if (++g.mtstep >= g.mtnext) preempt_point();
        if (g.race_on) race_check(a, n, w, pc);
    }
    if (in_s(a)) {
        const uint8_t *s = shadow + ((a - SBASE) >> 3);
        unsigned off = a & 7;
        if (__builtin_expect(off + n <= 8 ? *s < off + n : !heap_is_live((void *)a, n), 0))
            if (g.mem_on) mem_report(a, n, w, pc);
        if (w && a < g.watch_hi && a + n > g.watch_lo && g.watch_cb) g.watch_cb(a, (unsigned)n, pc);
    }
}
#define RET __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {
    if (!g.on) return;
    g.steps++;
    if (g.steps >= g.cap) die_hang();
}
void __tsan_func_exit() {}
void __tsan_read1(void *p) { access_hook((uintptr_t)p, 1, false, RET); }
void __tsan_read2(void *p) { access_hook((uintptr_t)p, 2, false, RET); }
void __tsan_read4(void *p) { access_hook((uintptr_t)p, 4, false, RET); }
void __tsan_read8(void *p) { access_hook((uintptr_t)p, 8, false, RET); }
void __tsan_read16(void *p) { access_hook((uintptr_t)p, 16, false, RET); }
void __tsan_write1(void *p) { access_hook((uintptr_t)p, 1, true, RET); }
void __tsan_write2(void *p) { access_hook((uintptr_t)p, 2, true, RET); }
void __tsan_write4(void *p) { access_hook((uintptr_t)p, 4, true, RET); }
void __tsan_write8(void *p) { access_hook((uintptr_t)p, 8, true, RET); }
void __tsan_write16(void *p) { access_hook((uintptr_t)p, 16, true, RET); }
void __tsan_unaligned_read2(void *p) { access_hook((uintptr_t)p, 2, false, RET); }
void __tsan_unaligned_read4(void *p) { access_hook((uintptr_t)p, 4, false, RET); }
void __tsan_unaligned_read8(void *p) { access_hook((uintptr_t)p, 8, false, RET); }
void __tsan_unaligned_read16(void *p) { access_hook((uintptr_t)p, 16, false, RET); }
void __tsan_unaligned_write2(void *p) { access_hook((uintptr_t)p, 2, true, RET); }
void __tsan_unaligned_write4(void *p) { access_hook((uintptr_t)p, 4, true, RET); }
void __tsan_unaligned_write8(void *p) { access_hook((uintptr_t)p, 8, true, RET); }
void __tsan_unaligned_write16(void *p) { access_hook((uintptr_t)p, 16, true, RET); }
void __tsan_read_range(void *p, size_t n) { if (n) access_hook((uintptr_t)p, n, false, RET); }
void __tsan_write_range(void *p, size_t n) { if (n) access_hook((uintptr_t)p, n, true, RET); }
// unconditional: what the memory holds before depends on earlier stack frames
void __tsan_vptr_update(void **p, void *) { access_hook((uintptr_t)p, 8, true, RET); }
void __tsan_vptr_read(void **p) { access_hook((uintptr_t)p, 8, false, RET); }

void *sim_memcpy(void *d, const void *s, size_t n) {
    if (g.on && n) {
        access_hook((uintptr_t)s, n, false, RET);
        access_hook((uintptr_t)d, n, true, RET);
    }
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
    if (g.on && n) {
        access_hook((uintptr_t)s, n, false, RET);
        access_hook((uintptr_t)d, n, true, RET);
    }
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    if (g.on && n) access_hook((uintptr_t)d, n, true, RET);
    return memset(d, c, n);
}

static inline void atomic_pre(const volatile void *p, bool load, bool store) {
    if (!g.on) return;
    g.steps++;
    if (g.steps >= g.cap) die_hang();
    g.hash = (g.hash ^ fixed_addr((uintptr_t)p)) * 0x100000001b3ull;
    if (in_s((uintptr_t)p) && !heap_is_live((void *)p, 1) && g.mem_on) mem_report((uintptr_t)p, 1, store, RET);
    if (!g.mt) return;
    if (load && !store) {
        if (++g.cur->spin > 50) {
            g.cur->spin = 0;
            force_yield();
        }
    } else
        g.cur->spin = 0;
    if (++g.mtstep >= g.mtnext) preempt_point();
    if (load) acquire_from((const void *)p);
    if (store) release_to((const void *)p);
}
#define ATOMICS(N, T)                                                                                        \
    T __tsan_atomic##N##_load(const volatile T *p, int) { atomic_pre(p, true, false); return *p; }           \
    void __tsan_atomic##N##_store(volatile T *p, T v, int) { atomic_pre(p, false, true); *p = v; }           \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int) {                                                 \
        atomic_pre(p, true, true);                                                                           \
        T o = *p;                                                                                            \
        *p = v;                                                                                              \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T)(o | v); return o; }  \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T)(o ^ v); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { atomic_pre(p, true, true); T o = *p; *p = (T) ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) {                     \
        atomic_pre(p, true, true);                                                                           \
        T o = *p;                                                                                            \
        if (o == *c) {                                                                                       \
            *p = v;                                                                                          \
            return 1;                                                                                        \
        }                                                                                                    \
        *c = o;                                                                                              \
        return 0;                                                                                            \
    }                                                                                                        \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int b) {                   \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, a, b);                                    \
    }                                                                                                        \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int, int) {                           \
        atomic_pre(p, true, true);                                                                           \
        T o = *p;                                                                                            \
        if (o == c) *p = v;                                                                                  \
        return o;                                                                                            \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ================================================================ C interface: memory
void *malloc(size_t n) { return g.on ? s_alloc(n, 16) : base_alloc(n, 16); }
void free(void *p) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (in_s(a)) s_free(p);
    else if (a - BBASE < BSIZE) base_free(p);
}
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!n) {
        free(p);
        return nullptr;
    }
    size_t old = ((Hdr *)p - 1)->size;
    void *q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
int posix_memalign(void **out, size_t al, size_t n) {
    void *p = g.on ? s_alloc(n, al) : base_alloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *aligned_alloc(size_t al, size_t n) {
    void *p = nullptr;
    return posix_memalign(&p, al, n) ? nullptr : p;
}
void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
void *valloc(size_t n) { return aligned_alloc(4096, n); }
void *pvalloc(size_t n) { return aligned_alloc(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

void abort() {
    g.on = 0;
    if (g.on_terminate) g.on_terminate(2, "abort");
    if (g.res) violation("abort", "the library aborted the process");
    _exit(134);
}

// ================================================================ C interface: time and randomness
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!g.on) return (int)syscall(SYS_clock_gettime, c, ts);
    uint64_t t = sim_now_ns();
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock() {
    if (g.on) return (clock_t)(sim_now_ns() / 1000);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *) {
    if (g.on) {
        g.clk += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
        sched_event();
        return 0;
    }
    return (int)syscall(SYS_nanosleep, a, nullptr);
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *a, struct timespec *) {
    if (g.on) {
        if (!flags) g.clk += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
        sched_event();
        return 0;
    }
    return (int)syscall(SYS_nanosleep, a, nullptr);
}
int rand() { if (g.res) g.res->randoms++; return (int)(rrng.next() & 0x7fffffff); }
void srand(unsigned) {}
long random() { return rand(); }
double drand48() { return rrng.unit(); }
long lrand48() { return rand(); }
ssize_t getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)rrng.next();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
}

namespace sim {
[[noreturn]] void throw_entropy() { throw std::runtime_error("random_device: entropy source not available"); }
uint64_t random_device_value() {
    if (g.res) g.res->randoms++;
    return rrng.next();
}
}
namespace std {
void random_device::_M_init(const std::string &) {
    if (g.cfg.rfail == 1) {
        sim::fired(F_RANDOM_FAIL);
        sim::throw_entropy();
    }
}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    if (g.cfg.rfail == 2) {
        sim::fired(F_RANDOM_FAIL);
        sim::throw_entropy();
    }
    return (result_type)sim::random_device_value();
}
double random_device::_M_getentropy() const noexcept { return 32.0; }
}
