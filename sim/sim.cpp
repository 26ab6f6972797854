// Scheduler, race detector, heap and process driver. Never compiled with instrumentation.
#include "sim.h"
#include "sim_int.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace sim {

int current_op = -1;

// ------------------------------------------------------------------ shared result block

struct Shared {
    volatile int status; // 0 running, 1 ok, 2 violation, 3 harness error
    char cls[64];
    char msg[4096];
    uint64_t hash, ilhash, steps, allocs, switches, regions, ops_done;
    volatile int op;
    uint64_t ndec;
    struct D {
        uint32_t op;
        uint32_t tid;
        uint64_t step;
    } dec[1 << 18];
    uint64_t ncnt;
    struct C {
        char name[48];
        uint64_t n;
    } cnt[256];
};
static Shared* sh = nullptr;

void mix(uint64_t v)
{
#ifdef SIM_MIXLOG
    char b_[80];
    int n_ = snprintf(b_, sizeof b_, "%d %llu %016llx\n", current_op, (unsigned long long)sh->steps, (unsigned long long)v);
    (void)!write(198, b_, n_);
#endif
    uint64_t h = sh->hash ^ v;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    sh->hash = h;
}
void mix_double(double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    mix(u);
}
void mix_bytes(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    mix(h);
}
static void ilmix(uint64_t v)
{
    uint64_t h = sh->ilhash ^ v;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    sh->ilhash = h;
}

void count(const char* name, uint64_t n)
{
    for (uint64_t i = 0; i < sh->ncnt; ++i) {
        if (!strcmp(sh->cnt[i].name, name)) {
            sh->cnt[i].n += n;
            return;
        }
    }
    if (sh->ncnt < 256) {
        strncpy(sh->cnt[sh->ncnt].name, name, 47);
        sh->cnt[sh->ncnt].n = n;
        sh->ncnt++;
    }
}

[[noreturn]] void violate(const std::string& cls, const std::string& msg)
{
    throw Violation(cls, msg);
}

// A violation found inside the runtime (race, bad access, deadlock, no progress): record and leave at once;
// unwinding through code under test would let it interfere.
[[noreturn]] void die(const char* cls, const char* msg)
{
    strncpy(sh->cls, cls, 63);
    strncpy(sh->msg, msg, sizeof(sh->msg) - 1);
    sh->status = 2;
    _exit(0);
}

// ------------------------------------------------------------------ threads and scheduler

static __thread Thread* self_ = nullptr;
Thread* self() { return self_; }

static Thread threads[MAXT];
static int nthreads_created = 0;
Thread* current = nullptr;
bool armed = false; // code under test is running
static Ctl ctl_;
static Rng srng(1); // schedule decisions
static Rng trng(1); // team sizes, priorities
static uint64_t step_ = 0, next_preempt = ~0ull;
static size_t dec_pos = 0;
static uint64_t step_base = 0; // steps of the earlier runs of this operation: decisions are numbered per operation
static int step_op = -1;
static int live_runnable = 1;
static uint64_t nswitch = 0, nregions = 0, nalloc = 0;
static bool fault_fired = false;
// about a hundred times what the largest operation of the worlds takes on the released library
#ifndef SIM_STEP_LIMIT
#define SIM_STEP_LIMIT 600000000ull
#endif
static const uint64_t STEP_LIMIT = SIM_STEP_LIMIT;
static uint64_t region_tag = 1;

int ctl_team() { return ctl_.team; }
int ctl_shrink() { return ctl_.shrink; }
uint64_t sched_rand(uint64_t n) { return trng.below(n); }
void note_region(int n)
{
    nregions++;
    ilmix(0x5000 + (uint64_t)n);
}

static void fwait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void wait_go(Thread* t)
{
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) {
        fwait(&t->go, 0);
    }
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}

static void set_go(Thread* t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    fwake(&t->go);
}

static void plan_preempt()
{
    // long operations: after many switches they become rarer
    uint64_t wide = nswitch < 3000 ? 1 : nswitch < 6000 ? 8 : 64;
    switch (ctl_.mode) {
    case SPARSE:
        next_preempt = step_ + 1 + srng.below(2000);
        break;
    case MEDIUM:
        next_preempt = step_ + 1 + srng.below(120 * wide);
        break;
    case DENSE:
        next_preempt = step_ + 1 + srng.below(8 * wide);
        break;
    case PCT:
        next_preempt = step_ + 1 + srng.below(600);
        break;
    case EXPLICIT:
        while (dec_pos < ctl_.dec.size() && ctl_.dec[dec_pos].step <= step_base) {
            dec_pos++;
        }
        next_preempt = dec_pos < ctl_.dec.size() ? ctl_.dec[dec_pos].step - step_base : ~0ull;
        break;
    default:
        next_preempt = ~0ull;
    }
}

static int runnable_list(int* out, bool include_self, Thread* me)
{
    int n = 0;
    for (int i = 0; i < nthreads_created; ++i) {
        if (threads[i].state == RUNNABLE && (include_self || &threads[i] != me)) {
            out[n++] = i;
        }
    }
    return n;
}

static Thread* choose(Thread* me, bool forced)
{
    int list[MAXT];
    int n = runnable_list(list, !forced, me);
    if (n == 0) {
        if (forced) {
            die("deadlock", "no simulated thread can run: every member waits");
        }
        return me;
    }
    if (ctl_.mode == EXPLICIT) {
        // consume a recorded decision for this step if there is one
        while (dec_pos < ctl_.dec.size() && ctl_.dec[dec_pos].step < step_base + step_) {
            dec_pos++;
        }
        if (dec_pos < ctl_.dec.size() && ctl_.dec[dec_pos].step == step_base + step_) {
            int t = ctl_.dec[dec_pos].tid;
            dec_pos++;
            for (int i = 0; i < n; ++i) {
                if (list[i] == t) {
                    return &threads[t];
                }
            }
        }
        return forced ? &threads[list[0]] : me;
    }
    if (ctl_.mode == PCT || ctl_.mode == STALL) {
        // highest priority first; PCT lowers the running thread's priority at each change point
        if (!forced && ctl_.mode == PCT) {
            me->prio = srng.below(1 << 20);
        }
        int best = list[0];
        for (int i = 1; i < n; ++i) {
            if (threads[list[i]].prio > threads[best].prio) {
                best = list[i];
            }
        }
        return &threads[best];
    }
    return &threads[list[srng.below((uint64_t)n)]];
}

static void log_decision(Thread* t)
{
    ilmix((step_ << 6) ^ (uint64_t)t->id ^ ((uint64_t)current_op << 50));
    mix((step_ << 6) ^ (uint64_t)t->id);
    if (sh->ndec < (1 << 18)) {
        auto& d = sh->dec[sh->ndec++];
        d.op = (uint32_t)current_op;
        d.tid = (uint32_t)t->id;
        d.step = step_base + step_;
    }
}

static void switch_to(Thread* me, Thread* t)
{
    if (t == me) {
        return;
    }
    log_decision(t);
    nswitch++;
    current = t;
    bool a = armed;
    armed = true;
    set_go(t);
    wait_go(me);
    armed = a;
}

void block_here(Thread* me)
{
    // `me` is no longer runnable: run somebody else; returns when rescheduled
    live_runnable--;
    step_++;
    Thread* t = choose(me, true);
    switch_to(me, t);
    if (next_preempt <= step_) {
        plan_preempt();
    }
}

void make_runnable(Thread* t)
{
    if (t->state != RUNNABLE) {
        t->state = RUNNABLE;
        live_runnable++;
    }
}

static inline void yield_point(Thread* me)
{
    ++step_;
    if (__builtin_expect(step_ > STEP_LIMIT, 0)) {
        die("no-progress", "operation did not complete within the step budget");
    }
    if (__builtin_expect(step_ < next_preempt, 1)) {
        return;
    }
    if (live_runnable > 1) {
        Thread* t = choose(me, false);
        switch_to(me, t);
    }
    else if (ctl_.mode == EXPLICIT) {
        while (dec_pos < ctl_.dec.size() && ctl_.dec[dec_pos].step <= step_base + step_) {
            dec_pos++;
        }
    }
    plan_preempt();
}

void reschedule()
{
    Thread* me = self_;
    ++step_;
    Thread* t = choose(me, false);
    switch_to(me, t);
}

void sync_yield()
{
    Thread* me = self_;
    if (!armed || !me) {
        return;
    }
    yield_point(me);
}

// ---- pool

static void dirty_stack(size_t n);
static void run_job(Thread* t)
{
    armed = false;
    dirty_stack(6 << 10);
    armed = true;
    try {
        t->job();
    }
    catch (const std::bad_alloc&) {
        t->outcome = Res::BAD_ALLOC;
    }
    catch (const std::exception& e) {
        t->outcome = Res::THROWN;
        bool a = armed;
        armed = false;
        t->what = e.what();
        armed = a;
    }
}

static void* thread_main(void* p)
{
    Thread* t = (Thread*)p;
    self_ = t;
    for (;;) {
        wait_go(t);
        run_job(t);
        // finished: hand over
        t->state = IDLE;
        armed = false;
        if (t->on_done) {
            t->on_done(t);
        }
        live_runnable--;
        step_++;
        Thread* n = choose(t, true);
        log_decision(n);
        nswitch++;
        current = n;
        armed = true;
        set_go(n);
        // loop back and wait for the next job
    }
    return nullptr;
}

static const uintptr_t STACK_BASE = 0x300000000000ull;
static const size_t STACK_SZ = 1 << 20;

Thread* spawn(const std::function<void()>& job)
{
    bool a = armed;
    armed = false;
    Thread* t = nullptr;
    for (int i = 1; i < MAXT; ++i) {
        if (i >= nthreads_created) {
            t = &threads[i];
            t->id = i;
            nthreads_created = i + 1;
            pthread_attr_t at;
            pthread_attr_init(&at);
            void* st = mmap(
                (void*)(STACK_BASE + (uintptr_t)i * 2 * STACK_SZ),
                STACK_SZ,
                PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                -1,
                0
            );
            if (st != MAP_FAILED) {
                pthread_attr_setstack(&at, st, STACK_SZ);
            }
            if (pthread_create(&t->handle, &at, thread_main, t) != 0) {
                fprintf(stderr, "sim: cannot create thread\n");
                _exit(7);
            }
            break;
        }
        if (threads[i].state == IDLE && !threads[i].taken) {
            t = &threads[i];
            break;
        }
    }
    if (!t) {
        fprintf(stderr, "sim: out of threads\n");
        _exit(7);
    }
    t->taken = true;
    t->job = job;
    t->outcome = Res::OK;
    t->what.clear();
    t->team = nullptr;
    t->team_id = 0;
    t->on_done = nullptr;
    t->prio = trng.below(1 << 20);
    if (ctl_.mode == STALL && trng.below(3) == 0) {
        t->prio = 0; // stalled member: runs only when nobody else can
    }
    t->state = RUNNABLE;
    live_runnable++;
    armed = a;
    return t;
}

// ------------------------------------------------------------------ vector clocks

void vc_join(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; ++i) {
        if (b.c[i] > a.c[i]) {
            a.c[i] = b.c[i];
        }
    }
}

void hb_fork(Thread* parent, Thread* child)
{
    uint32_t own = child->vc.c[child->id];
    VC v = parent->vc;
    if (own > v.c[child->id]) {
        v.c[child->id] = own;
    }
    child->vc = v;
    child->vc.c[child->id]++;
    parent->vc.c[parent->id]++;
}

void hb_join(Thread* parent, Thread* child)
{
    vc_join(parent->vc, child->vc);
    parent->vc.c[parent->id]++;
}

// ------------------------------------------------------------------ race detection

struct Part {
    uint32_t r[16]; // clk << 8 | mask, of 16 threads
    uint32_t w[16];
    bool watomic[16], ratomic[16];
};
struct Cell {
    uint64_t rset, wset; // threads that read / wrote in this region
    uintptr_t rpc, wpc;
    Part* more[MAXT / 16 - 1]; // threads 16 and up: seldom
    Part p;
    Part& of(int t)
    {
        if (t < 16) {
            return p;
        }
        Part*& m = more[t / 16 - 1];
        if (!m) {
            m = (Part*)__libc_malloc(sizeof(Part));
        }
        return *m;
    }
};
static const size_t NCELL = 1 << 19;
static Cell* cells = nullptr; // handed out in order of first access
static uint64_t cells_used = 0;

// Address to cell. Neighbouring addresses have neighbouring slots: few pages are touched.
struct Slot {
    uintptr_t key;
    uint64_t tag;
    Cell* cell;
};
static const size_t NSLOT = 1 << 20;
static Slot* slots = nullptr;

static Cell* cell_of(uintptr_t key)
{
    size_t h = ((((key >> 9) * 0x9E3779B97F4A7C15ull) >> 44) & ~(size_t)63) | ((key >> 3) & 63);
    size_t probes = 0;
    for (;;) {
        Slot* s = &slots[h & (NSLOT - 1)];
        if (s->tag != region_tag) {
            if (cells_used >= NCELL) {
                // table full: accesses to further addresses are not watched in this region
                static Cell spare;
                spare.rset = spare.wset = 0;
                count("sim:access-table-full");
                return &spare;
            }
            Cell* c = &cells[cells_used++];
            s->tag = region_tag;
            s->key = key;
            s->cell = c;
            c->rset = c->wset = 0; // extra parts keep their memory
            return c;
        }
        if (s->key == key) {
            return s->cell;
        }
        h += ++probes > 64 ? 65 : 64;
    }
}

static void report_race(const char* kind, uintptr_t addr, uintptr_t pc, uintptr_t other, int t, int o)
{
    char buf[400];
    snprintf(
        buf,
        sizeof buf,
        "data race (%s) between simulated threads %d and %d at op %d step %llu [addr %s, pc %p, other pc %p]",
        kind,
        t,
        o,
        current_op,
        (unsigned long long)step_,
        heap_live((void*)addr, 1) ? "heap" : "stack/static",
        (void*)pc,
        (void*)other
    );
    (void)buf;
    die("race", buf);
}

static void access_granule(Thread* me, uintptr_t g, uint32_t mask, bool write, bool atomic, uintptr_t pc, uintptr_t addr)
{
    Cell* c = cell_of(g);
    uint64_t bit = 1ull << me->id;
    // conflict with earlier writes
    uint64_t o = c->wset & ~bit;
    while (o) {
        int t = __builtin_ctzll(o);
        o &= o - 1;
        Part& p = c->of(t);
        uint32_t e = p.w[t & 15];
        if ((e & mask & 0xff) && (e >> 8) > me->vc.c[t]) {
            if (!(atomic && p.watomic[t & 15])) {
                if (write && ctl_.ww_ok && !atomic) {
                    continue;
                }
                report_race(write ? "write/write" : "read/write", addr, pc, c->wpc, me->id, t);
            }
        }
    }
    if (write) {
        o = c->rset & ~bit;
        while (o) {
            int t = __builtin_ctzll(o);
            o &= o - 1;
            Part& p = c->of(t);
            uint32_t e = p.r[t & 15];
            if ((e & mask & 0xff) && (e >> 8) > me->vc.c[t]) {
                if (!(atomic && p.ratomic[t & 15])) {
                    report_race("write/read", addr, pc, c->rpc, me->id, t);
                }
            }
        }
    }
    uint32_t clk = me->vc.c[me->id];
    Part& p = c->of(me->id);
    int i = me->id & 15;
    if (write) {
        uint32_t old = (c->wset & bit) ? p.w[i] : 0;
        uint32_t m = ((old >> 8) == clk) ? (old & 0xff) : 0;
        bool pa = (old >> 8) == clk && m ? p.watomic[i] : true;
        p.w[i] = (clk << 8) | m | mask;
        p.watomic[i] = pa && atomic;
        c->wset |= bit;
        c->wpc = pc;
    }
    else {
        uint32_t old = (c->rset & bit) ? p.r[i] : 0;
        uint32_t m = ((old >> 8) == clk) ? (old & 0xff) : 0;
        bool pa = (old >> 8) == clk && m ? p.ratomic[i] : true;
        p.r[i] = (clk << 8) | m | mask;
        p.ratomic[i] = pa && atomic;
        c->rset |= bit;
        c->rpc = pc;
    }
}

// ------------------------------------------------------------------ heap

static const uintptr_t HEAP_BASE = 0x200000000000ull;
static const size_t HEAP_SZ = 1ull << 32;
static const uintptr_t SHADOW_BASE = 0x210000000000ull;
static uintptr_t heap_ptr = HEAP_BASE;
static uint64_t live_blocks = 0;
static int garbage_mode = 0;
static uint64_t garbage_state = 1;
bool harness_heap = false; // harness data to be placed in the simulated heap
static __thread int guard_depth = 0; // inside a static initialiser: real heap

static inline bool in_heap(uintptr_t a) { return a >= HEAP_BASE && a < HEAP_BASE + HEAP_SZ; }
static inline unsigned char* shadow(uintptr_t a) { return (unsigned char*)SHADOW_BASE + ((a - HEAP_BASE) >> 3); }

static uint64_t garbage_word()
{
    garbage_state += 0x9E3779B97F4A7C15ull;
    uint64_t z = garbage_state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 27;
    switch (garbage_mode) {
    case 0:
        return 0;
    case 1:
        return 0x7ff8dead00000000ull | (z & 0xffffffff); // NaN
    case 2:
        return z;
    case 3:
        return 0x54b249ad2594c37dull; // 1e100
    default: {
        return z % 7; // plausible small integers
    }
    }
}

static void garbage_fill(uintptr_t p, size_t n)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w = garbage_word();
        memcpy((void*)(p + i), &w, 8);
    }
    if (i < n) {
        uint64_t w = garbage_word();
        memcpy((void*)(p + i), &w, n - i);
    }
}

// leave garbage where the next calls will place their local variables
__attribute__((noinline)) static void dirty_stack(size_t n)
{
    char* p = (char*)__builtin_alloca(n);
    garbage_fill(((uintptr_t)p + 7) & ~(uintptr_t)7, n - 8);
    asm volatile("" : : "r"(p) : "memory");
}

static void* heap_alloc(size_t n, size_t align)
{
    if (align < 16) {
        align = 16;
    }
    uintptr_t p = heap_ptr + 32; // redzone + header
    p = (p + align - 1) & ~(uintptr_t)(align - 1);
    if (n > HEAP_SZ / 4 || p + n + 32 > HEAP_BASE + HEAP_SZ) {
        return nullptr; // does not fit in the simulated heap
    }
    ((size_t*)p)[-1] = n;
    ((uint64_t*)p)[-2] = 0xA110CA7EDull;
    garbage_fill(p, n);
    unsigned char* s = shadow(p);
    memset(s, 8, n / 8);
    if (n % 8) {
        s[n / 8] = (unsigned char)(n % 8);
    }
    heap_ptr = (p + n + 16 + 7) & ~(uintptr_t)7;
    live_blocks++;
    return (void*)p;
}

static void heap_free(void* q)
{
    uintptr_t p = (uintptr_t)q;
    if (((uint64_t*)p)[-2] != 0xA110CA7EDull) {
        die("bad-free", "release of a pointer that is not a live heap block");
    }
    ((uint64_t*)p)[-2] = 0xF4EED;
    size_t n = ((size_t*)p)[-1];
    memset(shadow(p), 0, (n + 7) / 8);
    garbage_fill(p, n);
    live_blocks--;
}

uint64_t heap_live_blocks() { return live_blocks; }

bool heap_live(const void* q, size_t n)
{
    uintptr_t a = (uintptr_t)q;
    if (!in_heap(a) || !in_heap(a + n - 1)) {
        return false;
    }
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        unsigned char s = *shadow(g);
        uintptr_t end = a + n < g + 8 ? a + n : g + 8;
        if (end - g > s) {
            return false;
        }
    }
    return true;
}

// should this allocation fail?
static bool alloc_fault(size_t n)
{
    uint64_t k = nalloc++;
    mix(0xA000000000ull ^ n);
    if (ctl_.fail >= 0 && (int64_t)k >= ctl_.fail && (int64_t)k < ctl_.fail + ctl_.nfail) {
        if (self_ && self_->team) {
            return false; // an exception must not leave a parallel region
        }
        fault_fired = true;
        return true;
    }
    return false;
}

void* sim_alloc(size_t n, size_t align)
{
    if (guard_depth > 0 || (!armed && !harness_heap)) {
        return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
    }
    if (armed && alloc_fault(n)) {
        return nullptr;
    }
    return heap_alloc(n, align);
}

void sim_free(void* p)
{
    if (!p) {
        return;
    }
    if (in_heap((uintptr_t)p)) {
        heap_free(p);
    }
    else {
        __libc_free(p);
    }
}

static size_t heap_size(void* p) { return ((size_t*)p)[-1]; }

void* sim_realloc(void* p, size_t n)
{
    if (!p) {
        return sim_alloc(n, 16);
    }
    if (!in_heap((uintptr_t)p)) {
        return __libc_realloc(p, n);
    }
    void* q = sim_alloc(n, 16);
    if (!q) {
        return nullptr;
    }
    size_t o = heap_size(p);
    memcpy(q, p, o < n ? o : n);
    heap_free(p);
    return q;
}

void guard_enter() { guard_depth++; }
void guard_leave() { guard_depth--; }

// ------------------------------------------------------------------ access hook

static void bad_access(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
    char buf[300];
    snprintf(
        buf,
        sizeof buf,
        "%s of %zu bytes outside any live heap block at op %d step %llu [pc %p]",
        write ? "write" : "read",
        n,
        current_op,
        (unsigned long long)step_,
        (void*)pc
    );
    (void)a;
    die("bad-access", buf);
}

void access(void* p, size_t n, bool write, bool atomic, uintptr_t pc)
{
    if (__builtin_expect(!armed, 0)) {
        return;
    }
    Thread* me = self_;
    if (!me) {
        return;
    }
    uintptr_t a = (uintptr_t)p;
    if (in_heap(a)) {
        uintptr_t g = a & ~7ull;
        if (g == ((a + n - 1) & ~7ull)) {
            if ((a & 7) + n > *shadow(g)) {
                bad_access(a, n, write, pc);
            }
        }
        else if (!heap_live(p, n)) {
            bad_access(a, n, write, pc);
        }
    }
    yield_point(me);
    if (live_runnable > 1 || multi()) {
        uintptr_t g = a & ~7ull;
        uintptr_t e = a + n;
        while (g < e) {
            uintptr_t lo = a > g ? a - g : 0;
            uintptr_t hi = e - g < 8 ? e - g : 8;
            uint32_t mask = (uint32_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
            access_granule(me, g, mask, write, atomic, pc, a);
            g += 8;
        }
    }
}

static int team_depth = 0; // number of multi-member teams / caller groups alive
bool multi() { return team_depth > 0; }
void team_enter()
{
    if (team_depth++ == 0) {
        region_tag++;
        cells_used = 0;
    }
}
void team_leave() { team_depth--; }

// ------------------------------------------------------------------ running operations

static void setup(const Ctl& c)
{
    ctl_ = c;
    if (ctl_.team < 1) {
        ctl_.team = 1;
    }
    srng = Rng(c.seed ^ 0x5c4ed);
    trng = Rng(c.seed ^ 0x7ea3);
    step_base = step_op == current_op ? step_base + step_ : 0;
    step_op = current_op;
    step_ = 0;
    dec_pos = 0;
    nswitch = nregions = nalloc = 0;
    fault_fired = false;
    live_runnable = 1;
    team_depth = 0;
    Rng g(c.seed ^ 0x6a4ba6e);
    garbage_mode = (int)g.below(5);
    garbage_state = g.next();
    for (int i = 0; i < nthreads_created; ++i) {
        memset(&threads[i].vc, 0, sizeof(VC));
        threads[i].vc.c[i] = 1;
    }
    threads[0].state = RUNNABLE;
    threads[0].team = nullptr;
    threads[0].prio = trng.below(1 << 20);
    region_tag++;
    cells_used = 0;
    sync_reset();
    plan_preempt();
    if (ctl_.mode == EXPLICIT && next_preempt == 0) {
        next_preempt = 1;
    }
    mix(0x0b00000 + (uint64_t)current_op);
}

static Res finish(Res r)
{
    r.steps = step_;
    r.allocs = nalloc;
    r.switches = nswitch;
    r.regions = nregions;
    r.fault_fired = fault_fired;
    sh->steps += step_;
    sh->allocs += nalloc;
    sh->switches += nswitch;
    sh->regions += nregions;
    sh->ops_done++;
    mix(0xe0000 + (uint64_t)r.kind);
    mix(step_);
    if (fault_fired) {
        count("fault:allocation-failure-fired");
    }
    if (ctl_.fail >= 0 && !fault_fired) {
        count("fault:allocation-failure-not-reached");
    }
    if (r.kind == Res::THROWN) {
        count("fault:rejected-operation");
    }
    if (nswitch) {
        count("sched:ops-with-context-switches");
    }
    if (ctl_.mode == STALL && nregions) {
        count("fault:stalled-members-op");
    }
    if (ctl_.shrink && nregions && ctl_.team > 1) {
        count("fault:smaller-team-granted-op");
    }
    static const char* gm[] = {
        "fault:heap-garbage-zero", "fault:heap-garbage-nan", "fault:heap-garbage-random",
        "fault:heap-garbage-1e100", "fault:heap-garbage-small-ints"};
    if (nalloc) {
        count(gm[garbage_mode]);
    }
    return r;
}

Res run(const Ctl& c, const std::function<void()>& f)
{
    setup(c);
    Res r;
    current = &threads[0];
    dirty_stack(24 << 10);
    armed = true;
    try {
        f();
        armed = false;
    }
    catch (const std::bad_alloc&) {
        armed = false;
        r.kind = Res::BAD_ALLOC;
    }
    catch (const Violation&) {
        armed = false;
        throw;
    }
    catch (const std::exception& e) {
        armed = false;
        r.kind = Res::THROWN;
        r.what = e.what();
    }
    return finish(r);
}

Res run_callers(const Ctl& c, const std::vector<std::function<void()>>& fs)
{
    setup(c);
    Res r;
    Thread* me = &threads[0];
    current = me;
    std::vector<Thread*> ts;
    size_t left = fs.size();
    team_enter();
    for (auto& f : fs) {
        Thread* t = spawn([&f]() { f(); });
        hb_fork(me, t);
        ts.push_back(t);
        t->on_done = [&left, me](Thread*) {
            if (--left == 0) {
                make_runnable(me);
            }
        };
    }
    nregions++;
    me->state = BLOCKED;
    armed = true;
    block_here(me);
    armed = false;
    for (auto* t : ts) {
        hb_join(me, t);
        t->taken = false;
        if (t->outcome != Res::OK && r.kind == Res::OK) {
            r.kind = (Res::Kind)t->outcome;
            r.what = t->what;
        }
    }
    team_leave();
    return finish(r);
}

Ctl random_ctl(Rng& rng, bool team, bool faults)
{
    Ctl c;
    c.seed = rng.next() >> 16;
    if (team) {
        static const int sizes[] = {1, 2, 2, 3, 3, 4, 4, 5, 7, 8, 13, 24};
        c.team = sizes[rng.below(12)];
        c.shrink = rng.chance(0.2);
        static const int modes[] = {SERIAL, SPARSE, SPARSE, MEDIUM, MEDIUM, DENSE, PCT, PCT, STALL};
        c.mode = modes[rng.below(9)];
    }
    if (faults && rng.chance(0.35)) {
        double u = rng.unit();
        c.fail = (int64_t)(u < 0.4 ? rng.below(4) : u < 0.7 ? rng.below(12) : u < 0.9 ? rng.below(40) : rng.below(300));
        c.nfail = rng.chance(0.8) ? 1 : 1 + (int64_t)rng.below(3);
    }
    return c;
}

Ctl op_ctl(const Plan& plan, size_t i)
{
    current_op = (int)i;
    sh->op = (int)i;
    return plan.ops[i].ctl;
}

// ------------------------------------------------------------------ plan text

static std::string plan_text(const Plan& p)
{
    std::ostringstream o;
    o << "world " << p.world << "\nprop " << p.prop << "\nseed " << p.seed << "\n";
    for (auto& kv : p.cfg) {
        o << "cfg " << kv.first << " " << kv.second << "\n";
    }
    for (auto& op : p.ops) {
        o << "op " << op.name << " seed=" << op.seed << " cs=" << op.ctl.seed << " team=" << op.ctl.team
          << " shrink=" << op.ctl.shrink << " mode=" << op.ctl.mode << " fail=" << op.ctl.fail
          << " nfail=" << op.ctl.nfail << " ww=" << op.ctl.ww_ok << " a=";
        for (size_t i = 0; i < op.a.size(); ++i) {
            o << (i ? "," : "") << op.a[i];
        }
        o << " dec=";
        for (size_t i = 0; i < op.ctl.dec.size(); ++i) {
            o << (i ? "," : "") << op.ctl.dec[i].step << ":" << op.ctl.dec[i].tid;
        }
        o << "\n";
    }
    return o.str();
}

static Plan plan_parse(std::istream& in)
{
    Plan p;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "world") {
            s >> p.world;
        }
        else if (k == "prop") {
            s >> p.prop;
        }
        else if (k == "seed") {
            s >> p.seed;
        }
        else if (k == "cfg") {
            std::string n;
            int64_t v;
            s >> n >> v;
            p.cfg[n] = v;
        }
        else if (k == "op") {
            Op op;
            s >> op.name;
            std::string t;
            while (s >> t) {
                size_t e = t.find('=');
                if (e == std::string::npos) {
                    continue;
                }
                std::string key = t.substr(0, e), val = t.substr(e + 1);
                auto num = [&]() { return std::stoll(val); };
                if (key == "seed") {
                    op.seed = std::stoull(val);
                }
                else if (key == "cs") {
                    op.ctl.seed = std::stoull(val);
                }
                else if (key == "team") {
                    op.ctl.team = (int)num();
                }
                else if (key == "shrink") {
                    op.ctl.shrink = (int)num();
                }
                else if (key == "mode") {
                    op.ctl.mode = (int)num();
                }
                else if (key == "fail") {
                    op.ctl.fail = num();
                }
                else if (key == "nfail") {
                    op.ctl.nfail = num();
                }
                else if (key == "ww") {
                    op.ctl.ww_ok = (int)num();
                }
                else if (key == "a" || key == "dec") {
                    std::istringstream v(val);
                    std::string x;
                    while (std::getline(v, x, ',')) {
                        if (key == "a") {
                            op.a.push_back(std::stoll(x));
                        }
                        else {
                            size_t c = x.find(':');
                            op.ctl.dec.push_back(
                                {std::stoull(x.substr(0, c)), (int)std::stoll(x.substr(c + 1))}
                            );
                        }
                    }
                }
            }
            p.ops.push_back(op);
        }
    }
    return p;
}

// ------------------------------------------------------------------ process driver

// xtensor assigns generators (xt::arange, xt::ones, ...) and moves containers in functions declared noexcept: memory
// exhaustion there ends the process.  That is an ending, not a wrong answer; the run counts as ended by the fault.
[[noreturn]] static void on_terminate()
{
    if (fault_fired) {
        bool oom = false;
        try {
            if (std::current_exception()) {
                throw;
            }
            // a terminate called from a landing pad has not begun to handle the exception
            oom = std::uncaught_exceptions() > 0;
        }
        catch (const std::bad_alloc&) {
            oom = true;
        }
        catch (...) {
        }
        if (oom) {
            armed = false;
            count("fault:allocation-failure-ended-the-process");
            mix(0x7e);
            sh->status = 1;
            _exit(0);
        }
    }
    abort();
}

static void child_main(const Plan& plan)
{
    std::set_terminate(on_terminate);
    struct itimerval it = {{0, 0}, {240, 0}};
    setitimer(ITIMER_PROF, &it, nullptr); // CPU time, not wall time: a run is bounded by its steps first
    self_ = &threads[0];
    threads[0].id = 0;
    threads[0].state = RUNNABLE;
    nthreads_created = 1;
    current = &threads[0];
    try {
        world_execute(plan);
        sh->status = 1;
    }
    catch (const Violation& v) {
        strncpy(sh->cls, v.cls.c_str(), 63);
        snprintf(sh->msg, sizeof sh->msg, "%s", v.what());
        sh->status = 2;
    }
    catch (const std::exception& e) {
        armed = false;
        strncpy(sh->cls, "harness-exception", 63);
        snprintf(sh->msg, sizeof sh->msg, "%s", e.what());
        sh->status = 3;
    }
    _exit(0);
}

static std::string sanitize(const char* s)
{
    std::string o;
    for (; *s; ++s) {
        o += (*s == '\n' || *s == '\t') ? ' ' : *s;
    }
    return o;
}

// The simulated main thread runs on a stack at a fixed address, so that nothing about this process
// (environment, arguments) shows in it.
static ucontext_t main_ctx, sim_ctx;
static const Plan* main_plan = nullptr;
static void on_sim_stack() { child_main(*main_plan); }
static void child_start(const Plan& plan)
{
    const size_t sz = 4 << 20;
    void* st = mmap(
        (void*)0x310000000000ull,
        sz,
        PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
        -1,
        0
    );
    if (st == MAP_FAILED) {
        _exit(7);
    }
    main_plan = &plan;
    getcontext(&sim_ctx);
    sim_ctx.uc_stack.ss_sp = st;
    sim_ctx.uc_stack.ss_size = sz;
    sim_ctx.uc_link = nullptr;
    makecontext(&sim_ctx, on_sim_stack, 0);
    swapcontext(&main_ctx, &sim_ctx);
}

// run one plan in a child; returns class ("" if fine)
static std::string run_child(const Plan& plan, std::string& msg)
{
    memset(sh, 0, offsetof(Shared, dec));
    sh->ncnt = 0;
    memset(sh->cnt, 0, sizeof sh->cnt);
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        child_start(plan);
        _exit(7);
    }
    if (p < 0) {
        msg = "fork failed";
        return "!harness";
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        char b[128];
        if (sg == SIGKILL) {
            msg = "killed";
            return "!harness";
        }
        snprintf(b, sizeof b, "process ended by signal %d (%s) at op %d", sg, strsignal(sg), sh->op);
        msg = b;
        return sg == SIGPROF ? "no-progress" : sg == SIGABRT ? "abort" : "crash";
    }
    if (sh->status == 2) {
        msg = sanitize(sh->msg);
        return sh->cls;
    }
    if (sh->status != 1) {
        msg = sanitize(sh->msg);
        char b[64];
        snprintf(b, sizeof b, " [exit %d status %d]", WEXITSTATUS(st), sh->status);
        msg += b;
        return "!harness";
    }
    return "";
}

static Plan make_plan(const std::string& prop, uint64_t seed)
{
    Plan p;
    p.world = world_name;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    world_generate(p, r);
    return p;
}

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

static int main_(int argc, char** argv)
{
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* h = mmap((void*)HEAP_BASE, HEAP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s2 = mmap((void*)SHADOW_BASE, HEAP_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slots = (Slot*)mmap(nullptr, NSLOT * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || h == MAP_FAILED || s2 == MAP_FAILED || cells == MAP_FAILED || slots == MAP_FAILED) {
        fprintf(stderr, "sim: mmap failed\n");
        return 2;
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen" && argc == 4) {
        std::cout << plan_text(make_plan(argv[2], strtoull(argv[3], 0, 10)));
        return 0;
    }
    if (cmd == "plan" && argc >= 3) {
        // several plan files: one result line each
        for (int i = 2; i < argc; ++i) {
            std::ifstream f(argv[i]);
            Plan p = plan_parse(f);
            std::string msg, cls = run_child(p, msg);
            printf(
                "RESULT cls=%s hash=%016llx il=%016llx steps=%llu ndec=%llu msg=%s\n",
                cls.empty() ? "-" : cls.c_str(),
                (unsigned long long)sh->hash,
                (unsigned long long)sh->ilhash,
                (unsigned long long)sh->steps,
                (unsigned long long)sh->ndec,
                msg.c_str()
            );
            if (getenv("SIM_DEC")) {
                for (uint64_t k = 0; k < sh->ndec; ++k) {
                    printf("DEC %u %llu %u\n", sh->dec[k].op, (unsigned long long)sh->dec[k].step, sh->dec[k].tid);
                }
            }
            fflush(stdout);
        }
        return 0;
    }
    if (cmd == "batch" && argc == 8) {
        // batch PROP SEED0 STRIDE COUNT TLIMIT OUT: seeds SEED0 + i*STRIDE
        std::string prop = argv[2];
        uint64_t seed0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10);
        uint64_t cnt = strtoull(argv[5], 0, 10);
        double tl = atof(argv[6]);
        std::string out = argv[7];
        double t0 = now();
        std::map<std::string, uint64_t> tot;
        std::ofstream hf(out + ".hash", std::ios::binary);
        std::ofstream vf(out + ".viol");
        uint64_t n = 0, nviol = 0, harness = 0;
        for (uint64_t i = 0; i < cnt && now() - t0 < tl; ++i) {
            uint64_t seed = seed0 + i * stride;
            Plan p = make_plan(prop, seed);
            std::string msg, cls = run_child(p, msg);
            n++;
            tot["steps"] += sh->steps;
            tot["allocs"] += sh->allocs;
            tot["switches"] += sh->switches;
            tot["regions"] += sh->regions;
            tot["ops"] += sh->ops_done;
            uint64_t rec[3] = {seed, sh->hash, sh->regions ? sh->ilhash : 0};
            hf.write((char*)rec, sizeof rec);
            for (uint64_t k = 0; k < sh->ncnt; ++k) {
                tot[std::string("cnt:") + sh->cnt[k].name] += sh->cnt[k].n;
            }
            if (!cls.empty()) {
                if (cls == "!harness") {
                    harness++;
                }
                vf << seed << "\t" << cls << "\t" << std::hex << sh->hash << std::dec << "\t" << msg << "\n";
                vf.flush();
                if (++nviol >= 5) {
                    break;
                }
            }
        }
        std::ofstream jf(out + ".json");
        jf << "{\"runs\": " << n << ", \"violations\": " << nviol << ", \"harness\": " << harness
           << ", \"wall\": " << now() - t0;
        for (auto& kv : tot) {
            jf << ", \"" << kv.first << "\": " << kv.second;
        }
        jf << "}\n";
        return 0;
    }
    fprintf(stderr, "usage: gen PROP SEED | plan FILE... | batch PROP SEED0 STRIDE COUNT TLIMIT OUT\n");
    return 2;
}

} // namespace sim

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    const char* cpu = getenv("SIM_CPU");
    if (cpu) {
        cpu_set_t cs, old;
        CPU_ZERO(&cs);
        if (sched_getaffinity(0, sizeof old, &old) == 0) {
            int want = atoi(cpu), seen = 0, tot = CPU_COUNT(&old);
            for (int i = 0; i < CPU_SETSIZE; ++i) {
                if (CPU_ISSET(i, &old)) {
                    if (seen++ == want % tot) {
                        CPU_SET(i, &cs);
                        sched_setaffinity(0, sizeof cs, &cs);
                        break;
                    }
                }
            }
        }
    }
    return sim::main_(argc, argv);
}

// ------------------------------------------------------------------ allocation entry points

void* operator new(size_t n)
{
    void* p = sim::sim_alloc(n ? n : 1, 16);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n ? n : 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n ? n : 1, 16); }
void* operator new(size_t n, std::align_val_t a)
{
    void* p = sim::sim_alloc(n ? n : 1, (size_t)a);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }

// calls to malloc & co. made by code compiled into the harness (linked with --wrap)
extern "C" {
void* __wrap_malloc(size_t n) { return sim::sim_alloc(n ? n : 1, 16); }
void __wrap_free(void* p) { sim::sim_free(p); }
void* __wrap_realloc(void* p, size_t n) { return sim::sim_realloc(p, n); }
void* __wrap_calloc(size_t a, size_t b)
{
    void* p = sim::sim_alloc(a * b ? a * b : 1, 16);
    if (p) {
        memset(p, 0, a * b);
    }
    return p;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { return sim::sim_alloc(n ? n : 1, al); }
int __wrap_posix_memalign(void** out, size_t al, size_t n)
{
    void* p = sim::sim_alloc(n ? n : 1, al);
    if (!p) {
        return ENOMEM;
    }
    *out = p;
    return 0;
}
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n) {
        uintptr_t pc = (uintptr_t)__builtin_return_address(0);
        sim::access((void*)s, n, false, false, pc);
        sim::access(d, n, true, false, pc);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n) {
        uintptr_t pc = (uintptr_t)__builtin_return_address(0);
        sim::access((void*)s, n, false, false, pc);
        sim::access(d, n, true, false, pc);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n) {
        sim::access(d, n, true, false, (uintptr_t)__builtin_return_address(0));
    }
    return __real_memset(d, c, n);
}
}
namespace sim {
bool armed_off()
{
    bool a = armed;
    armed = false;
    return a;
}
void armed_on(bool a) { armed = a; }
} // namespace sim
