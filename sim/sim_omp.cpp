// The OpenMP runtime of the simulation (replaces libgomp) and the compiler-inserted access callbacks.
#include "sim_int.h"
#include <cstdlib>
#include <cstring>
#include <map>

namespace sim {

namespace {
struct Disarm {
    bool a;
    Disarm() : a(armed) { armed = false; }
    ~Disarm() { armed = a; }
};

// happens-before clocks of locks and atomics
std::map<uintptr_t, VC>* sync_clock = nullptr;
struct Lock {
    Thread* owner = nullptr;
    int depth = 0;
    std::vector<Thread*> waiting;
};
std::map<uintptr_t, Lock>* locks = nullptr;

void init_maps()
{
    if (!sync_clock) {
        sync_clock = new std::map<uintptr_t, VC>();
        locks = new std::map<uintptr_t, Lock>();
    }
}

void acquire_clock(uintptr_t a)
{
    Disarm d;
    init_maps();
    Thread* me = self();
    auto it = sync_clock->find(a);
    if (it != sync_clock->end()) {
        vc_join(me->vc, it->second);
    }
}

void release_clock(uintptr_t a)
{
    Disarm d;
    init_maps();
    Thread* me = self();
    VC& v = (*sync_clock)[a]; // value-initialised
    vc_join(v, me->vc);
    me->vc.c[me->id]++;
}

void lock(uintptr_t a, bool nested)
{
    Thread* me = self();
    if (!me || !multi()) {
        return;
    }
    sync_yield();
    {
        Disarm d;
        init_maps();
        Lock& l = (*locks)[a];
        if (l.owner == me && nested) {
            l.depth++;
            return;
        }
        if (l.owner == me) {
            die("deadlock", "thread acquires a lock it already holds");
        }
        while (l.owner) {
            l.waiting.push_back(me);
            me->state = BLOCKED;
            block_here(me);
        }
        l.owner = me;
        l.depth = 1;
    }
    acquire_clock(a);
}

bool try_lock(uintptr_t a, bool nested)
{
    Thread* me = self();
    if (!me || !multi()) {
        return true;
    }
    sync_yield();
    {
        Disarm d;
        init_maps();
        Lock& l = (*locks)[a];
        if (l.owner && !(l.owner == me && nested)) {
            return false;
        }
    }
    lock(a, nested);
    return true;
}

void unlock(uintptr_t a)
{
    Thread* me = self();
    if (!me || !multi()) {
        return;
    }
    release_clock(a);
    {
        Disarm d;
        init_maps();
        Lock& l = (*locks)[a];
        if (--l.depth > 0) {
            return;
        }
        l.owner = nullptr;
        for (auto* t : l.waiting) {
            make_runnable(t);
        }
        l.waiting.clear();
    }
    sync_yield();
}

// ------------------------------------------------------------------ explicit tasks

TaskNode* task_of(Thread* me)
{
    if (!me->task) {
        me->task = new TaskNode();
    }
    return me->task;
}

void wake_all(std::vector<Thread*>& v)
{
    for (auto* t : v) {
        make_runnable(t);
    }
    v.clear();
}

// run one of the deferred tasks of the team (called disarmed)
void run_task(Thread* me)
{
    Team* t = me->team;
    size_t k = (size_t)sched_rand(t->tasks.size());
    Task q = t->tasks[k];
    t->tasks.erase(t->tasks.begin() + (long)k);
    t->running++;
    TaskNode* on = me->task;
    TaskGroup* og = me->group;
    uint64_t ows = me->ws_count, osc = me->single_count;
    me->task = q.node;
    me->group = q.group;
    uint32_t own = me->vc.c[me->id];
    vc_join(me->vc, q.vc);
    me->vc.c[me->id] = own + 1;
    armed = true;
    try {
        q.fn(q.data);
    }
    catch (...) {
        armed = false;
        die("terminate", "an exception left a task");
    }
    armed = false;
    free(q.data);
    me->task = on;
    me->group = og;
    me->ws_count = ows;
    me->single_count = osc;
    vc_join(q.node->up->vc, me->vc);
    q.node->up->kids--;
    if (q.group) {
        vc_join(q.group->vc, me->vc);
        q.group->open--;
    }
    me->vc.c[me->id]++;
    t->running--;
    wake_all(t->task_waiting);
    if (t->running == 0 && t->tasks.empty()) {
        wake_all(t->waiting);
    }
}

// run tasks until `open` is zero (called disarmed)
void finish_tasks(Thread* me, const int& open)
{
    while (open > 0) {
        if (me->team && !me->team->tasks.empty()) {
            run_task(me);
            continue;
        }
        me->team->task_waiting.push_back(me);
        me->state = BLOCKED;
        block_here(me);
    }
}

void taskwait()
{
    sync_yield();
    Disarm d;
    Thread* me = self();
    if (!me || !me->team || me->team->n <= 1) {
        return;
    }
    TaskNode* n = task_of(me);
    finish_tasks(me, n->kids);
    vc_join(me->vc, n->vc);
    me->vc.c[me->id]++;
}

void task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), size_t size, size_t align, bool now, const std::function<void(char*)>& fix)
{
    Thread* me = self();
    if (align == 0) {
        align = 1;
    }
    bool team = armed && me && me->team && me->team->n > 1;
    if (!team || now || sched_rand(4) == 0) {
        // run on the spot: a legal schedule
        char* buf = (char*)__builtin_alloca(size + align);
        char* a = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        if (cpyfn) {
            cpyfn(a, data);
        }
        else {
            memcpy(a, data, size);
        }
        if (fix) {
            fix(a);
        }
        TaskNode* on = nullptr;
        TaskNode* mine = nullptr;
        if (team) {
            Disarm d;
            on = task_of(me);
            mine = me->task = new TaskNode();
            mine->up = on;
        }
        fn(a);
        if (team) {
            Disarm d;
            me->task = on;
            (void)mine; // deferred children go on, at the latest until the next barrier
        }
        return;
    }
    char* a;
    {
        Disarm d;
        a = (char*)aligned_alloc(align < 16 ? 16 : align, (size + 127) & ~(size_t)63);
    }
    if (cpyfn) {
        cpyfn(a, data);
    }
    else {
        memcpy(a, data, size);
    }
    if (fix) {
        fix(a);
    }
    {
        Disarm d;
        Team* t = me->team;
        Task q;
        q.fn = fn;
        q.data = a;
        q.node = new TaskNode();
        q.node->up = task_of(me);
        q.node->up->kids++;
        q.group = me->group;
        if (q.group) {
            q.group->open++;
        }
        q.vc = me->vc;
        me->vc.c[me->id]++;
        t->tasks.push_back(q);
        wake_all(t->task_waiting);
        wake_all(t->waiting);
    }
    sync_yield();
}

void group_start()
{
    Disarm d;
    Thread* me = self();
    if (!me) {
        return;
    }
    TaskGroup* g = new TaskGroup();
    g->up = me->group;
    me->group = g;
}

void group_end()
{
    sync_yield();
    Disarm d;
    Thread* me = self();
    if (!me || !me->group) {
        return;
    }
    TaskGroup* g = me->group;
    if (me->team && me->team->n > 1) {
        finish_tasks(me, g->open);
        vc_join(me->vc, g->vc);
        me->vc.c[me->id]++;
    }
    me->group = g->up;
}

// before a thread leaves its region
void drain()
{
    Disarm d;
    Thread* me = self();
    if (!me || !me->team) {
        return;
    }
    while (!me->team->tasks.empty()) {
        run_task(me);
    }
    me->task = nullptr;
    me->group = nullptr;
}

void barrier()
{
    Thread* me = self();
    if (!me || !me->team || me->team->n <= 1) {
        return;
    }
    sync_yield();
    Disarm d;
    Team* t = me->team;
    t->arrived++;
    uint64_t ph = t->phase;
    while (t->phase == ph) {
        if (!t->tasks.empty()) {
            run_task(me);
            continue;
        }
        if (t->arrived == t->n && t->running == 0) {
            t->arrived = 0;
            t->phase++;
            VC all = {};
            for (auto* m : t->members) {
                vc_join(all, m->vc);
            }
            for (auto* m : t->members) {
                uint32_t own = m->vc.c[m->id];
                vc_join(m->vc, all);
                m->vc.c[m->id] = own + 1;
            }
            wake_all(t->waiting);
            return;
        }
        t->waiting.push_back(me);
        me->state = BLOCKED;
        block_here(me);
    }
}

void parallel(void (*fn)(void*), void* data, unsigned nthreads)
{
    Thread* me = self();
    bool was = armed;
    int n = nthreads ? (int)nthreads : ctl_team();
    if (!was || !me || me->team || n <= 1 || nthreads == 1) {
        // serial region (also nested parallelism: one level active)
        if (me) {
            Disarm d;
            Team* t = new Team();
            t->n = 1;
            t->members.push_back(me);
            Team* old = me->team;
            int oid = me->team_id;
            uint64_t ow = me->ws_count, os = me->single_count;
            me->team = t;
            me->team_id = 0;
            me->ws_count = me->single_count = 0;
            armed = was;
            fn(data);
            armed = false;
            me->team = old;
            me->team_id = oid;
            me->ws_count = ow;
            me->single_count = os;
            delete t;
            armed = was;
        }
        else {
            fn(data);
        }
        return;
    }
    Team* t;
    {
        Disarm d;
        if (n > ctl_team() && ctl_team() > 1) {
            n = ctl_team();
        }
        if (ctl_shrink()) {
            n = 1 + (int)sched_rand((uint64_t)n);
        }
        note_region(n);
        t = new Team();
        t->n = n;
        t->parent = me;
        t->alive = n - 1;
        t->members.push_back(me);
        me->team = t;
        me->team_id = 0;
        me->ws_count = me->single_count = 0;
        if (n > 1) {
            team_enter();
        }
        for (int i = 1; i < n; ++i) {
            Thread* c = spawn([fn, data]() {
                fn(data);
                drain();
            });
            c->team = t;
            c->team_id = i;
            c->ws_count = c->single_count = 0;
            c->task = nullptr;
            c->group = nullptr;
            t->members.push_back(c);
            c->on_done = [t, me](Thread*) {
                if (--t->alive == 0 && me->state == BLOCKED && me->team == t) {
                    make_runnable(me);
                }
            };
        }
        VC pv = me->vc;
        for (int i = 1; i < n; ++i) {
            Thread* c = t->members[(size_t)i];
            uint32_t own = c->vc.c[c->id];
            uint32_t pc = pv.c[c->id];
            c->vc = pv;
            c->vc.c[c->id] = (own > pc ? own : pc) + 1;
        }
        me->vc.c[me->id]++;
    }
    if (n > 1) {
        // who starts is a scheduling decision: the parent may be scheduled last
        reschedule();
    }
    fn(data);
    drain();
    {
        Disarm d;
        while (t->alive > 0) {
            me->state = BLOCKED;
            armed = true;
            block_here(me);
            armed = false;
        }
        for (int i = 1; i < n; ++i) {
            Thread* c = t->members[(size_t)i];
            vc_join(me->vc, c->vc);
            c->team = nullptr;
            c->taken = false;
            if (c->outcome != Res::OK) {
                die("terminate", "an exception left a parallel region");
            }
        }
        me->vc.c[me->id]++;
        me->team = nullptr;
        if (n > 1) {
            team_leave();
        }
        delete t;
    }
}

WorkShare& workshare(Thread* me)
{
    Team* t = me->team;
    while (t->ws.size() <= me->ws_count) {
        t->ws.emplace_back();
    }
    return t->ws[me->ws_count];
}

Team* solo_team(Thread* me)
{
    // orphaned work-sharing outside any region: team of one
    if (!me->team) {
        Team* t = new Team();
        t->n = 1;
        t->members.push_back(me);
        me->team = t;
        me->ws_count = me->single_count = 0;
    }
    return me->team;
}

// ordered loops: the chunk of this thread is through with its ordered part
void ordered_pass(Thread* me, WorkShare& w)
{
    if (!w.ordered || me->chunk_no < 0) {
        return;
    }
    size_t k = (size_t)me->chunk_no;
    if (w.passed.size() <= k) {
        w.passed.resize(k + 1, 0);
    }
    w.passed[k] = 1;
    while ((size_t)w.turn < w.passed.size() && w.passed[(size_t)w.turn]) {
        w.turn++;
    }
    wake_all(w.queue);
}

void ordered_start()
{
    sync_yield();
    Thread* me = self();
    if (!me || !me->team || me->team->n <= 1) {
        return;
    }
    Team* t = me->team;
    {
        Disarm d;
        long k = me->chunk_no;
        while (workshare(me).turn < k) {
            workshare(me).queue.push_back(me);
            me->state = BLOCKED;
            block_here(me);
        }
    }
    acquire_clock((uintptr_t)t + 1);
}

void ordered_end()
{
    Thread* me = self();
    if (!me || !me->team || me->team->n <= 1) {
        return;
    }
    release_clock((uintptr_t)me->team + 1);
    {
        Disarm d;
        ordered_pass(me, workshare(me));
    }
    sync_yield();
}

unsigned section_next()
{
    long a, b;
    sync_yield();
    Disarm d;
    WorkShare& w = workshare(self());
    (void)a;
    (void)b;
    return w.next < w.end ? (unsigned)++w.next : 0;
}

bool loop_next(long* ps, long* pe)
{
    sync_yield();
    Disarm d;
    Thread* me = self();
    WorkShare& w = workshare(me);
    ordered_pass(me, w);
    if (w.up ? w.next >= w.end : w.next <= w.end) {
        return false;
    }
    long c = w.chunk > 0 ? w.chunk : 1;
    if (w.kind == 2) { // guided
        long left = w.up ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
        long g = (left + me->team->n - 1) / me->team->n;
        c = g > c ? g : c;
    }
    long s = w.next, e = s + c * w.incr;
    if (w.up ? e > w.end : e < w.end) {
        e = w.end;
    }
    w.next = e;
    me->chunk_no = w.chunks++;
    *ps = s;
    *pe = e;
    return true;
}

bool loop_start(long start, long end, long incr, long chunk, long* ps, long* pe, int kind, bool ordered = false)
{
    {
        Disarm d;
        Thread* me = self();
        solo_team(me);
        WorkShare& w = workshare(me);
        if (!w.ready) {
            w.start = w.next = start;
            w.end = end;
            w.incr = incr;
            w.chunk = ordered ? 1 : chunk;
            w.up = incr > 0;
            w.kind = ordered ? 1 : kind;
            w.ordered = ordered;
            w.ready = true;
        }
    }
    return loop_next(ps, pe);
}

bool uloop_next(unsigned long long* ps, unsigned long long* pe)
{
    sync_yield();
    Disarm d;
    Thread* me = self();
    WorkShare& w = workshare(me);
    ordered_pass(me, w);
    unsigned long long c = w.uchunk ? w.uchunk : 1;
    unsigned long long s = w.unext, e;
    if (w.down) {
        if (s <= w.uend) {
            return false;
        }
        unsigned long long dec = c * (0 - w.uincr);
        e = s - w.uend < dec ? w.uend : s - dec;
    }
    else {
        if (s >= w.uend) {
            return false;
        }
        unsigned long long inc = c * w.uincr;
        e = w.uend - s < inc ? w.uend : s + inc;
    }
    w.unext = e;
    me->chunk_no = w.chunks++;
    *ps = s;
    *pe = e;
    return true;
}

bool uloop_start(
    bool up,
    unsigned long long start,
    unsigned long long end,
    unsigned long long incr,
    unsigned long long chunk,
    unsigned long long* ps,
    unsigned long long* pe,
    bool ordered = false
)
{
    {
        Disarm d;
        Thread* me = self();
        solo_team(me);
        WorkShare& w = workshare(me);
        if (!w.ready) {
            w.unext = start;
            w.uend = end;
            w.uincr = incr;
            w.uchunk = ordered ? 1 : chunk;
            w.down = !up;
            w.ordered = ordered;
            w.ready = true;
        }
    }
    return uloop_next(ps, pe);
}

void loop_end(bool wait)
{
    Thread* me = self();
    me->ws_count++;
    me->chunk_no = -1;
    if (wait) {
        barrier();
    }
}

} // namespace

void sync_reset()
{
    if (sync_clock) {
        sync_clock->clear();
        locks->clear();
    }
}

} // namespace sim

using namespace sim;

extern "C" {

int omp_get_thread_num(void)
{
    Thread* t = self();
    return t && t->team ? t->team_id : 0;
}
int omp_get_num_threads(void)
{
    Thread* t = self();
    return t && t->team ? t->team->n : 1;
}
int omp_get_max_threads(void) { return armed ? ctl_team() : 1; }
int omp_get_num_procs(void) { return armed ? ctl_team() : 1; }
int omp_in_parallel(void)
{
    Thread* t = self();
    return t && t->team && t->team->n > 1;
}
int omp_get_level(void)
{
    Thread* t = self();
    return t && t->team ? 1 : 0;
}
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return 32; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return 0.0; }
typedef struct {
    void* x;
} omp_lock_t_;
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock((uintptr_t)l, false); }
void omp_unset_lock(void* l) { unlock((uintptr_t)l); }
int omp_test_lock(void* l) { return try_lock((uintptr_t)l, false); }
int omp_test_nest_lock(void* l) { return try_lock((uintptr_t)l, true); }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels(void) { return 1; }
int omp_get_ancestor_thread_num(int level) { return level == 0 ? 0 : level == omp_get_level() ? omp_get_thread_num() : -1; }
int omp_get_team_size(int level) { return level == 0 ? 1 : level == omp_get_level() ? omp_get_num_threads() : -1; }
int omp_in_final(void) { return 0; }
int omp_get_cancellation(void) { return 0; }
int omp_get_num_places(void) { return 0; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_get_num_devices(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
double omp_get_wtick(void) { return 1e-9; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c)
{
    *k = 2;
    *c = 1;
}
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lock((uintptr_t)l, true); }
void omp_unset_nest_lock(void* l) { unlock((uintptr_t)l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    parallel(fn, data, n);
    return 1;
}
void GOMP_barrier(void) { barrier(); }

static char crit;
void GOMP_critical_start(void) { lock((uintptr_t)&crit, false); }
void GOMP_critical_end(void) { unlock((uintptr_t)&crit); }
void GOMP_critical_name_start(void** p) { lock((uintptr_t)p, false); }
void GOMP_critical_name_end(void** p) { unlock((uintptr_t)p); }
static char atom;
void GOMP_atomic_start(void) { lock((uintptr_t)&atom, false); }
void GOMP_atomic_end(void) { unlock((uintptr_t)&atom); }

bool GOMP_single_start(void)
{
    sync_yield();
    Disarm d;
    Thread* me = self();
    if (!me || !me->team) {
        return true;
    }
    uint64_t k = me->single_count++;
    auto& s = me->team->singles;
    while (s.size() <= k) {
        s.push_back(0);
    }
    if (s[k]) {
        return false;
    }
    s[k] = 1;
    return true;
}
void* GOMP_single_copy_start(void)
{
    if (GOMP_single_start()) {
        return nullptr;
    }
    barrier();
    return self()->team->copy_data;
}
void GOMP_single_copy_end(void* data)
{
    self()->team->copy_data = data;
    barrier();
}
void GOMP_ordered_start(void) { ordered_start(); }
void GOMP_ordered_end(void) { ordered_end(); }
void GOMP_taskwait(void) { taskwait(); }
void GOMP_taskwait_depend(void**) { taskwait(); }
void GOMP_taskwait_depend_nowait(void**) { taskwait(); }
void GOMP_taskyield(void) { sync_yield(); }
void GOMP_taskgroup_start(void) { group_start(); }
void GOMP_taskgroup_end(void) { group_end(); }
bool GOMP_barrier_cancel(void)
{
    barrier();
    return false;
}
bool GOMP_loop_end_cancel(void)
{
    loop_end(true);
    return false;
}
bool GOMP_sections_end_cancel(void)
{
    loop_end(true);
    return false;
}
void GOMP_sections_end(void) { loop_end(true); }
void GOMP_sections_end_nowait(void) { loop_end(false); }
unsigned GOMP_sections_next(void) { return section_next(); }
unsigned GOMP_sections_start(unsigned count)
{
    {
        Disarm d;
        Thread* me = self();
        solo_team(me);
        WorkShare& w = workshare(me);
        if (!w.ready) {
            w.next = 0;
            w.end = (long)count;
            w.ready = true;
        }
    }
    return section_next();
}
unsigned GOMP_sections2_start(unsigned count, uintptr_t*, void**) { return GOMP_sections_start(count); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    struct A {
        void (*fn)(void*);
        void* data;
        unsigned count;
    } a{fn, data, count};
    parallel(
        [](void* p) {
            A* a = (A*)p;
            {
                Disarm d;
                WorkShare& w = workshare(self());
                if (!w.ready) {
                    w.next = 0;
                    w.end = (long)a->count;
                    w.ready = true;
                }
            }
            a->fn(a->data);
        },
        &a,
        n
    );
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool if_clause, unsigned flags, void**, int, void*)
{
    bool depend = flags & 8;
    if (depend) {
        taskwait(); // in order: a legal schedule
    }
    task(fn, data, cpyfn, (size_t)size, (size_t)align, !if_clause || (flags & 2) || depend, nullptr);
}
#define TASKLOOP(NAME, T, UP)                                                                       \
    void NAME(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, T start, T end, T step) \
    {                                                                                               \
        if (flags & (1 << 12)) {                                                                    \
            die("unsupported", "reduction over a task loop");                                       \
        }                                                                                           \
        bool up = UP;                                                                               \
        T n = up ? (end - start + step - 1) / step : (start - end - step - 1) / (0 - step);         \
        if (up ? start >= end : start <= end) {                                                     \
            return;                                                                                 \
        }                                                                                           \
        T per = 1;                                                                                  \
        if (num) {                                                                                  \
            per = (flags & (1 << 9)) ? (T)num : (n + (T)num - 1) / (T)num;                          \
        }                                                                                           \
        if (!(flags & (1 << 11))) {                                                                 \
            group_start();                                                                          \
        }                                                                                           \
        for (T k = 0; k < n; k += per) {                                                            \
            T a = start + k * step, b = k + per < n ? start + (k + per) * step : end;               \
            task(fn, data, cpyfn, (size_t)size, (size_t)align, !(flags & (1 << 10)) || (flags & 2), [a, b](char* p) { \
                ((T*)p)[0] = a;                                                                     \
                ((T*)p)[1] = b;                                                                     \
            });                                                                                     \
        }                                                                                           \
        if (!(flags & (1 << 11))) {                                                                 \
            group_end();                                                                            \
        }                                                                                           \
    }
TASKLOOP(GOMP_taskloop, long, step > 0)
TASKLOOP(GOMP_taskloop_ull, unsigned long long, (flags & (1 << 8)) != 0)

#define LOOPS(KIND, K)                                                                              \
    bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* ps, long* pe)               \
    {                                                                                               \
        return loop_start(s, e, i, c, ps, pe, K);                                                   \
    }                                                                                               \
    bool GOMP_loop_##KIND##_next(long* ps, long* pe) { return loop_next(ps, pe); }                  \
    void GOMP_parallel_loop_##KIND(                                                                 \
        void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned         \
    );                                                                                              \
    bool GOMP_loop_ull_##KIND##_start(                                                              \
        bool up,                                                                                    \
        unsigned long long s,                                                                       \
        unsigned long long e,                                                                       \
        unsigned long long i,                                                                       \
        unsigned long long c,                                                                       \
        unsigned long long* ps,                                                                     \
        unsigned long long* pe                                                                      \
    )                                                                                               \
    {                                                                                               \
        return uloop_start(up, s, e, i, c, ps, pe);                                                 \
    }                                                                                               \
    bool GOMP_loop_ull_##KIND##_next(unsigned long long* ps, unsigned long long* pe)                \
    {                                                                                               \
        return uloop_next(ps, pe);                                                                  \
    }                                                                                               \
    void GOMP_parallel_loop_##KIND(                                                                 \
        void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned         \
    )                                                                                               \
    {                                                                                               \
        struct A {                                                                                  \
            void (*fn)(void*);                                                                      \
            void* data;                                                                             \
            long s, e, i, c;                                                                        \
        } a{fn, data, s, e, i, c};                                                                  \
        parallel(                                                                                   \
            [](void* p) {                                                                           \
                A* a = (A*)p;                                                                       \
                {                                                                                   \
                    bool w = armed;                                                                 \
                    armed = false;                                                                  \
                    WorkShare& ws = workshare(self());                                              \
                    if (!ws.ready) {                                                                \
                        ws.start = ws.next = a->s;                                                  \
                        ws.end = a->e;                                                              \
                        ws.incr = a->i;                                                             \
                        ws.chunk = a->c;                                                            \
                        ws.up = a->i > 0;                                                           \
                        ws.kind = K;                                                                \
                        ws.ready = true;                                                            \
                    }                                                                               \
                    armed = w;                                                                      \
                }                                                                                   \
                a->fn(a->data);                                                                     \
            },                                                                                      \
            &a,                                                                                     \
            n                                                                                       \
        );                                                                                          \
    }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)

#define RLOOPS(KIND)                                                                                \
    bool GOMP_loop_##KIND##_start(long s, long e, long i, long* ps, long* pe)                       \
    {                                                                                               \
        return loop_start(s, e, i, 1, ps, pe, 1);                                                   \
    }                                                                                               \
    bool GOMP_loop_##KIND##_next(long* ps, long* pe) { return loop_next(ps, pe); }                  \
    bool GOMP_loop_ull_##KIND##_start(                                                              \
        bool up,                                                                                    \
        unsigned long long s,                                                                       \
        unsigned long long e,                                                                       \
        unsigned long long i,                                                                       \
        unsigned long long* ps,                                                                     \
        unsigned long long* pe                                                                      \
    )                                                                                               \
    {                                                                                               \
        return uloop_start(up, s, e, i, 1, ps, pe);                                                 \
    }                                                                                               \
    bool GOMP_loop_ull_##KIND##_next(unsigned long long* ps, unsigned long long* pe)                \
    {                                                                                               \
        return uloop_next(ps, pe);                                                                  \
    }                                                                                               \
    void GOMP_parallel_loop_##KIND(                                                                 \
        void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f               \
    )                                                                                               \
    {                                                                                               \
        GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);                                     \
    }
#define OLOOPS(KIND)                                                                                \
    bool GOMP_loop_ordered_##KIND##_start(long s, long e, long i, long c, long* ps, long* pe)       \
    {                                                                                               \
        return loop_start(s, e, i, c, ps, pe, 1, true);                                             \
    }                                                                                               \
    bool GOMP_loop_ordered_##KIND##_next(long* ps, long* pe) { return loop_next(ps, pe); }          \
    bool GOMP_loop_ull_ordered_##KIND##_start(                                                      \
        bool up,                                                                                    \
        unsigned long long s,                                                                       \
        unsigned long long e,                                                                       \
        unsigned long long i,                                                                       \
        unsigned long long c,                                                                       \
        unsigned long long* ps,                                                                     \
        unsigned long long* pe                                                                      \
    )                                                                                               \
    {                                                                                               \
        return uloop_start(up, s, e, i, c, ps, pe, true);                                           \
    }                                                                                               \
    bool GOMP_loop_ull_ordered_##KIND##_next(unsigned long long* ps, unsigned long long* pe)        \
    {                                                                                               \
        return uloop_next(ps, pe);                                                                  \
    }
OLOOPS(static)
OLOOPS(dynamic)
OLOOPS(guided)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* ps, long* pe) { return loop_start(s, e, i, 1, ps, pe, 1, true); }
bool GOMP_loop_ordered_runtime_next(long* ps, long* pe) { return loop_next(ps, pe); }
RLOOPS(runtime)
RLOOPS(maybe_nonmonotonic_runtime)
RLOOPS(nonmonotonic_runtime)

void GOMP_loop_end(void) { loop_end(true); }
void GOMP_loop_end_nowait(void) { loop_end(false); }

// ------------------------------------------------------------------ function-local statics

int __wrap___cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    for (;;) {
        if (b[0]) {
            if (self() && multi()) {
                acquire_clock((uintptr_t)g);
            }
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            guard_enter();
            return 1;
        }
        // another simulated thread is initialising: let it run
        Thread* me = self();
        me->prio = 0;
        reschedule();
    }
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (self() && multi()) {
        release_clock((uintptr_t)g);
    }
    b[0] = 1;
    b[1] = 0;
    guard_leave();
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    ((uint8_t*)g)[1] = 0;
    guard_leave();
}

// ------------------------------------------------------------------ compiler-inserted callbacks

#define PC (uintptr_t) __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void** p, void* v)
{
    // memory of the real heap (exception objects) may hold leftovers of another process: nothing may depend on it
    if (!heap_live(p, sizeof(void*)) || *p != v) {
        access(p, sizeof(void*), true, false, PC);
    }
}
void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
#define RW(N)                                                                                       \
    void __tsan_read##N(void* p) { access(p, N, false, false, PC); }                                \
    void __tsan_write##N(void* p) { access(p, N, true, false, PC); }                                \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); }                      \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); }                      \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); }                       \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); }                       \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, false, PC); }             \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, false, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 both, 5 sequentially consistent
static inline void at_pre(volatile void* p, size_t n, bool write, uintptr_t pc, int mo)
{
    access((void*)p, n, write, true, pc);
    if (mo != 0 && mo != 3 && armed && self() && multi()) {
        acquire_clock((uintptr_t)p);
    }
}
static inline void at_post(volatile void* p, int mo)
{
    if (mo >= 3 && armed && self() && multi()) {
        release_clock((uintptr_t)p);
    }
}
#define AT(BITS, T)                                                                                 \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                                          \
    {                                                                                               \
        at_pre((volatile void*)p, sizeof(T), false, PC, mo);                                          \
        return *p;                                                                                  \
    }                                                                                               \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)                                       \
    {                                                                                               \
        at_pre(p, sizeof(T), true, PC, mo);                                                             \
        *p = v;                                                                                     \
        at_post(p, mo);                                                                                 \
    }                                                                                               \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo)                                       \
    {                                                                                               \
        at_pre(p, sizeof(T), true, PC, mo);                                                             \
        T o = *p;                                                                                   \
        *p = v;                                                                                     \
        at_post(p, mo);                                                                                 \
        return o;                                                                                   \
    }                                                                                               \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int)           \
    {                                                                                               \
        at_pre(p, sizeof(T), true, PC, mo);                                                             \
        T o = *p;                                                                                   \
        int ok = o == *c;                                                                           \
        if (ok) {                                                                                   \
            *p = v;                                                                                 \
        }                                                                                           \
        else {                                                                                      \
            *c = o;                                                                                 \
        }                                                                                           \
        at_post(p, mo);                                                                                 \
        return ok;                                                                                  \
    }                                                                                               \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b)         \
    {                                                                                               \
        return __tsan_atomic##BITS##_compare_exchange_strong(p, c, v, a, b);                        \
    }                                                                                               \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int mo, int)                 \
    {                                                                                               \
        at_pre(p, sizeof(T), true, PC, mo);                                                             \
        T o = *p;                                                                                   \
        if (o == c) {                                                                               \
            *p = v;                                                                                 \
        }                                                                                           \
        at_post(p, mo);                                                                                 \
        return o;                                                                                   \
    }
#define ATOP(BITS, T, NAME, EXPR)                                                                   \
    T __tsan_atomic##BITS##_fetch_##NAME(volatile T* p, T v, int mo)                                   \
    {                                                                                               \
        at_pre(p, sizeof(T), true, PC, mo);                                                             \
        T o = *p;                                                                                   \
        *p = (T)(EXPR);                                                                             \
        at_post(p, mo);                                                                                 \
        return o;                                                                                   \
    }
#define ATALL(BITS, T)                                                                              \
    AT(BITS, T)                                                                                     \
    ATOP(BITS, T, add, o + v)                                                                       \
    ATOP(BITS, T, sub, o - v)                                                                       \
    ATOP(BITS, T, and, o& v)                                                                        \
    ATOP(BITS, T, or, o | v)                                                                        \
    ATOP(BITS, T, xor, o ^ v)                                                                       \
    ATOP(BITS, T, nand, ~(o & v))
ATALL(8, unsigned char)
ATALL(16, unsigned short)
ATALL(32, unsigned)
ATALL(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// pthread mutexes of code under test (none in the pinned tree)
int __wrap_pthread_mutex_lock(void* m)
{
    lock((uintptr_t)m, false);
    return 0;
}
int __wrap_pthread_mutex_unlock(void* m)
{
    unlock((uintptr_t)m);
    return 0;
}
int __wrap_pthread_mutex_trylock(void* m) { return try_lock((uintptr_t)m, false) ? 0 : 16; }
// readers one at a time: a legal schedule
int __wrap_pthread_rwlock_rdlock(void* m)
{
    lock((uintptr_t)m, true);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(void* m)
{
    lock((uintptr_t)m, false);
    return 0;
}
int __wrap_pthread_rwlock_tryrdlock(void* m) { return try_lock((uintptr_t)m, true) ? 0 : 16; }
int __wrap_pthread_rwlock_trywrlock(void* m) { return try_lock((uintptr_t)m, false) ? 0 : 16; }
int __wrap_pthread_rwlock_unlock(void* m)
{
    unlock((uintptr_t)m);
    return 0;
}
int __wrap_pthread_once(int* o, void (*f)(void))
{
    uintptr_t key = (uintptr_t)o;
    lock(key, true);
    if (*o != 2) {
        f(); // an exception leaves it undone
        *o = 2;
    }
    unlock(key);
    return 0;
}
}
