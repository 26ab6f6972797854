#pragma once
#include "sim.h"
#include <pthread.h>

namespace sim {

enum { MAXT = 64 };
enum State { IDLE = 0, RUNNABLE, BLOCKED };

struct VC {
    uint32_t c[MAXT];
};

struct Team;
struct TaskNode;
struct TaskGroup;

struct Thread {
    int id = 0;
    volatile int go = 0;
    State state = IDLE;
    bool taken = false; // from its start until joined
    pthread_t handle;
    std::function<void()> job;
    std::function<void(Thread*)> on_done;
    int outcome = 0;
    std::string what;
    uint64_t prio = 0;
    VC vc = {};
    // OpenMP context
    Team* team = nullptr;
    int team_id = 0;
    uint64_t ws_count = 0; // work-sharing constructs met in this team
    uint64_t single_count = 0;
    TaskNode* task = nullptr;
    TaskGroup* group = nullptr;
    long chunk_no = -1; // of an ordered loop
};

// explicit tasks
struct TaskNode {
    TaskNode* up = nullptr;
    int kids = 0; // unfinished children
    VC vc = {}; // clocks of the children that ended
};
struct TaskGroup {
    TaskGroup* up = nullptr;
    int open = 0;
    VC vc = {};
};
struct Task {
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    TaskNode* node = nullptr;
    TaskGroup* group = nullptr;
    VC vc = {};
};

struct WorkShare {
    long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
    bool up = true;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool ready = false;
    int finished = 0;
    int kind = 0;
    // ordered loops: chunks handed out, and whose turn it is
    bool ordered = false, down = false;
    long chunks = 0, turn = 0;
    std::vector<char> passed;
    std::vector<Thread*> queue;
};

struct Team {
    int n = 1;
    Thread* parent = nullptr;
    int alive = 0;
    // barrier
    int arrived = 0;
    uint64_t phase = 0;
    VC bvc = {};
    std::vector<Thread*> members;
    std::vector<Thread*> waiting;
    // work sharing
    std::vector<WorkShare> ws;
    std::vector<char> singles;
    void* copy_data = nullptr;
    // explicit tasks
    std::vector<Task> tasks;
    int running = 0;
    std::vector<Thread*> task_waiting;
};

extern Thread* current;
extern bool armed;
Thread* self();
int ctl_team();
int ctl_shrink();
uint64_t sched_rand(uint64_t n);
void note_region(int n);
Thread* spawn(const std::function<void()>& job);
void block_here(Thread* me);
void make_runnable(Thread* t);
void sync_yield();
void reschedule();
void vc_join(VC& a, const VC& b);
void hb_fork(Thread* parent, Thread* child);
void hb_join(Thread* parent, Thread* child);
bool multi();
void team_enter();
void team_leave();
void access(void* p, size_t n, bool write, bool atomic, uintptr_t pc);
[[noreturn]] void die(const char* cls, const char* msg);
void* sim_alloc(size_t n, size_t align);
void sim_free(void* p);
void sync_reset();
void guard_enter();
void guard_leave();

} // namespace sim
