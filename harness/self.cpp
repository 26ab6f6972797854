// World "self": the simulator tested on itself (not a check: see tools/selftest.sh).
// Property OK: correct uses of every OpenMP construct and lock, no violation whatever the schedule.
// Property RACE / LOST / DEAD ...: one defect each, which has to be found.
#include "common.h"
#include <algorithm>
#include <atomic>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#ifdef _OPENMP
#include <omp.h>
#endif

const char* sim::world_name = "self";

namespace {

std::vector<int> hits(size_t n) { return std::vector<int>(n, 0); }

void once_each(const std::vector<int>& a, const char* what)
{
    for (auto x : a) {
        if (x != 1) {
            sim::violate("self", std::string(what) + ": not executed exactly once");
        }
    }
}

void must(bool ok, const char* what)
{
    if (!ok) {
        sim::violate("self", what);
    }
}

void sections(size_t n)
{
    std::vector<int> a(5, 0);
#pragma omp parallel num_threads(3)
    {
#pragma omp sections
        {
#pragma omp section
            a[0] += 1;
#pragma omp section
            a[1] += 1;
#pragma omp section
            a[2] += 1;
        }
#pragma omp sections nowait
        {
#pragma omp section
            a[3] += a[0];
#pragma omp section
            a[4] += a[1];
        }
    }
#pragma omp parallel sections
    {
#pragma omp section
        a[0] += (int)n - (int)n;
#pragma omp section
        a[1] += 0;
    }
    once_each(a, "sections");
}

void ordered(size_t n)
{
    std::vector<size_t> seen;
    auto h = hits(n);
#pragma omp parallel for ordered schedule(dynamic, 2)
    for (size_t i = 0; i < n; ++i) {
        h[i]++;
#pragma omp ordered
        seen.push_back(i);
    }
    once_each(h, "ordered loop");
    must(seen.size() == n, "ordered: length");
    for (size_t i = 0; i < n; ++i) {
        must(seen[i] == i, "ordered: order");
    }
    seen.clear();
#pragma omp parallel for ordered
    for (long i = (long)n - 1; i >= 0; --i) {
        if (i % 3 != 1) { // some iterations have no ordered part
#pragma omp ordered
            seen.push_back((size_t)i);
        }
    }
    for (size_t i = 1; i < seen.size(); ++i) {
        must(seen[i] < seen[i - 1], "ordered: order, downward");
    }
}

void down(size_t n)
{
    auto h = hits(n);
#pragma omp parallel for schedule(dynamic, 3)
    for (size_t i = n; i > 0; i--) {
        h[i - 1]++;
    }
    once_each(h, "downward loop");
    auto g = hits(n);
#pragma omp parallel for schedule(guided)
    for (size_t i = n; i > 1; i -= 2) {
        g[i - 1]++;
        g[i - 2]++;
    }
    if (n % 2) {
        g[0]++;
    }
    once_each(g, "downward loop by two");
}

void sum_tasks(const std::vector<int>& a, size_t i, size_t j, long& out)
{
    if (j - i < 3) {
        out = std::accumulate(a.begin() + (long)i, a.begin() + (long)j, 0L);
        return;
    }
    size_t m = (i + j) / 2;
    long x = 0, y = 0;
#pragma omp task shared(x, a)
    sum_tasks(a, i, m, x);
#pragma omp task shared(y, a)
    sum_tasks(a, m, j, y);
#pragma omp taskwait
    out = x + y;
}

void tasks(size_t n)
{
    std::vector<int> a(n);
    std::iota(a.begin(), a.end(), 1);
    long s = 0;
#pragma omp parallel
#pragma omp single
    sum_tasks(a, 0, n, s);
    must(s == (long)(n * (n + 1) / 2), "recursive tasks");

    auto h = hits(n);
#pragma omp parallel
    {
#pragma omp single nowait
        for (size_t i = 0; i < n; ++i) {
#pragma omp task firstprivate(i) shared(h)
            h[i]++;
        }
    }
    once_each(h, "tasks completed by the end of the region");

    auto g = hits(n);
    bool all = true;
#pragma omp parallel
#pragma omp master
    {
#pragma omp taskgroup
        {
            for (size_t i = 0; i < n; ++i) {
                std::vector<int> w(i + 1, (int)i); // copied into the task
#pragma omp task firstprivate(w, i) shared(g)
                {
#pragma omp task firstprivate(i) shared(g)
                    g[i] += w.size() == i + 1 ? 1 : 100;
                }
            }
        }
        for (auto x : g) {
            all = all && x == 1;
        }
    }
    must(all, "task group");

    auto t = hits(n);
    auto u = hits(n);
    bool done = true;
#pragma omp parallel
#pragma omp single
    {
#pragma omp taskloop grainsize(2)
        for (size_t i = 0; i < n; ++i) {
            t[i]++;
        }
#pragma omp taskloop num_tasks(3)
        for (int i = (int)n - 1; i >= 0; --i) {
            u[(size_t)i] += t[(size_t)i];
        }
        for (auto x : u) {
            done = done && x == 1;
        }
    }
    once_each(t, "task loop");
    must(done, "task loop, downward");

    int ordered_by_barrier = 0, seen = 0;
#pragma omp parallel
    {
#pragma omp single nowait
        {
#pragma omp task shared(ordered_by_barrier)
            ordered_by_barrier = 7;
        }
#pragma omp barrier
#pragma omp single
        seen = ordered_by_barrier;
    }
    must(seen == 7, "barrier completes tasks");

    int chain = 0;
#pragma omp parallel
#pragma omp single
    {
#pragma omp task depend(out : chain) shared(chain)
        chain = 3;
#pragma omp task depend(inout : chain) shared(chain)
        chain *= 5;
#pragma omp task depend(in : chain) shared(chain, seen)
        seen = chain;
#pragma omp taskwait
    }
    must(seen == 15, "task dependences");
}

void locks(size_t n)
{
    long a = 0, b = 0, c = 0, d = 0, e = 0;
    std::mutex m;
    std::shared_mutex sm;
    std::once_flag f;
    std::atomic<long> at(0);
    std::atomic<int> flag(0);
    long payload = 0, got = 0;
#ifdef _OPENMP
    omp_lock_t l;
    omp_init_lock(&l);
#endif
#pragma omp parallel for schedule(static, 1)
    for (size_t i = 0; i < n; ++i) {
#ifdef _OPENMP
        while (!omp_test_lock(&l)) {
        }
        a++;
        omp_unset_lock(&l);
#else
        a++;
#endif
        {
            std::lock_guard<std::mutex> g(m);
            b++;
        }
        if (m.try_lock()) {
            c++;
            m.unlock();
        }
        std::call_once(f, [&]() { d++; });
        {
            std::shared_lock<std::shared_mutex> g(sm);
            volatile long x = e;
            (void)x;
        }
        {
            std::unique_lock<std::shared_mutex> g(sm);
            e++;
        }
        at.fetch_add(1, std::memory_order_relaxed);
    }
    must(a == (long)n && b == (long)n && e == (long)n && at == (long)n && d == 1, "locks");
    must(c <= (long)n, "try_lock");

#pragma omp parallel sections
    {
#pragma omp section
        {
            payload = 42;
            flag.store(1, std::memory_order_release);
        }
#pragma omp section
        {
            for (int k = 0; k < 50; ++k) {
                if (flag.load(std::memory_order_acquire)) {
                    got = payload;
                    break;
                }
            }
        }
    }
    must(got == 0 || got == 42, "release and acquire");
}

void red(size_t n)
{
    long s = 0;
    double lo = 1e9;
#pragma omp parallel for reduction(+ : s) reduction(min : lo) schedule(dynamic)
    for (size_t i = 0; i < n; ++i) {
        s += (long)i;
        lo = std::min(lo, (double)i);
    }
    must(s == (long)(n * (n - 1) / 2) && lo == 0, "reduction");
    long t = 0, u = 0;
    double x = 0;
#pragma omp parallel
    {
#pragma omp for nowait
        for (size_t i = 0; i < n; ++i) {
#pragma omp atomic
            t += 1;
#pragma omp critical
            u += 1;
#pragma omp atomic
            x += 0.5;
        }
        long v;
#pragma omp single copyprivate(v)
        v = 9;
        if (v != 9) {
#pragma omp atomic
            t += 1000;
        }
    }
    must(t == (long)n && u == (long)n && x == 0.5 * (double)n, "atomic and critical");
    auto h = hits(n * 3);
#pragma omp parallel for collapse(2) schedule(runtime)
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < 3; ++j) {
            h[i * 3 + j]++;
        }
    }
    once_each(h, "collapsed loop");
}

// ------------------------------------------------------------------ defects

struct Shared {
    int a = 0, b = 0;
};

void bad(const std::string& p, size_t n)
{
    std::vector<int> v(n, 0);
    std::vector<size_t> seen;
    long s = 0;
    if (p == "RACE1") { // plain counter
#pragma omp parallel for
        for (size_t i = 0; i < n; ++i) {
            s++;
        }
    }
    else if (p == "RACE2") { // nowait, then the result of another member
#pragma omp parallel
        {
#pragma omp for nowait
            for (size_t i = 0; i < n; ++i) {
                v[i] = 1;
            }
#pragma omp for
            for (size_t i = 0; i < n; ++i) {
                volatile int x = v[n - 1 - i];
                (void)x;
            }
        }
    }
    else if (p == "RACE3") { // no taskwait
#pragma omp parallel
#pragma omp single
        {
#pragma omp task shared(v)
            v[0] = 1;
            s = v[0];
        }
    }
    else if (p == "RACE4") { // two sibling tasks
#pragma omp parallel
#pragma omp single
        {
#pragma omp task shared(s)
            s++;
#pragma omp task shared(s)
            s++;
        }
    }
    else if (p == "RACE5") { // relaxed publication
        std::atomic<int> flag(0);
        long payload = 0, got = 0;
#pragma omp parallel sections
        {
#pragma omp section
            {
                payload = 42;
                flag.store(1, std::memory_order_relaxed);
            }
#pragma omp section
            {
                for (int k = 0; k < 50; ++k) {
                    if (flag.load(std::memory_order_relaxed)) {
                        got = payload;
                        break;
                    }
                }
            }
        }
        (void)got;
    }
    else if (p == "RACE6") { // sections
#pragma omp parallel sections
        {
#pragma omp section
            s++;
#pragma omp section
            s++;
        }
    }
    else if (p == "RACE7") { // different locks
        std::mutex m1, m2;
#pragma omp parallel for
        for (size_t i = 0; i < n; ++i) {
            std::lock_guard<std::mutex> g(i % 2 ? m1 : m2);
            s++;
        }
    }
    else if (p == "RACE8") { // the group does not wait for what was created outside of it
#pragma omp parallel
#pragma omp single
        {
#pragma omp task shared(v)
            v[0] = 1;
#pragma omp taskgroup
            {
#pragma omp task shared(v)
                v[1] = 1;
            }
            s = v[0];
        }
    }
    else if (p == "ORDER") { // assumes static order
#pragma omp parallel for
        for (size_t i = 0; i < n; ++i) {
#pragma omp critical
            seen.push_back(i);
        }
        for (size_t i = 0; i < seen.size(); ++i) {
            must(seen[i] == i, "order assumed");
        }
    }
    else if (p == "LOST") { // read and write are protected, not the two together
#pragma omp parallel for
        for (size_t i = 0; i < n; ++i) {
            long x;
#pragma omp atomic read
            x = s;
            x++;
#pragma omp atomic write
            s = x;
        }
        must(s == (long)n, "lost update");
    }
    else if (p == "DEAD") {
        std::mutex m1, m2;
#pragma omp parallel for schedule(static, 1)
        for (size_t i = 0; i < n; ++i) {
            std::lock_guard<std::mutex> g(i % 2 ? m1 : m2);
            std::lock_guard<std::mutex> h(i % 2 ? m2 : m1);
            s++;
        }
    }
    else if (p == "OUT") { // one past the end
        volatile int x = v.data()[n];
        (void)x;
    }
    else if (p == "UNINIT") { // contents of fresh memory
        std::unique_ptr<double[]> q(new double[n]);
        must(q[n / 2] == 0.0, "uninitialised");
    }
}

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    for (int k = 0; k < 6; ++k) {
        Op op;
        op.name = "x";
        op.seed = r.next() >> 20;
        op.a = {(int64_t)(4 + r.below(20))};
        op.ctl = random_ctl(r, true, false);
        if (p.prop != "OK" && op.ctl.team < 2) {
            op.ctl.team = 4;
        }
        p.ops.push_back(op);
    }
}

void sim::world_execute(const Plan& p)
{
    void (*fs[])(size_t) = {sections, ordered, tasks, locks, red, down};
    for (size_t i = 0; i < p.ops.size(); ++i) {
        Ctl c = sim::op_ctl(p, i);
        size_t n = (size_t)p.ops[i].a[0];
        sim::run(c, [&]() {
            if (p.prop == "OK") {
                fs[p.ops[i].seed % 6](n);
            }
            else {
                bad(p.prop, n);
            }
        });
    }
}
