// World "iter": the residual list of an iteration (C14), copies of it (C16).
#include "common.h"
#include <GooseFEM/Iterate.h>

const char* sim::world_name = "iter";

namespace {

using GooseFEM::Iterate::StopList;
const double inf = std::numeric_limits<double>::infinity();
const double nan_ = std::numeric_limits<double>::quiet_NaN();

struct Obj {
    std::unique_ptr<StopList> l;
    size_t n = 1; // reference: number of residuals to remember
    std::vector<double> series; // reference: everything added since the last reset
    std::vector<double> want() const
    {
        std::vector<double> r;
        for (size_t i = 0; i < n; ++i) {
            size_t back = n - i; // the back-th last
            r.push_back(back <= series.size() ? series[series.size() - back] : inf);
        }
        return r;
    }
};

struct World {
    const Plan& plan;
    std::vector<Obj> objs;
    explicit World(const Plan& p) : plan(p) {}

    bool done(const Res& r, const std::string& n)
    {
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            return false;
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        return true;
    }
    static Ctl safe(const Ctl& c)
    {
        Ctl o = c;
        o.fail = -1;
        return o;
    }

    size_t length(Rng& r)
    {
        static const size_t s[] = {1, 1, 2, 3, 4, 5, 8, 17, 64};
        if (r.chance(0.03)) {
            return 0;
        }
        if (r.chance(0.01)) {
            return 250 + r.below(1000);
        }
        return r.chance(0.7) ? s[r.below(9)] : 1 + r.below(40);
    }

    double residual(Rng& r, const Obj& o)
    {
        double u = r.unit();
        bool has = !o.series.empty();
        double last = has ? o.series.back() : 1.0;
        if (u < 0.35) {
            return std::isfinite(last) ? last * r.real(0.1, 1.0) : r.real(0, 1); // converging
        }
        if (u < 0.5) {
            return last; // stalled
        }
        if (u < 0.6) {
            return std::isfinite(last) ? std::nextafter(last, r.chance(0.5) ? inf : -inf) : 1e-5;
        }
        if (u < 0.65) {
            return inf;
        }
        if (u < 0.68) {
            return nan_;
        }
        if (u < 0.72) {
            return 0.0;
        }
        if (u < 0.74) {
            return -0.0;
        }
        if (u < 0.76) {
            return -r.real(0, 1);
        }
        if (u < 0.78) {
            return 5e-324;
        }
        return std::pow(10.0, r.real(-12, 3));
    }

    double tolerance(Rng& r, const std::vector<double>& w)
    {
        double u = r.unit();
        if (!w.empty() && u < 0.5) {
            double v = w[r.below(w.size())];
            return u < 0.2 ? v : u < 0.35 ? std::nextafter(v, inf) : std::nextafter(v, -inf);
        }
        if (u < 0.55) {
            return inf;
        }
        if (u < 0.58) {
            return nan_;
        }
        if (u < 0.62) {
            return 0;
        }
        return std::pow(10.0, r.real(-12, 4));
    }

    static bool same(double a, double b)
    {
        return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
    }

    // everything that can be observed of a list
    void check(const Obj& o, const Ctl& c, Rng& r, const std::string& after)
    {
        auto w = o.want();
        std::vector<double> got, old;
        std::vector<double> tol;
        for (int i = 0; i < 4; ++i) {
            tol.push_back(tolerance(r, w));
        }
        bool desc = false;
        std::vector<char> less;
        Res res = sim::run(safe(c), [&]() {
            got = o.l->data();
            old = o.l->get();
            desc = o.l->descending();
            for (double t : tol) {
                less.push_back(o.l->all_less(t));
            }
        });
        done(res, "queries");
        if (got.size() != o.n || old.size() != o.n) {
            violate("wrong-shape", SAY("the list holds " << got.size() << " residuals, expected " << o.n << " after " << after));
        }
        for (size_t i = 0; i < o.n; ++i) {
            sim::mix_double(got[i]);
            if (!same(got[i], w[i]) || !same(old[i], w[i])) {
                violate("wrong-value", SAY("residual " << i << " of " << o.n << " is " << got[i] << ", expected " << w[i] << " after " << after));
            }
        }
        bool d = true;
        for (size_t i = 1; i < w.size(); ++i) {
            d = d && !(w[i] > w[i - 1]);
        }
        if (desc != d) {
            violate("wrong-value", SAY("descending is " << desc << " after " << after));
        }
        for (size_t k = 0; k < tol.size(); ++k) {
            bool a = true;
            for (double v : w) {
                a = a && v < tol[k];
            }
            if ((bool)less[k] != a) {
                violate("wrong-value", SAY("all residuals less than " << tol[k] << " is " << (int)less[k] << " after " << after));
            }
            if (a && !w.empty()) {
                sim::count("probe:below-tolerance");
            }
        }
        if (d && w.size() > 1 && std::isfinite(w[0])) {
            sim::count("probe:descending");
        }
        for (double v : w) {
            if (std::isnan(v)) {
                sim::count("probe:undefined-residual");
                break;
            }
        }
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        const std::string& n = op.name;
        sim::count(("op:" + n).c_str());
        if (n == "new" || objs.empty()) {
            Obj o;
            o.n = r.chance(0.15) ? 1 : length(r);
            bool dflt = o.n == 1 && r.chance(0.5);
            Res res = sim::run(safe(c), [&]() { o.l.reset(dflt ? new StopList() : new StopList(o.n)); });
            done(res, n);
            if (objs.size() < 4) {
                objs.push_back(std::move(o));
            }
            else {
                objs[(size_t)arg(1) % objs.size()] = std::move(o);
            }
        }
        else {
            size_t k = (size_t)arg(2) % objs.size();
            Obj& o = objs[k];
            if (n == "roll") {
                size_t m = r.chance(0.8) ? 1 : r.chance(0.01) ? burst_count((int64_t)r.below(3), r.chance(0.1)) : 1 + r.below(2 * o.n + 3);
                std::vector<double> v;
                for (size_t j = 0; j < m; ++j) {
                    v.push_back(residual(r, o));
                    o.series.push_back(v.back());
                }
                Res res = sim::run(safe(c), [&]() {
                    for (double x : v) {
                        o.l->roll_insert(x);
                    }
                });
                done(res, n);
                if (o.series.size() > o.n) {
                    sim::count("probe:wrapped");
                }
            }
            else if (n == "reset") {
                Res res = sim::run(safe(c), [&]() { o.l->reset(); });
                done(res, n);
                o.series.clear();
            }
            else if (n == "resize") {
                size_t m = length(r);
                Res res = sim::run(c, [&]() { o.l->reset(m); });
                if (done(res, n)) {
                    o.n = m;
                    o.series.clear();
                }
                else {
                    sim::count("probe:reset-failed");
                }
            }
            else if (n == "copy" || n == "move") {
                Obj t;
                t.n = o.n;
                t.series = o.series;
                bool mv = n == "move";
                Res res = sim::run(mv ? safe(c) : c, [&]() { t.l.reset(mv ? new StopList(std::move(*o.l)) : new StopList(*o.l)); });
                if (done(res, n)) {
                    if (mv) {
                        objs[k] = std::move(t);
                    }
                    else if (objs.size() < 4) {
                        objs.push_back(std::move(t));
                    }
                    else {
                        objs[(k + 1) % objs.size()] = std::move(t);
                    }
                }
            }
            else if (n == "assign" || n == "move_assign") {
                size_t j = (size_t)arg(1) % objs.size();
                if (j != k) {
                    bool mv = n == "move_assign";
                    Obj& t = objs[j];
                    Res res = sim::run(mv ? safe(c) : c, [&]() {
                        if (mv) {
                            *t.l = std::move(*o.l);
                        }
                        else {
                            *t.l = *o.l;
                        }
                    });
                    if (done(res, n)) {
                        t.n = o.n;
                        t.series = o.series;
                        if (mv) {
                            objs.erase(objs.begin() + (long)k);
                        }
                    }
                    else {
                        objs.erase(objs.begin() + (long)j);
                    }
                }
            }
            else if (n == "drop" && objs.size() > 1) {
                objs.erase(objs.begin() + (long)k);
            }
        }
        for (auto& o : objs) {
            check(o, c, r, n);
        }
    }

    void all()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            exec(i);
        }
        sim::current_op = (int)plan.ops.size();
        Rng r(plan.seed + 3);
        Ctl c;
        for (auto& o : objs) {
            check(o, c, r, "the history");
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    bool copies = p.prop == "C16";
    auto add = [&](const std::string& name) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(12), (int64_t)r.below(8), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, false, true);
        p.ops.push_back(op);
    };
    struct Wt {
        const char* n;
        double w;
    };
    std::vector<Wt> w;
    if (copies) {
        w = {{"roll", 8}, {"reset", 0.5}, {"resize", 1}, {"copy", 3}, {"assign", 2}, {"move", 1}, {"move_assign", 1}, {"drop", 1}, {"new", 1}};
    }
    else {
        w = {{"roll", 20}, {"reset", 1}, {"resize", 1}, {"copy", 0.2}, {"new", 0.2}};
    }
    double tot = 0;
    for (auto& x : w) {
        tot += x.w;
    }
    add("new");
    if (copies) {
        add("new");
    }
    size_t n = 5 + r.below(r.chance(0.2) ? 90 : 30);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit() * tot;
        size_t k = 0;
        while (k + 1 < w.size() && u >= w[k].w) {
            u -= w[k].w;
            ++k;
        }
        add(w[k].n);
    }
}

void sim::world_execute(const Plan& p) { World(p).all(); }
