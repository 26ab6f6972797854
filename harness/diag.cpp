// World "diag": diagonal matrices, plain and partitioned (C08 content, products, solves; C09 reactions and partial
// products; C10 failures; C16 copies).
#include "common.h"
#include <GooseFEM/MatrixDiagonalPartitioned.h>

const char* sim::world_name = "diag";

namespace {

using GooseFEM::MatrixDiagonal;
using GooseFEM::MatrixDiagonalPartitioned;

struct Shape {
    Topo t;
    std::vector<size_t> iiu, iip;
    std::vector<char> isp;
    I1 xiip;
};

Shape make_shape(const Plan& p, bool part, uint64_t seed)
{
    Plan q = p;
    Rng r(seed);
    q.cfg["tseed"] = (int64_t)(r.next() >> 20);
    if (r.chance(0.5)) {
        q.cfg["nx"] = r.range(1, 4);
        q.cfg["ny"] = r.range(1, 3);
        q.cfg["dofkind"] = (int64_t)r.below(5);
    }
    Shape s;
    s.t = topo_make(q);
    Topo& t = s.t;
    s.isp.assign(t.ndof, 0);
    if (part) {
        auto perm = permutation(t.ndof, r);
        size_t np = r.below(t.ndof);
        for (size_t i = 0; i < np; ++i) {
            s.iip.push_back(perm[i]);
            s.isp[perm[i]] = 1;
        }
    }
    for (size_t i = 0; i < t.ndof; ++i) {
        if (!s.isp[i]) {
            s.iiu.push_back(i);
        }
    }
    sim::OnHeap h;
    s.xiip = I1::from_shape({s.iip.size()});
    std::copy(s.iip.begin(), s.iip.end(), s.xiip.begin());
    return s;
}

template <bool PART>
struct World {
    using M = typename std::conditional<PART, MatrixDiagonalPartitioned, MatrixDiagonal>::type;

    struct Slot {
        Shape s;
        std::unique_ptr<M> A;
        std::vector<double> D; // the diagonal
        size_t n() const { return s.t.ndof; }
    };

    const Plan& plan;
    std::vector<Slot> mats;

    double sm, sv; // units of the matrix and of the vectors
    int wide; // 1: matrix entries, 2: vector entries of more than 24 significant bits

    explicit World(const Plan& p) : plan(p), sm(std::ldexp(1.0, (int)p.get("sm"))), sv(std::ldexp(1.0, (int)p.get("sv"))), wide((int)p.get("wide")) {}

    bool done(const Res& r, const std::string& n)
    {
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            return false;
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        return true;
    }

    double entry(Rng& r)
    {
        double v = sm * mint(r);
        return r.chance(0.2) ? -v : v;
    }
    double vint(Rng& r) { return wide == 2 ? (double)r.range(-(1 << 30), 1 << 30) : small_int(r); }
    double mint(Rng& r) { return wide == 1 ? (double)r.range(1 << 26, 1 << 30) : (double)r.range(1, 9); }
    T1 dofval(Slot& s, Rng& r) { return make<double, 1>({s.n()}, [&]() { return sv * vint(r); }); }
    // nodal vectors need not agree on shared DOFs: products act per node
    T2 nodevec(Slot& s, Rng& r) { return make<double, 2>({s.s.t.nnode, s.s.t.ndim}, [&]() { return sv * vint(r); }); }
    template <class A>
    void garbage(A& a, Rng& r)
    {
        for (auto& x : a) {
            x = r.chance(0.3) ? std::nan("") : r.real(-1e5, 1e5);
        }
    }
    T1 pick(const T1& d, const std::vector<size_t>& ii)
    {
        sim::OnHeap h;
        T1 o = T1::from_shape({ii.size()});
        for (size_t i = 0; i < ii.size(); ++i) {
            o(i) = d(ii[i]);
        }
        return o;
    }

    void check_content(Slot& s, const std::string& after)
    {
        Ctl c;
        T1 o;
        Res res = sim::run(c, [&]() { o = s.A->data(); });
        done(res, "data");
        want_shape(o, {s.n()}, "data");
        want_exact(o, s.D, "content after " + after);
    }
    std::vector<double> content(Slot& s)
    {
        Ctl c;
        T1 o;
        Res res = sim::run(c, [&]() { o = s.A->data(); });
        done(res, "data");
        return flat(o);
    }
    void after_change(Slot& s, const Res& res, const std::string& n)
    {
        if (done(res, n)) {
            check_content(s, n);
        }
        else {
            sim::count("probe:matrix-change-failed-part-way");
            s.D = content(s);
        }
    }

    void new_matrix(const Ctl& c, uint64_t seed, size_t at)
    {
        Slot s;
        s.s = make_shape(plan, PART, seed);
        const Shape& h = s.s;
        M* A = nullptr;
        Ctl cn = c;
        cn.fail = -1;
        Res res = sim::run(cn, [&]() {
            if constexpr (PART) {
                A = new M(h.t.xconn, h.t.xdofs, h.xiip);
            }
            else {
                A = new M(h.t.xconn, h.t.xdofs);
            }
        });
        done(res, "constructor");
        s.A.reset(A);
        Rng r(seed + 5);
        if (r.chance(0.5)) {
            set(s, cn, r);
        }
        else {
            assemble(s, cn, r, 0);
        }
        if (at < mats.size()) {
            mats[at] = std::move(s);
        }
        else {
            mats.push_back(std::move(s));
        }
    }

    void set(Slot& s, const Ctl& c, Rng& r)
    {
        T1 v = make<double, 1>({s.n()}, [&]() { return entry(r); });
        if (s.D.size() == s.n() && r.chance(0.2)) { // the present values in another order, or one of them another
            std::copy(s.D.begin(), s.D.end(), v.begin());
            if (r.chance(0.5)) {
                std::swap(v(r.below(s.n())), v(r.below(s.n())));
            }
            else {
                double x = entry(r);
                v(r.below(s.n())) = x;
            }
        }
        Res res = sim::run(c, [&]() { s.A->set(v); });
        if (res.ok()) {
            s.D = flat(v);
        }
        after_change(s, res, "set");
    }

    T3 elemmat(Slot& s, Rng& r)
    {
        size_t L = s.s.t.nne * s.s.t.ndim;
        sim::OnHeap h;
        T3 a = T3::from_shape({s.s.t.nelem, L, L});
        a.fill(0.0);
        for (size_t e = 0; e < s.s.t.nelem; ++e) {
            for (size_t i = 0; i < L; ++i) {
                a(e, i, i) = sm * mint(r);
            }
        }
        return a;
    }

    void assemble(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        T3 a = elemmat(s, r);
        Res res;
        if (form == 2) {
            auto dyn = to_dynamic(a);
            res = sim::run(c, [&]() { s.A->assemble(dyn); });
        }
        else {
            res = sim::run(c, [&]() { s.A->assemble(a); });
        }
        if (res.ok()) {
            const Topo& t = s.s.t;
            s.D.assign(s.n(), 0.0);
            for (size_t e = 0; e < t.nelem; ++e) {
                for (size_t i = 0; i < t.nne * t.ndim; ++i) {
                    s.D[t.d(t.c(e, i / t.ndim), i % t.ndim)] += a(e, i, i);
                }
            }
        }
        after_change(s, res, "assemble");
    }

    // as many changes as bring a small counter back to where it was
    void burst(Slot& s, const Ctl& c0, Rng& r, bool far, int64_t form)
    {
        Ctl c;
        c.seed = c0.seed;
        if (s.n() > 12) {
            return;
        }
        solve(s, c, r, form);
        T1 v = make<double, 1>({s.n()}, [&]() { return entry(r); });
        uint64_t k = burst_count((int64_t)r.below(3), far);
        for (uint64_t i = 0; i < k;) {
            uint64_t m = std::min<uint64_t>(k - i, 4096);
            Res res = sim::run(c, [&]() {
                for (uint64_t q = 0; q < m; ++q) {
                    s.A->set(v);
                }
            });
            done(res, "set");
            i += m;
        }
        s.D = flat(v);
        check_content(s, "many changes");
        solve(s, c, r, form);
        sim::count(far ? "probe:burst-16" : "probe:burst-8");
    }

    void reject(Slot& s, const Ctl& c, Rng& r, int64_t which)
    {
        Res res;
        const Topo& t = s.s.t;
        size_t L = t.nne * t.ndim;
        if (which % 3 == 0) {
            T1 v = make<double, 1>({s.n() + 1}, [&]() { return entry(r); });
            res = sim::run(c, [&]() { s.A->set(v); });
        }
        else if (which % 3 == 1 || L < 2) {
            T3 a = make<double, 3>({t.nelem + 1, L, L}, [&]() { return 0.0; });
            res = sim::run(c, [&]() { s.A->assemble(a); });
        }
        else {
            T3 a = elemmat(s, r);
            size_t e = r.below(t.nelem), i = r.below(L), j = (i + 1 + r.below(L - 1)) % L;
            a(e, i, j) = r.chance(0.5) ? 1.0 : -1.0;
            res = sim::run(c, [&]() { s.A->assemble(a); });
        }
        if (res.ok()) {
            violate("wrong-value", "an argument that does not fit was accepted");
        }
        check_content(s, "refused operation");
    }

    void query(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        size_t n = s.n();
        std::vector<double> d(n * n, 0.0);
        for (size_t i = 0; i < n; ++i) {
            d[i * n + i] = s.D[i];
        }
        if (form % 4 == 0) {
            T2 o;
            Res res = sim::run(c, [&]() { o = s.A->Todense(); });
            if (done(res, "Todense")) {
                want_shape(o, {n, n}, "Todense");
                want_exact(o, d, "Todense");
            }
        }
        else if (form % 4 == 1) {
            T2 o = make<double, 2>({n, n}, [&]() { return 0.0; });
            garbage(o, r);
            Res res = sim::run(c, [&]() { s.A->todense(o); });
            if (done(res, "todense")) {
                want_exact(o, d, "todense");
            }
        }
        else if (form % 4 == 2) {
            T1 o;
            Res res = sim::run(c, [&]() { o = s.A->Todiagonal(); });
            if (done(res, "Todiagonal")) {
                want_exact(o, s.D, "Todiagonal");
            }
        }
        else {
            T1 u, p;
            if constexpr (PART) {
                Res res = sim::run(c, [&]() {
                    u = s.A->data_uu();
                    p = s.A->data_pp();
                });
                if (done(res, "data_uu/data_pp")) {
                    std::vector<double> ru, rp;
                    for (size_t i : s.s.iiu) {
                        ru.push_back(s.D[i]);
                    }
                    for (size_t i : s.s.iip) {
                        rp.push_back(s.D[i]);
                    }
                    want_exact(u, ru, "data_uu");
                    want_exact(p, rp, "data_pp");
                }
            }
            const auto& A = *s.A;
            const Topo& t = s.s.t;
            bool ok = A.nelem() == t.nelem && A.nne() == t.nne && A.nnode() == t.nnode && A.ndim() == t.ndim && A.ndof() == t.ndof;
            ok = ok && A.conn() == t.xconn && A.dofs() == t.xdofs;
            if constexpr (PART) {
                const auto &iu = s.s.iiu, &ip = s.s.iip;
                ok = ok && A.nnu() == iu.size() && A.nnp() == ip.size();
                ok = ok && std::equal(iu.begin(), iu.end(), A.iiu().begin(), A.iiu().end());
                ok = ok && std::equal(ip.begin(), ip.end(), A.iip().begin(), A.iip().end());
            }
            if (!ok) {
                violate("wrong-value", "book-keeping of the matrix");
            }
        }
    }

    void dot(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if (form < 2 || (!PART && form >= 4)) {
            T1 x = dofval(s, r), o = dofval(s, r);
            garbage(o, r);
            std::vector<double> ref;
            for (size_t i = 0; i < s.n(); ++i) {
                ref.push_back(s.D[i] * x(i));
            }
            Res res = sim::run(c, [&]() {
                if (form % 2) {
                    s.A->dot(x, o);
                }
                else {
                    o = s.A->Dot(x);
                }
            });
            if (done(res, "dot")) {
                want_shape(o, {s.n()}, "dot");
                want_exact(o, ref, "product with DOF values");
            }
        }
        else if (form < 4) {
            T2 x = nodevec(s, r), o = nodevec(s, r);
            garbage(o, r);
            std::vector<double> ref;
            for (size_t i = 0; i < x.size(); ++i) {
                ref.push_back(s.D[s.s.t.dofs[i]] * x.data()[i]);
            }
            Res res = sim::run(c, [&]() {
                if (form % 2) {
                    s.A->dot(x, o);
                }
                else {
                    o = s.A->Dot(x);
                }
            });
            if (done(res, "dot")) {
                want_shape(o, {s.s.t.nnode, s.s.t.ndim}, "dot");
                want_exact(o, ref, "product with a nodal vector");
            }
        }
        else {
            if constexpr (PART) {
                bool up = r.chance(0.5);
                const auto& ii = up ? s.s.iiu : s.s.iip;
                T1 x = dofval(s, r), xu = pick(x, s.s.iiu), xp = pick(x, s.s.iip), o = make<double, 1>({ii.size()}, [&]() { return 0.0; });
                garbage(o, r);
                std::vector<double> ref;
                for (size_t i : ii) {
                    ref.push_back(s.D[i] * x(i));
                }
                Res res = sim::run(c, [&]() {
                    if (form % 2) {
                        up ? s.A->dot_u(xu, xp, o) : s.A->dot_p(xu, xp, o);
                    }
                    else {
                        o = up ? s.A->Dot_u(xu, xp) : s.A->Dot_p(xu, xp);
                    }
                });
                if (done(res, "dot_u/dot_p")) {
                    want_shape(o, {ii.size()}, "dot_u/dot_p");
                    want_exact(o, ref, up ? "product of the unknown rows" : "product of the prescribed rows");
                }
            }
        }
    }

    // o: result; keep: what the array held before (nullptr for the returning form)
    template <class A>
    void check_solve(Slot& s, const A& o, const A& b, const A* keep, const std::vector<size_t>& dof, const char* what)
    {
        mix_array(o);
        for (size_t i = 0; i < o.size(); ++i) {
            double got = o.data()[i];
            size_t d = dof[i];
            if (s.s.isp[d]) {
                if (keep) {
                    double k = keep->data()[i];
                    if (!(got == k || (std::isnan(got) && std::isnan(k)))) {
                        violate("wrong-value", SAY(what << ": prescribed entry " << i << " changed"));
                    }
                }
                else if (got != 0.0) {
                    violate("wrong-value", SAY(what << ": prescribed entry " << i << " is " << got << ", expected 0"));
                }
            }
            else if (s.D[d] != 0) {
                double w = b.data()[i] / s.D[d];
                if (!(std::abs(got - w) <= 1e-12 * (std::abs(w) + 1e-300))) {
                    violate("wrong-value", SAY(what << ": entry " << i << " is " << got << ", expected " << w));
                }
                sim::count("probe:solve-compared");
            }
        }
    }

    void solve(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if (form < 2 || (!PART && form >= 4)) {
            T1 b = dofval(s, r), o = dofval(s, r), k;
            garbage(o, r);
            {
                sim::OnHeap h;
                k = o;
            }
            Res res = sim::run(c, [&]() {
                if (form % 2) {
                    s.A->solve(b, o);
                }
                else {
                    o = s.A->Solve(b);
                }
            });
            if (done(res, "solve")) {
                want_shape(o, {s.n()}, "solve");
                std::vector<size_t> id(s.n());
                for (size_t i = 0; i < id.size(); ++i) {
                    id[i] = i;
                }
                check_solve(s, o, b, form % 2 ? &k : nullptr, id, "solve for DOF values");
            }
        }
        else if (form < 4) {
            T2 b = nodevec(s, r), o = nodevec(s, r), k;
            garbage(o, r);
            {
                sim::OnHeap h;
                k = o;
            }
            Res res = sim::run(c, [&]() {
                if (form % 2) {
                    s.A->solve(b, o);
                }
                else {
                    o = s.A->Solve(b);
                }
            });
            if (done(res, "solve")) {
                want_shape(o, {s.s.t.nnode, s.s.t.ndim}, "solve");
                check_solve(s, o, b, form % 2 ? &k : nullptr, s.s.t.dofs, "solve for a nodal vector");
            }
        }
        else {
            if constexpr (PART) {
                T1 b = dofval(s, r), bu = pick(b, s.s.iiu), xp = pick(b, s.s.iip), o = make<double, 1>({s.s.iiu.size()}, [&]() { return 0.0; });
                garbage(o, r);
                Res res = sim::run(c, [&]() {
                    if (form % 2) {
                        s.A->solve_u(bu, xp, o);
                    }
                    else {
                        o = s.A->Solve_u(bu, xp);
                    }
                });
                if (done(res, "solve_u")) {
                    want_shape(o, {s.s.iiu.size()}, "solve_u");
                    check_solve(s, o, bu, &o, s.s.iiu, "solve for unknown DOFs");
                }
            }
        }
    }

    void reaction(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if constexpr (PART) {
            if (form < 2) {
                T1 x = dofval(s, r), b = dofval(s, r), o = dofval(s, r);
                std::vector<double> ref;
                for (size_t i = 0; i < s.n(); ++i) {
                    ref.push_back(s.s.isp[i] ? s.D[i] * x(i) : b(i));
                }
                {
                    sim::OnHeap h;
                    o = b;
                }
                Res res = sim::run(c, [&]() {
                    if (form % 2) {
                        s.A->reaction(x, o);
                    }
                    else {
                        o = s.A->Reaction(x, b);
                    }
                });
                if (done(res, "reaction")) {
                    want_shape(o, {s.n()}, "reaction");
                    want_exact(o, ref, "reaction for DOF values");
                }
            }
            else if (form < 4) {
                T2 x = nodevec(s, r), b = nodevec(s, r), o = nodevec(s, r);
                std::vector<double> ref;
                for (size_t i = 0; i < x.size(); ++i) {
                    size_t d = s.s.t.dofs[i];
                    ref.push_back(s.s.isp[d] ? s.D[d] * x.data()[i] : b.data()[i]);
                }
                {
                    sim::OnHeap h;
                    o = b;
                }
                Res res = sim::run(c, [&]() {
                    if (form % 2) {
                        s.A->reaction(x, o);
                    }
                    else {
                        o = s.A->Reaction(x, b);
                    }
                });
                if (done(res, "reaction")) {
                    want_shape(o, {s.s.t.nnode, s.s.t.ndim}, "reaction");
                    want_exact(o, ref, "reaction for a nodal vector");
                }
            }
            else {
                T1 x = dofval(s, r), xu = pick(x, s.s.iiu), xp = pick(x, s.s.iip), o = make<double, 1>({s.s.iip.size()}, [&]() { return 0.0; });
                garbage(o, r);
                std::vector<double> ref;
                for (size_t i : s.s.iip) {
                    ref.push_back(s.D[i] * x(i));
                }
                Res res = sim::run(c, [&]() {
                    if (form % 2) {
                        s.A->reaction_p(xu, xp, o);
                    }
                    else {
                        o = s.A->Reaction_p(xu, xp);
                    }
                });
                if (done(res, "reaction_p")) {
                    want_shape(o, {s.s.iip.size()}, "reaction_p");
                    want_exact(o, ref, "reaction on prescribed DOFs");
                }
            }
        }
        else {
            dot(s, c, r, form % 4);
        }
    }

    void sweep(Rng& r)
    {
        for (auto& s : mats) {
            Ctl c;
            c.seed = r.next() >> 20;
            check_content(s, "history");
            dot(s, c, r, (int64_t)r.below(6));
            solve(s, c, r, (int64_t)r.below(6));
            reaction(s, c, r, (int64_t)r.below(6));
        }
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        sim::count(("op:" + op.name).c_str());
        const std::string& n = op.name;
        if (n == "move" || n == "move_assign") {
            c.fail = -1; // xtensor's moves are noexcept
        }
        if (n == "new" || mats.empty()) {
            new_matrix(c, (uint64_t)arg(2), mats.size() < 3 ? mats.size() : (size_t)arg(3) % mats.size());
            return;
        }
        size_t k = (size_t)arg(3) % mats.size();
        Slot& s = mats[k];
        if (n == "assemble") {
            assemble(s, c, r, arg(0) % 3);
        }
        else if (n == "set") {
            set(s, c, r);
        }
        else if (n == "burst") {
            burst(s, c, r, arg(2) % 8 == 0, arg(0) % 6);
        }
        else if (n == "reject") {
            reject(s, c, r, arg(0));
        }
        else if (n == "query") {
            query(s, c, r, arg(0));
        }
        else if (n == "dot") {
            dot(s, c, r, arg(0) % 6);
        }
        else if (n == "reaction") {
            reaction(s, c, r, arg(0) % 6);
        }
        else if (n == "solve") {
            solve(s, c, r, arg(0) % 6);
        }
        else if (n == "copy" || n == "move") {
            M* p = nullptr;
            bool mv = n == "move";
            Res res = sim::run(c, [&]() { p = mv ? new M(std::move(*s.A)) : new M(*s.A); });
            if (done(res, n)) {
                if (mv) {
                    s.A.reset(p);
                }
                else {
                    Slot o;
                    o.s = s.s;
                    o.D = s.D;
                    o.A.reset(p);
                    if (mats.size() < 3) {
                        mats.push_back(std::move(o));
                    }
                    else {
                        mats[(k + 1) % mats.size()] = std::move(o);
                    }
                }
            }
        }
        else if (n == "assign" || n == "move_assign") {
            size_t j = (size_t)arg(1) % mats.size();
            if (j == k) {
                return;
            }
            Slot& t = mats[j];
            bool mv = n == "move_assign";
            Res res = sim::run(c, [&]() {
                if (mv) {
                    *t.A = std::move(*s.A);
                }
                else {
                    *t.A = *s.A;
                }
            });
            if (done(res, n)) {
                t.s = s.s;
                t.D = s.D;
                if (mv) {
                    mats.erase(mats.begin() + (long)k);
                }
            }
            else {
                mats.erase(mats.begin() + (long)j); // basic guarantee only
            }
        }
        else if (n == "drop") {
            if (mats.size() > 1) {
                Res res = sim::run(c, [&]() { s.A.reset(); });
                done(res, n);
                mats.erase(mats.begin() + (long)k);
            }
        }
        if (c.fail >= 0) {
            Rng q(op.seed + 1);
            if (q.chance(0.5)) {
                sweep(q);
            }
        }
    }

    void all()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            exec(i);
        }
        Rng r(plan.seed + 11);
        sim::current_op = (int)plan.ops.size();
        sweep(r);
        Ctl c;
        sim::run(c, [&]() { mats.clear(); });
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    topo_generate(p, r, true, 4);
    topo_enlarge(p, r, 0.03, 20, 400);
    p.cfg["part"] = p.prop == "C09" || r.chance(0.6);
    p.cfg["sm"] = random_unit(r);
    p.cfg["sv"] = random_unit(r);
    p.cfg["wide"] = r.chance(0.7) ? 0 : 1 + (int64_t)r.below(2);
#ifdef _OPENMP
    bool team = true;
#else
    bool team = false;
#endif
    bool faults = p.prop == "C10" || p.prop == "C16";
    auto add = [&](const std::string& name, bool fault) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(12), (int64_t)r.below(8), (int64_t)(r.next() >> 24), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, team, fault);
        p.ops.push_back(op);
    };
    add("new", false);
    if (r.chance(0.4)) {
        add("new", false);
    }
    struct Wt {
        const char* n;
        double w;
    };
    std::vector<Wt> w;
    if (p.prop == "C08") {
        w = {{"assemble", 3}, {"set", 2}, {"solve", 6}, {"dot", 3}, {"query", 2}, {"reject", 1}, {"copy", 0.4}, {"assign", 0.4}};
    }
    else if (p.prop == "C09") {
        w = {{"assemble", 2}, {"set", 1}, {"reaction", 6}, {"dot", 4}, {"solve", 1}, {"copy", 0.3}, {"assign", 0.3}};
    }
    else if (p.prop == "C10") {
        w = {{"assemble", 4}, {"set", 2}, {"solve", 4}, {"dot", 2}, {"query", 1}, {"reject", 2}, {"copy", 0.5}, {"assign", 0.5}};
    }
    else if (p.prop == "C17") {
        w = {{"assemble", 3}, {"set", 2}, {"solve", 4}, {"dot", 3}, {"query", 2}, {"reaction", 4}, {"assign", 0.3}};
    }
    else {
        w = {{"assemble", 3}, {"set", 2}, {"solve", 3}, {"copy", 3}, {"assign", 3}, {"move", 1.5}, {"move_assign", 1.5}, {"drop", 1}, {"new", 1}, {"query", 1}, {"dot", 1}, {"reaction", 1}};
    }
    double tot = 0;
    for (auto& x : w) {
        tot += x.w;
    }
    size_t n = 3 + r.below(r.chance(0.05) ? 50 : 12);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit() * tot;
        size_t k = 0;
        while (k + 1 < w.size() && u >= w[k].w) {
            u -= w[k].w;
            ++k;
        }
        add(w[k].n, faults);
    }
    if (r.chance(0.01) && p.prop != "C09") {
        add("burst", false);
    }
}

void sim::world_execute(const Plan& p)
{
    if (p.get("part")) {
        World<true>(p).all();
    }
    else {
        World<false>(p).all();
    }
}
