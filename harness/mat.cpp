// World "mat": sparse matrices and their solvers (C05 content, C06 solves, C07 combinations, C09 reactions,
// C10 failures, C16 copies).  Content is made of integers, so that everything but a solve is exact.
#include "common.h"
#include <Eigen/SparseLU>

const char* sim::world_name = "mat";

namespace {

using GooseFEM::Matrix;
using GooseFEM::MatrixPartitioned;
using GooseFEM::MatrixPartitionedTyings;
using LDLT = Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>>;
using LU = Eigen::SparseLU<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>>;

enum { PLAIN = 0, PART = 1, TIED = 2 };

struct Shape {
    Topo t;
    std::vector<size_t> iiu, iip; // DOF numbers
    size_t nnu = 0, nnp = 0, nnd = 0;
    std::vector<double> Cdu, Cdp; // dense
    Eigen::SparseMatrix<double> cu, cp;
    I1 xiip;
};

Shape make_shape(const Plan& p, int kind, uint64_t seed)
{
    Plan q = p;
    Rng r(seed);
    q.cfg["tseed"] = (int64_t)(r.next() >> 20);
    if (r.chance(0.5)) {
        q.cfg["nx"] = r.range(1, 3);
        q.cfg["ny"] = r.range(1, 2);
        q.cfg["dofkind"] = (int64_t)r.below(5);
    }
    Shape s;
    s.t = topo_make(q);
    Topo& t = s.t;
    if (kind == PART) {
        auto perm = permutation(t.ndof, r);
        size_t np = r.chance(0.1) ? 0 : r.below(t.ndof); // at least one unknown
        std::vector<char> isp(t.ndof, 0);
        for (size_t i = 0; i < np; ++i) {
            s.iip.push_back(perm[i]);
            isp[perm[i]] = 1;
        }
        for (size_t i = 0; i < t.ndof; ++i) {
            if (!isp[i]) {
                s.iiu.push_back(i);
            }
        }
        s.nnp = np;
        s.nnu = t.ndof - np;
    }
    else if (kind == TIED) {
        s.nnd = r.below(t.ndof);
        size_t nni = t.ndof - s.nnd;
        s.nnp = r.below(nni);
        s.nnu = nni - s.nnp;
        auto perm = permutation(t.ndof, r);
        for (auto& d : t.dofs) {
            d = perm[d];
        }
        t.seal();
        s.Cdu.assign(s.nnd * s.nnu, 0.0);
        s.Cdp.assign(s.nnd * s.nnp, 0.0);
        sim::OnHeap h;
        std::vector<Eigen::Triplet<double>> tu, tp;
        for (size_t d = 0; d < s.nnd; ++d) {
            size_t k = 1 + r.below(2);
            for (size_t j = 0; j < k; ++j) {
                size_t i = r.below(nni);
                double v = (double)r.range(-2, 2);
                if (i < s.nnu) {
                    tu.push_back({(int)d, (int)i, v});
                    s.Cdu[d * s.nnu + i] += v;
                }
                else {
                    tp.push_back({(int)d, (int)(i - s.nnu), v});
                    s.Cdp[d * s.nnp + i - s.nnu] += v;
                }
            }
        }
        s.cu.resize((int)s.nnd, (int)s.nnu);
        s.cp.resize((int)s.nnd, (int)s.nnp);
        s.cu.setFromTriplets(tu.begin(), tu.end());
        s.cp.setFromTriplets(tp.begin(), tp.end());
        for (size_t i = 0; i < s.nnu; ++i) {
            s.iiu.push_back(i);
        }
        for (size_t i = 0; i < s.nnp; ++i) {
            s.iip.push_back(s.nnu + i);
        }
    }
    else {
        for (size_t i = 0; i < t.ndof; ++i) {
            s.iiu.push_back(i);
        }
        s.nnu = t.ndof;
    }
    sim::OnHeap h;
    s.xiip = I1::from_shape({s.iip.size()});
    std::copy(s.iip.begin(), s.iip.end(), s.xiip.begin());
    return s;
}

// dense solve by Gaussian elimination; empty when the system is not comfortably solvable
std::vector<double> dense_solve(std::vector<double> A, std::vector<double> b, size_t n, bool ldlt)
{
    double mx = 0;
    for (double a : A) {
        mx = std::max(mx, std::abs(a));
    }
    if (ldlt) {
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < i; ++j) {
                if (A[i * n + j] != A[j * n + i]) {
                    return {};
                }
            }
        }
    }
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        if (!ldlt) {
            for (size_t i = k + 1; i < n; ++i) {
                if (std::abs(A[i * n + k]) > std::abs(A[p * n + k])) {
                    p = i;
                }
            }
        }
        double piv = A[p * n + k];
        if ((ldlt ? piv : std::abs(piv)) <= 1e-4 * mx) {
            return {};
        }
        if (p != k) {
            for (size_t j = 0; j < n; ++j) {
                std::swap(A[p * n + j], A[k * n + j]);
            }
            std::swap(b[p], b[k]);
        }
        for (size_t i = k + 1; i < n; ++i) {
            double f = A[i * n + k] / piv;
            if (f != 0) {
                for (size_t j = k; j < n; ++j) {
                    A[i * n + j] -= f * A[k * n + j];
                }
                b[i] -= f * b[k];
            }
        }
    }
    for (size_t k = n; k-- > 0;) {
        for (size_t j = k + 1; j < n; ++j) {
            b[k] -= A[k * n + j] * b[j];
        }
        b[k] /= A[k * n + k];
    }
    return b;
}

// Solver supplied by the user: the seam the library has.  Small, safe when an allocation fails, says when misused.
struct OwnSolver {
    std::vector<double> A;
    size_t n = 0;
    bool ready = false;
    Eigen::Index pattern = -1; // size the symbolic part was made for
    static bool reject; // the next factorisation fails
    // the interface of Eigen's sparse solvers: symbolic and numerical part may be asked for separately
    void analyzePattern(const Eigen::SparseMatrix<double>& m)
    {
        ready = false;
        pattern = m.rows();
    }
    Eigen::ComputationInfo info() const { return ready ? Eigen::Success : Eigen::InvalidInput; }
    Eigen::Index rows() const { return (Eigen::Index)n; }
    Eigen::Index cols() const { return (Eigen::Index)n; }
    void compute(const Eigen::SparseMatrix<double>& m)
    {
        analyzePattern(m);
        factorize(m);
    }
    void factorize(const Eigen::SparseMatrix<double>& m)
    {
        if (pattern != m.rows()) {
            bool z = sim::armed_off();
            violate("wrong-state", "numerical factorisation without a symbolic one of this matrix");
            sim::armed_on(z);
        }
        ready = false;
        if (reject) {
            reject = false;
            throw std::runtime_error("factorisation failed");
        }
        size_t k = (size_t)m.rows();
        std::vector<double> a(k * k, 0.0);
        for (int j = 0; j < m.outerSize(); ++j) {
            for (Eigen::SparseMatrix<double>::InnerIterator it(m, j); it; ++it) {
                a[(size_t)it.row() * k + (size_t)it.col()] += it.value();
            }
        }
        A.swap(a);
        n = k;
        ready = true;
    }
    template <class B>
    Eigen::VectorXd solve(const B& b) const
    {
        if (!ready || (size_t)b.size() != n) {
            bool z = sim::armed_off();
            violate("wrong-state", "the solver is used without a factorisation of this matrix");
            sim::armed_on(z);
        }
        std::vector<double> v((size_t)n);
        for (size_t i = 0; i < n; ++i) {
            v[i] = b((int)i);
        }
        v = dense_solve(A, v, n, false);
        Eigen::VectorXd x((Eigen::Index)n);
        for (size_t i = 0; i < n; ++i) {
            x((int)i) = v.size() == n ? v[i] : std::nan("");
        }
        return x;
    }
};
bool OwnSolver::reject = false;

template <int K>
struct Types;
template <>
struct Types<PLAIN> {
    using M = Matrix;
    template <class S>
    using Solver = GooseFEM::MatrixSolver<S>;
};
template <>
struct Types<PART> {
    using M = MatrixPartitioned;
    template <class S>
    using Solver = GooseFEM::MatrixPartitionedSolver<S>;
};
template <>
struct Types<TIED> {
    using M = MatrixPartitionedTyings;
    template <class S>
    using Solver = GooseFEM::MatrixPartitionedTyingsSolver<S>;
};

template <int K, class S>
struct World {
    using M = typename Types<K>::M;
    using SV = typename Types<K>::template Solver<S>;
    static constexpr bool ldlt = std::is_same<S, LDLT>::value;
    static constexpr bool own = std::is_same<S, OwnSolver>::value;

    struct Slot {
        Shape s;
        std::unique_ptr<M> A;
        std::vector<double> D; // dense content
        std::vector<double> last; // the element matrices assembled last
        size_t n() const { return s.t.ndof; }
    };

    const Plan& plan;
    std::vector<Slot> mats;
    std::vector<std::unique_ptr<SV>> solvers;
    bool rejected = false; // this operation's factorisation is made to fail
    bool one_solver; // every matrix keeps to its own solver
    double sm, sv; // units: powers of two, so that all sums stay exact
    int wide; // 1: matrix entries, 2: vector entries of more than 24 significant bits

    explicit World(const Plan& p) :
        plan(p),
        one_solver(p.prop != "C07" && p.prop != "C10"),
        sm(std::ldexp(1.0, (int)p.get("sm"))),
        sv(std::ldexp(1.0, (int)p.get("sv"))),
        wide((int)p.get("wide"))
    {
    }

    bool done(const Res& r, const std::string& n)
    {
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            return false;
        }
        if (r.kind == Res::THROWN && rejected && r.what.find("factorisation failed") != std::string::npos) {
            sim::count("fault:factorisation-failure-fired");
            return false;
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        return true;
    }

    void new_matrix(const Ctl& c, uint64_t seed, size_t at)
    {
        Slot s;
        s.s = make_shape(plan, K, seed);
        M* A = nullptr;
        const Shape& h = s.s;
        Res res = sim::run(c, [&]() {
            if constexpr (K == PLAIN) {
                A = new M(h.t.xconn, h.t.xdofs);
            }
            else if constexpr (K == PART) {
                A = new M(h.t.xconn, h.t.xdofs, h.xiip);
            }
            else {
                A = new M(h.t.xconn, h.t.xdofs, h.cu, h.cp);
            }
        });
        if (!done(res, "constructor")) {
            return;
        }
        s.A.reset(A);
        s.D.assign(s.n() * s.n(), 0.0);
        if (at < mats.size()) {
            mats[at] = std::move(s);
        }
        else {
            mats.push_back(std::move(s));
        }
    }

    // what the matrix says it holds, read without faults
    std::vector<double> content(Slot& s)
    {
        Ctl c;
        T2 o;
        Res res = sim::run(c, [&]() { o = s.A->Todense(); });
        done(res, "Todense");
        want_shape(o, {s.n(), s.n()}, "Todense");
        return flat(o);
    }

    void check_content(Slot& s, const std::string& after)
    {
        Ctl c;
        T2 o;
        Res res = sim::run(c, [&]() { o = s.A->Todense(); });
        done(res, "Todense");
        want_shape(o, {s.n(), s.n()}, "Todense");
        want_exact(o, s.D, "content after " + after);
    }

    double vint(Rng& r) { return wide == 2 ? (double)r.range(-(1 << 27), 1 << 27) : small_int(r); }
    double mint(Rng& r, double v) { return wide == 1 ? std::ldexp(v, 27) + (double)r.range(-999, 999) : v; }
    T1 dofval(Slot& s, Rng& r) { return make<double, 1>({s.n()}, [&]() { return sv * vint(r); }); }
    // right-hand side; sometimes nothing but the prescribed values drives the solution
    T1 force(Slot& s, Rng& r)
    {
        double f = r.chance(0.2) ? 0.0 : sm * sv;
        return make<double, 1>({s.n()}, [&]() { return f * vint(r); });
    }
    T2 nodevec(Slot& s, const T1& d)
    {
        sim::OnHeap h;
        T2 o = T2::from_shape({s.s.t.nnode, s.s.t.ndim});
        for (size_t m = 0; m < s.s.t.nnode; ++m) {
            for (size_t i = 0; i < s.s.t.ndim; ++i) {
                o(m, i) = d(s.s.t.d(m, i));
            }
        }
        return o;
    }
    std::vector<double> nodes(Slot& s, const std::vector<double>& d)
    {
        std::vector<double> o;
        for (size_t x : s.s.t.dofs) {
            o.push_back(d[x]);
        }
        return o;
    }
    T1 pick(const T1& d, const std::vector<size_t>& ii)
    {
        sim::OnHeap h;
        T1 o = T1::from_shape({ii.size()});
        for (size_t i = 0; i < ii.size(); ++i) {
            o(i) = d(ii[i]);
        }
        return o;
    }
    std::vector<double> mult(Slot& s, const T1& x)
    {
        size_t n = s.n();
        std::vector<double> b(n, 0.0);
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < n; ++j) {
                b[i] += s.D[i * n + j] * x(j);
            }
        }
        return b;
    }

    // element matrices of integers; style 0: symmetric and dominant, 1: dominant, 2: anything
    T3 elemmat(Slot& s, int style, Rng& r)
    {
        size_t L = s.s.t.nne * s.s.t.ndim;
        sim::OnHeap h;
        T3 a = T3::from_shape({s.s.t.nelem, L, L});
        for (size_t e = 0; e < s.s.t.nelem; ++e) {
            block(r, style, L, L, [&](size_t i, size_t j) -> double& { return a(e, i, j); });
        }
        return a;
    }
    // the last element matrices, or close to that: what tells the two apart is little
    T3 variation(Slot& s, Rng& r)
    {
        size_t L = s.s.t.nne * s.s.t.ndim, ne = s.s.t.nelem;
        sim::OnHeap h;
        T3 a = T3::from_shape({ne, L, L});
        std::copy(s.last.begin(), s.last.end(), a.begin());
        size_t e = r.below(ne), g = r.below(ne), i = r.below(L), j = r.below(L);
        switch (r.below(5)) {
        case 0: // two elements change places
            for (size_t k = 0; k < L * L; ++k) {
                std::swap(a.data()[e * L * L + k], a.data()[g * L * L + k]);
            }
            break;
        case 1: // one entry (or pair)
            a(e, i, j) += sm;
            if (ldlt && i != j) {
                a(e, j, i) += sm;
            }
            break;
        case 2: // equal sum
            if (i != j && L > 1) {
                size_t k = (j + 1) % L == i ? (j + 2) % L : (j + 1) % L;
                if (k != i) {
                    a(e, i, j) += sm;
                    a(e, i, k) -= sm;
                    if (ldlt) {
                        a(e, j, i) += sm;
                        a(e, k, i) -= sm;
                    }
                }
            }
            break;
        case 3:
            if (wide != 1 && *std::max_element(a.begin(), a.end()) < 200 * sm) {
                for (auto& x : a) {
                    x *= 2.0;
                }
            }
            break;
        default:
            break;
        }
        return a;
    }

    // as many changes as bring a small counter back to where it was
    void burst(Slot& s, SV& sol, const Ctl& c0, Rng& r, bool wide_count, int64_t form)
    {
        Ctl c;
        c.seed = c0.seed;
        size_t L = s.s.t.nne * s.s.t.ndim;
        if (s.s.t.nelem * L * L > 150) {
            return;
        }
        solve(s, sol, c, r, form);
        uint64_t k = burst_count((int64_t)r.below(3), false);
        T3 a = elemmat(s, style(r), r);
        if constexpr (K != TIED) {
            if (wide_count && s.n() <= 6) {
                k = burst_count((int64_t)r.below(3), true);
                I1 one;
                T2 v;
                {
                    sim::OnHeap h;
                    one = I1::from_shape({1});
                    one(0) = r.below(s.n());
                    v = T2::from_shape({1, 1});
                    v(0, 0) = sm;
                }
                for (uint64_t i = 0; i < k;) {
                    uint64_t m = std::min<uint64_t>(k - i, 4096);
                    Res res = sim::run(c, [&]() {
                        for (uint64_t q = 0; q < m; ++q) {
                            s.A->add(one, one, v);
                        }
                    });
                    done(res, "add");
                    i += m;
                }
                s.D[one(0) * s.n() + one(0)] += (double)k * sm;
                s.last.clear();
                check_content(s, "many additions");
                solve(s, sol, c, r, form);
                sim::count("probe:burst-16");
                return;
            }
        }
        for (uint64_t i = 0; i < k;) {
            uint64_t m = std::min<uint64_t>(k - i, 32);
            Res res = sim::run(c, [&]() {
                for (uint64_t q = 0; q < m; ++q) {
                    s.A->assemble(a);
                }
            });
            done(res, "assemble");
            i += m;
        }
        assemble_ref(s, a);
        s.last = flat(a);
        check_content(s, "many assemblies");
        solve(s, sol, c, r, form);
        sim::count("probe:burst-8");
    }

    template <class F>
    void block(Rng& r, int style, size_t n, size_t m, F at)
    {
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < m; ++j) {
                at(i, j) = sm * mint(r, style == 2 ? small_int(r) : (double)r.range(-2, 2));
            }
        }
        if (style < 2 && n == m) {
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < i; ++j) {
                    if (style == 0) {
                        at(i, j) = at(j, i);
                    }
                }
                at(i, i) = sm * mint(r, (double)(2 * n) + (double)r.range(1, 9));
            }
        }
    }

    void assemble_ref(Slot& s, const T3& a)
    {
        const Topo& t = s.s.t;
        size_t n = t.ndof, nd = t.ndim;
        std::fill(s.D.begin(), s.D.end(), 0.0);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t i = 0; i < t.nne * nd; ++i) {
                for (size_t j = 0; j < t.nne * nd; ++j) {
                    s.D[t.d(t.c(e, i / nd), i % nd) * n + t.d(t.c(e, j / nd), j % nd)] += a(e, i, j);
                }
            }
        }
    }

    void after_change(Slot& s, const Res& res, const std::vector<double>& before, const std::string& n)
    {
        if (done(res, n)) {
            check_content(s, n);
        }
        else {
            sim::count("probe:matrix-change-failed-part-way");
            s.D = content(s);
            if (s.D != before) {
                sim::count("probe:failed-change-altered-the-content");
            }
        }
    }

    int style(Rng& r) { return r.chance(0.9) ? (ldlt ? 0 : 1) : 2; }

    void assemble(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        T3 a = !s.last.empty() && s.last.size() == s.s.t.nelem * s.s.t.nne * s.s.t.ndim * s.s.t.nne * s.s.t.ndim && r.chance(0.25) ? variation(s, r) : elemmat(s, style(r), r);
        auto before = s.D;
        Res res;
        if (form == 2) {
            auto dyn = to_dynamic(a);
            res = sim::run(c, [&]() { s.A->assemble(dyn); });
        }
        else {
            res = sim::run(c, [&]() { s.A->assemble(a); });
        }
        if (res.ok()) {
            assemble_ref(s, a);
            s.last = flat(a);
        }
        after_change(s, res, before, "assemble");
    }

    void set_add(Slot& s, const Ctl& c, Rng& r, bool add)
    {
        if constexpr (K != TIED) {
            size_t n = s.n();
            auto p = permutation(n, r), q = permutation(n, r);
            int st = style(r);
            size_t k = r.chance(0.5) ? n : 1 + r.below(n);
            bool square = r.chance(0.8);
            std::vector<size_t> ri(p.begin(), p.begin() + (long)k), ci = ri;
            if (!square) {
                st = 2;
                ci.assign(q.begin(), q.begin() + (long)(1 + r.below(n)));
                if (add && r.chance(0.5)) {
                    ri.push_back(ri[0]); // listed twice: added twice
                }
            }
            I1 rows, cols;
            T2 v;
            {
                sim::OnHeap h;
                rows = I1::from_shape({ri.size()});
                cols = I1::from_shape({ci.size()});
                std::copy(ri.begin(), ri.end(), rows.begin());
                std::copy(ci.begin(), ci.end(), cols.begin());
                v = T2::from_shape({ri.size(), ci.size()});
            }
            block(r, st, ri.size(), ci.size(), [&](size_t i, size_t j) -> double& { return v(i, j); });
            auto before = s.D;
            Res res = sim::run(c, [&]() {
                if (add) {
                    s.A->add(rows, cols, v);
                }
                else {
                    s.A->set(rows, cols, v);
                }
            });
            if (res.ok()) {
                if (!add) {
                    std::fill(s.D.begin(), s.D.end(), 0.0);
                }
                for (size_t i = 0; i < ri.size(); ++i) {
                    for (size_t j = 0; j < ci.size(); ++j) {
                        s.D[ri[i] * n + ci[j]] += v(i, j);
                    }
                }
            }
            after_change(s, res, before, add ? "add" : "set");
        }
        else {
            assemble(s, c, r, add ? 2 : 0);
        }
    }

    // an argument that does not fit: refused, and nothing changes
    void reject(Slot& s, const Ctl& c, Rng& r, int64_t which)
    {
        Res res;
        if (which % 3 == 0 || K == TIED) {
            T3 a = make<double, 3>({s.s.t.nelem + 1, s.s.t.nne * s.s.t.ndim, s.s.t.nne * s.s.t.ndim}, [&]() { return small_int(r); });
            res = sim::run(c, [&]() { s.A->assemble(a); });
        }
        else if constexpr (K != TIED) {
            size_t n = s.n();
            I1 rows, cols;
            {
                sim::OnHeap h;
                rows = I1::from_shape({2});
                rows(0) = 0;
                rows(1) = n + r.below(4); // no such DOF
                cols = I1::from_shape({1});
                cols(0) = 0;
            }
            bool flip = r.chance(0.5);
            T2 v = make<double, 2>({flip ? 1ul : 2ul, flip ? 2ul : 1ul}, [&]() { return small_int(r); });
            res = sim::run(c, [&]() {
                const I1& x = flip ? cols : rows;
                const I1& y = flip ? rows : cols;
                if (which % 3 == 1) {
                    s.A->set(x, y, v);
                }
                else {
                    s.A->add(x, y, v);
                }
            });
        }
        if (res.ok()) {
            violate("wrong-value", "an argument that does not fit was accepted");
        }
        check_content(s, "refused operation");
    }

    void dense_op(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if (form == 0) {
            T2 o;
            Res res = sim::run(c, [&]() { o = s.A->Todense(); });
            if (done(res, "Todense")) {
                want_shape(o, {s.n(), s.n()}, "Todense");
                want_exact(o, s.D, "Todense");
            }
        }
        else if (form == 1) {
            T2 o = make<double, 2>({s.n(), s.n()}, [&]() { return r.chance(0.2) ? std::nan("") : r.real(-1e5, 1e5); });
            Res res = sim::run(c, [&]() { s.A->todense(o); });
            if (done(res, "todense")) {
                want_exact(o, s.D, "todense");
            }
        }
        else {
            // parts
            size_t n = s.n();
            auto part = [&](const Eigen::SparseMatrix<double>& m, const std::vector<size_t>& I, const std::vector<size_t>& J, const char* name) {
                bool z = sim::armed_off();
                if ((size_t)m.rows() != I.size() || (size_t)m.cols() != J.size()) {
                    violate("wrong-shape", name);
                }
                std::vector<double> d(I.size() * J.size(), 0.0);
                for (int k = 0; k < m.outerSize(); ++k) {
                    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) {
                        d[(size_t)it.row() * J.size() + (size_t)it.col()] += it.value();
                    }
                }
                for (size_t i = 0; i < I.size(); ++i) {
                    for (size_t j = 0; j < J.size(); ++j) {
                        double x = s.D[I[i] * n + J[j]];
                        if (d[i * J.size() + j] != x) {
                            violate("wrong-value", SAY(name << ": entry " << i << "," << j << " is " << d[i * J.size() + j] << ", expected " << x));
                        }
                    }
                }
                sim::armed_on(z);
            };
            std::vector<size_t> iid;
            for (size_t i = s.s.nnu + s.s.nnp; i < n; ++i) {
                iid.push_back(i);
            }
            const auto &u = s.s.iiu, &p = s.s.iip;
            Res res = sim::run(c, [&]() {
                if constexpr (K == PLAIN) {
                    part(s.A->data(), u, u, "data");
                }
                else {
                    part(s.A->data_uu(), u, u, "data_uu");
                    part(s.A->data_up(), u, p, "data_up");
                    part(s.A->data_pu(), p, u, "data_pu");
                    part(s.A->data_pp(), p, p, "data_pp");
                }
                if constexpr (K == TIED) {
                    part(s.A->data_ud(), u, iid, "data_ud");
                    part(s.A->data_pd(), p, iid, "data_pd");
                    part(s.A->data_du(), iid, u, "data_du");
                    part(s.A->data_dp(), iid, p, "data_dp");
                    part(s.A->data_dd(), iid, iid, "data_dd");
                }
                const auto& A = *s.A;
                bool z = sim::armed_off();
                const Topo& t = s.s.t;
                bool ok = A.nelem() == t.nelem && A.nne() == t.nne && A.nnode() == t.nnode && A.ndim() == t.ndim && A.ndof() == t.ndof;
                ok = ok && A.conn() == t.xconn && A.dofs() == t.xdofs;
                if constexpr (K != PLAIN) {
                    ok = ok && A.nnu() == u.size() && A.nnp() == p.size();
                    ok = ok && std::equal(u.begin(), u.end(), A.iiu().begin(), A.iiu().end());
                    ok = ok && std::equal(p.begin(), p.end(), A.iip().begin(), A.iip().end());
                }
                if constexpr (K == TIED) {
                    ok = ok && A.nni() == n - s.s.nnd && A.nnd() == s.s.nnd;
                    ok = ok && std::equal(iid.begin(), iid.end(), A.iid().begin(), A.iid().end());
                }
                if (!ok) {
                    violate("wrong-value", "book-keeping of the matrix");
                }
                sim::armed_on(z);
            });
            done(res, "data");
        }
    }

    void dot(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if constexpr (K != TIED) {
            Ctl cw = c;
            cw.ww_ok = 1;
            T1 x = dofval(s, r);
            auto ref = mult(s, x);
            auto old = [&]() { return r.chance(0.2) ? std::nan("") : r.real(-1e5, 1e5); };
            if (form < 2) {
                T1 b = make<double, 1>({s.n()}, old);
                Res res = sim::run(c, [&]() {
                    if (form) {
                        s.A->dot(x, b);
                    }
                    else {
                        b = s.A->Dot(x);
                    }
                });
                if (done(res, "dot")) {
                    want_shape(b, {s.n()}, "dot");
                    want_exact(b, ref, "product of DOF values");
                }
            }
            else {
                T2 xn = nodevec(s, x), b = make<double, 2>({s.s.t.nnode, s.s.t.ndim}, old);
                Res res = sim::run(cw, [&]() {
                    if (form == 2) {
                        b = s.A->Dot(xn);
                    }
                    else {
                        s.A->dot(xn, b);
                    }
                });
                if (done(res, "dot")) {
                    want_shape(b, {s.s.t.nnode, s.s.t.ndim}, "dot");
                    want_exact(b, nodes(s, ref), "product of a nodal vector");
                }
            }
        }
    }

    void reaction(Slot& s, const Ctl& c, Rng& r, int64_t form)
    {
        if constexpr (K == PART) {
            Ctl cw = c;
            cw.ww_ok = 1;
            T1 x = dofval(s, r), b = dofval(s, r);
            auto full = mult(s, x), ref = flat(b);
            for (size_t i : s.s.iip) {
                ref[i] = full[i];
            }
            if (form < 2) {
                T1 o = b;
                Res res = sim::run(c, [&]() {
                    if (form) {
                        s.A->reaction(x, o);
                    }
                    else {
                        o = s.A->Reaction(x, b);
                    }
                });
                if (done(res, "reaction")) {
                    want_exact(o, ref, "reaction on DOF values");
                }
            }
            else if (form < 4) {
                T2 xn = nodevec(s, x), bn = nodevec(s, b), o;
                {
                    sim::OnHeap h;
                    o = bn;
                }
                Res res = sim::run(cw, [&]() {
                    if (form == 2) {
                        o = s.A->Reaction(xn, bn);
                    }
                    else {
                        s.A->reaction(xn, o);
                    }
                });
                if (done(res, "reaction")) {
                    want_exact(o, nodes(s, ref), "reaction on a nodal vector");
                }
            }
            else {
                T1 xu = pick(x, s.s.iiu), xp = pick(x, s.s.iip), o = make<double, 1>({s.s.nnp}, [&]() { return r.real(-1e5, 1e5); });
                Res res = sim::run(c, [&]() {
                    if (form == 4) {
                        o = s.A->Reaction_p(xu, xp);
                    }
                    else {
                        s.A->reaction_p(xu, xp, o);
                    }
                });
                std::vector<double> rp;
                for (size_t i : s.s.iip) {
                    rp.push_back(full[i]);
                }
                if (done(res, "reaction_p")) {
                    want_shape(o, {s.s.nnp}, "reaction_p");
                    want_exact(o, rp, "reaction on prescribed DOFs");
                }
            }
        }
    }

    // full vector of DOF values that solves the system, given b and the prescribed entries of x
    std::vector<double> solve_ref(Slot& s, const T1& b, const T1& x)
    {
        size_t n = s.n(), nu = s.s.nnu, np = s.s.nnp;
        const auto &u = s.s.iiu, &p = s.s.iip;
        std::vector<double> out = flat(x);
        std::vector<double> K_(nu * nu), f(nu);
        if (K != TIED) {
            for (size_t i = 0; i < nu; ++i) {
                for (size_t j = 0; j < nu; ++j) {
                    K_[i * nu + j] = s.D[u[i] * n + u[j]];
                }
                f[i] = b(u[i]);
                for (size_t j = 0; j < np; ++j) {
                    f[i] -= s.D[u[i] * n + p[j]] * x(p[j]);
                }
            }
        }
        else {
            size_t ni = nu + np, nd = s.s.nnd;
            auto C = [&](size_t d, size_t i) { return i < nu ? s.s.Cdu[d * nu + i] : s.s.Cdp[d * np + i - nu]; };
            // At = A T, Ac = T^T At
            std::vector<double> At(n * ni, 0.0);
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < ni; ++j) {
                    At[i * ni + j] = s.D[i * n + j];
                }
                for (size_t d = 0; d < nd; ++d) {
                    double v = s.D[i * n + ni + d];
                    if (v != 0) {
                        for (size_t j = 0; j < ni; ++j) {
                            At[i * ni + j] += v * C(d, j);
                        }
                    }
                }
            }
            for (size_t i = 0; i < nu; ++i) {
                std::vector<double> row(At.begin() + (long)(i * ni), At.begin() + (long)((i + 1) * ni));
                f[i] = b(i);
                for (size_t d = 0; d < nd; ++d) {
                    double v = C(d, i);
                    if (v != 0) {
                        f[i] += v * b(ni + d);
                        for (size_t j = 0; j < ni; ++j) {
                            row[j] += v * At[(ni + d) * ni + j];
                        }
                    }
                }
                for (size_t j = 0; j < nu; ++j) {
                    K_[i * nu + j] = row[j];
                }
                for (size_t j = 0; j < np; ++j) {
                    f[i] -= row[nu + j] * x(nu + j);
                }
            }
        }
        auto xu = dense_solve(K_, f, nu, ldlt);
        if (xu.size() != nu) {
            return {};
        }
        for (size_t i = 0; i < nu; ++i) {
            out[u[i]] = xu[i];
        }
        if (K == TIED) {
            size_t ni = nu + np;
            for (size_t d = 0; d < s.s.nnd; ++d) {
                double v = 0;
                for (size_t i = 0; i < nu; ++i) {
                    v += s.s.Cdu[d * nu + i] * out[i];
                }
                for (size_t i = 0; i < np; ++i) {
                    v += s.s.Cdp[d * np + i] * out[nu + i];
                }
                out[ni + d] = v;
            }
        }
        return out;
    }

    void solve(Slot& s, SV& sv, const Ctl& c, Rng& r, int64_t form)
    {
        Ctl cw = c;
        cw.ww_ok = 1;
        T1 b = force(s, r), x = dofval(s, r);
        auto ref = solve_ref(s, b, x);
        if (ref.empty()) {
            sim::count("probe:solve-skipped-not-solvable");
            return;
        }
        sim::count("probe:solve-compared");
        // what is unknown (or dependent) in x beforehand has no influence
        if (form % 2) {
            for (size_t i : s.s.iiu) {
                x(i) = r.chance(0.3) ? std::nan("") : r.real(-1e5, 1e5);
            }
            for (size_t i = s.s.nnu + s.s.nnp; i < s.n(); ++i) {
                x(i) = r.chance(0.3) ? std::nan("") : r.real(-1e5, 1e5);
            }
        }
        auto same = [&](const auto& got, const std::vector<double>& want, const char* what) {
            want_close(got, want, what, 1e-7);
        };
        auto prescribed = [&](const auto& got, const auto& given, bool node, const char* what) {
            // prescribed values come back as they were
            if (K == PLAIN) {
                return;
            }
            std::vector<char> isp(s.n(), 0);
            for (size_t i : s.s.iip) {
                isp[i] = 1;
            }
            for (size_t i = 0; i < got.size(); ++i) {
                size_t d = node ? s.s.t.dofs[i] : i;
                if (isp[d] && got.data()[i] != given.data()[i]) {
                    violate("wrong-value", SAY(what << ": prescribed entry " << i << " changed"));
                }
            }
        };
        if (form < 2) {
            T1 o;
            {
                sim::OnHeap h;
                o = x;
            }
            Res res = sim::run(c, [&]() {
                if (form == 0) {
                    if constexpr (K == PLAIN) {
                        o = sv.Solve(*s.A, b);
                    }
                    else {
                        o = sv.Solve(*s.A, b, x);
                    }
                }
                else {
                    sv.solve(*s.A, b, o);
                }
            });
            if (done(res, "solve")) {
                want_shape(o, {s.n()}, "solve");
                same(o, ref, "solve for DOF values");
                prescribed(o, x, false, "solve for DOF values");
            }
        }
        else if (form < 4 || K == PLAIN) {
            T2 bn = nodevec(s, b), xn = nodevec(s, x), o;
            {
                sim::OnHeap h;
                o = xn;
            }
            Res res = sim::run(cw, [&]() {
                if (form % 2 == 0) {
                    if constexpr (K == PLAIN) {
                        o = sv.Solve(*s.A, bn);
                    }
                    else {
                        o = sv.Solve(*s.A, bn, xn);
                    }
                }
                else {
                    sv.solve(*s.A, bn, o);
                }
            });
            if (done(res, "solve")) {
                want_shape(o, {s.s.t.nnode, s.s.t.ndim}, "solve");
                same(o, nodes(s, ref), "solve for a nodal vector");
                prescribed(o, xn, true, "solve for a nodal vector");
            }
        }
        else {
            T1 bu = pick(b, s.s.iiu), xp = pick(x, s.s.iip), o = make<double, 1>({s.s.nnu}, [&]() { return r.real(-1e5, 1e5); });
            std::vector<size_t> iid;
            for (size_t i = s.s.nnu + s.s.nnp; i < s.n(); ++i) {
                iid.push_back(i);
            }
            T1 bd = pick(b, iid);
            Res res = sim::run(c, [&]() {
                if constexpr (K == PART) {
                    if (form == 4) {
                        o = sv.Solve_u(*s.A, bu, xp);
                    }
                    else {
                        sv.solve_u(*s.A, bu, xp, o);
                    }
                }
                else if constexpr (K == TIED) {
                    if (form == 4) {
                        o = sv.Solve_u(*s.A, bu, bd, xp);
                    }
                    else {
                        sv.solve_u(*s.A, bu, bd, xp, o);
                    }
                }
            });
            std::vector<double> ru;
            for (size_t i : s.s.iiu) {
                ru.push_back(ref[i]);
            }
            if (done(res, "solve_u")) {
                want_shape(o, {s.s.nnu}, "solve_u");
                same(o, ru, "solve for unknown DOFs");
            }
        }
    }

    // everything, without faults
    void sweep(Rng& r)
    {
        for (size_t i = 0; i < mats.size(); ++i) {
            Ctl c;
            c.seed = r.next() >> 20;
            check_content(mats[i], "history");
            dot(mats[i], c, r, (int64_t)r.below(4));
            reaction(mats[i], c, r, (int64_t)r.below(6));
            if (one_solver) {
                solve(mats[i], *solvers[i % solvers.size()], c, r, (int64_t)r.below(6));
            }
            else {
                for (auto& s : solvers) {
                    solve(mats[i], *s, c, r, (int64_t)r.below(6));
                }
            }
        }
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        sim::count(("op:" + op.name).c_str());
        const std::string& n = op.name;
        // Eigen and xtensor do not survive a failed allocation here (Eigen's solvers keep dangling pointers, assigning
        // an Eigen::SparseMatrix too; xtensor's moves and assignment of an arange are noexcept)
        if ((n == "solve" && !own) || n == "move" || n == "move_assign" || n == "assign" || n == "new") {
            c.fail = -1;
        }
        if (n == "new" || mats.empty()) {
            Ctl c0 = c;
            size_t at = mats.size() < 3 ? mats.size() : (size_t)arg(3) % mats.size();
            new_matrix(c0, (uint64_t)arg(2), at);
            return;
        }
        size_t k = (size_t)arg(3) % mats.size();
        Slot& s = mats[k];
        if (n == "assemble") {
            assemble(s, c, r, arg(0) % 3);
        }
        else if (n == "set" || n == "add") {
            set_add(s, c, r, n == "add");
        }
        else if (n == "reject") {
            reject(s, c, r, arg(0));
        }
        else if (n == "burst") {
            burst(s, *solvers[(one_solver ? k : (size_t)arg(1)) % solvers.size()], c, r, arg(2) % 16 == 0, arg(0) % 6);
        }
        else if (n == "dense") {
            dense_op(s, c, r, arg(0) % 3);
        }
        else if (n == "dot") {
            dot(s, c, r, arg(0) % 4);
        }
        else if (n == "reaction") {
            reaction(s, c, r, arg(0) % 6);
        }
        else if (n == "solve") {
            size_t j = one_solver ? k : (size_t)arg(1);
            if (own && plan.prop == "C10" && arg(2) % 4 == 0) {
                rejected = OwnSolver::reject = true;
            }
            solve(s, *solvers[j % solvers.size()], c, r, arg(0) % 6);
            bool fired = rejected && !OwnSolver::reject;
            rejected = OwnSolver::reject = false;
            if (fired && arg(2) % 3) {
                Rng q(op.seed + 1);
                sweep(q);
                return;
            }
        }
        else if (n == "new_solver") {
            SV* p = nullptr;
            Res res = sim::run(c, [&]() { p = new SV(); });
            if (done(res, n)) {
                solvers[(size_t)arg(1) % solvers.size()].reset(p);
            }
        }
        else if (n == "copy") {
            M* p = nullptr;
            Res res = sim::run(c, [&]() { p = new M(*s.A); });
            if (done(res, n)) {
                Slot o;
                o.s = s.s;
                o.D = s.D;
                o.A.reset(p);
                if (mats.size() < 3) {
                    mats.push_back(std::move(o));
                }
                else {
                    mats[(k + 1) % mats.size()] = std::move(o);
                }
            }
        }
        else if (n == "move") {
            M* p = nullptr;
            Res res = sim::run(c, [&]() { p = new M(std::move(*s.A)); });
            if (done(res, n)) {
                s.A.reset(p); // the original is gone
            }
            else {
                // a failed move leaves an unspecified original
                mats.erase(mats.begin() + (long)k);
            }
        }
        else if (n == "assign" || n == "move_assign") {
            size_t j = (size_t)arg(1) % mats.size();
            if (j == k) {
                return;
            }
            Slot& t = mats[j];
            bool mv = n == "move_assign";
            Res res = sim::run(c, [&]() {
                if (mv) {
                    *t.A = std::move(*s.A);
                }
                else {
                    *t.A = *s.A;
                }
            });
            if (done(res, n)) {
                t.s = s.s;
                t.D = s.D;
                if (mv) {
                    mats.erase(mats.begin() + (long)k);
                }
            }
            else {
                // assignment gives the basic guarantee only
                size_t hi = mv ? std::max(j, k) : j;
                mats.erase(mats.begin() + (long)hi);
                if (mv) {
                    mats.erase(mats.begin() + (long)std::min(j, k));
                }
            }
        }
        else if (n == "drop") {
            if (mats.size() > 1) {
                Res res = sim::run(c, [&]() { s.A.reset(); });
                done(res, n);
                mats.erase(mats.begin() + (long)k);
            }
        }
        if (c.fail >= 0) {
            Rng q(op.seed + 1);
            if (q.chance(0.5)) {
                sweep(q);
            }
        }
    }

    void all()
    {
        for (int i = 0; i < 3; ++i) {
            solvers.emplace_back(new SV());
        }
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            exec(i);
        }
        Rng r(plan.seed + 11);
        sim::current_op = (int)plan.ops.size();
        sweep(r);
        Ctl c;
        sim::run(c, [&]() {
            mats.clear();
            solvers.clear();
        });
    }
};

template <int K>
void go(const Plan& p)
{
    if (p.get("lu") == 2) {
        World<K, OwnSolver>(p).all();
    }
    else if (p.get("lu")) {
        World<K, LU>(p).all();
    }
    else {
        World<K, LDLT>(p).all();
    }
}

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    topo_generate(p, r, true, 3);
    p.cfg["nelem"] = r.range(1, 8);
    p.cfg["nnode"] = r.range(1, 9);
    p.cfg["nne"] = r.range(1, 4);
    p.cfg["nz"] = 1;
    if (p.cfg["topo"] == 2) {
        p.cfg["nx"] = r.range(1, 2);
        p.cfg["ny"] = 1;
    }
    topo_enlarge(p, r, 0.02, 6, 40);
    if (p.cfg["topo"] == 2 && p.get("big")) { // dense reference and sparse factorisation: some hundred DOFs
        p.cfg["nx"] = r.range(1, 3);
        p.cfg["ny"] = r.range(1, 2);
        p.cfg["nz"] = r.range(1, 3);
    }
    p.cfg["kind"] = (int64_t)r.below(3);
    p.cfg["sm"] = random_unit(r);
    p.cfg["sv"] = random_unit(r);
    p.cfg["wide"] = r.chance(0.7) ? 0 : 1 + (int64_t)r.below(2);
    p.cfg["lu"] = r.chance(0.3);
    if ((p.prop == "C10" && r.chance(0.7)) || r.chance(0.1)) {
        p.cfg["lu"] = 2;
    }
    if (p.prop == "C09") {
        p.cfg["kind"] = 1;
    }
#ifdef _OPENMP
    bool team = true;
#else
    bool team = false;
#endif
    bool faults = p.prop == "C10" || p.prop == "C16";
    auto add = [&](const std::string& name, bool fault) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(6), (int64_t)r.below(8), (int64_t)(r.next() >> 24), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, team, fault);
        p.ops.push_back(op);
    };
    add("new", false);
    if (p.prop == "C07" || r.chance(0.4)) {
        add("new", false);
    }
    add("assemble", false);
    struct Wt {
        const char* n;
        double w;
    };
    std::vector<Wt> w;
    if (p.prop == "C05") {
        w = {{"assemble", 3}, {"set", 2}, {"add", 3}, {"dense", 2}, {"dot", 4}, {"solve", 1}, {"reject", 0.5}, {"copy", 0.5}, {"assign", 0.5}};
    }
    else if (p.prop == "C06") {
        w = {{"assemble", 3}, {"set", 1.5}, {"add", 2}, {"solve", 7}, {"dot", 0.5}, {"new_solver", 0.4}, {"assign", 0.5}, {"copy", 0.4}, {"reject", 0.3}};
    }
    else if (p.prop == "C07") {
        w = {{"assemble", 3}, {"set", 1}, {"add", 2}, {"solve", 8}, {"new_solver", 0.4}, {"assign", 0.6}, {"copy", 0.8}, {"new", 0.3}, {"move_assign", 0.3}};
    }
    else if (p.prop == "C09") {
        w = {{"assemble", 2}, {"set", 1}, {"add", 2}, {"reaction", 6}, {"dot", 2}, {"solve", 1}};
    }
    else if (p.prop == "C10") {
        w = {{"assemble", 5}, {"set", 2}, {"add", 3}, {"solve", 5}, {"dot", 1}, {"dense", 0.5}, {"reaction", 0.5}, {"reject", 1}, {"new", 0.3}, {"new_solver", 0.3}, {"copy", 0.3}};
    }
    else if (p.prop == "C17") {
        w = {{"assemble", 3}, {"add", 2}, {"set", 2}, {"solve", 4}, {"dot", 3}, {"dense", 2}, {"reaction", 3}, {"new_solver", 0.3}, {"assign", 0.3}};
    }
    else {
        w = {{"assemble", 3}, {"add", 2}, {"set", 1}, {"solve", 3}, {"copy", 3}, {"assign", 3}, {"move", 1.5}, {"move_assign", 1.5}, {"drop", 1}, {"new", 1}, {"dense", 0.5}, {"dot", 0.5}};
    }
    double tot = 0;
    for (auto& x : w) {
        tot += x.w;
    }
    size_t n = 3 + r.below(r.chance(0.05) && !p.get("big") ? 40 : 10);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit() * tot;
        size_t k = 0;
        while (k + 1 < w.size() && u >= w[k].w) {
            u -= w[k].w;
            ++k;
        }
        add(w[k].n, faults);
    }
    if (r.chance(0.01) && p.prop != "C09" && !p.get("big")) {
        add("burst", false);
    }
}

void sim::world_execute(const Plan& p)
{
    switch (p.get("kind") % 3) {
    case PLAIN:
        go<PLAIN>(p);
        break;
    case PART:
        go<PART>(p);
        break;
    default:
        go<TIED>(p);
    }
}
