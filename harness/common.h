// Shared pieces of the worlds: mesh/DOF generators and plain-loop reference arithmetic.
#pragma once
#define GOOSEFEM_ENABLE_ASSERT
#include "../sim/sim.h"
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
#include <memory>
#include <cmath>
#include <sstream>
#include <xtensor/xarray.hpp>
#include <xtensor/xtensor.hpp>

using sim::Ctl;
using sim::Op;
using sim::Plan;
using sim::Res;
using sim::Rng;
using sim::violate;

using T1 = xt::xtensor<double, 1>;
using T2 = xt::xtensor<double, 2>;
using T3 = xt::xtensor<double, 3>;
using T4 = xt::xtensor<double, 4>;
using T5 = xt::xtensor<double, 5>;
using T6 = xt::xtensor<double, 6>;
using I1 = xt::xtensor<size_t, 1>;
using I2 = xt::xtensor<size_t, 2>;

#define SAY(x)                                                                                      \
    ([&]() {                                                                                        \
        std::ostringstream o_;                                                                      \
        o_.precision(17);                                                                           \
        o_ << x;                                                                                    \
        return o_.str();                                                                            \
    }())

// array built element by element, placed in the simulated heap
template <class T, size_t N, class F>
inline xt::xtensor<T, N> make(const std::array<size_t, N>& shape, F&& f)
{
    sim::OnHeap h;
    xt::xtensor<T, N> r(shape);
    for (auto& x : r) {
        x = f();
    }
    return r;
}

template <class A>
inline xt::xarray<typename A::value_type> to_dynamic(const A& a)
{
    sim::OnHeap h;
    std::vector<size_t> s(a.shape().begin(), a.shape().end());
    xt::xarray<typename A::value_type> r(s);
    std::copy(a.begin(), a.end(), r.begin());
    return r;
}

template <class A>
inline void mix_array(const A& a)
{
    sim::mix((uint64_t)a.size());
    for (auto x : a) {
        if constexpr (std::is_floating_point<typename A::value_type>::value) {
            sim::mix_double((double)x);
        }
        else {
            sim::mix((uint64_t)x);
        }
    }
}

// shape check against expected extents
template <class A>
inline void want_shape(const A& a, std::vector<size_t> s, const std::string& what)
{
    bool ok = a.dimension() == s.size();
    for (size_t i = 0; ok && i < s.size(); ++i) {
        ok = a.shape(i) == s[i];
    }
    if (!ok) {
        violate("wrong-shape", what + ": shape differs from the documented one");
    }
}

// exact comparison with a reference given as flat values
template <class A>
inline void want_exact(const A& a, const std::vector<double>& ref, const std::string& what)
{
    mix_array(a);
    if (a.size() != ref.size()) {
        violate("wrong-shape", SAY(what << ": size " << a.size() << " expected " << ref.size()));
    }
    size_t i = 0;
    for (auto x : a) {
        if (!((double)x == ref[i])) {
            violate("wrong-value", SAY(what << ": entry " << i << " is " << (double)x << ", expected " << ref[i]));
        }
        ++i;
    }
}

template <class A>
inline void want_close(const A& a, const std::vector<double>& ref, const std::string& what, double rel = 1e-9, double scale = 0)
{
    mix_array(a);
    if (a.size() != ref.size()) {
        violate("wrong-shape", SAY(what << ": size " << a.size() << " expected " << ref.size()));
    }
    double s = scale;
    for (double r : ref) {
        s = std::max(s, std::abs(r));
    }
    if (s == 0) {
        s = 1e-300;
    }
    size_t i = 0;
    for (auto x : a) {
        if (!(std::abs((double)x - ref[i]) <= rel * s)) {
            violate("wrong-value", SAY(what << ": entry " << i << " is " << (double)x << ", expected " << ref[i]));
        }
        ++i;
    }
}

template <class A>
inline std::vector<double> flat(const A& a)
{
    std::vector<double> r;
    r.reserve(a.size());
    for (auto x : a) {
        r.push_back((double)x);
    }
    return r;
}

// ---------------------------------------------------------------- topology

struct Topo {
    size_t nelem = 0, nne = 0, nnode = 0, ndim = 0, ndof = 0;
    std::vector<size_t> conn; // [nelem * nne]
    std::vector<size_t> dofs; // [nnode * ndim]
    std::vector<double> coor; // [nnode * ndim], meshes only
    I2 xconn, xdofs;
    T2 xcoor;

    size_t c(size_t e, size_t m) const { return conn[e * nne + m]; }
    size_t d(size_t n, size_t i) const { return dofs[n * ndim + i]; }
    void seal()
    {
        sim::OnHeap h;
        ndof = 0;
        for (auto x : dofs) {
            ndof = std::max(ndof, x + 1);
        }
        xconn = I2::from_shape({nelem, nne});
        std::copy(conn.begin(), conn.end(), xconn.begin());
        xdofs = I2::from_shape({nnode, ndim});
        std::copy(dofs.begin(), dofs.end(), xdofs.begin());
        if (!coor.empty()) {
            xcoor = T2::from_shape({nnode, ndim});
            std::copy(coor.begin(), coor.end(), xcoor.begin());
        }
    }
};

// structured quad / hex grid built here, independent of the library's mesh generators
inline void grid(Topo& t, size_t nx, size_t ny, size_t nz)
{
    if (nz == 0) {
        t.ndim = 2;
        t.nne = 4;
        t.nelem = nx * ny;
        t.nnode = (nx + 1) * (ny + 1);
        for (size_t j = 0; j < ny + 1; ++j) {
            for (size_t i = 0; i < nx + 1; ++i) {
                t.coor.push_back((double)i);
                t.coor.push_back((double)j);
            }
        }
        for (size_t j = 0; j < ny; ++j) {
            for (size_t i = 0; i < nx; ++i) {
                size_t a = j * (nx + 1) + i, b = a + nx + 1;
                for (size_t n : {a, a + 1, b + 1, b}) {
                    t.conn.push_back(n);
                }
            }
        }
    }
    else {
        t.ndim = 3;
        t.nne = 8;
        t.nelem = nx * ny * nz;
        t.nnode = (nx + 1) * (ny + 1) * (nz + 1);
        for (size_t k = 0; k < nz + 1; ++k) {
            for (size_t j = 0; j < ny + 1; ++j) {
                for (size_t i = 0; i < nx + 1; ++i) {
                    t.coor.push_back((double)i);
                    t.coor.push_back((double)j);
                    t.coor.push_back((double)k);
                }
            }
        }
        size_t L = (nx + 1) * (ny + 1);
        for (size_t k = 0; k < nz; ++k) {
            for (size_t j = 0; j < ny; ++j) {
                for (size_t i = 0; i < nx; ++i) {
                    size_t a = k * L + j * (nx + 1) + i, b = a + nx + 1;
                    for (size_t n : {a, a + 1, b + 1, b, a + L, a + L + 1, b + L + 1, b + L}) {
                        t.conn.push_back(n);
                    }
                }
            }
        }
    }
}

inline std::vector<size_t> permutation(size_t n, Rng& r)
{
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) {
        p[i] = i;
    }
    for (size_t i = n; i > 1; --i) {
        std::swap(p[i - 1], p[r.below(i)]);
    }
    return p;
}

// kind: 0 natural, 1 permuted, 2 nodes tied in pairs (shared DOFs), 3 random surjection, 4 one component shared
inline void number_dofs(Topo& t, int kind, Rng& r)
{
    size_t N = t.nnode * t.ndim;
    t.dofs.resize(N);
    for (size_t i = 0; i < N; ++i) {
        t.dofs[i] = i;
    }
    if (kind == 1) {
        t.dofs = permutation(N, r);
    }
    else if (kind == 2) {
        size_t k = 1 + r.below(t.nnode);
        for (size_t j = 0; j < k; ++j) {
            size_t a = r.below(t.nnode), b = r.below(t.nnode);
            for (size_t i = 0; i < t.ndim; ++i) {
                t.dofs[b * t.ndim + i] = t.dofs[a * t.ndim + i];
            }
        }
    }
    else if (kind == 3) {
        size_t n = 1 + r.below(N);
        for (size_t i = 0; i < N; ++i) {
            t.dofs[i] = i < n ? i : r.below(n);
        }
        auto p = permutation(N, r);
        std::vector<size_t> q(N);
        for (size_t i = 0; i < N; ++i) {
            q[i] = t.dofs[p[i]];
        }
        t.dofs = q;
    }
    else if (kind == 4) {
        size_t i = r.below(t.ndim);
        for (size_t n = 1; n < t.nnode; ++n) {
            if (r.chance(0.5)) {
                t.dofs[n * t.ndim + i] = t.dofs[i];
            }
        }
    }
    // compress: no holes
    std::vector<size_t> seen(N, (size_t)-1);
    std::vector<size_t> sorted = t.dofs;
    std::sort(sorted.begin(), sorted.end());
    sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
    for (size_t i = 0; i < sorted.size(); ++i) {
        seen[sorted[i]] = i;
    }
    for (auto& d : t.dofs) {
        d = seen[d];
    }
}

inline size_t clampz(int64_t v, int64_t lo, int64_t hi) { return (size_t)std::max(lo, std::min(hi, v)); }

// cfg: topo 0 = random connectivity, 1 = quad grid, 2 = hex grid
inline void topo_generate(Plan& p, Rng& r, bool allow_random, int maxn = 4)
{
    int k = allow_random ? (int)r.below(4) : 1 + (int)r.below(3);
    p.cfg["topo"] = k == 3 ? 1 : k;
    p.cfg["nx"] = r.range(1, maxn);
    p.cfg["ny"] = r.range(1, maxn);
    p.cfg["nz"] = r.range(1, 2);
    p.cfg["nne"] = r.range(1, 6);
    p.cfg["nelem"] = r.range(1, 14);
    p.cfg["nnode"] = r.range(1, 20);
    p.cfg["ndim"] = r.range(1, 3);
    p.cfg["dofkind"] = (int64_t)r.below(5);
    p.cfg["tseed"] = (int64_t)(r.next() >> 20);
}

// now and then a case much larger than the others
inline void topo_enlarge(Plan& p, Rng& r, double chance, int maxn, int maxelem)
{
    if (!r.chance(chance)) {
        return;
    }
    p.cfg["big"] = 1;
    p.cfg["nx"] = r.range(1, maxn);
    p.cfg["ny"] = r.range(1, maxn);
    p.cfg["nz"] = r.range(1, 4);
    p.cfg["nelem"] = r.range(1, maxelem);
    p.cfg["nnode"] = r.range(1, maxelem);
    p.cfg["nne"] = r.range(1, 8);
}

inline Topo topo_make(const Plan& p)
{
    Topo t;
    Rng r((uint64_t)p.get("tseed"));
    int k = (int)p.get("topo");
    size_t nx = clampz(p.get("nx"), 1, 40), ny = clampz(p.get("ny"), 1, 40), nz = clampz(p.get("nz"), 1, 4);
    if (k == 1) {
        grid(t, nx, ny, 0);
    }
    else if (k == 2) {
        bool big = p.get("big") != 0;
        grid(t, std::min<size_t>(nx, big ? 8 : 3), std::min<size_t>(ny, big ? 5 : 2), nz);
    }
    else {
        t.nelem = clampz(p.get("nelem"), 1, 1000);
        t.nne = clampz(p.get("nne"), 1, 8);
        t.nnode = std::max<size_t>(clampz(p.get("nnode"), 1, 1000), t.nne);
        t.ndim = clampz(p.get("ndim"), 1, 3);
        for (size_t e = 0; e < t.nelem; ++e) {
            auto q = permutation(t.nnode, r);
            for (size_t m = 0; m < t.nne; ++m) {
                t.conn.push_back(q[m]);
            }
        }
    }
    if (p.get("renode") && k != 0) {
        // node numbers carry no geometric order
        auto q = permutation(t.nnode, r);
        std::vector<double> c(t.coor.size());
        for (size_t n = 0; n < t.nnode; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                c[q[n] * t.ndim + i] = t.coor[n * t.ndim + i];
            }
        }
        t.coor = c;
        for (auto& x : t.conn) {
            x = q[x];
        }
    }
    number_dofs(t, (int)p.get("dofkind"), r);
    t.seal();
    return t;
}

// random integers as doubles: sums and products are exact in any order
inline double small_int(Rng& r) { return (double)r.range(-9, 9); }

// exponent (base two) of the unit of a quantity: most often one
inline int64_t random_unit(Rng& r)
{
    static const int64_t u[] = {-70, -40, -30, -10, 20, 40};
    return r.chance(0.6) ? 0 : u[r.below(6)];
}

// numbers of changes after which a counter of eight or sixteen bits is back where it was (or one off)
inline uint64_t burst_count(int64_t k, bool wide) { return (wide ? 65535 : 255) + (uint64_t)(k % 3); }
