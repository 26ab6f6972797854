// World "mesh": mesh classes, their queries and maps, tables over a mesh, free functions (C21, C17, C16).
#include "common.h"
#include "elemref.h"
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <map>
#include <set>

const char* sim::world_name = "mesh";

namespace {

namespace GM = GooseFEM::Mesh;
using VV = std::vector<std::vector<size_t>>;
using VD = std::vector<std::vector<double>>;
using P3 = std::array<long, 3>;

// ------------------------------------------------------------------ reference meshes

struct RefMesh {
    size_t ndim = 2, nne = 4;
    double h = 1;
    std::vector<P3> pts; // integer positions, numbered by z, then y, then x
    std::vector<size_t> conn;
    std::vector<std::vector<P3>> poly; // corners per element
    long n[3] = {0, 0, 0}; // size, in units of h
    // graded layers
    std::vector<size_t> nhx, nhy, nblock;
    std::vector<int> type;
    std::vector<size_t> row, lo, hi; // per element: row of blocks, extent of its block in x

    size_t nelem() const { return poly.size(); }
    size_t nnode() const { return pts.size(); }

    // order of the axes in the numbering: slowest first
    void number(size_t a = 2, size_t b = 1)
    {
        using K = std::array<long, 3>;
        std::map<K, size_t> id;
        for (auto& p : poly) {
            for (auto& q : p) {
                id[K{q[a], q[b], q[0]}] = 0;
            }
        }
        for (auto& kv : id) {
            kv.second = pts.size();
            P3 q;
            q[a] = kv.first[0];
            q[b] = kv.first[1];
            q[0] = kv.first[2];
            pts.push_back(q);
        }
        for (auto& p : poly) {
            for (auto& q : p) {
                conn.push_back(id[K{q[a], q[b], q[0]}]);
            }
        }
        for (auto& p : pts) {
            for (int i = 0; i < 3; ++i) {
                n[i] = std::max(n[i], p[i]);
            }
        }
    }
    std::vector<double> coor() const
    {
        std::vector<double> r;
        for (auto& p : pts) {
            for (size_t i = 0; i < ndim; ++i) {
                r.push_back(h * (double)p[i]);
            }
        }
        return r;
    }
    // nodes on the given sides; side = 2 * axis + (0 low, 1 high); kind: 0 closed, 1 without the ends
    std::vector<double> side(const std::vector<int>& sides, bool open) const
    {
        std::vector<double> r;
        for (size_t k = 0; k < pts.size(); ++k) {
            bool ok = true;
            std::vector<char> fixed(3, 0);
            for (int s : sides) {
                ok = ok && pts[k][(size_t)(s / 2)] == (s % 2 ? n[s / 2] : 0);
                fixed[(size_t)(s / 2)] = 1;
            }
            for (size_t i = 0; open && i < ndim; ++i) {
                ok = ok && (fixed[i] || (pts[k][i] != 0 && pts[k][i] != n[i]));
            }
            if (ok) {
                r.push_back((double)k);
            }
        }
        return r;
    }
    // periodic image: node on the low sides
    std::vector<size_t> image() const
    {
        std::map<P3, size_t> id;
        for (size_t k = 0; k < pts.size(); ++k) {
            id[pts[k]] = k;
        }
        std::vector<size_t> r;
        for (auto p : pts) {
            for (size_t i = 0; i < ndim; ++i) {
                if (p[i] == n[i]) {
                    p[i] = 0;
                }
            }
            r.push_back(id.at(p));
        }
        return r;
    }
};

P3 at(long x, long y, long z = 0) { return {x, y, z}; }

RefMesh ref_quad(long nx, long ny, double h)
{
    RefMesh m;
    m.h = h;
    for (long y = 0; y < ny; ++y) {
        for (long x = 0; x < nx; ++x) {
            m.poly.push_back({at(x, y), at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)});
        }
    }
    m.number();
    return m;
}

RefMesh ref_tri(long nx, long ny, double h)
{
    RefMesh m;
    m.h = h;
    m.nne = 3;
    for (long y = 0; y < ny; ++y) {
        for (long x = 0; x < nx; ++x) {
            m.poly.push_back({at(x, y), at(x + 1, y), at(x, y + 1)});
            m.poly.push_back({at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)});
        }
    }
    m.number();
    return m;
}

RefMesh ref_hex(long nx, long ny, long nz, double h)
{
    RefMesh m;
    m.h = h;
    m.nne = 8;
    m.ndim = 3;
    for (long z = 0; z < nz; ++z) {
        for (long y = 0; y < ny; ++y) {
            for (long x = 0; x < nx; ++x) {
                m.poly.push_back({at(x, y, z), at(x + 1, y, z), at(x + 1, y + 1, z), at(x, y + 1, z), at(x, y, z + 1),
                                  at(x + 1, y, z + 1), at(x + 1, y + 1, z + 1), at(x, y + 1, z + 1)});
            }
        }
    }
    m.number();
    return m;
}

RefMesh ref_fine(size_t nelx, size_t nely, double h, size_t nfine)
{
    RefMesh m;
    m.h = h;
    size_t nmin = (nely + 1) / 2;
    size_t nf = nfine % 2 ? (nfine + 1) / 2 : nfine / 2 + 1;
    nf = std::min(std::max<size_t>(nf, 1), nmin);
    struct Row {
        size_t x, y;
        int t;
    };
    std::vector<Row> up(nf, {1, 1, -1});
    size_t tot = nf, cx = 1, cy = 1;
    while (tot < nmin) {
        if (3 * cy <= tot && nelx % (3 * cx) == 0 && tot + cy < nmin) {
            cx *= 3;
            up.push_back({cx, 2 * cy, 0});
            tot += 2 * cy;
            cy *= 3;
        }
        else {
            up.push_back({cx, cy, -1});
            tot += cy;
        }
    }
    std::vector<Row> rows(up.rbegin(), up.rend());
    rows.insert(rows.end(), up.begin() + 1, up.end());
    size_t mid = up.size() - 1;
    long y = 0;
    for (size_t k = 0; k < rows.size(); ++k) {
        long a = (long)rows[k].x, b = (long)rows[k].y, t = a / 3, s = b / 2;
        m.nhx.push_back(rows[k].x);
        m.nhy.push_back(rows[k].y);
        m.type.push_back(rows[k].t);
        m.nblock.push_back(nelx / rows[k].x);
        for (long i = 0; i < (long)(nelx / rows[k].x); ++i) {
            long x = i * a;
            size_t before = m.poly.size();
            if (rows[k].t != 0) {
                m.poly.push_back({at(x, y), at(x + a, y), at(x + a, y + b), at(x, y + b)});
            }
            else if (k < mid) {
                m.poly.push_back({at(x, y), at(x + a, y), at(x + 2 * t, y + s), at(x + t, y + s)});
                m.poly.push_back({at(x + a, y), at(x + a, y + b), at(x + 2 * t, y + b), at(x + 2 * t, y + s)});
                m.poly.push_back({at(x + t, y + s), at(x + 2 * t, y + s), at(x + 2 * t, y + b), at(x + t, y + b)});
                m.poly.push_back({at(x, y), at(x + t, y + s), at(x + t, y + b), at(x, y + b)});
            }
            else {
                m.poly.push_back({at(x, y), at(x + t, y), at(x + t, y + s), at(x, y + b)});
                m.poly.push_back({at(x + t, y), at(x + 2 * t, y), at(x + 2 * t, y + s), at(x + t, y + s)});
                m.poly.push_back({at(x + 2 * t, y), at(x + a, y), at(x + a, y + b), at(x + 2 * t, y + s)});
                m.poly.push_back({at(x + t, y + s), at(x + 2 * t, y + s), at(x + a, y + b), at(x, y + b)});
            }
            for (size_t e = before; e < m.poly.size(); ++e) {
                m.row.push_back(k);
                m.lo.push_back((size_t)x);
                m.hi.push_back((size_t)(x + a));
            }
        }
        y += b;
    }
    m.number();
    return m;
}

// Graded layers in three dimensions: rows are coarsened along x, along z, or along x and then z.
RefMesh ref_fine3(size_t nelx, size_t nely, size_t nelz, double h, size_t nfine)
{
    RefMesh m;
    m.h = h;
    m.nne = 8;
    m.ndim = 3;
    size_t nmin = (nely + 1) / 2;
    size_t nf = nfine % 2 ? (nfine + 1) / 2 : nfine / 2 + 1;
    nf = std::min(std::max<size_t>(nf, 1), nmin);
    struct Row {
        size_t x, y, z;
        int t;
    };
    std::vector<Row> up(nf, {1, 1, 1, -1});
    size_t tot = nf, cx = 1, cy = 1, cz = 1;
    auto push = [&](const Row& r) {
        up.push_back(r);
        tot += r.y;
    };
    while (tot < nmin) {
        bool room = 3 * cy <= tot && tot + cy < nmin;
        if (room && nelx % (3 * cx) == 0) {
            cx *= 3;
            push({cx, 2 * cy, cz, 0});
            if (tot + 2 * cy < nmin && nelz % (3 * cz) == 0) {
                cz *= 3;
                push({cx, 2 * cy, cz, 2});
            }
            cy *= 3;
        }
        else if (room && nelz % (3 * cz) == 0) {
            cz *= 3;
            push({cx, 2 * cy, cz, 2});
            cy *= 3;
        }
        else {
            push({cx, cy, cz, -1});
        }
    }
    std::vector<Row> rows(up.rbegin(), up.rend());
    rows.insert(rows.end(), up.begin() + 1, up.end());
    size_t mid = up.size() - 1;
    long y = 0;
    using Face = std::array<P3, 4>;
    auto add = [&](const Face& a, const Face& b) {
        std::vector<P3> p(a.begin(), a.end());
        p.insert(p.end(), b.begin(), b.end());
        m.poly.push_back(p);
    };
    for (size_t k = 0; k < rows.size(); ++k) {
        long a = (long)rows[k].x, b = (long)rows[k].y, c = (long)rows[k].z, t = a / 3, u = c / 3, s = b / 2;
        m.nhy.push_back(rows[k].y);
        m.type.push_back(rows[k].t);
        for (long kz = 0; kz < (long)(nelz / rows[k].z); ++kz) {
            for (long kx = 0; kx < (long)(nelx / rows[k].x); ++kx) {
                long x = kx * a, z = kz * c;
                size_t before = m.poly.size();
                // the plane z + v with corners given in (x, y)
                auto xy = [&](std::array<std::array<long, 2>, 4> q, long v) {
                    Face f;
                    for (size_t i = 0; i < 4; ++i) {
                        f[i] = at(x + q[i][0], y + q[i][1], z + v);
                    }
                    return f;
                };
                // a strip along x: heights of its two edges, at depth v
                auto strip = [&](long y0, long y1, long v) { return xy({{{0, y0}, {a, y0}, {a, y1}, {0, y1}}}, v); };
                if (rows[k].t == -1) {
                    add(strip(0, b, 0), strip(0, b, c));
                }
                else if (rows[k].t == 0) {
                    std::vector<std::array<std::array<long, 2>, 4>> q;
                    if (k < mid) {
                        q.push_back({{{0, 0}, {a, 0}, {2 * t, s}, {t, s}}});
                        q.push_back({{{a, 0}, {a, b}, {2 * t, b}, {2 * t, s}}});
                        q.push_back({{{t, s}, {2 * t, s}, {2 * t, b}, {t, b}}});
                        q.push_back({{{0, 0}, {t, s}, {t, b}, {0, b}}});
                    }
                    else {
                        q.push_back({{{0, 0}, {t, 0}, {t, s}, {0, b}}});
                        q.push_back({{{t, 0}, {2 * t, 0}, {2 * t, s}, {t, s}}});
                        q.push_back({{{2 * t, 0}, {a, 0}, {a, b}, {2 * t, s}}});
                        q.push_back({{{t, s}, {2 * t, s}, {a, b}, {0, b}}});
                    }
                    for (auto& f : q) {
                        add(xy(f, 0), xy(f, c));
                    }
                }
                else if (k < mid) {
                    add({at(x, y, z), at(x, y, z + c), at(x + a, y, z + c), at(x + a, y, z)},
                        {at(x, y + s, z + u), at(x, y + s, z + 2 * u), at(x + a, y + s, z + 2 * u), at(x + a, y + s, z + u)});
                    add(strip(s, b, 2 * u), strip(0, b, c));
                    add(strip(s, b, u), strip(s, b, 2 * u));
                    add(strip(0, b, 0), strip(s, b, u));
                }
                else {
                    add(strip(0, b, 0), strip(0, s, u));
                    add(strip(0, s, u), strip(0, s, 2 * u));
                    add(strip(0, s, 2 * u), strip(0, b, c));
                    Face lo, hi;
                    lo = {at(x, y + s, z + u), at(x + a, y + s, z + u), at(x + a, y + b, z), at(x, y + b, z)};
                    hi = {at(x, y + s, z + 2 * u), at(x + a, y + s, z + 2 * u), at(x + a, y + b, z + c), at(x, y + b, z + c)};
                    add(lo, hi);
                }
                for (size_t e = before; e < m.poly.size(); ++e) {
                    m.row.push_back(k);
                }
            }
        }
        y += b;
    }
    m.number(1, 2);
    return m;
}

// ------------------------------------------------------------------ results as flat lists of numbers

using Flat = std::vector<double>;

template <class T>
std::enable_if_t<std::is_arithmetic<T>::value> put(Flat& f, T v)
{
    f.push_back((double)v);
}
template <class T, size_t N>
void put(Flat& f, const xt::xtensor<T, N>& a)
{
    for (size_t i = 0; i < N; ++i) {
        f.push_back((double)a.shape(i));
    }
    for (auto v : a) {
        f.push_back((double)v);
    }
}
template <class T>
void put(Flat& f, const xt::xarray<T>& a)
{
    f.push_back((double)a.dimension());
    for (size_t i = 0; i < a.dimension(); ++i) {
        f.push_back((double)a.shape(i));
    }
    for (auto v : a) {
        f.push_back((double)v);
    }
}
template <class T>
void put(Flat& f, const std::vector<T>& v)
{
    f.push_back((double)v.size());
    for (auto& x : v) {
        put(f, x);
    }
}
void put(Flat& f, const Eigen::SparseMatrix<double>& m)
{
    f.push_back((double)m.rows());
    f.push_back((double)m.cols());
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
        for (Eigen::Index j = 0; j < m.cols(); ++j) {
            f.push_back(m.coeff(i, j));
        }
    }
}
void put(Flat& f, GM::ElementType t) { f.push_back((double)(int)t); }
template <class A, class B>
void put(Flat& f, const std::pair<A, B>& p)
{
    put(f, p.first);
    put(f, p.second);
}

template <class T>
struct tensor_size {
    static constexpr size_t n = 0;
};

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

enum Type { QUAD4, TRI3, HEX8, FINE, REFINE, F2R, FINE3 };

struct Obj {
    int type = 0;
    std::shared_ptr<const RefMesh> ref, ref2; // ref2: the regular mesh of a map
    size_t nx = 0, ny = 0; // REFINE
    std::unique_ptr<GM::Quad4::Regular> q;
    std::unique_ptr<GM::Tri3::Regular> t;
    std::unique_ptr<GM::Hex8::Regular> h;
    std::unique_ptr<GM::Quad4::FineLayer> f;
    std::unique_ptr<GM::Hex8::FineLayer> g;
    std::unique_ptr<GM::Quad4::Map::RefineRegular> r;
    std::unique_ptr<GM::Quad4::Map::FineLayer2Regular> m;
};

std::vector<double> dbl(const std::vector<size_t>& v) { return std::vector<double>(v.begin(), v.end()); }

struct World {
    const Plan& plan;
    std::vector<Obj> objs;
    Ctl ctl;
    int ncall = 0, fault_mod = 1, fault_at = 0;

    explicit World(const Plan& p) : plan(p) {}

    void begin(size_t i)
    {
        ctl = sim::op_ctl(plan, i);
        ncall = 0;
        const Op& op = plan.ops[i];
        fault_mod = 1 + (int)((op.a.size() > 0 ? op.a[0] : 0) & 7);
        fault_at = (int)((op.a.size() > 1 ? op.a[1] : 0) & 7) % fault_mod;
        sim::count(("op:" + op.name).c_str());
    }

    // One call of the library that returns its answer: possibly a failing allocation first (reported, nothing lost),
    // then twice with different contents of fresh memory: the answers have to be identical.
    template <class F>
    auto get(const std::string& n, F&& f, int ww = 0)
    {
        using R = std::decay_t<decltype(f())>;
        ++ncall;
        Ctl c = ctl;
        c.seed = ctl.seed + 7919 * (uint64_t)ncall;
        c.ww_ok = ww;
        R out{}, again{};
        if (c.fail >= 0 && ncall % fault_mod == fault_at) {
            uint64_t before = sim::heap_live_blocks();
            Res r = sim::run(c, [&]() {
                R v = f();
                out = std::move(v);
            });
            if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
                sim::count("probe:call-failed-and-repeated");
                if (sim::heap_live_blocks() != before) {
                    violate("leak", SAY(n << ": memory ran out; " << sim::heap_live_blocks() << " blocks in use, " << before << " before"));
                }
            }
            else if (!r.ok()) {
                violate("unexpected-exception", n + ": " + r.what);
            }
        }
        c.fail = -1;
        Res r = sim::run(c, [&]() { out = f(); });
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        c.seed += 3;
        r = sim::run(c, [&]() { again = f(); });
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        Flat a, b;
        put(a, out);
        put(b, again);
        bool eq = a.size() == b.size();
        for (size_t i = 0; eq && i < a.size(); ++i) {
            eq = same(a[i], b[i]);
        }
        if (!eq) {
            violate("memory-dependent", n + ": the answer changes with the contents of fresh memory");
        }
        for (double v : a) {
            sim::mix_double(v);
        }
        return out;
    }

    // A call that must be refused.
    void refuse(const std::string& n, const std::function<void()>& f)
    {
        ++ncall;
        Ctl c = ctl;
        c.seed = ctl.seed + 7919 * (uint64_t)ncall;
        c.fail = -1;
        Res r = sim::run(c, f);
        if (r.kind != Res::THROWN) {
            violate("not-refused", n + ": accepted");
        }
        sim::count("probe:refused");
    }

    // A constructor: a failed one leaves nothing behind.
    template <class T, class F>
    std::unique_ptr<T> build(const std::string& n, F&& f)
    {
        ++ncall;
        Ctl c = ctl;
        c.seed = ctl.seed + 7919 * (uint64_t)ncall;
        std::unique_ptr<T> o;
        if (c.fail >= 0) {
            uint64_t before = sim::heap_live_blocks();
            Res r = sim::run(c, [&]() { o.reset(f()); });
            if (r.ok()) {
                return o;
            }
            if (r.kind != Res::BAD_ALLOC || !r.fault_fired) {
                violate("unexpected-exception", n + ": " + r.what);
            }
            sim::count("probe:construction-failed");
            if (sim::heap_live_blocks() != before) {
                violate("leak", SAY(n << ": memory ran out; " << sim::heap_live_blocks() << " blocks in use, " << before << " before"));
            }
            // everything that was there before still answers
            ctl.fail = -1;
            for (auto& x : objs) {
                core(x, "after a failed construction");
            }
        }
        c.fail = -1;
        Res r = sim::run(c, [&]() { o.reset(f()); });
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        return o;
    }

    // ------------------------------------------------------------------ mesh queries

    template <class M>
    void core_mesh(const M& m, const RefMesh& r, const std::string& w)
    {
        auto c = get("coor", [&]() { return T2(m.coor()); });
        auto e = get("conn", [&]() { return I2(m.conn()); });
        want_shape(c, {r.nnode(), r.ndim}, "coordinates " + w);
        want_shape(e, {r.nelem(), r.nne}, "connectivity " + w);
        want_close(c, r.coor(), "coordinates " + w, 1e-12);
        want_exact(e, dbl(r.conn), "connectivity " + w);
    }

    void core(const Obj& o, const std::string& w)
    {
        switch (o.type) {
        case QUAD4: core_mesh(*o.q, *o.ref, w); break;
        case TRI3: core_mesh(*o.t, *o.ref, w); break;
        case HEX8: core_mesh(*o.h, *o.ref, w); break;
        case FINE: core_mesh(*o.f, *o.ref, w); break;
        case FINE3: core_mesh(*o.g, *o.ref, w); break;
        case REFINE: {
            auto a = get("map", [&]() { return I2(o.r->map()); });
            want_exact(a, refine_map(o), "refinement map " + w);
            break;
        }
        default: {
            auto a = get("map", [&]() { return o.m->map(); });
            auto b = get("mapFraction", [&]() { return o.m->mapFraction(); });
            fine_map(o, a, b);
        }
        }
    }

    template <class M>
    void sizes(const M& m, const RefMesh& r)
    {
        auto z = get("sizes", [&]() {
            return std::vector<double>{(double)m.nelem(), (double)m.nnode(), (double)m.nne(), (double)m.ndim(), (double)m.nelx(),
                                       (double)m.nely(), m.h(), (double)m.nodesOrigin()};
        });
        std::vector<double> w = {(double)r.nelem(), (double)r.nnode(), (double)r.nne, (double)r.ndim, (double)r.n[0], (double)r.n[1], r.h, 0};
        for (size_t i = 0; i < w.size(); ++i) {
            if (z[i] != w[i]) {
                violate("wrong-value", SAY("size " << i << " is " << z[i] << ", expected " << w[i]));
            }
        }
        auto t = get("elementType", [&]() { return m.elementType(); });
        auto want = r.nne == 3 ? GM::ElementType::Tri3 : r.nne == 4 ? GM::ElementType::Quad4 : GM::ElementType::Hex8;
        if (t != want) {
            violate("wrong-value", "element type");
        }
        auto d = get("dofs", [&]() { return I2(m.dofs()); });
        want_shape(d, {r.nnode(), r.ndim}, "DOFs");
        std::vector<double> seq;
        for (size_t i = 0; i < r.nnode() * r.ndim; ++i) {
            seq.push_back((double)i);
        }
        want_exact(d, seq, "DOFs");
        auto img = r.image();
        auto p = get("dofsPeriodic", [&]() { return I2(m.dofsPeriodic()); });
        want_shape(p, {r.nnode(), r.ndim}, "periodic DOFs");
        std::vector<size_t> num(r.nnode(), 0);
        size_t k = 0;
        for (size_t i = 0; i < r.nnode(); ++i) {
            if (img[i] == i) {
                num[i] = k++;
            }
        }
        std::vector<double> per;
        for (size_t i = 0; i < r.nnode(); ++i) {
            for (size_t j = 0; j < r.ndim; ++j) {
                per.push_back((double)(num[img[i]] * r.ndim + j));
            }
        }
        want_exact(p, per, "periodic DOFs");
        auto ties = get("nodesPeriodic", [&]() { return I2(m.nodesPeriodic()); });
        std::vector<size_t> got(r.nnode(), (size_t)-1);
        for (size_t i = 0; i < ties.shape(0); ++i) {
            if (ties.shape(1) != 2 || ties(i, 0) >= r.nnode() || ties(i, 1) >= r.nnode() || got[ties(i, 1)] != (size_t)-1) {
                violate("wrong-value", SAY("periodic pair " << i << " names a node twice, or one that does not exist"));
            }
            got[ties(i, 1)] = ties(i, 0);
        }
        for (size_t i = 0; i < r.nnode(); ++i) {
            size_t want_i = img[i] == i ? (size_t)-1 : img[i];
            if (got[i] != want_i) {
                violate("wrong-value", SAY("node " << i << " is tied to " << (long)got[i] << ", expected " << (long)want_i));
            }
        }
    }

#define EDGE(name, open, ...) \
    { \
        #name, [](const M& m) { return I1(m.name()); }, {__VA_ARGS__}, open \
    }
#define CORNER(name, ...) \
    { \
        #name, [](const M& m) { return (size_t)m.name(); }, {__VA_ARGS__} \
    }

    enum Side { LE = 0, RI = 1, BO = 2, TO = 3, FR = 4, BA = 5 };

    template <class M>
    struct EdgeQ {
        const char* name;
        I1 (*f)(const M&);
        std::vector<int> sides;
        bool open;
    };
    template <class M>
    struct CornerQ {
        const char* name;
        size_t (*f)(const M&);
        std::vector<int> sides;
    };

    template <class M>
    void sets(const M& m, const RefMesh& r, Rng& g, const std::vector<EdgeQ<M>>& edges, const std::vector<CornerQ<M>>& corners, bool any_order = false)
    {
        bool all = g.chance(0.3);
        for (auto& q : edges) {
            if (all || g.chance(0.25)) {
                auto a = get(q.name, [&]() { return q.f(m); });
                if (any_order) {
                    std::sort(a.begin(), a.end());
                }
                want_exact(a, r.side(q.sides, q.open), q.name);
            }
        }
        for (auto& q : corners) {
            if (all || g.chance(0.25)) {
                auto a = get(q.name, [&]() { return q.f(m); });
                auto w = r.side(q.sides, false);
                if (w.size() != 1 || (double)a != w[0]) {
                    violate("wrong-value", SAY(q.name << " is " << a));
                }
            }
        }
    }

    template <class M>
    void sets2d(const M& m, const RefMesh& r, Rng& g)
    {
        static const std::vector<EdgeQ<M>> e = {
            EDGE(nodesBottomEdge, false, BO),    EDGE(nodesTopEdge, false, TO),    EDGE(nodesLeftEdge, false, LE),
            EDGE(nodesRightEdge, false, RI),     EDGE(nodesBottomOpenEdge, true, BO), EDGE(nodesTopOpenEdge, true, TO),
            EDGE(nodesLeftOpenEdge, true, LE),   EDGE(nodesRightOpenEdge, true, RI)};
        static const std::vector<CornerQ<M>> c = {
            CORNER(nodesBottomLeftCorner, BO, LE), CORNER(nodesBottomRightCorner, BO, RI), CORNER(nodesTopLeftCorner, TO, LE),
            CORNER(nodesTopRightCorner, TO, RI),   CORNER(nodesLeftBottomCorner, BO, LE),  CORNER(nodesLeftTopCorner, TO, LE),
            CORNER(nodesRightBottomCorner, BO, RI), CORNER(nodesRightTopCorner, TO, RI)};
        sets(m, r, g, e, c);
    }

    template <class M>
    void sets3d(const M& m, const RefMesh& r, Rng& g, bool any_order = false)
    {
        static const std::vector<EdgeQ<M>> e = {
            EDGE(nodesBottom, false, BO), EDGE(nodesTop, false, TO), EDGE(nodesLeft, false, LE), EDGE(nodesRight, false, RI),
            EDGE(nodesFront, false, FR), EDGE(nodesBack, false, BA), EDGE(nodesBottomFace, true, BO), EDGE(nodesTopFace, true, TO),
            EDGE(nodesLeftFace, true, LE), EDGE(nodesRightFace, true, RI), EDGE(nodesFrontFace, true, FR), EDGE(nodesBackFace, true, BA),
            EDGE(nodesFrontBottomEdge, false, FR, BO), EDGE(nodesFrontTopEdge, false, FR, TO), EDGE(nodesFrontLeftEdge, false, FR, LE),
            EDGE(nodesFrontRightEdge, false, FR, RI), EDGE(nodesBackBottomEdge, false, BA, BO), EDGE(nodesBackTopEdge, false, BA, TO),
            EDGE(nodesBackLeftEdge, false, BA, LE), EDGE(nodesBackRightEdge, false, BA, RI), EDGE(nodesBottomLeftEdge, false, BO, LE),
            EDGE(nodesBottomRightEdge, false, BO, RI), EDGE(nodesTopLeftEdge, false, TO, LE), EDGE(nodesTopRightEdge, false, TO, RI),
            EDGE(nodesBottomFrontEdge, false, FR, BO), EDGE(nodesBottomBackEdge, false, BA, BO), EDGE(nodesTopFrontEdge, false, FR, TO),
            EDGE(nodesTopBackEdge, false, BA, TO), EDGE(nodesLeftBottomEdge, false, BO, LE), EDGE(nodesLeftFrontEdge, false, FR, LE),
            EDGE(nodesLeftBackEdge, false, BA, LE), EDGE(nodesLeftTopEdge, false, TO, LE), EDGE(nodesRightBottomEdge, false, BO, RI),
            EDGE(nodesRightTopEdge, false, TO, RI), EDGE(nodesRightFrontEdge, false, FR, RI), EDGE(nodesRightBackEdge, false, BA, RI),
            EDGE(nodesFrontBottomOpenEdge, true, FR, BO), EDGE(nodesFrontTopOpenEdge, true, FR, TO), EDGE(nodesFrontLeftOpenEdge, true, FR, LE),
            EDGE(nodesFrontRightOpenEdge, true, FR, RI), EDGE(nodesBackBottomOpenEdge, true, BA, BO), EDGE(nodesBackTopOpenEdge, true, BA, TO),
            EDGE(nodesBackLeftOpenEdge, true, BA, LE), EDGE(nodesBackRightOpenEdge, true, BA, RI), EDGE(nodesBottomLeftOpenEdge, true, BO, LE),
            EDGE(nodesBottomRightOpenEdge, true, BO, RI), EDGE(nodesTopLeftOpenEdge, true, TO, LE), EDGE(nodesTopRightOpenEdge, true, TO, RI),
            EDGE(nodesBottomFrontOpenEdge, true, FR, BO), EDGE(nodesBottomBackOpenEdge, true, BA, BO), EDGE(nodesTopFrontOpenEdge, true, FR, TO),
            EDGE(nodesTopBackOpenEdge, true, BA, TO), EDGE(nodesLeftBottomOpenEdge, true, BO, LE), EDGE(nodesLeftFrontOpenEdge, true, FR, LE),
            EDGE(nodesLeftBackOpenEdge, true, BA, LE), EDGE(nodesLeftTopOpenEdge, true, TO, LE), EDGE(nodesRightBottomOpenEdge, true, BO, RI),
            EDGE(nodesRightTopOpenEdge, true, TO, RI), EDGE(nodesRightFrontOpenEdge, true, FR, RI), EDGE(nodesRightBackOpenEdge, true, BA, RI)};
        static const std::vector<CornerQ<M>> c = {
            CORNER(nodesFrontBottomLeftCorner, FR, BO, LE), CORNER(nodesFrontBottomRightCorner, FR, BO, RI), CORNER(nodesFrontTopLeftCorner, FR, TO, LE),
            CORNER(nodesFrontTopRightCorner, FR, TO, RI), CORNER(nodesBackBottomLeftCorner, BA, BO, LE), CORNER(nodesBackBottomRightCorner, BA, BO, RI),
            CORNER(nodesBackTopLeftCorner, BA, TO, LE), CORNER(nodesBackTopRightCorner, BA, TO, RI),
            CORNER(nodesFrontLeftBottomCorner, FR, BO, LE), CORNER(nodesBottomFrontLeftCorner, FR, BO, LE), CORNER(nodesBottomLeftFrontCorner, FR, BO, LE),
            CORNER(nodesLeftFrontBottomCorner, FR, BO, LE), CORNER(nodesLeftBottomFrontCorner, FR, BO, LE),
            CORNER(nodesFrontRightBottomCorner, FR, BO, RI), CORNER(nodesBottomFrontRightCorner, FR, BO, RI), CORNER(nodesBottomRightFrontCorner, FR, BO, RI),
            CORNER(nodesRightFrontBottomCorner, FR, BO, RI), CORNER(nodesRightBottomFrontCorner, FR, BO, RI),
            CORNER(nodesFrontLeftTopCorner, FR, TO, LE), CORNER(nodesTopFrontLeftCorner, FR, TO, LE), CORNER(nodesTopLeftFrontCorner, FR, TO, LE),
            CORNER(nodesLeftFrontTopCorner, FR, TO, LE), CORNER(nodesLeftTopFrontCorner, FR, TO, LE),
            CORNER(nodesFrontRightTopCorner, FR, TO, RI), CORNER(nodesTopFrontRightCorner, FR, TO, RI), CORNER(nodesTopRightFrontCorner, FR, TO, RI),
            CORNER(nodesRightFrontTopCorner, FR, TO, RI), CORNER(nodesRightTopFrontCorner, FR, TO, RI),
            CORNER(nodesBackLeftBottomCorner, BA, BO, LE), CORNER(nodesBottomBackLeftCorner, BA, BO, LE), CORNER(nodesBottomLeftBackCorner, BA, BO, LE),
            CORNER(nodesLeftBackBottomCorner, BA, BO, LE), CORNER(nodesLeftBottomBackCorner, BA, BO, LE),
            CORNER(nodesBackRightBottomCorner, BA, BO, RI), CORNER(nodesBottomBackRightCorner, BA, BO, RI), CORNER(nodesBottomRightBackCorner, BA, BO, RI),
            CORNER(nodesRightBackBottomCorner, BA, BO, RI), CORNER(nodesRightBottomBackCorner, BA, BO, RI),
            CORNER(nodesBackLeftTopCorner, BA, TO, LE), CORNER(nodesTopBackLeftCorner, BA, TO, LE), CORNER(nodesTopLeftBackCorner, BA, TO, LE),
            CORNER(nodesLeftBackTopCorner, BA, TO, LE), CORNER(nodesLeftTopBackCorner, BA, TO, LE),
            CORNER(nodesBackRightTopCorner, BA, TO, RI), CORNER(nodesTopBackRightCorner, BA, TO, RI), CORNER(nodesTopRightBackCorner, BA, TO, RI),
            CORNER(nodesRightBackTopCorner, BA, TO, RI), CORNER(nodesRightTopBackCorner, BA, TO, RI)};
        sets(m, r, g, e, c, any_order);
        // opposite sides list their nodes in the same order
        auto opposite = [&](const char* n, const I1& a, const I1& b, size_t axis) {
            bool ok = a.size() == b.size();
            for (size_t i = 0; ok && i < a.size(); ++i) {
                for (size_t j = 0; j < 3; ++j) {
                    ok = ok && (j == axis ? r.pts[b(i)][j] - r.pts[a(i)][j] == r.n[j] : r.pts[b(i)][j] == r.pts[a(i)][j]);
                }
            }
            if (!ok) {
                violate("wrong-value", SAY(n << ": not the order of the opposite side"));
            }
        };
        if (g.chance(0.2)) {
            opposite("nodesBack", get("nodesFront", [&]() { return I1(m.nodesFront()); }), get("nodesBack", [&]() { return I1(m.nodesBack()); }), 2);
            opposite("nodesRight", get("nodesLeft", [&]() { return I1(m.nodesLeft()); }), get("nodesRight", [&]() { return I1(m.nodesRight()); }), 0);
            opposite("nodesTop", get("nodesBottom", [&]() { return I1(m.nodesBottom()); }), get("nodesTop", [&]() { return I1(m.nodesTop()); }), 1);
            opposite("nodesBackFace", get("nodesFrontFace", [&]() { return I1(m.nodesFrontFace()); }), get("nodesBackFace", [&]() { return I1(m.nodesBackFace()); }), 2);
            opposite("nodesRightFace", get("nodesLeftFace", [&]() { return I1(m.nodesLeftFace()); }), get("nodesRightFace", [&]() { return I1(m.nodesRightFace()); }), 0);
            opposite("nodesTopFace", get("nodesBottomFace", [&]() { return I1(m.nodesBottomFace()); }), get("nodesTopFace", [&]() { return I1(m.nodesTopFace()); }), 1);
        }
    }

    // ------------------------------------------------------------------ graded layers

    static double area(const std::vector<std::array<double, 2>>& p)
    {
        double a = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            auto &u = p[i], &v = p[(i + 1) % p.size()];
            a += 0.5 * (u[0] * v[1] - v[0] * u[1]);
        }
        return a;
    }

    // area of the part of a polygon inside the unit cell (x, y)
    static double overlap(const std::vector<P3>& q, long x, long y)
    {
        std::vector<std::array<double, 2>> p;
        for (auto& v : q) {
            p.push_back({(double)(v[0] - x), (double)(v[1] - y)});
        }
        for (int s = 0; s < 4; ++s) {
            std::vector<std::array<double, 2>> o;
            auto in = [&](const std::array<double, 2>& v) { return s == 0 ? v[0] : s == 1 ? 1 - v[0] : s == 2 ? v[1] : 1 - v[1]; };
            for (size_t i = 0; i < p.size(); ++i) {
                auto &u = p[i], &v = p[(i + 1) % p.size()];
                double a = in(u), b = in(v);
                if (a >= 0) {
                    o.push_back(u);
                }
                if ((a > 0 && b < 0) || (a < 0 && b > 0)) {
                    double t = a / (a - b);
                    o.push_back({u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])});
                }
            }
            p = o;
            if (p.size() < 3) {
                return 0;
            }
        }
        return area(p);
    }

    void fine_map(const Obj& o, const VV& map, const VD& frac)
    {
        const RefMesh& r = *o.ref;
        if (map.size() != r.nelem() || frac.size() != r.nelem()) {
            violate("wrong-shape", "map to the regular mesh");
        }
        for (size_t e = 0; e < r.nelem(); ++e) {
            std::map<size_t, double> got, want;
            if (map[e].size() != frac[e].size()) {
                violate("wrong-shape", "map to the regular mesh: fractions");
            }
            for (size_t i = 0; i < map[e].size(); ++i) {
                if (got.count(map[e][i])) {
                    violate("wrong-value", "map to the regular mesh: an element is listed twice");
                }
                got[map[e][i]] = frac[e][i];
            }
            long lo[2] = {1000000, 1000000}, hi[2] = {0, 0};
            for (auto& p : r.poly[e]) {
                for (int i = 0; i < 2; ++i) {
                    lo[i] = std::min(lo[i], p[(size_t)i]);
                    hi[i] = std::max(hi[i], p[(size_t)i]);
                }
            }
            for (long y = lo[1]; y < hi[1]; ++y) {
                for (long x = lo[0]; x < hi[0]; ++x) {
                    double a = overlap(r.poly[e], x, y);
                    if (a > 1e-9) {
                        want[(size_t)(y * r.n[0] + x)] = a;
                    }
                }
            }
            bool ok = got.size() == want.size();
            for (auto& kv : want) {
                ok = ok && got.count(kv.first) && std::abs(got[kv.first] - kv.second) < 1e-9;
            }
            if (!ok) {
                violate("wrong-value", SAY("map to the regular mesh: overlap of element " << e));
            }
        }
    }

    void fine_queries(Obj& o, Rng& g)
    {
        auto& f = *o.f;
        const RefMesh& r = *o.ref;
        size_t rows = r.nhx.size(), mid = (rows - 1) / 2;
        auto list = [&](const char* n, auto fn, const std::vector<double>& w) {
            auto a = get(n, fn);
            want_exact(a, w, n);
        };
        list("elemrow_nhx", [&]() { return I1(f.elemrow_nhx()); }, dbl(r.nhx));
        list("elemrow_nhy", [&]() { return I1(f.elemrow_nhy()); }, dbl(r.nhy));
        list("elemrow_nelem", [&]() { return I1(f.elemrow_nelem()); }, dbl(r.nblock));
        list("elemrow_type", [&]() { return xt::xtensor<int, 1>(f.elemrow_type()); }, std::vector<double>(r.type.begin(), r.type.end()));
        std::vector<std::vector<double>> layer(rows);
        for (size_t e = 0; e < r.nelem(); ++e) {
            layer[r.row[e]].push_back((double)e);
        }
        list("elementsMiddleLayer", [&]() { return I1(f.elementsMiddleLayer()); }, layer[mid]);
        size_t l = g.below(rows);
        list("elementsLayer", [&]() { return I1(f.elementsLayer(l)); }, layer[l]);
        // roll by a number of coarsest blocks: the answer is a shift of the mesh onto itself
        size_t step = *std::max_element(r.nhx.begin(), r.nhx.end());
        size_t n = g.below(r.nblock[0] + 2);
        auto roll = get("roll", [&]() { return I1(f.roll(n)); });
        want_shape(roll, {r.nelem()}, "roll");
        std::map<std::array<long, 2>, size_t> by;
        auto key = [&](size_t e, long shift) {
            long x = 0, y = 0;
            for (auto& p : r.poly[e]) {
                x += p[0];
                y += p[1];
            }
            long L = 4 * r.n[0];
            x = ((x + 4 * shift) % L + L) % L;
            return std::array<long, 2>{x, y};
        };
        for (size_t e = 0; e < r.nelem(); ++e) {
            by[key(e, 0)] = e;
        }
        for (size_t e = 0; e < r.nelem(); ++e) {
            auto it = by.find(key(e, -(long)(n * step)));
            if (it == by.end() || roll(e) != it->second) {
                violate("wrong-value", SAY("roll by " << n << ": element " << e << " takes from " << roll(e)));
            }
        }
        // a box of elements
        std::vector<size_t> rr, cc;
        size_t y0 = 0, y1 = (size_t)r.n[1], x0 = 0, x1 = (size_t)r.n[0];
        if (g.chance(0.8)) {
            y0 = g.below(y1);
            y1 = y0 + g.below(y1 - y0 + 1);
            rr = {y0, y1};
        }
        if (g.chance(0.8)) {
            x0 = g.below(x1);
            x1 = x0 + g.below(x1 - x0 + 1);
            cc = {x0, x1};
        }
        auto box = get("elementgrid_ravel", [&]() { return I1(f.elementgrid_ravel(rr, cc)); });
        std::vector<double> w;
        if (y0 < y1 && x0 < x1) {
            size_t a = 0, b = 0, y = 0;
            for (size_t k = 0; k < rows; ++k) {
                if (y <= y0) {
                    a = k;
                }
                if (y < y1) {
                    b = k;
                }
                y += r.nhy[k];
            }
            size_t hx = std::max(r.nhx[a], r.nhx[b]);
            size_t u = x0 / hx * hx, v = x1 / hx * hx;
            for (size_t e = 0; e < r.nelem(); ++e) {
                if (r.row[e] >= a && r.row[e] <= b && r.lo[e] >= u && r.hi[e] <= v) {
                    w.push_back((double)e);
                }
            }
        }
        want_exact(box, w, "elementgrid_ravel");
        // around an element of the middle layer
        size_t k = g.below(layer[mid].size());
        size_t e = (size_t)layer[mid][k], size = g.below((size_t)r.n[1] + 2), right = g.below((size_t)r.n[0]);
        auto check = [&](const I1& a, const char* what) {
            std::set<size_t> s;
            for (auto q : a) {
                if (q >= r.nelem() || !s.insert(q).second) {
                    violate("wrong-value", SAY(what << ": element " << q << " is listed twice or does not exist"));
                }
            }
            if (!s.count(e)) {
                violate("wrong-value", SAY(what << ": the element itself is missing"));
            }
            return s;
        };
        auto around = get("elementgrid_around_ravel", [&]() { return I1(f.elementgrid_around_ravel(e, size)); });
        auto s = check(around, "elementgrid_around_ravel");
        auto lr = get("elementgrid_leftright", [&]() { return I1(f.elementgrid_leftright(e, size, right)); });
        auto t = check(lr, "elementgrid_leftright");
        for (size_t q : t) {
            if (r.row[q] != mid) {
                violate("wrong-value", "elementgrid_leftright: an element of another layer");
            }
        }
        if (step == 1) {
            // no coarsening: the answers are exact
            long X = r.n[0], Y = r.n[1];
            auto per = [&](size_t q) {
                long d = (long)r.lo[q] - (long)r.lo[e];
                d = ((d % X) + X) % X;
                return d;
            };
            for (size_t q = 0; q < r.nelem(); ++q) {
                long d = per(q), dy = std::abs((long)r.row[q] - (long)mid);
                bool in = (d <= (long)size || X - d <= (long)size) && dy <= (long)size;
                if (2 * (long)size >= Y) {
                    in = true;
                }
                if ((s.count(q) != 0) != in) {
                    violate("wrong-value", SAY("elementgrid_around_ravel(" << e << ", " << size << "): element " << q));
                }
            }
        }
    }

    void rebuild(Rng& g, const Obj& o)
    {
        const RefMesh& r = *o.ref;
        T2 c;
        I2 e;
        {
            sim::OnHeap heap;
            auto x = r.coor();
            c = T2::from_shape({r.nnode(), (size_t)2});
            std::copy(x.begin(), x.end(), c.begin());
            e = I2::from_shape({r.nelem(), (size_t)4});
            std::copy(r.conn.begin(), r.conn.end(), e.begin());
        }
        if (g.chance(0.2) && r.nelem() > 1 && r.h > 1e-6) { // the mesh is compared with an absolute tolerance too
            // not such a mesh
            c(g.below(r.nnode()), g.below(2)) += 0.31 * r.h;
            refuse("FineLayer(coor, conn)", [&]() { GM::Quad4::FineLayer f(c, e); });
            return;
        }
        auto f = build<GM::Quad4::FineLayer>("FineLayer(coor, conn)", [&]() { return new GM::Quad4::FineLayer(c, e); });
        core_mesh(*f, r, "of the mesh taken from its arrays");
        sim::count("probe:rebuilt");
    }

    // ------------------------------------------------------------------ maps

    std::vector<double> refine_map(const Obj& o) const
    {
        const RefMesh& r = *o.ref;
        std::vector<double> w;
        for (long y = 0; y < r.n[1]; ++y) {
            for (long x = 0; x < r.n[0]; ++x) {
                for (size_t j = 0; j < o.ny; ++j) {
                    for (size_t i = 0; i < o.nx; ++i) {
                        w.push_back((double)(((size_t)y * o.ny + j) * (size_t)r.n[0] * o.nx + (size_t)x * o.nx + i));
                    }
                }
            }
        }
        return w;
    }

    void refine_queries(const Obj& o, Rng& g)
    {
        const RefMesh& r = *o.ref;
        auto z = get("nx, ny", [&]() { return std::vector<size_t>{o.r->nx(), o.r->ny(), o.r->coarseMesh().nelem(), o.r->fineMesh().nelem()}; });
        size_t k = o.nx * o.ny, n = r.nelem();
        if (z[0] != o.nx || z[1] != o.ny || z[2] != n || z[3] != n * k) {
            violate("wrong-value", "sizes of the refinement");
        }
        auto map = refine_map(o);
        size_t m = 1 + g.below(3);
        auto coarse = make<double, 2>({n, m}, [&]() { return small_int(g); });
        auto fine = make<double, 2>({n * k, m}, [&]() { return small_int(g); });
        auto wgt = make<double, 2>({n * k, m}, [&]() { return (double)g.range(1, 5); });
        auto to = get("mapToFine", [&]() { return T2(o.r->mapToFine(coarse)); });
        auto mean = get("meanToCoarse", [&]() { return T2(o.r->meanToCoarse(fine)); });
        auto avg = get("averageToCoarse", [&]() { return T2(o.r->averageToCoarse(fine, wgt)); });
        want_shape(to, {n * k, m}, "mapToFine");
        want_shape(mean, {n, m}, "meanToCoarse");
        want_shape(avg, {n, m}, "averageToCoarse");
        std::vector<double> a(n * k * m), b, c;
        for (size_t e = 0; e < n; ++e) {
            for (size_t j = 0; j < m; ++j) {
                double s = 0, t = 0, u = 0;
                for (size_t i = 0; i < k; ++i) {
                    size_t q = (size_t)map[e * k + i];
                    a[q * m + j] = coarse(e, j);
                    s += fine(q, j);
                    t += fine(q, j) * wgt(q, j);
                    u += wgt(q, j);
                }
                b.push_back(s / (double)k);
                c.push_back(t / u);
            }
        }
        want_exact(to, a, "mapToFine");
        want_close(mean, b, "meanToCoarse", 1e-12, 1);
        want_close(avg, c, "averageToCoarse", 1e-12, 1);
        auto one = make<double, 1>({n}, [&]() { return small_int(g); });
        auto to1 = get("mapToFine", [&]() { return T1(o.r->mapToFine(one)); });
        std::vector<double> d(n * k);
        for (size_t i = 0; i < n * k; ++i) {
            d[(size_t)map[i]] = one(i / k);
        }
        want_exact(to1, d, "mapToFine");
    }

    void f2r_queries(const Obj& o, Rng& g)
    {
        const RefMesh& r = *o.ref;
        auto z = get("meshes", [&]() { return std::vector<size_t>{o.m->regularMesh().nelem(), o.m->fineLayerMesh().nelem(), o.m->regularMesh().nelx()}; });
        size_t n = (size_t)(r.n[0] * r.n[1]);
        if (z[0] != n || z[1] != r.nelem() || z[2] != (size_t)r.n[0]) {
            violate("wrong-value", "sizes of the map to the regular mesh");
        }
        size_t m = 1 + g.below(3);
        auto data = make<double, 2>({r.nelem(), m}, [&]() { return small_int(g); });
        auto to = get("mapToRegular", [&]() { return T2(o.m->mapToRegular(data)); });
        want_shape(to, {n, m}, "mapToRegular");
        std::vector<double> w(n * m, 0.0);
        for (size_t e = 0; e < r.nelem(); ++e) {
            long lo[2] = {1000000, 1000000}, hi[2] = {0, 0};
            for (auto& p : r.poly[e]) {
                for (int i = 0; i < 2; ++i) {
                    lo[i] = std::min(lo[i], p[(size_t)i]);
                    hi[i] = std::max(hi[i], p[(size_t)i]);
                }
            }
            for (long y = lo[1]; y < hi[1]; ++y) {
                for (long x = lo[0]; x < hi[0]; ++x) {
                    double a = overlap(r.poly[e], x, y);
                    for (size_t j = 0; j < m; ++j) {
                        w[(size_t)(y * r.n[0] + x) * m + j] += a * data(e, j);
                    }
                }
            }
        }
        want_close(to, w, "mapToRegular", 1e-12, 1);
    }

    // ------------------------------------------------------------------ tables over a mesh

    static I2 ints(const std::vector<size_t>& v, size_t n, size_t m)
    {
        sim::OnHeap heap;
        I2 o = I2::from_shape({n, m});
        std::copy(v.begin(), v.end(), o.begin());
        return o;
    }
    static I1 ints(const std::vector<size_t>& v)
    {
        sim::OnHeap heap;
        I1 o = I1::from_shape({v.size()});
        std::copy(v.begin(), v.end(), o.begin());
        return o;
    }

    void want_lists(const VV& got, const VV& want, bool ordered, const std::string& n)
    {
        if (got.size() != want.size()) {
            violate("wrong-shape", SAY(n << ": " << got.size() << " lists, expected " << want.size()));
        }
        for (size_t i = 0; i < got.size(); ++i) {
            auto g = got[i];
            auto w = want[i];
            std::sort(w.begin(), w.end());
            if (!ordered) {
                std::sort(g.begin(), g.end());
            }
            if (g != w) {
                violate("wrong-value", SAY(n << ": list " << i));
            }
        }
    }

    void tables(Rng& g)
    {
        size_t nnode = 1 + g.below(14), nne = 1 + g.below(std::min<size_t>(nnode, 5)), nelem = 1 + g.below(10), ndim = 1 + g.below(3);
        std::vector<size_t> conn;
        size_t used = g.chance(0.6) ? nnode : std::max<size_t>(nne, 1 + g.below(nnode));
        for (size_t e = 0; e < nelem; ++e) {
            auto p = permutation(used, g);
            conn.insert(conn.end(), p.begin(), p.begin() + (long)nne);
        }
        size_t top = *std::max_element(conn.begin(), conn.end()) + 1;
        I2 c = ints(conn, nelem, nne);
        VV e2n(top);
        std::vector<double> co(top, 0.0);
        for (size_t i = 0; i < conn.size(); ++i) {
            e2n[conn[i]].push_back(i / nne);
            co[conn[i]] += 1;
        }
        bool sorted = g.chance(0.5);
        want_exact(get("coordination", [&]() { return I1(GM::coordination(c)); }), co, "coordination");
        want_lists(get("elem2node", [&]() { return GM::elem2node(c, sorted); }), e2n, true, "elem2node");
        // nodes tied to each other: the same DOFs in every direction
        std::vector<size_t> rep(nnode);
        for (size_t i = 0; i < nnode; ++i) {
            rep[i] = i;
        }
        for (size_t k = g.below(nnode + 1); k > 0; --k) {
            size_t a = rep[g.below(nnode)], b = rep[g.below(nnode)];
            for (auto& x : rep) {
                if (x == b) {
                    x = a;
                }
            }
        }
        auto perm = permutation(nnode * ndim, g);
        std::vector<size_t> dofs;
        for (size_t i = 0; i < nnode; ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                dofs.push_back(perm[rep[i] * ndim + j]);
            }
        }
        I2 d = ints(dofs, nnode, ndim);
        VV ties(nnode), n2d(*std::max_element(dofs.begin(), dofs.end()) + 1), per(nnode);
        for (size_t i = 0; i < nnode; ++i) {
            for (size_t k = 0; k < nnode; ++k) {
                if (rep[i] == rep[k]) {
                    ties[i].push_back(k);
                    if (k < top) {
                        per[i].insert(per[i].end(), e2n[k].begin(), e2n[k].end());
                    }
                }
            }
            for (size_t j = 0; j < ndim; ++j) {
                n2d[dofs[i * ndim + j]].push_back(i);
            }
        }
        want_lists(get("node2dof", [&]() { return GM::node2dof(d, sorted); }), n2d, true, "node2dof");
        want_lists(get("nodaltyings", [&]() { return GM::nodaltyings(d); }), ties, true, "nodaltyings");
        if (nnode > top) {
            sim::count("probe:nodes-without-element");
        }
        want_lists(get("elem2node(dofs)", [&]() { return GM::elem2node(c, d, sorted); }), per, sorted, "elem2node(dofs)");
        // renumbering: DOFs with holes
        std::vector<size_t> uni = dofs;
        std::sort(uni.begin(), uni.end());
        uni.erase(std::unique(uni.begin(), uni.end()), uni.end());
        std::vector<double> ren;
        for (auto k : dofs) {
            ren.push_back((double)(std::lower_bound(uni.begin(), uni.end(), k) - uni.begin()));
        }
        want_exact(get("renumber", [&]() { return I2(GM::renumber(d)); }), ren, "renumber");
        auto both = get("Renumber", [&]() {
            GM::Renumber r(d);
            return std::make_pair(I2(r.apply(d)), I1(r.index()));
        });
        want_exact(both.first, ren, "Renumber::apply");
        for (size_t i = 0; i < dofs.size(); ++i) {
            if (dofs[i] >= both.second.size() || (double)both.second(dofs[i]) != ren[i]) {
                violate("wrong-value", "Renumber::index");
            }
        }
        // reordering: some lists that together hold every number
        size_t n = 1 + g.below(12), cut = g.below(n + 1), cut2 = cut + g.below(n - cut + 1);
        auto p = permutation(n, g);
        I1 a = ints(std::vector<size_t>(p.begin(), p.begin() + (long)cut)), b = ints(std::vector<size_t>(p.begin() + (long)cut, p.begin() + (long)cut2)),
           q = ints(std::vector<size_t>(p.begin() + (long)cut2, p.end()));
        std::vector<double> inv(n), pos;
        for (size_t i = 0; i < n; ++i) {
            inv[p[i]] = (double)i;
        }
        std::vector<size_t> some;
        for (size_t i = 0; i < 6; ++i) {
            some.push_back(g.below(n));
            pos.push_back(inv[some.back()]);
        }
        I2 sm = ints(some, 3, 2);
        auto ro = get("Reorder", [&]() {
            GM::Reorder r({a, b, q});
            return std::make_pair(I2(r.apply(sm)), I1(r.index()));
        });
        want_exact(ro.first, pos, "Reorder::apply");
        want_exact(ro.second, inv, "Reorder::index");
        want_exact(get("dofs", [&]() { return I2(GM::dofs(nnode, ndim)); }), [&]() {
            std::vector<double> s;
            for (size_t i = 0; i < nnode * ndim; ++i) {
                s.push_back((double)i);
            }
            return s;
        }(), "Mesh::dofs");
        // no holes?
        size_t hole = 0;
        while (hole < uni.size() && uni[hole] == hole) {
            ++hole;
        }
        bool seq = get("isSequential", [&]() { return (size_t)GooseFEM::Element::isSequential(d); }) != 0;
        if (seq != (hole == uni.size())) {
            violate("wrong-value", SAY("isSequential says " << seq));
        }
    }

    // arrays on a distorted mesh
    void geometry(Rng& g)
    {
        RefMesh r;
        bool fine = g.chance(0.3);
        double h = 0.5 + g.unit();
        if (fine) {
            r = ref_fine(3 * (1 + g.below(3)), 1 + g.below(12), h, 1);
        }
        else {
            r = ref_quad(1 + (long)g.below(5), 1 + (long)g.below(5), h);
        }
        size_t extra = g.chance(0.3) ? 1 + g.below(3) : 0, nn = r.nnode() + extra;
        auto x = r.coor();
        for (auto& v : x) {
            v += h * g.real(-0.1, 0.1);
        }
        for (size_t i = 0; i < 2 * extra; ++i) {
            x.push_back(g.real(-5, 5));
        }
        T2 c = make<double, 2>({nn, 2}, [&, k = (size_t)0]() mutable { return x[k++]; });
        I2 e = ints(r.conn, r.nelem(), 4);
        std::vector<double> edge, cen;
        for (size_t i = 0; i < r.nelem(); ++i) {
            double s[2] = {0, 0};
            for (size_t m = 0; m < 4; ++m) {
                size_t a = r.conn[i * 4 + m], b = r.conn[i * 4 + (m + 1) % 4];
                edge.push_back(std::hypot(x[2 * b] - x[2 * a], x[2 * b + 1] - x[2 * a + 1]));
                s[0] += x[2 * a] / 4;
                s[1] += x[2 * a + 1] / 4;
            }
            cen.push_back(s[0]);
            cen.push_back(s[1]);
        }
        bool typed = g.chance(0.5);
        auto Q4 = GM::ElementType::Quad4;
        auto es = get("edgesize", [&]() { return typed ? T2(GM::edgesize(c, e, Q4)) : T2(GM::edgesize(c, e)); });
        want_shape(es, {r.nelem(), 4}, "edgesize");
        want_close(es, edge, "edgesize", 1e-12);
        auto ce = get("centers", [&]() { return typed ? T2(GM::centers(c, e, Q4)) : T2(GM::centers(c, e)); });
        want_shape(ce, {r.nelem(), 2}, "centers");
        want_close(ce, cen, "centers", 1e-12, 1);
        // mass per node
        Def d;
        d.kind = QUAD;
        d.nelem = r.nelem();
        d.nne = d.nip = 4;
        d.ndim = d.tdim = 2;
        for (size_t q = 0; q < 4; ++q) {
            for (size_t i = 0; i < 2; ++i) {
                d.xi.push_back(quad_sign[q][i]);
            }
            d.w.push_back(1);
        }
        std::vector<double> xe;
        for (auto k : r.conn) {
            xe.push_back(x[2 * k]);
            xe.push_back(x[2 * k + 1]);
        }
        Ref ref(d, xe);
        std::vector<double> mass(2 * nn, 0.0);
        double cg[2] = {0, 0}, M = 0;
        for (size_t i = 0; i < r.nelem(); ++i) {
            for (size_t m = 0; m < 4; ++m) {
                size_t k = r.conn[i * 4 + m];
                double v = ref.v(i, m);
                mass[2 * k] += v;
                mass[2 * k + 1] += v;
                cg[0] += v * x[2 * k];
                cg[1] += v * x[2 * k + 1];
                M += v;
            }
        }
        if (extra) {
            sim::count("probe:nodes-without-element");
        }
        auto nm = get("nodal_mass", [&]() { return typed ? T2(GM::nodal_mass(c, e, Q4)) : T2(GM::nodal_mass(c, e)); });
        want_shape(nm, {nn, 2}, "nodal_mass");
        want_close(nm, mass, "nodal_mass", 1e-11);
        auto cog = get("center_of_gravity", [&]() { return typed ? T1(GM::center_of_gravity(c, e, Q4)) : T1(GM::center_of_gravity(c, e)); });
        want_close(cog, {cg[0] / M, cg[1] / M}, "center_of_gravity", 1e-10, 10);
        // element map to node map
        auto map = permutation(r.nelem(), g);
        I1 em = ints(map);
        std::vector<double> nd(nn, (double)nn);
        for (size_t m = 0; m < 4; ++m) {
            std::vector<double> t(nn, (double)nn);
            for (size_t i = 0; i < r.nelem(); ++i) {
                t[r.conn[i * 4 + m]] = (double)r.conn[map[i] * 4 + m];
            }
            for (size_t k = 0; k < nn; ++k) {
                nd[k] = nd[k] == (double)nn ? t[k] : nd[k];
            }
        }
        want_exact(get("elemmap2nodemap", [&]() { return typed ? I1(GM::elemmap2nodemap(em, c, e, Q4)) : I1(GM::elemmap2nodemap(em, c, e)); }), nd,
                   "elemmap2nodemap");
        // orientation of triangles
        size_t nt = 1 + g.below(8);
        std::vector<size_t> tri;
        std::vector<double> ori;
        for (size_t i = 0; i < nt; ++i) {
            size_t a, b, k;
            double s;
            int guard = 0;
            do {
                a = g.below(nn);
                b = g.below(nn);
                k = g.below(nn);
                s = (x[2 * a] - x[2 * b]) * (x[2 * k + 1] - x[2 * b + 1]) - (x[2 * k] - x[2 * b]) * (x[2 * a + 1] - x[2 * b + 1]);
            } while (std::abs(s) < 1e-3 && ++guard < 50);
            if (std::abs(s) < 1e-3) {
                break;
            }
            tri.insert(tri.end(), {a, b, k});
            ori.push_back(s < 0 ? -1 : 1);
        }
        nt = ori.size();
        I2 tc = ints(tri, nt, 3);
        auto got = get("getOrientation", [&]() { return xt::xtensor<int, 1>(GM::Tri3::getOrientation(c, tc)); });
        want_exact(got, ori, "getOrientation");
        int target = g.chance(0.5) ? 1 : -1;
        auto sc = get("setOrientation", [&]() {
            return typed ? I2(GM::Tri3::setOrientation(c, tc, got, target)) : I2(GM::Tri3::setOrientation(c, tc, target));
        });
        want_shape(sc, {nt, 3}, "setOrientation");
        for (size_t i = 0; i < nt; ++i) {
            bool flip = (int)ori[i] != target;
            if (sc(i, 0) != tri[3 * i] || sc(i, 1) != tri[3 * i + (flip ? 2 : 1)] || sc(i, 2) != tri[3 * i + (flip ? 1 : 2)]) {
                violate("wrong-value", SAY("setOrientation: triangle " << i));
            }
        }
        // conversions without an object
        size_t ndim = 1 + g.below(3);
        auto v = make<double, 2>({nn, ndim}, [&]() { return small_int(g); });
        auto ev = get("asElementVector", [&]() { return T3(GooseFEM::Element::asElementVector(e, v)); });
        std::vector<double> we;
        for (auto k : r.conn) {
            for (size_t i = 0; i < ndim; ++i) {
                we.push_back(v(k, i));
            }
        }
        want_shape(ev, {r.nelem(), 4, ndim}, "asElementVector");
        want_exact(ev, we, "asElementVector");
        auto w = make<double, 3>({r.nelem(), 4, ndim}, [&]() { return small_int(g); });
        auto nv = get("assembleNodeVector", [&]() { return T2(GooseFEM::Element::assembleNodeVector(e, w)); });
        std::vector<double> wn(r.nnode() * ndim, 0.0);
        for (size_t i = 0; i < r.conn.size(); ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                wn[r.conn[i] * ndim + j] += w(i / 4, i % 4, j);
            }
        }
        want_shape(nv, {r.nnode(), ndim}, "assembleNodeVector");
        want_exact(nv, wn, "assembleNodeVector");
        bool diag = g.chance(0.5);
        size_t N = 1 + g.below(5);
        auto mat = make<double, 3>({r.nelem(), N, N}, [&, k = (size_t)0]() mutable {
            size_t i = k / N % N, j = k % N;
            ++k;
            return i == j ? small_int(g) : 0.0;
        });
        if (!diag && N > 1) {
            size_t i = g.below(N), j = (i + 1 + g.below(N - 1)) % N;
            mat(g.below(r.nelem()), i, j) = 0.5;
        }
        if ((get("isDiagonal", [&]() { return (size_t)GooseFEM::Element::isDiagonal(mat); }) != 0) != (diag || N == 1)) {
            violate("wrong-value", "isDiagonal");
        }
    }

    void broadcast(Rng& g)
    {
        size_t a = 1 + g.below(5), b = 1 + g.below(4), n = 1 + g.below(3);
        auto s = make<double, 2>({a, b}, [&]() { return small_int(g); });
        auto l = make<double, 1>({a}, [&]() { return small_int(g); });
        auto rep = [&](const std::vector<double>& v, size_t k) {
            std::vector<double> o;
            for (double x : v) {
                o.insert(o.end(), k, x);
            }
            return o;
        };
        auto sf = flat(s), lf = flat(l);
        auto r2 = get("AsTensor<2>", [&]() { return T4(GooseFEM::AsTensor<2>(s, n)); });
        want_shape(r2, {a, b, n, n}, "AsTensor");
        want_exact(r2, rep(sf, n * n), "AsTensor");
        auto r1 = get("AsTensor(shape)", [&]() { return T3(GooseFEM::AsTensor(l, {n, b})); });
        want_shape(r1, {a, n, b}, "AsTensor");
        want_exact(r1, rep(lf, n * b), "AsTensor");
        std::array<size_t, 1> sh = {n};
        auto r3 = get("AsTensor(array)", [&]() { return T3(GooseFEM::AsTensor(s, sh)); });
        want_exact(r3, rep(sf, n), "AsTensor");
        auto d = get("AsTensor(dynamic)", [&]() { return GooseFEM::AsTensor(s, std::vector<size_t>{n, b}); });
        want_exact(d, rep(sf, n * b), "AsTensor");
        auto rk = get("AsTensor(rank)", [&]() { return GooseFEM::AsTensor(size_t(2), s, n); });
        want_exact(rk, rep(sf, n * n), "AsTensor");
        // output form: whatever the array held
        double junk = g.chance(0.5) ? std::nan("") : 1e300;
        auto out = make<double, 4>({a, b, n, b}, [&]() { return junk; });
        auto w = get("asTensor", [&]() {
            T4 o = out;
            GooseFEM::asTensor(s, o);
            return o;
        });
        want_exact(w, rep(sf, n * b), "asTensor");
    }

    // ------------------------------------------------------------------ tyings

    void tyings(Rng& g)
    {
        RefMesh r = g.chance(0.3) ? ref_hex(1 + (long)g.below(2), 1 + (long)g.below(2), 1 + (long)g.below(2), 1.0)
                                  : ref_quad(1 + (long)g.below(4), 1 + (long)g.below(4), 1.0);
        size_t nd = r.ndim, nn = r.nnode();
        auto x = r.coor();
        for (auto& v : x) {
            v += 0.1 * g.real(-1, 1);
        }
        auto img = r.image();
        std::vector<std::pair<size_t, size_t>> ties;
        for (size_t k : permutation(nn, g)) {
            if (img[k] != k && g.chance(0.9)) {
                ties.push_back({img[k], k});
            }
        }
        if (ties.empty()) {
            ties.push_back({0, nn - 1});
        }
        std::vector<size_t> flatties;
        for (auto& t : ties) {
            flatties.push_back(t.first);
            flatties.push_back(t.second);
        }
        T2 c = make<double, 2>({nn, nd}, [&, k = (size_t)0]() mutable { return x[k++]; });
        I2 ty = ints(flatties, ties.size(), 2);
        auto perm = permutation(nn * nd, g);
        I2 dofs = ints(perm, nn, nd);
        GooseFEM::Tyings::Control ctrl = control(c, dofs);
        size_t tot = nn + nd, nc = nn * nd + nd * nd;
        // expected extension
        std::vector<double> cx(x), cd(perm.begin(), perm.end()), cdof, cnode;
        cx.insert(cx.end(), nd * nd, 0.0);
        for (size_t i = 0; i < nd * nd; ++i) {
            cd.push_back((double)(nn * nd + i));
            cdof.push_back((double)(nn * nd + i));
        }
        for (size_t i = 0; i < nd; ++i) {
            cnode.push_back((double)(nn + i));
        }
        want_exact(get("Control::coor", [&]() { return T2(ctrl.coor()); }), cx, "Control::coor");
        want_exact(get("Control::dofs", [&]() { return I2(ctrl.dofs()); }), cd, "Control::dofs");
        want_exact(get("Control::controlDofs", [&]() { return I2(ctrl.controlDofs()); }), cdof, "Control::controlDofs");
        want_exact(get("Control::controlNodes", [&]() { return I1(ctrl.controlNodes()); }), cnode, "Control::controlNodes");
        // prescribed: some of the independent DOFs
        std::vector<char> dep(nc, 0);
        for (auto& t : ties) {
            for (size_t i = 0; i < nd; ++i) {
                dep[perm[t.second * nd + i]] = 1;
            }
        }
        bool none = g.chance(0.3);
        std::vector<size_t> ip;
        for (size_t k : permutation(nc, g)) {
            if (!dep[k] && !none && g.chance(0.3)) {
                ip.push_back(k);
            }
        }
        I1 iip = ints(ip);
        bool shortform = ip.empty() && g.chance(0.5);
        auto per = build<GooseFEM::Tyings::Periodic>("Tyings::Periodic", [&]() {
            return shortform ? new GooseFEM::Tyings::Periodic(ctrl.coor(), ctrl.dofs(), ctrl.controlDofs(), ty)
                             : new GooseFEM::Tyings::Periodic(ctrl.coor(), ctrl.dofs(), ctrl.controlDofs(), ty, iip);
        });
        size_t ndp = ties.size() * nd, ni = nc - ndp, np = ip.size(), nu = ni - np;
        auto z = get("sizes", [&]() { return std::vector<size_t>{per->nnd(), per->nni(), per->nnu(), per->nnp()}; });
        if (z != std::vector<size_t>{ndp, ni, nu, np}) {
            violate("wrong-value", "Tyings::Periodic: numbers of DOFs");
        }
        // new numbers: unknown (ascending), prescribed (as given), dependent (as the ties are listed)
        std::vector<char> pre(nc, 0);
        for (auto k : ip) {
            pre[k] = 1;
        }
        std::vector<size_t> num(nc);
        size_t k = 0;
        for (size_t i = 0; i < nc; ++i) {
            if (!dep[i] && !pre[i]) {
                num[i] = k++;
            }
        }
        for (auto i : ip) {
            num[i] = k++;
        }
        for (auto& t : ties) {
            for (size_t i = 0; i < nd; ++i) {
                num[perm[t.second * nd + i]] = k++;
            }
        }
        std::vector<double> wd, wc;
        for (double i : cd) {
            wd.push_back((double)num[(size_t)i]);
        }
        for (double i : cdof) {
            wc.push_back((double)num[(size_t)i]);
        }
        auto td = get("Periodic::dofs", [&]() { return I2(per->dofs()); });
        want_shape(td, {tot, nd}, "Periodic::dofs");
        want_exact(td, wd, "Periodic::dofs");
        want_exact(get("Periodic::control", [&]() { return I2(per->control()); }), wc, "Periodic::control");
        want_exact(get("Periodic::nodal_tyings", [&]() { return I2(per->nodal_tyings()); }), dbl(flatties), "Periodic::nodal_tyings");
        auto iota = [](size_t a, size_t b) {
            std::vector<double> o;
            for (; a < b; ++a) {
                o.push_back((double)a);
            }
            return o;
        };
        want_exact(get("iiu", [&]() { return I1(per->iiu()); }), iota(0, nu), "Periodic::iiu");
        want_exact(get("iip", [&]() { return I1(per->iip()); }), iota(nu, ni), "Periodic::iip");
        want_exact(get("iii", [&]() { return I1(per->iii()); }), iota(0, ni), "Periodic::iii");
        want_exact(get("iid", [&]() { return I1(per->iid()); }), iota(ni, nc), "Periodic::iid");
        std::vector<double> C(ndp * ni, 0.0);
        double scale = 1;
        for (size_t t = 0; t < ties.size(); ++t) {
            for (size_t i = 0; i < nd; ++i) {
                size_t row = t * nd + i;
                C[row * ni + num[perm[ties[t].first * nd + i]]] += 1;
                for (size_t j = 0; j < nd; ++j) {
                    double v = x[ties[t].second * nd + j] - x[ties[t].first * nd + j];
                    C[row * ni + num[nn * nd + i * nd + j]] += v;
                    scale = std::max(scale, std::abs(v));
                }
            }
        }
        auto cmp = [&](const Eigen::SparseMatrix<double>& m, size_t c0, size_t c1, const char* n) {
            if ((size_t)m.rows() != ndp || (size_t)m.cols() != c1 - c0) {
                violate("wrong-shape", n);
            }
            for (size_t i = 0; i < ndp; ++i) {
                for (size_t j = c0; j < c1; ++j) {
                    if (!(std::abs(m.coeff((long)i, (long)(j - c0)) - C[i * ni + j]) <= 1e-12 * scale)) {
                        violate("wrong-value", SAY(n << " (" << i << ", " << j - c0 << ")"));
                    }
                }
            }
        };
        ctl.fail = -1; // sparse matrices do not promise anything when memory runs out
        cmp(get("Cdi", [&]() { return per->Cdi(); }), 0, ni, "Cdi");
        cmp(get("Cdu", [&]() { return per->Cdu(); }), 0, nu, "Cdu");
        cmp(get("Cdp", [&]() { return per->Cdp(); }), nu, ni, "Cdp");
        sim::count(np ? "probe:tyings-with-prescribed" : "probe:tyings-nothing-prescribed");
    }

    GooseFEM::Tyings::Control control(const T2& c, const I2& d)
    {
        auto p = build<GooseFEM::Tyings::Control>("Tyings::Control", [&]() { return new GooseFEM::Tyings::Control(c, d); });
        return *p;
    }

    // ------------------------------------------------------------------ operations

    double edge_size(Rng& g)
    {
        static const double hs[] = {1.0, 0.5, 2.0, 0.1, 0.3, 1.0 / 3.0, 3.14159265358979, 0.7, 2.3e-9, 4.7e7};
        return hs[g.below(10)];
    }

    Obj create(Rng& g, int type)
    {
        Obj o;
        o.type = type;
        double h = edge_size(g);
        size_t nx = 1 + g.below(5), ny = 1 + g.below(5), nz = 1 + g.below(3);
        bool one = h == 1.0 && g.chance(0.5);
        static const size_t wide[] = {1, 2, 3, 6, 9, 9, 12, 18, 27, 5};
        size_t fx = wide[g.below(10)], fy = 1 + g.below(g.chance(0.3) ? 40 : 12), nf = g.chance(0.5) ? 1 : g.below(7);
        if (fx == 27) {
            fy = std::min<size_t>(fy, 30);
        }
        switch (type) {
        case QUAD4:
            o.ref = std::make_shared<RefMesh>(ref_quad((long)nx, (long)ny, h));
            o.q = build<GM::Quad4::Regular>("Quad4::Regular", [&]() { return one ? new GM::Quad4::Regular(nx, ny) : new GM::Quad4::Regular(nx, ny, h); });
            break;
        case TRI3:
            o.ref = std::make_shared<RefMesh>(ref_tri((long)nx, (long)ny, h));
            o.t = build<GM::Tri3::Regular>("Tri3::Regular", [&]() { return one ? new GM::Tri3::Regular(nx, ny) : new GM::Tri3::Regular(nx, ny, h); });
            break;
        case HEX8:
            nx = std::min<size_t>(nx, 3);
            ny = std::min<size_t>(ny, 3);
            o.ref = std::make_shared<RefMesh>(ref_hex((long)nx, (long)ny, (long)nz, h));
            o.h = build<GM::Hex8::Regular>("Hex8::Regular", [&]() { return one ? new GM::Hex8::Regular(nx, ny, nz) : new GM::Hex8::Regular(nx, ny, nz, h); });
            break;
        case FINE3: {
            static const size_t w3[] = {1, 2, 3, 3, 6, 9, 9};
            fx = w3[g.below(7)];
            size_t fz = w3[g.below(7)];
            if (fx * fz > 30) {
                (g.chance(0.5) ? fx : fz) = 3;
            }
            fy = 1 + g.below(g.chance(0.4) ? 26 : 10);
            o.ref = std::make_shared<RefMesh>(ref_fine3(fx, fy, fz, h, nf));
            o.g = build<GM::Hex8::FineLayer>("Hex8::FineLayer", [&]() {
                return one && nf == 1   ? new GM::Hex8::FineLayer(fx, fy, fz)
                       : nf == 1        ? new GM::Hex8::FineLayer(fx, fy, fz, h)
                                        : new GM::Hex8::FineLayer(fx, fy, fz, h, nf);
            });
            for (int t : o.ref->type) {
                if (t >= 0) {
                    sim::count(t ? "probe:coarsened-along-z" : "probe:coarsened-along-x");
                }
            }
            break;
        }
        case FINE:
            o.nx = nf;
            o.ref = std::make_shared<RefMesh>(ref_fine(fx, fy, h, nf));
            o.f = build<GM::Quad4::FineLayer>("Quad4::FineLayer", [&]() {
                return one && nf == 1 ? new GM::Quad4::FineLayer(fx, fy) : nf == 1 ? new GM::Quad4::FineLayer(fx, fy, h) : new GM::Quad4::FineLayer(fx, fy, h, nf);
            });
            break;
        case REFINE: {
            o.nx = 1 + g.below(4);
            o.ny = 1 + g.below(4);
            o.ref = std::make_shared<RefMesh>(ref_quad((long)nx, (long)ny, h));
            GM::Quad4::Regular m(nx, ny, h);
            o.r = build<GM::Quad4::Map::RefineRegular>("RefineRegular", [&]() { return new GM::Quad4::Map::RefineRegular(m, o.nx, o.ny); });
            break;
        }
        default: {
            o.ref = std::make_shared<RefMesh>(ref_fine(fx, std::min<size_t>(fy, 24), h, nf));
            Ctl c = ctl;
            ctl.fail = -1;
            auto m = build<GM::Quad4::FineLayer>("Quad4::FineLayer", [&]() { return new GM::Quad4::FineLayer(fx, std::min<size_t>(fy, 24), h, nf); });
            ctl = c;
            o.m = build<GM::Quad4::Map::FineLayer2Regular>("FineLayer2Regular", [&]() { return new GM::Quad4::Map::FineLayer2Regular(*m); });
        }
        }
        return o;
    }

    void query(Obj& o, Rng& g)
    {
        switch (o.type) {
        case QUAD4: {
            auto m = get("elementgrid", [&]() { return I2(o.q->elementgrid()); });
            want_shape(m, {(size_t)o.ref->n[1], (size_t)o.ref->n[0]}, "elementgrid");
            std::vector<double> s;
            for (size_t i = 0; i < o.ref->nelem(); ++i) {
                s.push_back((double)i);
            }
            want_exact(m, s, "elementgrid");
            sizes(*o.q, *o.ref);
            sets2d(*o.q, *o.ref, g);
            break;
        }
        case TRI3:
            sizes(*o.t, *o.ref);
            sets2d(*o.t, *o.ref, g);
            break;
        case HEX8: {
            sizes(*o.h, *o.ref);
            size_t nz = get("nelz", [&]() { return (size_t)o.h->nelz(); });
            if ((long)nz != o.ref->n[2]) {
                violate("wrong-value", "nelz");
            }
            sets3d(*o.h, *o.ref, g);
            break;
        }
        case FINE3: {
            sizes(*o.g, *o.ref);
            size_t nz = get("nelz", [&]() { return (size_t)o.g->nelz(); });
            if ((long)nz != o.ref->n[2]) {
                violate("wrong-value", "nelz");
            }
            std::vector<double> mid;
            for (size_t e = 0; e < o.ref->nelem(); ++e) {
                if (o.ref->row[e] == (o.ref->nhy.size() - 1) / 2) {
                    mid.push_back((double)e);
                }
            }
            auto a = get("elementsMiddleLayer", [&]() { return I1(o.g->elementsMiddleLayer()); });
            want_exact(a, mid, "elementsMiddleLayer");
            sets3d(*o.g, *o.ref, g, true);
            break;
        }
        case FINE:
            sizes(*o.f, *o.ref);
            sets2d(*o.f, *o.ref, g);
            fine_queries(o, g);
            break;
        case REFINE:
            refine_queries(o, g);
            break;
        default:
            f2r_queries(o, g);
        }
        core(o, "");
    }

    template <class T>
    void dup(std::unique_ptr<T>& a, std::unique_ptr<T>& b, int how)
    {
        if (!a) {
            return;
        }
        ctl.fail = -1;
        if (how == 0) {
            b = build<T>("copy", [&]() { return new T(*a); });
        }
        else if (how == 1) {
            b = build<T>("move", [&]() { return new T(std::move(*a)); });
            a.reset();
        }
        else if (how == 2) {
            Ctl c = ctl;
            Res r = sim::run(c, [&]() { *b = *a; });
            if (!r.ok()) {
                violate("unexpected-exception", "assignment: " + r.what);
            }
        }
        else {
            Ctl c = ctl;
            Res r = sim::run(c, [&]() { *b = std::move(*a); });
            if (!r.ok()) {
                violate("unexpected-exception", "move assignment: " + r.what);
            }
            a.reset();
        }
    }

    // copy: independent of the original, which may change or die; how: 0 copy, 1 move, 2 assign, 3 move-assign
    void duplicate(Rng& g, int how)
    {
        size_t i = g.below(objs.size());
        if (how >= 2) {
            std::vector<size_t> c;
            for (size_t k = 0; k < objs.size(); ++k) {
                if (objs[k].type == objs[i].type && k != i) {
                    c.push_back(k);
                }
            }
            if (c.empty()) {
                how -= 2;
            }
            else {
                size_t k = c[g.below(c.size())];
                Obj &a = objs[i], &b = objs[k];
                dup(a.q, b.q, how);
                dup(a.t, b.t, how);
                dup(a.h, b.h, how);
                dup(a.f, b.f, how);
        dup(a.g, b.g, how);
                dup(a.r, b.r, how);
                dup(a.m, b.m, how);
                b.ref = a.ref;
                b.nx = a.nx;
                b.ny = a.ny;
                Rng q(g.next());
                query(b, q);
                if (how == 3) {
                    objs.erase(objs.begin() + (long)i);
                }
                else {
                    query(a, q);
                }
                return;
            }
        }
        Obj b;
        Obj& a = objs[i];
        b.type = a.type;
        b.ref = a.ref;
        b.nx = a.nx;
        b.ny = a.ny;
        dup(a.q, b.q, how);
        dup(a.t, b.t, how);
        dup(a.h, b.h, how);
        dup(a.f, b.f, how);
        dup(a.g, b.g, how);
        dup(a.r, b.r, how);
        dup(a.m, b.m, how);
        if (how == 1 || g.chance(0.5)) {
            objs.erase(objs.begin() + (long)i);
        }
        query(b, g);
        objs.push_back(std::move(b));
    }

    void go()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            const Op& op = plan.ops[i];
            begin(i);
            Rng g(op.seed);
            const std::string& n = op.name;
            int type = n == "quad4" ? QUAD4 : n == "tri3" ? TRI3 : n == "hex8" ? HEX8 : n == "fine" ? FINE : n == "fine3" ? FINE3 : n == "refine" ? REFINE : n == "regular" ? F2R : -1;
            if (type >= 0) {
                Obj o = create(g, type);
                query(o, g);
                objs.push_back(std::move(o));
                if (objs.size() > 5) {
                    objs.erase(objs.begin());
                }
            }
            else if (n == "query") {
                if (!objs.empty()) {
                    query(objs[g.below(objs.size())], g);
                }
            }
            else if (n == "rebuild") {
                std::vector<size_t> c;
                for (size_t k = 0; k < objs.size(); ++k) {
                    if (objs[k].type == FINE && objs[k].nx == 1) {
                        c.push_back(k);
                    }
                }
                if (!c.empty()) {
                    rebuild(g, objs[c[g.below(c.size())]]);
                }
            }
            else if (n == "tables") {
                tables(g);
            }
            else if (n == "geometry") {
                geometry(g);
            }
            else if (n == "broadcast") {
                broadcast(g);
            }
            else if (n == "tyings") {
                tyings(g);
            }
            else if (!objs.empty()) {
                duplicate(g, n == "copy" ? 0 : n == "move" ? 1 : n == "assign" ? 2 : 3);
            }
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    bool mem = p.prop == "C21", copies = p.prop == "C16", dirty = p.prop == "C17";
    static const char* makes[] = {"quad4", "tri3", "hex8", "fine", "fine", "fine3", "refine", "regular"};
    size_t n = 3 + r.below(8);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit();
        Op op;
        if (i == 0 || u < 0.3) {
            op.name = makes[r.below(8)];
        }
        else if (copies && u < 0.75) {
            static const char* c[] = {"copy", "move", "assign", "moveassign"};
            op.name = c[r.below(4)];
        }
        else if (u < 0.45) {
            op.name = "query";
        }
        else if (u < 0.55) {
            op.name = "rebuild";
        }
        else if (u < 0.67) {
            op.name = "tables";
        }
        else if (u < 0.80) {
            op.name = "geometry";
        }
        else if (u < 0.90) {
            op.name = "tyings";
        }
        else if (u < 0.96) {
            op.name = "broadcast";
        }
        else {
            op.name = "copy";
        }
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(8), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, true, !dirty && !copies);
        if (mem && op.ctl.fail < 0 && r.chance(0.4)) {
            op.ctl.fail = (int64_t)r.below(30);
        }
        p.ops.push_back(op);
    }
}

void sim::world_execute(const Plan& p)
{
    World w(p);
    w.go();
}
