// World "fe": whole computations through the library: statics (C18), dynamics (C19), periodic cells (C20).
// The library supplies mesh, vectors, quadrature, matrices and solvers; the reference is dense and serial.
#include "common.h"
#include "elemref.h"

const char* sim::world_name = "fe";

namespace {

namespace GE = GooseFEM::Element;

template <int KIND>
struct Types;
template <>
struct Types<QUAD> {
    using QT = GE::Quad4::Quadrature;
};
template <>
struct Types<PLANAR> {
    using QT = GE::Quad4::QuadraturePlanar;
};
template <>
struct Types<AXI> {
    using QT = GE::Quad4::QuadratureAxisymmetric;
};
template <>
struct Types<HEX> {
    using QT = GE::Hex8::Quadrature;
};

std::vector<double> gauss_solve(std::vector<double> A, std::vector<double> b, size_t n, bool& good)
{
    double mx = 0;
    for (size_t i = 0; i < n; ++i) {
        mx = std::max(mx, std::abs(A[i * n + i]));
    }
    good = true;
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i) {
            if (std::abs(A[i * n + k]) > std::abs(A[p * n + k])) {
                p = i;
            }
        }
        if (std::abs(A[p * n + k]) <= 1e-6 * mx) {
            good = false;
            return {};
        }
        if (p != k) {
            for (size_t j = 0; j < n; ++j) {
                std::swap(A[p * n + j], A[k * n + j]);
            }
            std::swap(b[p], b[k]);
        }
        for (size_t i = k + 1; i < n; ++i) {
            double f = A[i * n + k] / A[k * n + k];
            if (f != 0) {
                for (size_t j = k; j < n; ++j) {
                    A[i * n + j] -= f * A[k * n + j];
                }
                b[i] -= f * b[k];
            }
        }
    }
    for (size_t k = n; k-- > 0;) {
        for (size_t j = k + 1; j < n; ++j) {
            b[k] -= A[k * n + j] * b[j];
        }
        b[k] /= A[k * n + k];
    }
    return b;
}

template <int KIND>
struct Fe {
    using QT = typename Types<KIND>::QT;
    static constexpr size_t ND = KIND == HEX ? 3 : 2;
    static constexpr size_t T = KIND == QUAD ? 2 : 3;

    const Plan& plan;
    Def d;
    std::vector<double> x0, x; // nodal coordinates: as generated, as used [nnode, ND]
    std::vector<size_t> conn, ldofs, lperiodic; // library mesh: connectivity, DOFs, periodic DOFs
    std::vector<std::pair<size_t, size_t>> ltied; // library mesh: periodic node pairs
    size_t nnode = 0, lorigin = 0;
    std::vector<char> edge; // per node: bit 2i: lowest coordinate i, bit 2i+1: highest
    std::vector<double> lam, mu; // [nelem, nip]
    double SU = 1, DU = 1; // units: stiffness and displacement
    bool homogeneous = true;
    I2 xconn, xdofs;
    T2 xcoor;
    std::unique_ptr<QT> quad;
    Ctl ctl;
    int ncall = 0, fault_call = 0;

    explicit Fe(const Plan& p) : plan(p), SU(std::ldexp(1.0, (int)clampz(p.get("su"), -80, 60))), DU(std::ldexp(1.0, (int)clampz(p.get("du"), -80, 60)))
    {
        d.kind = KIND;
        d.nne = KIND == HEX ? 8 : 4;
        d.ndim = ND;
        d.tdim = T;
        d.nip = d.nne;
        d.scheme = 0;
        d.thick = KIND == PLANAR ? 0.25 * (double)clampz(p.get("thick", 4), 1, 40) : 1.0;
        for (size_t q = 0; q < d.nip; ++q) {
            for (size_t i = 0; i < ND; ++i) {
                d.xi.push_back((KIND == HEX ? hex_sign[q][i] : quad_sign[q][i]) / std::sqrt(3.0));
            }
            d.w.push_back(1.0);
        }
    }

    // ------------------------------------------------------------ library calls

    enum { OVERLAP = 1, FAULT = 2 };

    void begin(size_t i)
    {
        ctl = sim::op_ctl(plan, i);
        ncall = 0;
        const Op& op = plan.ops[i];
        fault_call = 1 + (int)((op.a.empty() ? 0 : op.a[0]) % 12);
        sim::count(("op:" + op.name).c_str());
    }

    void call(const std::string& n, const std::function<void()>& f, int flags = FAULT)
    {
        Ctl c = ctl;
        c.seed = ctl.seed + 7919 * (uint64_t)(++ncall);
        c.ww_ok = flags & OVERLAP ? 1 : 0;
        if (!(flags & FAULT) || ncall != fault_call) {
            c.fail = -1;
        }
        Res r = sim::run(c, f);
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            sim::count("probe:call-failed-and-repeated");
            c.fail = -1;
            r = sim::run(c, f);
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
    }

    template <class A>
    static std::vector<size_t> sizes(const A& a)
    {
        std::vector<size_t> r;
        for (auto v : a) {
            r.push_back((size_t)v);
        }
        return r;
    }

    // ------------------------------------------------------------ mesh

    template <class M>
    void take(const M& m)
    {
        T2 c;
        I2 e, dd, dp, tp;
        call("coor", [&]() { c = m.coor(); });
        call("conn", [&]() { e = m.conn(); });
        call("dofs", [&]() { dd = m.dofs(); });
        call("dofsPeriodic", [&]() { dp = m.dofsPeriodic(); });
        call("nodesPeriodic", [&]() { tp = m.nodesPeriodic(); });
        call("nodesOrigin", [&]() { lorigin = m.nodesOrigin(); });
        d.nelem = m.nelem();
        nnode = m.nnode();
        want_shape(c, {nnode, ND}, "coordinates");
        want_shape(e, {d.nelem, d.nne}, "connectivity");
        want_shape(dd, {nnode, ND}, "DOFs");
        want_shape(dp, {nnode, ND}, "periodic DOFs");
        x0 = flat(c);
        conn = sizes(e);
        ldofs = sizes(dd);
        lperiodic = sizes(dp);
        for (size_t i = 0; i < tp.shape(0); ++i) {
            ltied.push_back({tp(i, 0), tp(i, 1)});
        }
    }

    void mesh()
    {
        size_t nx = clampz(plan.get("nx"), 1, 9), ny = clampz(plan.get("ny"), 1, 9), nz = clampz(plan.get("nz"), 1, 3);
        double h = 0.25 * (double)clampz(plan.get("h", 4), 1, 12);
        if constexpr (KIND == HEX) {
            std::unique_ptr<GooseFEM::Mesh::Hex8::Regular> m;
            nx = std::min<size_t>(nx, 2);
            ny = std::min<size_t>(ny, 2);
            nz = std::min<size_t>(nz, 2);
            call("Hex8::Regular", [&]() { m.reset(new GooseFEM::Mesh::Hex8::Regular(nx, ny, nz, h)); });
            take(*m);
        }
        else if (plan.get("fine")) {
            std::unique_ptr<GooseFEM::Mesh::Quad4::FineLayer> m;
            nx = 3 * (1 + nx % 2);
            ny = 3 + ny % 5;
            call("Quad4::FineLayer", [&]() { m.reset(new GooseFEM::Mesh::Quad4::FineLayer(nx, ny, h)); });
            take(*m);
        }
        else {
            std::unique_ptr<GooseFEM::Mesh::Quad4::Regular> m;
            call("Quad4::Regular", [&]() { m.reset(new GooseFEM::Mesh::Quad4::Regular(nx, ny, h)); });
            take(*m);
        }
        for (auto n : conn) {
            if (n >= nnode) {
                violate("wrong-value", "the connectivity refers to a node that does not exist");
            }
        }
        edge.assign(nnode, 0);
        double lo[3], hi[3];
        for (size_t i = 0; i < ND; ++i) {
            lo[i] = 1e300;
            hi[i] = -1e300;
            for (size_t n = 0; n < nnode; ++n) {
                lo[i] = std::min(lo[i], x0[n * ND + i]);
                hi[i] = std::max(hi[i], x0[n * ND + i]);
            }
            for (size_t n = 0; n < nnode; ++n) {
                if (x0[n * ND + i] < lo[i] + 1e-6 * h) {
                    edge[n] |= (char)(1 << (2 * i));
                }
                if (x0[n * ND + i] > hi[i] - 1e-6 * h) {
                    edge[n] |= (char)(1 << (2 * i + 1));
                }
            }
        }
        Rng r((uint64_t)plan.get("mseed"));
        x = x0;
        distort(r, h * 0.25 * r.unit());
        if (plan.get("affine")) {
            // stretch and shear: keeps straight edges and lattice vectors
            double s[3] = {r.real(0.6, 1.6), r.real(0.6, 1.6), r.real(0.6, 1.6)};
            double g = r.real(-0.4, 0.4), k = r.real(-0.4, 0.4);
            for (size_t n = 0; n < nnode; ++n) {
                double* p = &x[n * ND];
                for (size_t i = 0; i < ND; ++i) {
                    p[i] *= s[i];
                }
                p[0] += g * p[1];
                if (ND == 3) {
                    p[1] += k * p[2];
                }
            }
        }
        if (KIND == AXI) {
            double l = 1e300;
            for (size_t n = 0; n < nnode; ++n) {
                l = std::min(l, x[n * ND + 1]);
            }
            double off = h * r.real(0.5, 3.0) - l;
            for (size_t n = 0; n < nnode; ++n) {
                x[n * ND + 1] += off;
            }
        }
        sim::OnHeap heap;
        xconn = I2::from_shape({d.nelem, d.nne});
        std::copy(conn.begin(), conn.end(), xconn.begin());
        d.conn = conn;
        seal();
    }

    void distort(Rng& r, double amp)
    {
        for (size_t n = 0; n < nnode; ++n) {
            for (size_t i = 0; i < ND; ++i) {
                double v = amp * r.real(-1, 1);
                if (!edge[n]) {
                    x[n * ND + i] += v;
                }
            }
        }
    }

    void seal()
    {
        sim::OnHeap heap;
        xcoor = T2::from_shape({nnode, ND});
        std::copy(x.begin(), x.end(), xcoor.begin());
    }

    std::vector<double> gather(const std::vector<double>& v) const
    {
        std::vector<double> o;
        for (auto n : conn) {
            for (size_t i = 0; i < ND; ++i) {
                o.push_back(v[n * ND + i]);
            }
        }
        return o;
    }

    void material(Rng& r)
    {
        lam.clear();
        mu.clear();
        int how = (int)r.below(3);
        homogeneous = how == 0;
        double L = SU * r.real(0.3, 3), M = SU * r.real(0.5, 3);
        for (size_t e = 0; e < d.nelem; ++e) {
            if (how == 1) {
                L = SU * r.real(0.3, 3);
                M = SU * r.real(0.5, 3);
            }
            for (size_t q = 0; q < d.nip; ++q) {
                if (how == 2) {
                    L = SU * r.real(0.3, 3);
                    M = SU * r.real(0.5, 3);
                }
                lam.push_back(L);
                mu.push_back(M);
            }
        }
    }

    double C(size_t p, size_t i, size_t j, size_t k, size_t l) const
    {
        return lam[p] * (i == j) * (k == l) + mu[p] * ((i == k) * (j == l) + (i == l) * (j == k));
    }

    T6 tangent() const
    {
        sim::OnHeap heap;
        T6 o = T6::from_shape({d.nelem, d.nip, T, T, T, T});
        auto it = o.begin();
        for (size_t p = 0; p < d.nelem * d.nip; ++p) {
            for (size_t i = 0; i < T; ++i) {
                for (size_t j = 0; j < T; ++j) {
                    for (size_t k = 0; k < T; ++k) {
                        for (size_t l = 0; l < T; ++l) {
                            *it++ = C(p, i, j, k, l);
                        }
                    }
                }
            }
        }
        return o;
    }

    T4 stress(const T4& eps) const
    {
        sim::OnHeap heap;
        T4 o = T4::from_shape({d.nelem, d.nip, T, T});
        auto e = eps.begin();
        auto s = o.begin();
        for (size_t p = 0; p < d.nelem * d.nip; ++p) {
            double tr = 0;
            for (size_t i = 0; i < T; ++i) {
                tr += *(e + (long)(i * T + i));
            }
            for (size_t i = 0; i < T; ++i) {
                for (size_t j = 0; j < T; ++j) {
                    *(s + (long)(i * T + j)) = lam[p] * (i == j) * tr + mu[p] * (*(e + (long)(i * T + j)) + *(e + (long)(j * T + i)));
                }
            }
            e += (long)(T * T);
            s += (long)(T * T);
        }
        return o;
    }

    // dense stiffness in nodal components [nnode * ND]^2
    std::vector<double> dense() const
    {
        Ref ref(d, gather(x));
        for (double v : ref.vol) {
            if (!(v > 0)) {
                violate("wrong-value", "an element of the generated mesh is inside out");
            }
        }
        std::vector<double> c;
        for (size_t p = 0; p < d.nelem * d.nip; ++p) {
            for (size_t i = 0; i < T; ++i) {
                for (size_t j = 0; j < T; ++j) {
                    for (size_t k = 0; k < T; ++k) {
                        for (size_t l = 0; l < T; ++l) {
                            c.push_back(C(p, i, j, k, l));
                        }
                    }
                }
            }
        }
        Val ke = ref_int4(ref, c);
        size_t N = nnode * ND, L = d.nne * ND;
        std::vector<double> K(N * N, 0.0);
        for (size_t e = 0; e < d.nelem; ++e) {
            for (size_t a = 0; a < L; ++a) {
                size_t A = conn[e * d.nne + a / ND] * ND + a % ND;
                for (size_t b = 0; b < L; ++b) {
                    K[A * N + conn[e * d.nne + b / ND] * ND + b % ND] += ke.v[(e * L + a) * L + b];
                }
            }
        }
        return K;
    }

    void new_quadrature()
    {
        T3 xe;
        {
            sim::OnHeap heap;
            auto g = gather(x);
            xe = T3::from_shape({d.nelem, d.nne, ND});
            std::copy(g.begin(), g.end(), xe.begin());
        }
        call("quadrature", [&]() {
            if constexpr (KIND == PLANAR) {
                quad.reset(new QT(xe, d.thick));
            }
            else {
                quad.reset(new QT(xe));
            }
        });
    }

    T2 zeros() const
    {
        sim::OnHeap heap;
        T2 o = T2::from_shape({nnode, ND});
        o.fill(0.0);
        return o;
    }

    // internal forces of a nodal displacement field, through the library
    template <class V>
    void internal(const V& vec, const T2& u, T2& fint, Rng& r, T4* strain = nullptr)
    {
        T3 ue, fe;
        T4 eps;
        bool out = r.chance(0.5);
        if (out) {
            // arrays in use since long: they hold anything
            ue = make<double, 3>({d.nelem, d.nne, ND}, [&]() { return 1e30; });
            fe = make<double, 3>({d.nelem, d.nne, ND}, [&]() { return std::nan(""); });
            eps = make<double, 4>({d.nelem, d.nip, T, T}, [&]() { return -1e30; });
        }
        call("asElement", [&]() {
            if (out) {
                vec.asElement(u, ue);
            }
            else {
                ue = vec.AsElement(u);
            }
        });
        call("symGradN_vector", [&]() {
            if (out) {
                quad->symGradN_vector(ue, eps);
            }
            else {
                eps = quad->SymGradN_vector(ue);
            }
        });
        T4 sig = stress(eps);
        call("int_gradN_dot_tensor2_dV", [&]() {
            if (out) {
                quad->int_gradN_dot_tensor2_dV(sig, fe);
            }
            else {
                fe = quad->Int_gradN_dot_tensor2_dV(sig);
            }
        });
        call("assembleNode", [&]() {
            if (out) {
                vec.assembleNode(fe, fint);
            }
            else {
                fint = vec.AssembleNode(fe);
            }
        });
        if (strain) {
            *strain = eps;
        }
    }

    T3 stiffness()
    {
        T3 Ke;
        T6 c = tangent();
        call("Int_gradN_dot_tensor4_dot_gradNT_dV", [&]() { Ke = quad->Int_gradN_dot_tensor4_dot_gradNT_dV(c); });
        return Ke;
    }

    static double biggest(const std::vector<double>& v)
    {
        double m = 0;
        for (double a : v) {
            m = std::max(m, std::abs(a));
        }
        return m;
    }

    // ------------------------------------------------------------ C18: statics

    struct Static {
        std::vector<size_t> dofs; // [nnode * ND]
        size_t ndof = 0;
        std::vector<char> isp;
        std::vector<double> K; // [ndof, ndof]
        I1 iip;
        std::unique_ptr<GooseFEM::VectorPartitioned> vec;
        std::unique_ptr<GooseFEM::MatrixPartitioned> A;
        std::unique_ptr<GooseFEM::MatrixPartitionedSolver<>> solver;
        T2 disp, fint, fext;
        bool stale = true; // the matrix has to be assembled
    };

    std::vector<double> condensed(const std::vector<size_t>& dofs, size_t ndof)
    {
        auto full = dense();
        size_t N = nnode * ND;
        std::vector<double> K(ndof * ndof, 0.0);
        for (size_t a = 0; a < N; ++a) {
            for (size_t b = 0; b < N; ++b) {
                K[dofs[a] * ndof + dofs[b]] += full[a * N + b];
            }
        }
        return K;
    }

    void statics()
    {
        Static s;
        int bc = (int)clampz(plan.get("bc"), 0, 2);
        if (bc == 2 && KIND == AXI) {
            bc = 1;
        }
        Rng mr((uint64_t)plan.get("mseed") + 11);
        begin(0);
        mesh();
        material(mr);
        // DOFs
        s.dofs = ldofs;
        if (bc == 2) {
            // left and right edge share their DOFs (lowest and highest x)
            for (size_t n = 0; n < nnode; ++n) {
                if (edge[n] & 2) {
                    for (size_t k = 0; k < nnode; ++k) {
                        bool match = edge[k] & 1;
                        for (size_t i = 1; i < ND; ++i) {
                            match = match && std::abs(x0[k * ND + i] - x0[n * ND + i]) < 1e-8;
                        }
                        if (match) {
                            for (size_t i = 0; i < ND; ++i) {
                                s.dofs[n * ND + i] = s.dofs[k * ND + i];
                            }
                        }
                    }
                }
            }
        }
        {
            std::vector<size_t> u = s.dofs;
            std::sort(u.begin(), u.end());
            u.erase(std::unique(u.begin(), u.end()), u.end());
            auto perm = permutation(u.size(), mr);
            if (!plan.get("renumber")) {
                for (size_t i = 0; i < perm.size(); ++i) {
                    perm[i] = i;
                }
            }
            for (auto& v : s.dofs) {
                v = perm[(size_t)(std::lower_bound(u.begin(), u.end(), v) - u.begin())];
            }
            s.ndof = u.size();
        }
        s.isp.assign(s.ndof, 0);
        for (size_t n = 0; n < nnode; ++n) {
            for (size_t i = 0; i < ND; ++i) {
                bool p = false;
                if (bc == 0) {
                    p = edge[n] != 0;
                }
                else if (bc == 1) {
                    p = (edge[n] & 1) || mr.chance(0.15);
                }
                else {
                    p = (edge[n] & 12) != 0 || mr.chance(0.05);
                }
                if (p) {
                    s.isp[s.dofs[n * ND + i]] = 1;
                }
            }
        }
        {
            std::vector<size_t> ip;
            for (size_t k = 0; k < s.ndof; ++k) {
                if (s.isp[k]) {
                    ip.push_back(k);
                }
            }
            auto perm = permutation(ip.size(), mr);
            sim::OnHeap heap;
            s.iip = I1::from_shape({ip.size()});
            for (size_t k = 0; k < ip.size(); ++k) {
                s.iip(k) = ip[perm[k]];
            }
            xdofs = I2::from_shape({nnode, ND});
            std::copy(s.dofs.begin(), s.dofs.end(), xdofs.begin());
        }
        s.disp = zeros();
        s.fint = zeros();
        s.fext = zeros();
        new_quadrature();
        call("VectorPartitioned", [&]() { s.vec.reset(new GooseFEM::VectorPartitioned(xconn, xdofs, s.iip)); });
        call("MatrixPartitioned", [&]() { s.A.reset(new GooseFEM::MatrixPartitioned(xconn, xdofs, s.iip)); });
        s.solver.reset(new GooseFEM::MatrixPartitionedSolver<>());
        s.K = condensed(s.dofs, s.ndof);
        for (size_t i = 1; i < plan.ops.size(); ++i) {
            begin(i);
            const Op& op = plan.ops[i];
            Rng r(op.seed);
            if (op.name == "material") {
                material(r);
                s.K = condensed(s.dofs, s.ndof);
                s.stale = true;
            }
            else if (op.name == "move") {
                if (std::any_of(edge.begin(), edge.end(), [](char c) { return !c; })) {
                    auto old = x;
                    distort(r, 0.02 * (double)clampz(plan.get("h", 4), 1, 12));
                    seal();
                    T3 xe;
                    call("AsElement", [&]() { xe = s.vec->AsElement(xcoor); }, FAULT);
                    call("update_x", [&]() { quad->update_x(xe); });
                    s.K = condensed(s.dofs, s.ndof);
                    s.stale = true;
                }
            }
            else if (op.name == "restart") {
                s.solver.reset(new GooseFEM::MatrixPartitionedSolver<>());
            }
            else if (op.name == "load") {
                load(s, bc, r);
            }
        }
    }

    void load(Static& s, int bc, Rng& r)
    {
        size_t n = s.ndof;
        // prescribed displacements and external forces per DOF
        bool patch = bc == 0 && r.chance(0.6);
        bool first = r.chance(0.3);
        std::vector<double> up(n, 0.0), fu(n, 0.0);
        double F[3][3] = {{0}};
        for (size_t i = 0; i < ND; ++i) {
            for (size_t j = 0; j < ND; ++j) {
                F[i][j] = DU * 0.1 * r.real(-1, 1);
                if (KIND == AXI && i != j) {
                    F[i][j] = 0;
                }
            }
        }
        for (size_t m = 0; m < nnode; ++m) {
            for (size_t i = 0; i < ND; ++i) {
                size_t k = s.dofs[m * ND + i];
                if (!s.isp[k]) {
                    continue;
                }
                if (patch) {
                    up[k] = 0;
                    for (size_t j = 0; j < ND; ++j) {
                        up[k] += F[i][j] * x[m * ND + j];
                    }
                }
                else {
                    up[k] = DU * 0.1 * r.real(-1, 1);
                }
            }
        }
        if (!patch && r.chance(0.6)) {
            for (size_t k = 0; k < n; ++k) {
                fu[k] = s.isp[k] ? 0.0 : SU * DU * r.real(-1, 1);
            }
        }
        if (first) {
            s.disp = zeros(); // start of a new computation
        }
        for (size_t m = 0; m < nnode; ++m) {
            for (size_t i = 0; i < ND; ++i) {
                size_t k = s.dofs[m * ND + i];
                s.fext(m, i) = s.isp[k] ? SU * DU * r.real(-1, 1) : fu[k]; // forces on prescribed DOFs play no role
            }
        }
        // reference
        std::vector<size_t> fr;
        for (size_t k = 0; k < n; ++k) {
            if (!s.isp[k]) {
                fr.push_back(k);
            }
        }
        std::vector<double> Kuu(fr.size() * fr.size()), bu(fr.size());
        for (size_t a = 0; a < fr.size(); ++a) {
            bu[a] = fu[fr[a]];
            for (size_t k = 0; k < n; ++k) {
                bu[a] -= s.K[fr[a] * n + k] * (s.isp[k] ? up[k] : 0.0);
            }
            for (size_t b = 0; b < fr.size(); ++b) {
                Kuu[a * fr.size() + b] = s.K[fr[a] * n + fr[b]];
            }
        }
        bool good;
        auto su = gauss_solve(Kuu, bu, fr.size(), good);
        if (!good) {
            sim::count("probe:system-not-solvable");
            return;
        }
        std::vector<double> u = up;
        for (size_t a = 0; a < fr.size(); ++a) {
            u[fr[a]] = su[a];
        }
        std::vector<double> f(n, 0.0);
        double fs = 0;
        for (size_t a = 0; a < n; ++a) {
            for (size_t b = 0; b < n; ++b) {
                f[a] += s.K[a * n + b] * u[b];
                fs = std::max(fs, std::abs(s.K[a * n + b] * u[b]));
            }
        }
        double us = std::max(biggest(u), 1e-6 * DU);
        fs = std::max(fs, 1e-6 * SU * DU);

        // the computation
        internal(*s.vec, s.disp, s.fint, r);
        if (s.stale || r.chance(0.2)) {
            T3 Ke = stiffness();
            call("assemble", [&]() { s.A->assemble(Ke); });
            s.stale = false;
        }
        else {
            sim::count("probe:solver-kept");
        }
        T2 fres = zeros(), du = zeros();
        for (size_t m = 0; m < nnode; ++m) {
            for (size_t i = 0; i < ND; ++i) {
                size_t k = s.dofs[m * ND + i];
                fres(m, i) = s.fext(m, i) - s.fint(m, i);
                du(m, i) = s.isp[k] ? up[k] - s.disp(m, i) : 0.0;
            }
        }
        int form = (int)r.below(4);
        if (form == 0) {
            call("Solve", [&]() { du = s.solver->Solve(*s.A, fres, du); }, OVERLAP);
        }
        else if (form == 1) {
            call("solve", [&]() { s.solver->solve(*s.A, fres, du); }, OVERLAP);
        }
        else if (form == 2) {
            T1 b, y;
            call("AsDofs", [&]() { b = s.vec->AsDofs(fres); }, OVERLAP);
            call("AsDofs", [&]() { y = s.vec->AsDofs(du); }, OVERLAP);
            call("solve(dofval)", [&]() { s.solver->solve(*s.A, b, y); }, 0);
            call("AsNode", [&]() { du = s.vec->AsNode(y); }, 0);
        }
        else {
            T1 b, y, z;
            call("AsDofs_u", [&]() { b = s.vec->AsDofs_u(fres); }, OVERLAP);
            call("AsDofs_p", [&]() { y = s.vec->AsDofs_p(du); }, OVERLAP);
            call("Solve_u", [&]() { z = s.solver->Solve_u(*s.A, b, y); }, 0);
            call("NodeFromPartitioned", [&]() { du = s.vec->NodeFromPartitioned(z, y); }, 0);
        }
        for (size_t m = 0; m < nnode; ++m) {
            for (size_t i = 0; i < ND; ++i) {
                s.disp(m, i) += du(m, i);
            }
        }
        std::vector<double> want;
        for (auto k : s.dofs) {
            want.push_back(u[k]);
        }
        want_close(s.disp, want, "displacements", 1e-8, us);
        if (patch && homogeneous) {
            sim::count("probe:patch-test");
            std::vector<double> lin;
            for (size_t m = 0; m < nnode; ++m) {
                for (size_t i = 0; i < ND; ++i) {
                    double v = 0;
                    for (size_t j = 0; j < ND; ++j) {
                        v += F[i][j] * x[m * ND + j];
                    }
                    lin.push_back(v);
                }
            }
            want_close(s.disp, lin, "homogeneous deformation", 1e-8, us);
        }
        // equilibrium
        internal(*s.vec, s.disp, s.fint, r);
        std::vector<double> fi;
        for (auto k : s.dofs) {
            fi.push_back(f[k]);
        }
        want_close(s.fint, fi, "internal forces", 1e-7, fs);
        std::vector<double> before = flat(s.fext), now = flat(s.fint);
        for (size_t k = 0; k < before.size(); ++k) {
            if (!s.isp[s.dofs[k]] && !(std::abs(now[k] - before[k]) <= 1e-7 * fs)) {
                violate("wrong-value", SAY("no equilibrium: internal force " << now[k] << ", external force " << before[k]));
            }
        }
        call("copy_p", [&]() { s.vec->copy_p(s.fint, s.fext); }, 0);
        for (size_t k = 0; k < before.size(); ++k) {
            before[k] = s.isp[s.dofs[k]] ? now[k] : before[k];
        }
        want_exact(s.fext, before, "reaction forces taken from the internal forces");
        T2 R;
        call("Reaction", [&]() { R = s.A->Reaction(s.disp, s.fext); }, OVERLAP);
        want_close(R, before, "reaction forces from the matrix", 1e-7, fs);
        if (KIND != AXI) {
            T1 D;
            call("AsDofs", [&]() { D = s.vec->AsDofs(s.fint); }, OVERLAP);
            double sum[3] = {0, 0, 0};
            std::vector<char> seen(n, 0);
            for (size_t m = 0; m < nnode; ++m) {
                for (size_t i = 0; i < ND; ++i) {
                    size_t k = s.dofs[m * ND + i];
                    if (!seen[k]) {
                        sum[i] += D(k);
                        seen[k] = 1;
                    }
                }
            }
            for (size_t i = 0; i < ND; ++i) {
                if (!(std::abs(sum[i]) <= 1e-8 * fs * (double)n)) {
                    violate("wrong-value", SAY("the forces do not balance: sum " << sum[i]));
                }
            }
        }
        sim::count("probe:equilibrium");
    }

    // ------------------------------------------------------------ C19: dynamics

    void dynamics()
    {
        begin(0);
        mesh();
        Rng r((uint64_t)plan.get("mseed") + 21);
        material(r);
        int mode = (int)clampz(plan.get("bc"), 0, 2); // 0 periodic, 1 free, 2 part of the DOFs is driven
        bool damped = plan.get("damp") != 0;
        std::vector<size_t> dofs = mode == 0 ? lperiodic : ldofs;
        size_t ndof = 0;
        for (auto k : dofs) {
            ndof = std::max(ndof, k + 1);
        }
        if (plan.get("renumber")) {
            auto p = permutation(ndof, r);
            for (auto& k : dofs) {
                k = p[k];
            }
        }
        std::vector<char> isp(ndof, 0);
        I1 iip;
        {
            sim::OnHeap heap;
            xdofs = I2::from_shape({nnode, ND});
            std::copy(dofs.begin(), dofs.end(), xdofs.begin());
            std::vector<size_t> ip;
            if (mode == 2) {
                for (size_t n = 0; n < nnode; ++n) {
                    for (size_t i = 0; i < ND; ++i) {
                        if ((edge[n] & 4) || r.chance(0.1)) {
                            isp[dofs[n * ND + i]] = 1;
                        }
                    }
                }
                for (size_t k = 0; k < ndof; ++k) {
                    if (isp[k]) {
                        ip.push_back(k);
                    }
                }
            }
            iip = I1::from_shape({ip.size()});
            std::copy(ip.begin(), ip.end(), iip.begin());
        }
        std::unique_ptr<GooseFEM::Vector> vec;
        std::unique_ptr<GooseFEM::MatrixDiagonal> M, D;
        std::unique_ptr<GooseFEM::MatrixDiagonalPartitioned> MP;
        std::unique_ptr<QT> nodal;
        new_quadrature();
        call("Vector", [&]() { vec.reset(new GooseFEM::Vector(xconn, xdofs)); });
        T3 xe;
        call("AsElement", [&]() { xe = vec->AsElement(xcoor); });
        call("nodal quadrature", [&]() {
            if constexpr (KIND == PLANAR) {
                nodal.reset(new QT(xe, GE::Quad4::Nodal::xi(), GE::Quad4::Nodal::w(), d.thick));
            }
            else if constexpr (KIND == HEX) {
                nodal.reset(new QT(xe, GE::Hex8::Nodal::xi(), GE::Hex8::Nodal::w()));
            }
            else {
                nodal.reset(new QT(xe, GE::Quad4::Nodal::xi(), GE::Quad4::Nodal::w()));
            }
        });
        call("MatrixDiagonal", [&]() {
            if (mode == 2) {
                MP.reset(new GooseFEM::MatrixDiagonalPartitioned(xconn, xdofs, iip));
            }
            else {
                M.reset(new GooseFEM::MatrixDiagonal(xconn, xdofs));
            }
            D.reset(new GooseFEM::MatrixDiagonal(xconn, xdofs));
        });
        // reference: stiffness, mass and damping per DOF
        auto K = condensed(dofs, ndof);
        Def dn = d;
        for (auto& v : dn.xi) {
            v *= std::sqrt(3.0);
        }
        Ref rn(dn, gather(x));
        std::vector<double> mass(ndof), dam(ndof);
        auto lumped = [&](const std::vector<double>& rho) {
            std::vector<double> o(ndof, 0.0);
            for (size_t e = 0; e < d.nelem; ++e) {
                for (size_t m = 0; m < d.nne; ++m) {
                    for (size_t q = 0; q < d.nip; ++q) {
                        double v = rn.n(q, m) * rn.n(q, m) * rho[e * d.nip + q] * rn.v(e, q);
                        for (size_t i = 0; i < ND; ++i) {
                            o[dofs[conn[e * d.nne + m] * ND + i]] += v;
                        }
                    }
                }
            }
            return o;
        };
        double rho_lo = 1, rho_hi = 1;
        auto set_mass = [&](Rng& q) {
            double b = SU * q.real(0.5, 2);
            std::vector<double> rho, al;
            rho_lo = 1e300;
            rho_hi = 0;
            for (size_t p = 0; p < d.nelem * d.nip; ++p) {
                rho.push_back(b * q.real(0.8, 1.25));
                al.push_back(damped ? SU * 0.1 * q.unit() : 0.0);
                rho_lo = std::min(rho_lo, rho.back());
                rho_hi = std::max(rho_hi, rho.back());
            }
            mass = lumped(rho);
            dam = lumped(al);
            size_t k = 0;
            T2 xr = make<double, 2>({d.nelem, d.nip}, [&]() { return rho[k++]; });
            k = 0;
            T2 xa = make<double, 2>({d.nelem, d.nip}, [&]() { return al[k++]; });
            T3 me, de;
            call("Int_N_scalar_NT_dV", [&]() { me = nodal->Int_N_scalar_NT_dV(xr); });
            call("Int_N_scalar_NT_dV", [&]() { de = nodal->Int_N_scalar_NT_dV(xa); });
            call("assemble mass", [&]() {
                if (MP) {
                    MP->assemble(me);
                }
                else {
                    M->assemble(me);
                }
            });
            call("assemble damping", [&]() { D->assemble(de); });
            T2 out;
            call("Todense", [&]() { out = MP ? MP->Todense() : M->Todense(); });
            std::vector<double> dn2(ndof * ndof, 0.0);
            for (size_t i = 0; i < ndof; ++i) {
                dn2[i * ndof + i] = mass[i];
            }
            want_close(out, dn2, "lumped mass", 1e-10);
        };
        set_mass(r);
        // state: library arrays and reference
        T2 u = zeros(), v = zeros(), a = zeros(), fint = zeros(), fext = zeros(), fres = zeros(), fdam = zeros();
        std::vector<double> ru(ndof, 0.0), rv(ndof, 0.0), ra(ndof, 0.0), rf(ndof, 0.0);
        double span = 0;
        for (double c : x) {
            span = std::max(span, std::abs(c));
        }
        auto put = [&](T2& o, const std::vector<double>& s) {
            for (size_t n = 0; n < nnode; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    o(n, i) = s[dofs[n * ND + i]];
                }
            }
        };
        auto kick = [&](Rng& q) {
            for (size_t k = 0; k < ndof; ++k) {
                rv[k] = DU * q.real(-1, 1);
                rf[k] = plan.get("force") ? SU * DU * q.real(-0.5, 0.5) : 0.0;
                if (isp[k]) {
                    ra[k] = plan.get("drive") ? DU * q.real(-0.5, 0.5) : 0.0;
                    rv[k] = plan.get("drive") ? rv[k] : 0.0;
                }
            }
            put(v, rv);
            put(a, ra);
            put(fext, rf);
        };
        kick(r);
        double h = 0.25 * (double)clampz(plan.get("h", 4), 1, 12);
        double dt = 0.05 * h * std::sqrt(0.4 / 9.0); // lowest density over highest modulus
        auto energy_ref = [&]() {
            double e = 0;
            for (size_t i = 0; i < ndof; ++i) {
                e += 0.5 * mass[i] * rv[i] * rv[i];
                for (size_t j = 0; j < ndof; ++j) {
                    e += 0.5 * ru[i] * K[i * ndof + j] * ru[j];
                }
            }
            return e;
        };
        double E0 = energy_ref();
        bool free_run = !damped && !plan.get("force") && !plan.get("drive");
        auto momentum = [&](const T2& w, size_t i) {
            double s = 0;
            std::vector<char> seen(ndof, 0);
            for (size_t n = 0; n < nnode; ++n) {
                size_t k = dofs[n * ND + i];
                if (!seen[k]) {
                    seen[k] = 1;
                    s += mass[k] * w(n, i);
                }
            }
            return s;
        };
        bool settled = true;
        double P0[3] = {0, 0, 0};
        for (size_t i = 0; i < ND; ++i) {
            P0[i] = momentum(v, i);
        }
        auto ref_solve = [&](const std::vector<double>& b) {
            for (size_t k = 0; k < ndof; ++k) {
                if (!isp[k]) {
                    ra[k] = b[k] / mass[k];
                }
            }
        };
        double us = 1e-6 * DU, vs = DU, as = DU, fs = 1e-6 * SU * DU;
        for (size_t o = 1; o < plan.ops.size(); ++o) {
            begin(o);
            const Op& op = plan.ops[o];
            Rng q(op.seed);
            if (op.name == "mass") {
                set_mass(q);
                E0 = energy_ref();
                settled = false; // the accelerations belong to the old mass until the next step
                continue;
            }
            if (op.name == "kick") {
                kick(q);
                E0 = energy_ref();
                for (size_t i = 0; i < ND; ++i) {
                    P0[i] = momentum(v, i);
                }
                continue;
            }
            if (op.name == "copy") {
                // go on with copies; the originals are gone
                std::unique_ptr<GooseFEM::Vector> v2;
                std::unique_ptr<QT> q2;
                call("copy of the vector", [&]() { v2.reset(new GooseFEM::Vector(*vec)); });
                call("copy of the quadrature", [&]() { q2.reset(new QT(*quad)); });
                vec.swap(v2);
                quad.swap(q2);
                if (MP) {
                    std::unique_ptr<GooseFEM::MatrixDiagonalPartitioned> m2;
                    call("copy of the mass", [&]() { m2.reset(new GooseFEM::MatrixDiagonalPartitioned(*MP)); });
                    MP.swap(m2);
                }
                else {
                    std::unique_ptr<GooseFEM::MatrixDiagonal> m2;
                    call("copy of the mass", [&]() { m2.reset(new GooseFEM::MatrixDiagonal(*M)); });
                    M.swap(m2);
                }
                continue;
            }
            // one step of the velocity Verlet scheme
            T2 vn = v, an = a;
            std::vector<double> rvn = rv, ran = ra;
            for (size_t n = 0; n < nnode; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    u(n, i) += dt * v(n, i) + 0.5 * dt * dt * a(n, i);
                }
            }
            T4 eps;
            internal(*vec, u, fint, q, &eps);
            for (size_t k = 0; k < ndof; ++k) {
                ru[k] += dt * rv[k] + 0.5 * dt * dt * ra[k];
            }
            std::vector<double> rint(ndof, 0.0);
            for (size_t i = 0; i < ndof; ++i) {
                for (size_t j = 0; j < ndof; ++j) {
                    rint[i] += K[i * ndof + j] * ru[j];
                }
            }
            int forms = (int)q.below(3);
            for (int it = 0; it < 3; ++it) {
                double w = it == 0 ? 1.0 : 0.5;
                for (size_t n = 0; n < nnode; ++n) {
                    for (size_t i = 0; i < ND; ++i) {
                        v(n, i) = vn(n, i) + dt * (it == 0 ? an(n, i) : w * (an(n, i) + a(n, i)));
                    }
                }
                for (size_t k = 0; k < ndof; ++k) {
                    rv[k] = rvn[k] + dt * (it == 0 ? ran[k] : w * (ran[k] + ra[k]));
                }
                if (damped) {
                    call("damping forces", [&]() {
                        if (forms == 0) {
                            fdam = D->Dot(v);
                        }
                        else {
                            D->dot(v, fdam);
                        }
                    });
                }
                std::vector<double> b(ndof);
                for (size_t k = 0; k < ndof; ++k) {
                    b[k] = rf[k] - rint[k] - (damped ? dam[k] * rv[k] : 0.0);
                }
                for (size_t n = 0; n < nnode; ++n) {
                    for (size_t i = 0; i < ND; ++i) {
                        fres(n, i) = fext(n, i) - fint(n, i) - (damped ? fdam(n, i) : 0.0);
                    }
                }
                if (forms == 1) {
                    T1 B, A;
                    call("AsDofs", [&]() { B = vec->AsDofs(fres); }, OVERLAP | FAULT);
                    call("AsDofs", [&]() { A = vec->AsDofs(a); }, OVERLAP | FAULT);
                    call("solve(dofval)", [&]() {
                        if (MP) {
                            MP->solve(B, A);
                        }
                        else {
                            M->solve(B, A);
                        }
                    });
                    call("asNode", [&]() { vec->asNode(A, a); });
                }
                else {
                    call("solve", [&]() {
                        if (MP) {
                            MP->solve(fres, a);
                        }
                        else if (forms == 0) {
                            a = M->Solve(fres);
                        }
                        else {
                            M->solve(fres, a);
                        }
                    }, OVERLAP | FAULT);
                }
                ref_solve(b);
            }
            for (size_t n = 0; n < nnode; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    v(n, i) = vn(n, i) + 0.5 * dt * (an(n, i) + a(n, i));
                }
            }
            for (size_t k = 0; k < ndof; ++k) {
                rv[k] = rvn[k] + 0.5 * dt * (ran[k] + ra[k]);
            }
            us = std::max(us, biggest(ru));
            vs = std::max(vs, biggest(rv));
            as = std::max(as, biggest(ra));
            fs = std::max(fs, biggest(rint));
            auto nodes = [&](const std::vector<double>& s) {
                std::vector<double> w;
                for (auto k : dofs) {
                    w.push_back(s[k]);
                }
                return w;
            };
            want_close(u, nodes(ru), "displacements", 1e-9, us);
            want_close(fint, nodes(rint), "internal forces", 1e-8, fs);
            want_close(a, nodes(ra), "accelerations", 1e-8, as);
            want_close(v, nodes(rv), "velocities", 1e-9, vs);
            sim::count("probe:time-step");
            if (mode != 2 && free_run && !settled) {
                for (size_t i = 0; i < ND; ++i) {
                    P0[i] = momentum(v, i);
                }
                settled = true;
            }
            if (mode != 2 && free_run) {
                for (size_t i = 0; i < ND; ++i) {
                    double p = momentum(v, i), m = 0;
                    for (double k : mass) {
                        m += k;
                    }
                    if (!(std::abs(p - P0[i]) <= 1e-9 * m * vs)) {
                        violate("wrong-value", SAY("momentum " << i << " went from " << P0[i] << " to " << p));
                    }
                }
            }
            if (free_run) {
                // energy with the strains and volumes of the library
                T2 dV;
                call("dV", [&]() { dV = quad->dV(); });
                double e = 0;
                T4 sig = stress(eps);
                for (size_t p = 0; p < d.nelem * d.nip; ++p) {
                    for (size_t k = 0; k < T * T; ++k) {
                        e += 0.5 * *(sig.begin() + (long)(p * T * T + k)) * *(eps.begin() + (long)(p * T * T + k)) * *(dV.begin() + (long)p);
                    }
                }
                std::vector<char> seen(ndof, 0);
                for (size_t n = 0; n < nnode; ++n) {
                    for (size_t i = 0; i < ND; ++i) {
                        size_t k = dofs[n * ND + i];
                        if (!seen[k]) {
                            seen[k] = 1;
                            e += 0.5 * mass[k] * v(n, i) * v(n, i);
                        }
                    }
                }
                if (!(e <= 1.2 * E0 + 1e-12 * SU * DU * DU)) {
                    violate("wrong-value", SAY("the energy grows: from " << E0 << " to " << e));
                }
                sim::count("probe:energy-bounded");
            }
        }
    }

    // ------------------------------------------------------------ C20: periodic cell

    void periodic()
    {
        begin(0);
        mesh();
        Rng r((uint64_t)plan.get("mseed") + 31);
        material(r);
        // reference: image of every node on the highest faces
        std::vector<size_t> image(nnode);
        double lo[3], hi[3];
        for (size_t i = 0; i < ND; ++i) {
            lo[i] = 1e300;
            hi[i] = -1e300;
            for (size_t n = 0; n < nnode; ++n) {
                lo[i] = std::min(lo[i], x0[n * ND + i]);
                hi[i] = std::max(hi[i], x0[n * ND + i]);
            }
        }
        size_t origin = nnode;
        for (size_t n = 0; n < nnode; ++n) {
            double w[3];
            bool o = true;
            for (size_t i = 0; i < ND; ++i) {
                w[i] = edge[n] & (2 << (2 * i)) ? lo[i] : x0[n * ND + i];
                o = o && (edge[n] & (1 << (2 * i)));
            }
            if (o) {
                origin = n;
            }
            image[n] = nnode;
            for (size_t k = 0; k < nnode; ++k) {
                bool same = true;
                for (size_t i = 0; i < ND; ++i) {
                    same = same && std::abs(x0[k * ND + i] - w[i]) < 1e-8;
                }
                if (same) {
                    image[n] = k;
                }
            }
            if (image[n] == nnode) {
                violate("wrong-value", "the mesh is not periodic");
            }
        }
        // which components of the mean deformation are prescribed: no free rotation
        std::vector<char> isF(ND * ND, 0);
        for (size_t j = 0; j < ND; ++j) {
            for (size_t k = 0; k < ND; ++k) {
                isF[j * ND + k] = j < k || !plan.get("mixed") || r.chance(0.5);
            }
        }
        // library: control nodes, tyings
        sim::OnHeap* heap = new sim::OnHeap;
        xdofs = I2::from_shape({nnode, ND});
        std::copy(ldofs.begin(), ldofs.end(), xdofs.begin());
        I2 pairs = I2::from_shape({ltied.size(), (size_t)2});
        for (size_t i = 0; i < ltied.size(); ++i) {
            pairs(i, 0) = ltied[i].first;
            pairs(i, 1) = ltied[i].second;
        }
        delete heap;
        std::unique_ptr<GooseFEM::Tyings::Control> control;
        std::unique_ptr<GooseFEM::Tyings::Periodic> ty;
        call("Control", [&]() { control.reset(new GooseFEM::Tyings::Control(xcoor, xdofs)); });
        I2 cd = control->controlDofs();
        I1 cn = control->controlNodes();
        want_shape(cd, {ND, ND}, "control DOFs");
        want_shape(cn, {ND}, "control nodes");
        std::vector<size_t> ip;
        for (size_t j = 0; j < ND; ++j) {
            for (size_t k = 0; k < ND; ++k) {
                if (isF[j * ND + k]) {
                    ip.push_back(cd(j, k));
                }
            }
        }
        for (size_t i = 0; i < ND; ++i) {
            ip.push_back(ldofs[origin * ND + i]);
        }
        if (origin != lorigin) {
            violate("wrong-value", "the origin is not the node with the lowest coordinates");
        }
        auto perm = permutation(ip.size(), r);
        heap = new sim::OnHeap;
        I1 iip = I1::from_shape({ip.size()});
        for (size_t i = 0; i < ip.size(); ++i) {
            iip(i) = ip[perm[i]];
        }
        delete heap;
        call("Periodic", [&]() {
            ty.reset(new GooseFEM::Tyings::Periodic(control->coor(), control->dofs(), control->controlDofs(), pairs, iip));
        });
        size_t nn = nnode + ND;
        I2 tdofs = ty->dofs();
        want_shape(tdofs, {nn, ND}, "DOFs of the tied system");
        std::unique_ptr<GooseFEM::VectorPartitionedTyings> vec;
        std::unique_ptr<GooseFEM::MatrixPartitionedTyings> A;
        std::unique_ptr<GooseFEM::MatrixPartitionedTyingsSolver<>> solver(new GooseFEM::MatrixPartitionedTyingsSolver<>());
        call("VectorPartitionedTyings", [&]() {
            vec.reset(new GooseFEM::VectorPartitionedTyings(xconn, tdofs, ty->Cdu(), ty->Cdp(), ty->Cdi()));
        }, 0);
        call("MatrixPartitionedTyings", [&]() {
            A.reset(new GooseFEM::MatrixPartitionedTyings(xconn, tdofs, ty->Cdu(), ty->Cdp()));
        }, 0);
        new_quadrature();
        // reference system: independent nodal components, then the mean deformation
        std::vector<size_t> var(nnode, (size_t)-1);
        size_t nv = 0;
        for (size_t n = 0; n < nnode; ++n) {
            if (image[n] == n) {
                var[n] = nv++;
            }
        }
        size_t nz = nv * ND + ND * ND, N = nnode * ND;
        auto transform = [&]() {
            std::vector<double> P(N * nz, 0.0);
            for (size_t n = 0; n < nnode; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    P[(n * ND + i) * nz + var[image[n]] * ND + i] = 1.0;
                    for (size_t k = 0; k < ND; ++k) {
                        P[(n * ND + i) * nz + nv * ND + i * ND + k] += x[n * ND + k] - x[image[n] * ND + k];
                    }
                }
            }
            return P;
        };
        auto P = transform();
        std::vector<double> Kz;
        auto condense = [&]() {
            auto K = dense();
            std::vector<double> KP(N * nz, 0.0);
            Kz.assign(nz * nz, 0.0);
            for (size_t a = 0; a < N; ++a) {
                for (size_t b = 0; b < N; ++b) {
                    double k = K[a * N + b];
                    if (k != 0) {
                        for (size_t z = 0; z < nz; ++z) {
                            KP[a * nz + z] += k * P[b * nz + z];
                        }
                    }
                }
            }
            for (size_t a = 0; a < N; ++a) {
                for (size_t y = 0; y < nz; ++y) {
                    double p = P[a * nz + y];
                    if (p != 0) {
                        for (size_t z = 0; z < nz; ++z) {
                            Kz[y * nz + z] += p * KP[a * nz + z];
                        }
                    }
                }
            }
        };
        condense();
        std::vector<char> zp(nz, 0);
        for (size_t i = 0; i < ND; ++i) {
            zp[var[origin] * ND + i] = 1;
        }
        for (size_t k = 0; k < ND * ND; ++k) {
            zp[nv * ND + k] = isF[k];
        }
        auto blank = [&]() {
            sim::OnHeap hp;
            T2 o = T2::from_shape({nn, ND});
            o.fill(0.0);
            return o;
        };
        T2 disp = blank(), fint = blank(), fext = blank();
        bool stale = true;
        for (size_t o = 1; o < plan.ops.size(); ++o) {
            begin(o);
            const Op& op = plan.ops[o];
            Rng q(op.seed);
            if (op.name == "material") {
                material(q);
                condense();
                stale = true;
                continue;
            }
            if (op.name == "move") {
                if (std::any_of(edge.begin(), edge.end(), [](char c) { return !c; })) {
                    distort(q, 0.02 * (double)clampz(plan.get("h", 4), 1, 12));
                    seal();
                    T2 full = blank();
                    std::copy(x.begin(), x.end(), full.begin());
                    T3 xe;
                    call("AsElement", [&]() { xe = vec->AsElement(full); });
                    call("update_x", [&]() { quad->update_x(xe); });
                    condense();
                    stale = true;
                }
                continue;
            }
            if (op.name == "restart") {
                solver.reset(new GooseFEM::MatrixPartitionedTyingsSolver<>());
                continue;
            }
            // one increment: mean deformation and body forces
            std::vector<double> z(nz, 0.0), fz(nz, 0.0), fn(N, 0.0);
            for (size_t k = 0; k < ND * ND; ++k) {
                z[nv * ND + k] = isF[k] ? DU * 0.1 * q.real(-1, 1) : 0.0;
            }
            for (size_t i = 0; i < ND; ++i) {
                z[var[origin] * ND + i] = q.chance(0.5) ? 0.0 : DU * 0.1 * q.real(-1, 1);
            }
            bool forces = q.chance(0.4);
            if (forces) {
                for (auto& f : fn) {
                    f = SU * DU * 0.3 * q.real(-1, 1);
                }
            }
            for (size_t a = 0; a < N; ++a) {
                for (size_t y = 0; y < nz; ++y) {
                    fz[y] += P[a * nz + y] * fn[a];
                }
            }
            std::vector<size_t> fr;
            for (size_t y = 0; y < nz; ++y) {
                if (!zp[y]) {
                    fr.push_back(y);
                }
            }
            std::vector<double> Kuu(fr.size() * fr.size()), b(fr.size());
            for (size_t a = 0; a < fr.size(); ++a) {
                b[a] = fz[fr[a]];
                for (size_t y = 0; y < nz; ++y) {
                    if (zp[y]) {
                        b[a] -= Kz[fr[a] * nz + y] * z[y];
                    }
                }
                for (size_t c = 0; c < fr.size(); ++c) {
                    Kuu[a * fr.size() + c] = Kz[fr[a] * nz + fr[c]];
                }
            }
            bool good = true;
            auto sol = fr.empty() ? b : gauss_solve(Kuu, b, fr.size(), good);
            if (!good) {
                sim::count("probe:system-not-solvable");
                continue;
            }
            for (size_t a = 0; a < fr.size(); ++a) {
                z[fr[a]] = sol[a];
            }
            std::vector<double> want(nn * ND, 0.0);
            for (size_t a = 0; a < N; ++a) {
                for (size_t y = 0; y < nz; ++y) {
                    want[a] += P[a * nz + y] * z[y];
                }
            }
            for (size_t j = 0; j < ND; ++j) {
                for (size_t k = 0; k < ND; ++k) {
                    want[cn(j) * ND + k] = z[nv * ND + j * ND + k];
                }
            }
            double us = std::max(biggest(want), 1e-6 * DU);
            // the computation
            for (size_t n = 0; n < nnode; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    fext(n, i) = fn[n * ND + i];
                }
            }
            internal(*vec, disp, fint, q);
            if (stale || q.chance(0.2)) {
                T3 Ke = stiffness();
                call("assemble", [&]() { A->assemble(Ke); });
                stale = false;
            }
            else {
                sim::count("probe:solver-kept");
            }
            T2 fres = blank(), du = blank();
            for (size_t n = 0; n < nn; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    fres(n, i) = fext(n, i) - fint(n, i);
                }
            }
            for (size_t j = 0; j < ND; ++j) {
                for (size_t k = 0; k < ND; ++k) {
                    if (isF[j * ND + k]) {
                        du(cn(j), k) = z[nv * ND + j * ND + k] - disp(cn(j), k);
                    }
                }
            }
            for (size_t i = 0; i < ND; ++i) {
                du(origin, i) = z[var[origin] * ND + i] - disp(origin, i);
            }
            int form = (int)q.below(4);
            if (form == 0) {
                call("Solve", [&]() { du = solver->Solve(*A, fres, du); }, 0);
            }
            else if (form == 1) {
                call("solve", [&]() { solver->solve(*A, fres, du); }, 0);
            }
            else if (form == 2) {
                T1 B, Y;
                call("AsDofs", [&]() { B = vec->AsDofs(fres); });
                call("AsDofs", [&]() { Y = vec->AsDofs(du); });
                call("solve(dofval)", [&]() { solver->solve(*A, B, Y); }, 0);
                call("AsNode", [&]() { du = vec->AsNode(Y); });
            }
            else {
                // partitioned form: unknown and prescribed parts by hand, dependent ones by the tyings
                T1 B, Y, X;
                call("AsDofs", [&]() { B = vec->AsDofs(fres); });
                call("AsDofs", [&]() { Y = vec->AsDofs(du); });
                size_t nu = vec->nnu(), np = vec->nnp(), nd = vec->nnd();
                T1 bu = make<double, 1>({nu}, [&]() { return 0.0; }), bd = make<double, 1>({nd}, [&]() { return 0.0; }),
                   xp = make<double, 1>({np}, [&]() { return 0.0; });
                std::copy(B.begin(), B.begin() + (long)nu, bu.begin());
                std::copy(B.begin() + (long)(nu + np), B.end(), bd.begin());
                std::copy(Y.begin() + (long)nu, Y.begin() + (long)(nu + np), xp.begin());
                call("Solve_u", [&]() { X = solver->Solve_u(*A, bu, bd, xp); }, 0);
                std::copy(X.begin(), X.end(), Y.begin());
                Eigen::VectorXd yi((long)(nu + np));
                for (size_t k = 0; k < nu + np; ++k) {
                    yi((long)k) = Y(k);
                }
                Eigen::VectorXd yd = ty->Cdi() * yi;
                for (size_t k = 0; k < nd; ++k) {
                    Y(nu + np + k) = yd((long)k);
                }
                call("AsNode", [&]() { du = vec->AsNode(Y); });
            }
            for (size_t n = 0; n < nn; ++n) {
                for (size_t i = 0; i < ND; ++i) {
                    disp(n, i) += du(n, i);
                }
            }
            want_close(disp, want, "displacements", 1e-8, us);
            if (homogeneous && !forces) {
                sim::count("probe:homogeneous-cell");
                for (size_t n = 0; n < nnode; ++n) {
                    for (size_t i = 0; i < ND; ++i) {
                        double e = disp(origin, i);
                        for (size_t k = 0; k < ND; ++k) {
                            e += disp(cn(i), k) * (x[n * ND + k] - x[origin * ND + k]);
                        }
                        if (!(std::abs(disp(n, i) - e) <= 1e-8 * us)) {
                            violate("wrong-value", SAY("the homogeneous cell does not deform uniformly: node " << n << " component " << i));
                        }
                    }
                }
            }
            // equilibrium
            internal(*vec, disp, fint, q);
            T1 Fe, Fi;
            call("AsDofs_i", [&]() { Fe = vec->AsDofs_i(fext); });
            call("AsDofs_i", [&]() { Fi = vec->AsDofs_i(fint); });
            want_shape(Fe, {vec->nni()}, "independent external forces");
            want_shape(Fi, {vec->nni()}, "independent internal forces");
            double fs = 1e-6 * SU * DU;
            for (size_t y = 0; y < nz; ++y) {
                for (size_t w = 0; w < nz; ++w) {
                    fs = std::max(fs, std::abs(Kz[y * nz + w] * z[w]));
                }
            }
            fs = std::max(fs, biggest(fn));
            auto fe0 = flat(Fe);
            call("copy_p", [&]() { vec->copy_p(Fi, Fe); });
            for (size_t k = 0; k < Fe.size(); ++k) {
                bool p = k >= vec->nnu();
                if (p ? Fe(k) != Fi(k) : Fe(k) != fe0[k]) {
                    violate("wrong-value", "the prescribed part was not copied as it is");
                }
                if (!(std::abs(Fe(k) - Fi(k)) <= 1e-7 * fs)) {
                    violate("wrong-value", SAY("no equilibrium: DOF " << k << " internal " << Fi(k) << " external " << Fe(k)));
                }
            }
            // work-conjugate of the mean deformation, from the reference
            for (size_t j = 0; j < ND; ++j) {
                for (size_t k = 0; k < ND; ++k) {
                    double s = 0;
                    for (size_t w = 0; w < nz; ++w) {
                        s += Kz[(nv * ND + j * ND + k) * nz + w] * z[w];
                    }
                    if (!(std::abs(Fi(tdofs(cn(j), k)) - s) <= 1e-7 * fs)) {
                        violate("wrong-value", SAY("mean stress " << j << k << ": " << Fi(tdofs(cn(j), k)) << ", expected " << s));
                    }
                }
            }
            sim::count("probe:equilibrium");
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    bool stat = p.prop == "C18", dyn = p.prop == "C19";
    static const int kinds[] = {QUAD, PLANAR, PLANAR, AXI, HEX, QUAD};
    int kind = kinds[r.below(6)];
    if (!stat && kind == AXI) {
        kind = PLANAR;
    }
    p.cfg["kind"] = kind;
    p.cfg["nx"] = r.range(1, dyn ? 4 : 3);
    p.cfg["ny"] = r.range(1, dyn ? 4 : 3);
    p.cfg["nz"] = 1 + (int64_t)r.chance(0.3);
    if (r.chance(0.04)) {
        p.cfg["nx"] = r.range(1, 7);
        p.cfg["ny"] = r.range(1, 7);
    }
    p.cfg["h"] = r.range(2, 8);
    p.cfg["thick"] = r.range(1, 12);
    p.cfg["fine"] = kind != HEX && r.chance(dyn ? 0.15 : 0.07);
    p.cfg["mseed"] = (int64_t)(r.next() >> 20);
    p.cfg["affine"] = (int64_t)r.below(2);
    p.cfg["su"] = random_unit(r);
    p.cfg["du"] = random_unit(r);
    p.cfg["renumber"] = (int64_t)r.below(2);
    p.cfg["bc"] = (int64_t)r.below(3);
    p.cfg["mixed"] = (int64_t)r.below(2);
    p.cfg["damp"] = dyn && r.chance(0.4);
    p.cfg["force"] = dyn && r.chance(0.4);
    p.cfg["drive"] = dyn && r.chance(0.4);
    auto add = [&](const std::string& name) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(12)};
        op.ctl = random_ctl(r, true, true);
        p.ops.push_back(op);
    };
    add("mesh");
    if (dyn) {
        size_t n = 3 + r.below(p.cfg["fine"] ? 5 : 14);
        for (size_t i = 0; i < n; ++i) {
            double u = r.unit();
            add(u < 0.04 ? "mass" : u < 0.08 ? "kick" : u < 0.12 ? "copy" : "step");
        }
    }
    else {
        add("load");
        size_t n = 1 + r.below(p.cfg["fine"] ? 2 : 5);
        for (size_t i = 0; i < n; ++i) {
            double u = r.unit();
            add(u < 0.15 ? "material" : u < 0.3 ? "move" : u < 0.36 ? "restart" : "load");
        }
        add("load");
    }
}

void sim::world_execute(const Plan& p)
{
    auto go = [&](auto k) {
        Fe<decltype(k)::value> w(p);
        if (p.prop == "C18") {
            w.statics();
        }
        else if (p.prop == "C19") {
            w.dynamics();
        }
        else {
            w.periodic();
        }
    };
    if (p.ops.empty()) {
        return;
    }
    int k = (int)(p.get("kind") & 3);
    if (p.prop != "C18" && k == AXI) {
        k = PLANAR;
    }
    switch (k) {
    case QUAD:
        go(std::integral_constant<int, QUAD>());
        break;
    case PLANAR:
        go(std::integral_constant<int, PLANAR>());
        break;
    case AXI:
        go(std::integral_constant<int, AXI>());
        break;
    default:
        go(std::integral_constant<int, HEX>());
    }
}
