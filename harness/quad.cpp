// World "quad": element quadrature (C03), its history of coordinate updates (C04), copies (C16), dirty memory (C17).
#include "common.h"
#include "elemref.h"

const char* sim::world_name = "quad";

namespace {

using namespace GooseFEM::Element;

// nodal coordinates per element of a valid mesh: perturbed grid, then rotation, stretch and shear
std::vector<double> coordinates(const Def& d, uint64_t seed, double unit)
{
    Rng r(seed);
    Topo t;
    grid(t, d.nx, d.ny, d.nz);
    double amp = r.below(4) == 0 ? 0.0 : d.kind == HEX ? 0.12 : 0.15;
    for (auto& c : t.coor) {
        c += amp * r.real(-1, 1);
    }
    int affine = (int)r.below(4); // 0: none, 1: stretch only, else everything
    if (affine >= 1) {
        std::vector<double> s = {r.real(0.3, 3), r.real(0.3, 3), r.real(0.3, 3)};
        for (size_t n = 0; n < t.nnode; ++n) {
            for (size_t i = 0; i < d.ndim; ++i) {
                t.coor[n * d.ndim + i] *= s[i];
            }
        }
    }
    if (affine >= 2) {
        double h = r.real(-0.5, 0.5), a = r.real(0, 6.28), b = r.real(0, 6.28);
        auto rot = [&](size_t i, size_t j, double q) {
            for (size_t n = 0; n < t.nnode; ++n) {
                double *u = &t.coor[n * d.ndim + i], *v = &t.coor[n * d.ndim + j];
                double x = *u, y = *v;
                *u = std::cos(q) * x - std::sin(q) * y;
                *v = std::sin(q) * x + std::cos(q) * y;
            }
        };
        for (size_t n = 0; n < t.nnode; ++n) {
            t.coor[n * d.ndim] += h * t.coor[n * d.ndim + 1];
        }
        rot(0, 1, a);
        if (d.ndim == 3) {
            rot(1, 2, b);
            rot(0, 2, a + b);
        }
    }
    if (d.kind == AXI) {
        double lo = 1e300;
        for (size_t n = 0; n < t.nnode; ++n) {
            lo = std::min(lo, t.coor[n * 2 + 1]);
        }
        double off = r.real(0.5, 3.0) - lo;
        for (size_t n = 0; n < t.nnode; ++n) {
            t.coor[n * 2 + 1] += off;
        }
    }
    std::vector<double> x;
    for (auto n : t.conn) {
        for (size_t i = 0; i < d.ndim; ++i) {
            x.push_back(unit * t.coor[n * d.ndim + i]);
        }
    }
    return x;
}

Def define(const Plan& p)
{
    Def d;
    Rng r((uint64_t)p.get("qseed"));
    d.kind = (int)(p.get("kind") & 3);
    bool big = p.get("big") != 0;
    d.nx = clampz(p.get("nx"), 1, big ? 24 : 6);
    d.ny = clampz(p.get("ny"), 1, big ? 24 : 6);
    d.nz = d.kind == HEX ? clampz(p.get("nz"), 1, big ? 4 : 2) : 0;
    if (d.kind == HEX) {
        d.nx = std::min<size_t>(d.nx, big ? 8 : 3);
        d.ny = std::min<size_t>(d.ny, big ? 6 : 2);
    }
    Topo t;
    grid(t, d.nx, d.ny, d.nz);
    d.conn = t.conn;
    d.nelem = t.nelem;
    d.nne = t.nne;
    d.ndim = t.ndim;
    d.tdim = d.kind == QUAD ? 2 : 3;
    d.scheme = (int)clampz(p.get("scheme"), 0, 4);
    if (d.kind == HEX && d.scheme == 3) {
        d.scheme = 2;
    }
    d.thick = d.kind == PLANAR && p.get("thick") ? r.real(0.1, 5.0) : 1.0;
    auto sign = [&](size_t m, size_t i) { return d.kind == HEX ? hex_sign[m][i] : quad_sign[m][i]; };
    if (d.scheme <= 2) {
        d.nip = d.nne;
        double a = d.scheme == 2 ? 1.0 : 1.0 / std::sqrt(3.0);
        for (size_t q = 0; q < d.nip; ++q) {
            for (size_t i = 0; i < d.ndim; ++i) {
                d.xi.push_back(a * sign(q, i));
            }
            d.w.push_back(1.0);
        }
    }
    else if (d.scheme == 3) {
        d.nip = 1;
        d.xi = {0.0, 0.0};
        d.w = {1.0}; // as tabulated by the library
    }
    else {
        d.nip = clampz(p.get("nip"), 1, 9);
        for (size_t q = 0; q < d.nip; ++q) {
            for (size_t i = 0; i < d.ndim; ++i) {
                d.xi.push_back(r.real(-1, 1));
            }
            d.w.push_back(r.real(0.1, 2));
        }
    }
    return d;
}

template <class A>
bool matches(const A& a, const Val& ref)
{
    if (a.size() != ref.v.size()) {
        return false;
    }
    double tol = 1e-9 * std::max(ref.scale, 1e-290);
    size_t i = 0;
    for (double x : a) {
        if (!(std::abs(x - ref.v[i++]) <= tol)) {
            return false;
        }
    }
    return true;
}

const char* queries[] = {"interp", "grad", "gradT", "sym", "intN", "intNN", "int2", "int4", "dV", "dN", "astensor", "alloc"};
const size_t nqueries = sizeof(queries) / sizeof(*queries);

template <class QT, int KIND>
struct World {
    const Plan& plan;
    Def d;
    struct Obj {
        std::unique_ptr<QT> q;
        std::vector<std::shared_ptr<Ref>> cand; // coordinates the object may be at
        bool unset = false; // moved-from: only assignment and destruction are meaningful
    };
    std::vector<Obj> objs;
    T2 xi;
    T1 wt;
    double unit, field; // units of length and of the fields

    T3 as3(const std::vector<double>& x)
    {
        sim::OnHeap h;
        T3 r = T3::from_shape({d.nelem, d.nne, d.ndim});
        std::copy(x.begin(), x.end(), r.begin());
        return r;
    }

    explicit World(const Plan& p) :
        plan(p),
        d(define(p)),
        unit(std::ldexp(1.0, (int)p.get("ux"))),
        field(std::ldexp(1.0, (int)p.get("uf")))
    {
        sim::OnHeap h;
        xi = T2::from_shape({d.nip, d.ndim});
        std::copy(d.xi.begin(), d.xi.end(), xi.begin());
        wt = T1::from_shape({d.nip});
        std::copy(d.w.begin(), d.w.end(), wt.begin());
    }

    QT* construct(const T3& x)
    {
        if constexpr (KIND == PLANAR) {
            if (d.scheme == 0) {
                return d.thick == 1.0 ? new QT(x) : new QT(x, d.thick);
            }
            if (d.scheme == 1) {
                return new QT(x, Quad4::Gauss::xi(), Quad4::Gauss::w(), d.thick);
            }
            if (d.scheme == 2) {
                return new QT(x, Quad4::Nodal::xi(), Quad4::Nodal::w(), d.thick);
            }
            if (d.scheme == 3) {
                return new QT(x, Quad4::MidPoint::xi(), Quad4::MidPoint::w(), d.thick);
            }
            return new QT(x, xi, wt, d.thick);
        }
        else if constexpr (KIND == HEX) {
            if (d.scheme == 0) {
                return new QT(x);
            }
            if (d.scheme == 1) {
                return new QT(x, Hex8::Gauss::xi(), Hex8::Gauss::w());
            }
            if (d.scheme == 2) {
                return new QT(x, Hex8::Nodal::xi(), Hex8::Nodal::w());
            }
            return new QT(x, xi, wt);
        }
        else {
            if (d.scheme == 0) {
                return new QT(x);
            }
            if (d.scheme == 1) {
                return new QT(x, Quad4::Gauss::xi(), Quad4::Gauss::w());
            }
            if (d.scheme == 2) {
                return new QT(x, Quad4::Nodal::xi(), Quad4::Nodal::w());
            }
            if (d.scheme == 3) {
                return new QT(x, Quad4::MidPoint::xi(), Quad4::MidPoint::w());
            }
            return new QT(x, xi, wt);
        }
    }

    void check_res(const Res& r, const std::string& n)
    {
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            return;
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
    }

    // the answer must belong to one of the coordinate sets the object may be at; narrows them
    template <class A, class F>
    void decide(Obj& o, const A& got, F ref, const std::string& what)
    {
        mix_array(got);
        std::vector<std::shared_ptr<Ref>> keep;
        for (auto& c : o.cand) {
            if (matches(got, ref(*c))) {
                keep.push_back(c);
            }
        }
        if (keep.empty()) {
            // report against the first candidate
            Val v = ref(*o.cand[0]);
            size_t i = 0;
            for (double x : got) {
                if (i < v.v.size() && !(std::abs(x - v.v[i]) <= 1e-9 * std::max(v.scale, 1e-290))) {
                    violate("wrong-value", SAY(what << ": entry " << i << " is " << x << ", expected " << v.v[i]
                                                    << (o.cand.size() > 1 ? " (or its value before the failed update)" : "")));
                }
                ++i;
            }
            violate("wrong-shape", what);
        }
        o.cand = keep;
    }

    // forms: 0 returning, 1 output argument with old content, 2 dynamic-rank arguments
    template <class Out, class In, class FR, class FO>
    bool ask(const Ctl& c, int form, const In& in, const std::vector<size_t>& shape, Rng& r, FR ret, FO out, Out& o, const std::string& what)
    {
        Res res;
        if (form == 0) {
            res = sim::run(c, [&]() { o = ret(in); });
        }
        else if (form == 1) {
            {
                sim::OnHeap h;
                o = Out::from_shape(shape);
                for (auto& x : o) {
                    x = r.chance(0.2) ? std::nan("") : r.real(-1e5, 1e5);
                }
            }
            res = sim::run(c, [&]() { out(in, o); });
        }
        else {
            auto dyn = to_dynamic(in);
            xt::xarray<double> dout;
            {
                sim::OnHeap h;
                dout = xt::xarray<double>::from_shape(shape);
                for (auto& x : dout) {
                    x = r.real(-1e5, 1e5);
                }
            }
            res = sim::run(c, [&]() { out(dyn, dout); });
            if (res.ok()) {
                want_shape(dout, shape, what);
            }
            sim::OnHeap h;
            o = dout;
        }
        check_res(res, what);
        if (!res.ok()) {
            return false;
        }
        want_shape(o, shape, what);
        return true;
    }

    void query(Obj& ob, const std::string& n, const Ctl& c, int form, Rng& r, size_t opt)
    {
        const QT& q = *ob.q;
        size_t E = d.nelem, P = d.nip, M = d.nne, D = d.ndim, T = d.tdim;
        auto num = [&]() { return field * r.real(-2, 2); };
        if (n == "interp") {
            size_t k = KIND == QUAD ? 2 : 1 + opt % 4;
            T3 u = make<double, 3>({E, M, k}, num), o;
            if (ask(c, form, u, {E, P, k}, r, [&](auto& a) { return q.InterpQuad_vector(a); },
                    [&](auto& a, auto& b) { q.interpQuad_vector(a, b); }, o, n)) {
                decide(ob, o, [&](const Ref& f) { return ref_interp(f, flat(u), k); }, n);
            }
        }
        else if (n == "grad" || n == "gradT" || n == "sym") {
            int mode = n == "grad" ? 0 : n == "gradT" ? 1 : 2;
            T3 u;
            if (opt & 1) {
                // affine field: constant gradient
                double F[3][3];
                for (auto& row : F) {
                    for (auto& y : row) {
                        y = r.real(-1, 1);
                    }
                }
                size_t k = 0;
                const auto& x = ob.cand[0]->x;
                u = make<double, 3>({E, M, D}, [&]() {
                    size_t j = k % D, b = (k / D) * D;
                    ++k;
                    double s = 0;
                    for (size_t i = 0; i < D; ++i) {
                        s += F[i][j] * x[b + i];
                    }
                    return s;
                });
            }
            else {
                u = make<double, 3>({E, M, D}, num);
            }
            T4 o;
            if (ask(c, form, u, {E, P, T, T}, r,
                    [&](auto& a) { return mode == 0 ? q.GradN_vector(a) : mode == 1 ? q.GradN_vector_T(a) : q.SymGradN_vector(a); },
                    [&](auto& a, auto& b) {
                        mode == 0 ? q.gradN_vector(a, b) : mode == 1 ? q.gradN_vector_T(a, b) : q.symGradN_vector(a, b);
                    },
                    o, n)) {
                decide(ob, o, [&](const Ref& f) { return ref_grad(f, flat(u), mode); }, n);
            }
        }
        else if (n == "intN") {
            size_t k = 1 + opt % 4;
            T3 f = make<double, 3>({E, P, k}, num), o;
            if (ask(c, form, f, {E, M, k}, r, [&](auto& a) { return q.Int_N_vector_dV(a); },
                    [&](auto& a, auto& b) { q.int_N_vector_dV(a, b); }, o, n)) {
                decide(ob, o, [&](const Ref& g) { return ref_intN(g, flat(f), k); }, n);
            }
        }
        else if (n == "intNN") {
            T2 f = make<double, 2>({E, P}, num);
            T3 o;
            if (ask(c, form, f, {E, M * D, M * D}, r, [&](auto& a) { return q.Int_N_scalar_NT_dV(a); },
                    [&](auto& a, auto& b) { q.int_N_scalar_NT_dV(a, b); }, o, n)) {
                decide(ob, o, [&](const Ref& g) { return ref_intNN(g, flat(f)); }, n);
            }
        }
        else if (n == "int2") {
            T4 f = make<double, 4>({E, P, T, T}, num);
            T3 o;
            if (ask(c, form, f, {E, M, D}, r, [&](auto& a) { return q.Int_gradN_dot_tensor2_dV(a); },
                    [&](auto& a, auto& b) { q.int_gradN_dot_tensor2_dV(a, b); }, o, n)) {
                decide(ob, o, [&](const Ref& g) { return ref_int2(g, flat(f)); }, n);
            }
        }
        else if (n == "int4") {
            T6 f = make<double, 6>({E, P, T, T, T, T}, num);
            T3 o;
            if (ask(c, form, f, {E, M * D, M * D}, r, [&](auto& a) { return q.Int_gradN_dot_tensor4_dot_gradNT_dV(a); },
                    [&](auto& a, auto& b) { q.int_gradN_dot_tensor4_dot_gradNT_dV(a, b); }, o, n)) {
                decide(ob, o, [&](const Ref& g) { return ref_int4(g, flat(f)); }, n);
            }
        }
        else if (n == "dV") {
            T2 o;
            Res res = sim::run(c, [&]() { o = q.dV(); });
            check_res(res, n);
            if (res.ok()) {
                want_shape(o, {E, P}, n);
                decide(ob, o, [&](const Ref& g) {
                    Val v;
                    for (double x : g.vol) {
                        v.push(x, std::abs(x));
                    }
                    return v;
                }, n);
            }
        }
        else if (n == "dN") {
            if constexpr (KIND == AXI) {
                T6 o;
                Res res = sim::run(c, [&]() { o = q.B(); });
                check_res(res, n);
                if (res.ok()) {
                    want_shape(o, {E, P, M, T, T, T}, n);
                    decide(ob, o, [&](const Ref& g) {
                        Val v;
                        for (size_t e = 0; e < E; ++e) {
                            for (size_t p = 0; p < P; ++p) {
                                for (size_t m = 0; m < M; ++m) {
                                    for (size_t i = 0; i < 3; ++i) {
                                        for (size_t j = 0; j < 3; ++j) {
                                            for (size_t k = 0; k < 3; ++k) {
                                                double x = k == 1 ? 0.0 : g.G(e, p, m, k == 0 ? 1 : 0, i, j);
                                                v.push(x, std::abs(x));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        return v;
                    }, n);
                }
            }
            else {
                T4 o;
                Res res = sim::run(c, [&]() { o = q.GradN(); });
                check_res(res, n);
                if (res.ok()) {
                    want_shape(o, {E, P, M, D}, n);
                    decide(ob, o, [&](const Ref& g) {
                        Val v;
                        for (double x : g.dN) {
                            v.push(x, std::abs(x));
                        }
                        return v;
                    }, n);
                }
            }
        }
        else if (n == "astensor") {
            T2 s = make<double, 2>({E, P}, num);
            // xtensor's small vectors of extents allocate in a noexcept move beyond four axes: no faults there
            size_t rank = 1 + opt % (c.fail >= 0 ? 2 : 4);
            std::vector<size_t> shape = {E, P};
            size_t per = 1;
            for (size_t i = 0; i < rank; ++i) {
                shape.push_back(T);
                per *= T;
            }
            xt::xarray<double> o;
            Res res = sim::run(c, [&]() {
                if (form == 0) {
                    o = q.AsTensor(rank, s);
                }
                else if (form == 1) {
                    if (rank == 1) {
                        o = q.template AsTensor<1>(s);
                    }
                    else if (rank == 2) {
                        o = q.template AsTensor<2>(s);
                    }
                    else if (rank == 3) {
                        o = q.template AsTensor<3>(s);
                    }
                    else {
                        o = q.template AsTensor<4>(s);
                    }
                }
                else {
                    T4 t = q.template allocate_qtensor<2, double>();
                    q.asTensor(s, t);
                    o = t;
                }
            });
            if (form == 2) {
                per = T * T;
                shape = {E, P, T, T};
            }
            check_res(res, n);
            if (res.ok()) {
                want_shape(o, shape, n);
                std::vector<double> ref;
                for (double x : s) {
                    ref.insert(ref.end(), per, x);
                }
                want_exact(o, ref, n);
            }
        }
        else if (n == "alloc") {
            double v = num();
            size_t ny = c.fail >= 0 ? 2 : 3;
            std::vector<size_t> sy = {E, P, T, T};
            if (ny == 3) {
                sy.push_back(T);
            }
            Res res = sim::run(c, [&]() {
                T3 a = q.allocate_elemvec(v), m = q.allocate_elemmat(v);
                T2 s = q.allocate_qscalar(v);
                T4 t = q.template allocate_qtensor<2>(v);
                xt::xarray<double> y = q.allocate_qtensor(ny, v);
                T3 a0 = q.template allocate_elemvec<double>(), m0 = q.template allocate_elemmat<double>();
                T2 s0 = q.template allocate_qscalar<double>();
                bool z = sim::armed_off();
                want_shape(a, {E, M, D}, n);
                want_exact(a, std::vector<double>(E * M * D, v), n);
                want_shape(m, {E, M * D, M * D}, n);
                want_exact(m, std::vector<double>(E * M * D * M * D, v), n);
                want_shape(s, {E, P}, n);
                want_exact(s, std::vector<double>(E * P, v), n);
                want_shape(t, {E, P, T, T}, n);
                want_exact(t, std::vector<double>(E * P * T * T, v), n);
                want_shape(y, sy, n);
                want_exact(y, std::vector<double>(E * P * T * T * (ny == 3 ? T : 1), v), n);
                want_shape(a0, {E, M, D}, n);
                want_shape(m0, {E, M * D, M * D}, n);
                want_shape(s0, {E, P}, n);
                sim::armed_on(z);
            });
            check_res(res, n);
            if (q.nelem() != E || q.nne() != M || q.ndim() != D || q.tdim() != T || q.nip() != P) {
                violate("wrong-value", "sizes of the quadrature object");
            }
        }
    }

    // everything in one go, without faults: used to settle what a history left behind
    void sweep(Obj& o, Rng& r)
    {
        Ctl c;
        c.seed = r.next() >> 20;
        for (const char* n : {"dV", "dN", "grad", "int2", "intN"}) {
            query(o, n, c, 0, r, r.below(8) & ~1ull);
        }
    }

    std::shared_ptr<Ref> ref(uint64_t s) { return std::make_shared<Ref>(d, coordinates(d, s, unit)); }

    // new nodal coordinates: all over, or close to those before
    std::shared_ptr<Ref> moved(const Ref& from, uint64_t s, int64_t how, Rng& r)
    {
        auto x = from.x;
        size_t L = d.nne * d.ndim;
        switch (how & 7) {
        case 4: // all nodes, a little
            for (auto& y : x) {
                y += unit * 1e-6 * r.real(-1, 1);
            }
            break;
        case 5: // one node of one element
            x[r.below(x.size())] += unit * 0.05 * r.real(0.1, 1);
            break;
        case 6: { // one element
            size_t e = r.chance(0.5) ? d.nelem - 1 : r.below(d.nelem);
            double f = r.real(1.01, 1.2);
            for (size_t i = 0; i < L; ++i) {
                x[e * L + i] *= f;
            }
            break;
        }
        case 7: // back to where the first object started
            return ref((uint64_t)(plan.ops[0].a.size() > 2 ? plan.ops[0].a[2] : 0));
        default:
            return ref(s);
        }
        return std::make_shared<Ref>(d, x);
    }

    bool make_obj(const Ctl& c, uint64_t s)
    {
        auto f = ref(s);
        T3 x = as3(f->x);
        QT* p = nullptr;
        Res res = sim::run(c, [&]() { p = construct(x); });
        check_res(res, "construct");
        if (!p) {
            return false;
        }
        Obj o;
        o.q.reset(p);
        o.cand = {f};
        objs.push_back(std::move(o));
        return true;
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        sim::count(("op:" + op.name).c_str());
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        if (op.name == "construct" || objs.empty()) {
            if (objs.size() < 4) {
                make_obj(c, (uint64_t)arg(2));
            }
            return;
        }
        size_t k = (size_t)arg(3) % objs.size();
        Obj& o = objs[k];
        if (op.name == "update") {
            auto f = moved(*o.cand[0], (uint64_t)arg(2), arg(1), r);
            T3 x = as3(f->x);
            Res res;
            if (arg(0) == 2) {
                auto dyn = to_dynamic(x);
                res = sim::run(c, [&]() { o.q->update_x(dyn); });
            }
            else {
                res = sim::run(c, [&]() { o.q->update_x(x); });
            }
            check_res(res, "update_x");
            if (res.ok() && d.nelem <= 2 && c.fail < 0 && r.chance(0.01)) { // many more of them
                uint64_t m = burst_count((int64_t)r.below(3), false);
                auto g = moved(*f, (uint64_t)arg(2) + 1, arg(1), r);
                T3 y = as3(g->x);
                Ctl c0;
                c0.seed = c.seed;
                Res again = sim::run(c0, [&]() {
                    for (uint64_t q = 0; q < m; ++q) {
                        o.q->update_x(q % 2 ? x : y);
                    }
                });
                check_res(again, "update_x");
                f = m % 2 ? g : f;
                sim::count("probe:burst-8");
            }
            if (res.ok()) {
                o.cand = {f};
            }
            else {
                sim::count("probe:update-failed-part-way");
                o.cand.push_back(f);
                sweep(o, r);
            }
        }
        else if (op.name == "update_bad") {
            // an argument of the wrong shape must be refused and change nothing
            T3 x = make<double, 3>({d.nelem + 1 + (size_t)arg(1), d.nne, d.ndim}, [&]() { return r.real(-1, 1); });
            Res res = sim::run(c, [&]() { o.q->update_x(x); });
            if (res.ok()) {
                violate("wrong-value", "coordinates of the wrong shape were accepted");
            }
            sweep(o, r);
        }
        else if (op.name == "copy" || op.name == "assign" || op.name == "move" || op.name == "move_assign") {
            Obj n;
            n.cand = o.cand;
            QT* p = nullptr;
            Res res;
            if (op.name == "copy") {
                res = sim::run(c, [&]() { p = new QT(*o.q); });
            }
            else if (op.name == "move") {
                res = sim::run(c, [&]() { p = new QT(std::move(*o.q)); });
                if (res.ok()) {
                    n.q.reset(p);
                    objs[k] = std::move(n); // the original is gone
                }
                else {
                    check_res(res, op.name);
                    // a failed move leaves an unspecified original: destroy it
                    objs.erase(objs.begin() + (long)k);
                }
                return;
            }
            else {
                size_t j = (size_t)arg(1) % objs.size();
                Obj& t = objs[j];
                if (j == k) {
                    // assignment to itself
                    res = sim::run(c, [&]() { *o.q = *static_cast<const QT*>(o.q.get()); });
                    check_res(res, op.name);
                    if (!res.ok()) {
                        objs.erase(objs.begin() + (long)k);
                    }
                    else {
                        sweep(o, r);
                    }
                    return;
                }
                bool mv = op.name == "move_assign";
                res = sim::run(c, [&]() {
                    if (mv) {
                        *t.q = std::move(*o.q);
                    }
                    else {
                        *t.q = *o.q;
                    }
                });
                check_res(res, op.name);
                if (res.ok()) {
                    t.cand = o.cand;
                    if (mv) {
                        objs.erase(objs.begin() + (long)k);
                    }
                }
                else {
                    // assignment gives the basic guarantee only: the target is to be assigned or destroyed
                    size_t hi = mv ? std::max(j, k) : j, lo = mv ? std::min(j, k) : j;
                    objs.erase(objs.begin() + (long)hi);
                    if (mv) {
                        objs.erase(objs.begin() + (long)lo);
                    }
                }
                for (auto& x : objs) {
                    sweep(x, r);
                }
                return;
            }
            check_res(res, op.name);
            if (res.ok()) {
                n.q.reset(p);
                if (objs.size() < 4) {
                    objs.push_back(std::move(n));
                }
                else {
                    objs[(k + 1) % objs.size()] = std::move(n);
                }
            }
            sweep(objs[k], r);
        }
        else if (op.name == "drop") {
            if (objs.size() > 1) {
                Res res = sim::run(c, [&]() { o.q.reset(); });
                check_res(res, op.name);
                objs.erase(objs.begin() + (long)k);
                for (auto& x : objs) {
                    sweep(x, r);
                }
            }
        }
        else {
            query(o, op.name, c, (int)clampz(arg(0), 0, 2), r, (size_t)arg(1));
        }
    }

    void all()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            exec(i);
        }
        if (plan.prop != "C03") {
            Rng r(plan.seed + 5);
            sim::current_op = (int)plan.ops.size();
            for (auto& o : objs) {
                sweep(o, r);
            }
        }
        // objects are released under the simulator's eyes
        Ctl c;
        sim::run(c, [&]() { objs.clear(); });
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    bool hist = p.prop != "C03";
    p.cfg["kind"] = (int64_t)r.below(4);
    p.cfg["nx"] = r.range(1, hist ? 3 : 5);
    p.cfg["ny"] = r.range(1, hist ? 2 : 4);
    p.cfg["nz"] = r.range(1, 2);
    if (r.chance(0.02)) {
        p.cfg["big"] = 1;
        p.cfg["nx"] = r.range(1, 12);
        p.cfg["ny"] = r.range(1, 12);
        p.cfg["nz"] = r.range(1, 4);
    }
    p.cfg["scheme"] = (int64_t)r.below(5);
    p.cfg["thick"] = (int64_t)r.below(2);
    p.cfg["nip"] = r.range(1, 9);
    p.cfg["ux"] = random_unit(r);
    p.cfg["uf"] = random_unit(r);
    p.cfg["qseed"] = (int64_t)(r.next() >> 20);
#ifdef _OPENMP
    bool team = true;
#else
    bool team = false;
#endif
    bool faults = hist;
    size_t n = hist ? 4 + r.below(r.chance(0.05) && !p.get("big") ? 40 : 9) : 3 + r.below(4);
    auto add = [&](const std::string& name, bool fault) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(3), (int64_t)r.below(16), (int64_t)(r.next() >> 24), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, team, fault);
        p.ops.push_back(op);
    };
    add("construct", false);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit();
        if (!hist) {
            add(u < 0.08 ? "construct" : u < 0.2 ? "update" : queries[r.below(nqueries)], false);
        }
        else if (p.prop == "C16") {
            static const char* cp[] = {"copy", "assign", "move", "move_assign", "drop", "construct", "copy", "assign"};
            add(u < 0.45 ? cp[r.below(8)] : u < 0.75 ? "update" : u < 0.8 ? "update_bad" : queries[r.below(nqueries)], faults);
        }
        else {
            add(u < 0.5 ? "update" : u < 0.58 ? "update_bad" : u < 0.64 ? "construct" : queries[r.below(nqueries)], faults);
        }
    }
}

void sim::world_execute(const Plan& p)
{
    switch (p.get("kind") & 3) {
    case QUAD:
        World<Quad4::Quadrature, QUAD>(p).all();
        break;
    case PLANAR:
        World<Quad4::QuadraturePlanar, PLANAR>(p).all();
        break;
    case AXI:
        World<Quad4::QuadratureAxisymmetric, AXI>(p).all();
        break;
    default:
        World<Hex8::Quadrature, HEX>(p).all();
    }
}
