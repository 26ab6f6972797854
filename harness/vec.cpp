// World "vec": Vector, VectorPartitioned, VectorPartitionedTyings on simulated teams.
#include "common.h"

const char* sim::world_name = "vec";

namespace {

// kinds of data
double unit = 1; // of all values; a power of two: sums stay exact
bool wide = false; // values of more than 24 significant bits
double value(Rng& r) { return wide ? (double)r.range(-(1ll << 36), 1ll << 36) : small_int(r); }
T1 rnd1(size_t n, Rng& r) { return make<double, 1>({n}, [&]() { return unit * value(r); }); }
T2 rnd2(size_t a, size_t b, Rng& r) { return make<double, 2>({a, b}, [&]() { return unit * value(r); }); }
T3 rnd3(size_t a, size_t b, size_t c, Rng& r) { return make<double, 3>({a, b, c}, [&]() { return unit * value(r); }); }

// destination filled with arbitrary old content
template <class A>
A dirty(const std::vector<size_t>& shape, Rng& r)
{
    sim::OnHeap h;
    A a = A::from_shape(shape);
    for (auto& x : a) {
        x = r.chance(0.2) ? std::nan("") : (double)r.range(-99, 99) * 1e3;
    }
    return a;
}

struct Contrib {
    std::vector<std::vector<double>> v;
    explicit Contrib(size_t n) : v(n) {}
    // overwriting semantics: one of the contributions; zero where there are none
    template <class A>
    void check_one_of(const A& a, const std::string& what) const
    {
        // which contribution wins is the schedule's business: not hashed beyond the value itself
        mix_array(a);
        if (a.size() != v.size()) {
            violate("wrong-shape", what + ": size");
        }
        size_t i = 0;
        for (double x : a) {
            bool ok = v[i].empty() && x == 0.0;
            for (double y : v[i]) {
                ok = ok || x == y;
            }
            if (!ok) {
                violate("wrong-value", SAY(what << ": entry " << i << " is " << x << ", which is not a value addressed to it"));
            }
            ++i;
        }
    }
    std::vector<double> sums() const
    {
        std::vector<double> s(v.size(), 0.0);
        for (size_t i = 0; i < v.size(); ++i) {
            for (double y : v[i]) {
                s[i] += y;
            }
        }
        return s;
    }
};

const char* ops1[] = {"copy", "asDofs_node", "asDofs_elem", "asNode_dof", "asNode_elem", "asElement_dof",
                      "asElement_node", "assembleDofs_node", "assembleDofs_elem", "assembleNode_elem", "allocate",
                      "roundtrip", "el_gather", "el_assemble"};
const char* ops2[] = {"sets", "is_u", "is_p", "copy_u", "copy_p", "fromPart_dofs", "fromPart_node", "fromPart_elem",
                      "asDofs_u_dof", "asDofs_u_node", "asDofs_u_elem", "asDofs_p_dof", "asDofs_p_node", "asDofs_p_elem",
                      "t_copy_p", "t_asDofs_i", "t_asDofs_i_raw", "t_base", "split_join"};

struct W {
    const Plan& plan;
    Topo t;
    std::vector<size_t> iip, iiu;
    GooseFEM::Vector vec;
    GooseFEM::VectorPartitioned vp;
    // tied system: DOFs renumbered as [u, p, d]
    Topo tt;
    size_t nnu = 0, nnp = 0, nnd = 0;
    std::vector<double> Cdu, Cdp; // dense
    GooseFEM::VectorPartitionedTyings vt;
    bool part;

    explicit W(const Plan& p) : plan(p), part(p.get("part") != 0)
    {
        t = topo_make(p);
        Rng r((uint64_t)p.get("pseed") + 77);
        sim::current_op = -1;
        Ctl c0;
        c0.seed = r.next() >> 16;
        make([&]() { vec = GooseFEM::Vector(t.xconn, t.xdofs); }, c0);
        if (!part) {
            return;
        }
        int mode = (int)p.get("iip");
        auto perm = permutation(t.ndof, r);
        size_t np = mode == 0 ? 0 : mode == 1 ? t.ndof : r.below(t.ndof + 1);
        std::vector<char> isp(t.ndof, 0);
        for (size_t i = 0; i < np; ++i) {
            iip.push_back(perm[i]); // not sorted
            isp[perm[i]] = 1;
        }
        if (mode == 3) {
            std::sort(iip.begin(), iip.end());
        }
        for (size_t i = 0; i < t.ndof; ++i) {
            if (!isp[i]) {
                iiu.push_back(i);
            }
        }
        {
            sim::OnHeap h;
            xiip = I1::from_shape({iip.size()});
            std::copy(iip.begin(), iip.end(), xiip.begin());
        }
        make([&]() { vp = GooseFEM::VectorPartitioned(t.xconn, t.xdofs, xiip); }, c0);
        {
        }
        // tied: every DOF its own number, permuted as [u,p,d]
        tt = t;
        size_t N = t.nnode * t.ndim;
        nnd = r.below(N);
        size_t nni = N - nnd;
        nnp = r.below(nni + 1);
        nnu = nni - nnp;
        tt.dofs = permutation(N, r);
        tt.seal();
        Cdu.assign(nnd * nnu, 0.0);
        Cdp.assign(nnd * nnp, 0.0);
        {
            sim::OnHeap h;
            std::vector<Eigen::Triplet<double>> tu, tp, ti;
            for (size_t d = 0; d < nnd; ++d) {
                size_t k = 1 + r.below(3);
                for (size_t j = 0; j < k; ++j) {
                    size_t i = r.below(nni);
                    double v = (double)r.range(-3, 3);
                    ti.push_back({(int)d, (int)i, v});
                    if (i < nnu) {
                        tu.push_back({(int)d, (int)i, v});
                        Cdu[d * nnu + i] += v;
                    }
                    else {
                        tp.push_back({(int)d, (int)(i - nnu), v});
                        Cdp[d * nnp + i - nnu] += v;
                    }
                }
            }
            Eigen::SparseMatrix<double> cu((int)nnd, (int)nnu), cp((int)nnd, (int)nnp), ci((int)nnd, (int)nni);
            cu.setFromTriplets(tu.begin(), tu.end());
            cp.setFromTriplets(tp.begin(), tp.end());
            ci.setFromTriplets(ti.begin(), ti.end());
            vt = GooseFEM::VectorPartitionedTyings(tt.xconn, tt.xdofs, cu, cp, ci);
        }
    }

    I1 xiip;

    void make(const std::function<void()>& f, const Ctl& c)
    {
        Res res = sim::run(c, f);
        if (!res.ok()) {
            violate("unexpected-exception", "construction: " + res.what);
        }
    }

    // Replace an object by a copy of itself; the original changes and dies.  Memory may run out on the way: then
    // the original answers as before.
    template <class V, class Other>
    void dup(V& obj, int how, Ctl c, Other other)
    {
        std::unique_ptr<V> b;
        if (how == 1 || how == 3) { // over an object of another size
            Ctl c1 = c;
            c1.fail = -1;
            make([&]() { b.reset(new V(other())); }, c1);
        }
        Res res = sim::run(c, [&]() {
            switch (how) {
            case 0:
                b.reset(new V(obj));
                break;
            case 1:
                *b = obj;
                break;
            case 2:
                b.reset(new V(std::move(obj)));
                break;
            default:
                *b = std::move(obj);
            }
        });
        if (!res.ok()) {
            if (!res.fault_fired || res.kind != Res::BAD_ALLOC) {
                violate("unexpected-exception", "copying: " + res.what);
            }
            sim::count("probe:copy-failed");
            if (how >= 2) { // the content may be lost: a basic guarantee only
                sim::count("probe:move-failed");
                throw int(0);
            }
            Ctl c1 = c;
            c1.fail = -1;
            make([&]() { b.reset(); }, c1);
            return;
        }
        Ctl c1 = c;
        c1.fail = -1;
        make([&]() { obj = other(); }, c1); // the original lives on with other content
        make([&]() { V last(std::move(obj)); }, c1); // and dies
        make([&]() { obj = *b; }, c1);
        make([&]() { b.reset(); }, c1);
    }

    // run a conversion in one of its forms: returning / output argument, input of fixed or dynamic rank, a part of
    // another array, the other storage order
    template <class V, class In, class Out, class FR, class FO>
    Out form(const Ctl& c, int64_t f, const V&, const In& in, const std::vector<size_t>& oshape, Rng& r, FR ret, FO out, const std::string& what)
    {
        Out o;
        Res res;
        if (f == 0) {
            res = sim::run(c, [&]() { o = ret(in); });
        }
        else if (f == 1) {
            o = dirty<Out>(oshape, r);
            res = sim::run(c, [&]() { out(in, o); });
        }
        else if (f == 2) {
            auto dyn = to_dynamic(in);
            res = sim::run(c, [&]() { o = ret(dyn); });
        }
        else if (f == 3) {
            auto dyn = to_dynamic(in);
            xt::xarray<double> dout;
            {
                sim::OnHeap h;
                dout = dirty<xt::xarray<double>>(oshape, r);
            }
            res = sim::run(c, [&]() { out(dyn, dout); });
            sim::OnHeap h;
            want_shape(dout, oshape, what);
            o = dout;
        }
        else if (f == 4) { // a part of a larger array
            constexpr size_t N = std::tuple_size<typename In::shape_type>::value;
            std::array<size_t, N> s;
            std::copy(in.shape().begin(), in.shape().end(), s.begin());
            s[N - 1] = 2 * s[N - 1] + 1;
            In all = ::make<double, N>(s, [&]() { return small_int(r); });
            auto from = in.begin();
            for (size_t k = 0; k < all.size(); ++k) {
                if (k % s[N - 1] % 2 == 1) {
                    all.flat(k) = *from++;
                }
            }
            In cpy = all;
            if constexpr (N == 1) {
                auto p = xt::view(all, xt::range(1, s[0], 2));
                res = sim::run(c, [&]() { o = ret(p); });
            }
            else if constexpr (N == 2) {
                auto p = xt::view(all, xt::all(), xt::range(1, s[1], 2));
                res = sim::run(c, [&]() { o = ret(p); });
            }
            else {
                auto p = xt::view(all, xt::all(), xt::all(), xt::range(1, s[2], 2));
                res = sim::run(c, [&]() { o = ret(p); });
            }
            if (res.ok() && std::memcmp(all.data(), cpy.data(), all.size() * sizeof(double))) {
                violate("wrong-value", what + ": changed its argument");
            }
        }
        else { // the other storage order, in and out
            constexpr size_t N = std::tuple_size<typename In::shape_type>::value;
            constexpr size_t M = std::tuple_size<typename Out::shape_type>::value;
            xt::xtensor<double, N, xt::layout_type::column_major> cin;
            xt::xtensor<double, M, xt::layout_type::column_major> cout;
            {
                sim::OnHeap h;
                cin = in;
                cout = dirty<Out>(oshape, r);
            }
            res = sim::run(c, [&]() { out(cin, cout); });
            sim::OnHeap h;
            want_shape(cout, oshape, what);
            o = cout;
        }
        if (!res.ok()) {
            violate("unexpected-exception", what + ": " + res.what);
        }
        want_shape(o, oshape, what);
        return o;
    }

    static I2 tt_conn()
    {
        return I2{{0, 1}};
    }
    static I2 tt_dofs()
    {
        return I2{{0, 1}, {2, 3}};
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        int64_t f = op.a.size() ? op.a[0] : 0;
        int64_t agree = op.a.size() > 1 ? op.a[1] : 0;
        const std::string& n = op.name;
        const Topo& T = (n[0] == 't' && n[1] == '_') ? tt : t;
        const GooseFEM::Vector& V = (n[0] == 't' && n[1] == '_') ? static_cast<const GooseFEM::Vector&>(vt)
                                    : part                         ? static_cast<const GooseFEM::Vector&>(vp)
                                                                   : vec;
        std::vector<size_t> sd{T.ndof}, sn{T.nnode, T.ndim}, se{T.nelem, T.nne, T.ndim};
        T1 dof = rnd1(T.ndof, r);
        T2 node = rnd2(T.nnode, T.ndim, r);
        T3 elem = rnd3(T.nelem, T.nne, T.ndim, r);
        if (agree) { // all representations of one field
            for (size_t m = 0; m < T.nnode; ++m) {
                for (size_t k = 0; k < T.ndim; ++k) {
                    node(m, k) = dof(T.d(m, k));
                }
            }
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t k = 0; k < T.ndim; ++k) {
                        elem(e, m, k) = node(T.c(e, m), k);
                    }
                }
            }
        }
        Ctl cw = c;
        cw.ww_ok = 1;
        sim::count(("op:" + n).c_str());
        if (n == "dup") {
            int which = part ? (int)(op.seed % 3) : 0;
            if (which == 0) {
                dup(vec, (int)(f & 3), c, [&]() { return GooseFEM::Vector(tt_conn(), tt_dofs()); });
            }
            else if (which == 1) {
                dup(vp, (int)(f & 3), c, [&]() {
                    I1 none = xt::arange<size_t>(1);
                    return GooseFEM::VectorPartitioned(tt_conn(), tt_dofs(), none);
                });
            }
            else {
                dup(vt, (int)(f & 3), c, [&]() {
                    Eigen::SparseMatrix<double> cu(1, 2), cp(1, 1), ci(1, 3);
                    cu.insert(0, 0) = 2.0;
                    ci.insert(0, 0) = 2.0;
                    return GooseFEM::VectorPartitionedTyings(tt_conn(), tt_dofs(), cu, cp, ci);
                });
            }
            return;
        }

        auto nodes_of = [&](Contrib& k, const T2& x) {
            for (size_t m = 0; m < T.nnode; ++m) {
                for (size_t j = 0; j < T.ndim; ++j) {
                    k.v[T.d(m, j)].push_back(x(m, j));
                }
            }
        };
        auto elems_of = [&](Contrib& k, const T3& x) {
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t j = 0; j < T.ndim; ++j) {
                        k.v[T.d(T.c(e, m), j)].push_back(x(e, m, j));
                    }
                }
            }
        };
        auto enodes_of = [&](Contrib& k, const T3& x) {
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t j = 0; j < T.ndim; ++j) {
                        k.v[T.c(e, m) * T.ndim + j].push_back(x(e, m, j));
                    }
                }
            }
        };

        if (n == "copy") {
            T2 d = dirty<T2>(sn, r);
            T2 o;
            Res res = sim::run(c, [&]() {
                if (f & 1) {
                    V.copy(node, d);
                    o = d;
                }
                else {
                    o = V.Copy(node, d);
                }
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            want_exact(o, flat(node), n);
        }
        else if (n == "asDofs_node") {
            T1 o = form<GooseFEM::Vector, T2, T1>(
                cw, f, V, node, sd, r, [&](const auto& x) { return V.AsDofs(x); },
                [&](const auto& x, auto& y) { V.asDofs(x, y); }, n
            );
            Contrib k(T.ndof);
            nodes_of(k, node);
            k.check_one_of(o, n);
        }
        else if (n == "asDofs_elem") {
            T1 o = form<GooseFEM::Vector, T3, T1>(
                cw, f, V, elem, sd, r, [&](const auto& x) { return V.AsDofs(x); },
                [&](const auto& x, auto& y) { V.asDofs(x, y); }, n
            );
            Contrib k(T.ndof);
            elems_of(k, elem);
            k.check_one_of(o, n);
        }
        else if (n == "asNode_dof") {
            T2 o = form<GooseFEM::Vector, T1, T2>(
                c, f, V, dof, sn, r, [&](const auto& x) { return V.AsNode(x); },
                [&](const auto& x, auto& y) { V.asNode(x, y); }, n
            );
            std::vector<double> ref;
            for (size_t m = 0; m < T.nnode; ++m) {
                for (size_t j = 0; j < T.ndim; ++j) {
                    ref.push_back(dof(T.d(m, j)));
                }
            }
            want_exact(o, ref, n);
        }
        else if (n == "asNode_elem") {
            T2 o = form<GooseFEM::Vector, T3, T2>(
                cw, f, V, elem, sn, r, [&](const auto& x) { return V.AsNode(x); },
                [&](const auto& x, auto& y) { V.asNode(x, y); }, n
            );
            Contrib k(T.nnode * T.ndim);
            enodes_of(k, elem);
            k.check_one_of(o, n);
        }
        else if (n == "asElement_dof") {
            T3 o = form<GooseFEM::Vector, T1, T3>(
                c, f, V, dof, se, r, [&](const auto& x) { return V.AsElement(x); },
                [&](const auto& x, auto& y) { V.asElement(x, y); }, n
            );
            std::vector<double> ref;
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t j = 0; j < T.ndim; ++j) {
                        ref.push_back(dof(T.d(T.c(e, m), j)));
                    }
                }
            }
            want_exact(o, ref, n);
        }
        else if (n == "asElement_node") {
            T3 o = form<GooseFEM::Vector, T2, T3>(
                c, f, V, node, se, r, [&](const auto& x) { return V.AsElement(x); },
                [&](const auto& x, auto& y) { V.asElement(x, y); }, n
            );
            std::vector<double> ref;
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t j = 0; j < T.ndim; ++j) {
                        ref.push_back(node(T.c(e, m), j));
                    }
                }
            }
            want_exact(o, ref, n);
        }
        else if (n == "assembleDofs_node") {
            T1 o = form<GooseFEM::Vector, T2, T1>(
                c, f, V, node, sd, r, [&](const auto& x) { return V.AssembleDofs(x); },
                [&](const auto& x, auto& y) { V.assembleDofs(x, y); }, n
            );
            Contrib k(T.ndof);
            nodes_of(k, node);
            want_exact(o, k.sums(), n);
        }
        else if (n == "assembleDofs_elem") {
            T1 o = form<GooseFEM::Vector, T3, T1>(
                c, f, V, elem, sd, r, [&](const auto& x) { return V.AssembleDofs(x); },
                [&](const auto& x, auto& y) { V.assembleDofs(x, y); }, n
            );
            Contrib k(T.ndof);
            elems_of(k, elem);
            want_exact(o, k.sums(), n);
        }
        else if (n == "assembleNode_elem") {
            T2 o = form<GooseFEM::Vector, T3, T2>(
                c, f, V, elem, sn, r, [&](const auto& x) { return V.AssembleNode(x); },
                [&](const auto& x, auto& y) { V.assembleNode(x, y); }, n
            );
            Contrib k(T.ndof);
            elems_of(k, elem);
            auto s = k.sums();
            std::vector<double> ref;
            for (auto d : T.dofs) {
                ref.push_back(s[d]);
            }
            want_exact(o, ref, n);
        }
        else if (n == "allocate") {
            double v = small_int(r);
            Res res = sim::run(c, [&]() {
                T1 a = V.allocate_dofval(v);
                T2 b = V.allocate_nodevec(v);
                T3 e = V.allocate_elemvec(v);
                T3 m = V.allocate_elemmat(v);
                T1 a0 = V.allocate_dofval();
                T2 b0 = V.allocate_nodevec();
                T3 e0 = V.allocate_elemvec();
                T3 m0 = V.allocate_elemmat();
                bool z = sim::armed_off();
                want_exact(a, std::vector<double>(T.ndof, v), n);
                want_exact(b, std::vector<double>(T.nnode * T.ndim, v), n);
                want_exact(e, std::vector<double>(T.nelem * T.nne * T.ndim, v), n);
                want_exact(m, std::vector<double>(T.nelem * T.nne * T.ndim * T.nne * T.ndim, v), n);
                want_shape(a0, sd, n);
                want_shape(b0, sn, n);
                want_shape(e0, se, n);
                want_shape(m0, {T.nelem, T.nne * T.ndim, T.nne * T.ndim}, n);
                sim::armed_on(z);
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            if (V.nelem() != T.nelem || V.nne() != T.nne || V.nnode() != T.nnode || V.ndim() != T.ndim || V.ndof() != T.ndof) {
                violate("wrong-value", "sizes of the vector definition");
            }
        }
        else if (n == "el_gather") {
            T3 o;
            Res res = sim::run(c, [&]() { o = GooseFEM::Element::asElementVector(T.xconn, node); });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            std::vector<double> ref;
            for (auto q : T.conn) {
                for (size_t j = 0; j < T.ndim; ++j) {
                    ref.push_back(node(q, j));
                }
            }
            want_shape(o, se, n);
            want_exact(o, ref, n);
        }
        else if (n == "el_assemble") {
            T2 o;
            Res res = sim::run(c, [&]() { o = GooseFEM::Element::assembleNodeVector(T.xconn, elem); });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            size_t nn = 1 + *std::max_element(T.conn.begin(), T.conn.end());
            std::vector<double> ref(nn * T.ndim, 0.0);
            for (size_t e = 0; e < T.nelem; ++e) {
                for (size_t m = 0; m < T.nne; ++m) {
                    for (size_t j = 0; j < T.ndim; ++j) {
                        ref[T.c(e, m) * T.ndim + j] += elem(e, m, j);
                    }
                }
            }
            want_shape(o, {nn, T.ndim}, n);
            want_exact(o, ref, n);
        }
        else if (n == "roundtrip") {
            // a field that is consistent survives every chain of conversions
            T2 nn;
            T1 d1;
            T3 e1;
            T2 n2;
            for (size_t m = 0; m < T.nnode; ++m) {
                for (size_t j = 0; j < T.ndim; ++j) {
                    node(m, j) = dof(T.d(m, j));
                }
            }
            Res res = sim::run(cw, [&]() {
                d1 = V.AsDofs(node);
                nn = V.AsNode(d1);
                e1 = V.AsElement(nn);
                n2 = V.AsNode(e1);
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            want_exact(nn, flat(node), n + " nodevec->dofval->nodevec");
            std::vector<char> used(T.nnode, 0);
            for (auto q : T.conn) {
                used[q] = 1;
            }
            std::vector<double> ref;
            for (size_t m = 0; m < T.nnode; ++m) {
                for (size_t j = 0; j < T.ndim; ++j) {
                    ref.push_back(used[m] ? node(m, j) : 0.0);
                }
            }
            want_exact(n2, ref, n + " nodevec->elemvec->nodevec");
        }
        else if (!part) {
            return;
        }
        else if (n == "sets") {
            want_exact(vp.iiu(), std::vector<double>(iiu.begin(), iiu.end()), "iiu");
            want_exact(vp.iip(), std::vector<double>(iip.begin(), iip.end()), "iip");
            if (vp.nnu() != iiu.size() || vp.nnp() != iip.size()) {
                violate("wrong-value", "nnu/nnp");
            }
        }
        else if (n == "is_u" || n == "is_p") {
            xt::xtensor<bool, 2> o;
            Res res = sim::run(c, [&]() { o = n == "is_u" ? vp.dofs_is_u() : vp.dofs_is_p(); });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            std::vector<double> ref;
            for (auto d : t.dofs) {
                bool p = std::find(iip.begin(), iip.end(), d) != iip.end();
                ref.push_back((n == "is_p") == p ? 1.0 : 0.0);
            }
            want_exact(o, ref, n);
        }
        else if (n == "copy_u" || n == "copy_p") {
            T2 dst = rnd2(t.nnode, t.ndim, r);
            T2 old = dst;
            T2 o;
            Res res = sim::run(c, [&]() {
                if (f & 1) {
                    if (n == "copy_u") {
                        vp.copy_u(node, dst);
                    }
                    else {
                        vp.copy_p(node, dst);
                    }
                    o = dst;
                }
                else {
                    o = n == "copy_u" ? vp.Copy_u(node, dst) : vp.Copy_p(node, dst);
                }
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            std::vector<double> ref;
            for (size_t m = 0; m < t.nnode; ++m) {
                for (size_t j = 0; j < t.ndim; ++j) {
                    bool p = std::find(iip.begin(), iip.end(), t.d(m, j)) != iip.end();
                    ref.push_back((n == "copy_p") == p ? node(m, j) : old(m, j));
                }
            }
            want_exact(o, ref, n);
        }
        else if (n.rfind("fromPart", 0) == 0) {
            T1 u = rnd1(iiu.size(), r), p = rnd1(iip.size(), r);
            std::vector<double> full(t.ndof, 0.0);
            for (size_t k = 0; k < iiu.size(); ++k) {
                full[iiu[k]] = u(k);
            }
            for (size_t k = 0; k < iip.size(); ++k) {
                full[iip[k]] = p(k);
            }
            T1 o1;
            T2 o2;
            T3 o3;
            if (f & 1) {
                o1 = dirty<T1>(sd, r);
                o2 = dirty<T2>(sn, r);
                o3 = dirty<T3>(se, r);
            }
            Res res = sim::run(c, [&]() {
                if (n == "fromPart_dofs") {
                    if (f & 1) {
                        vp.dofsFromParitioned(u, p, o1);
                    }
                    else {
                        o1 = vp.DofsFromParitioned(u, p);
                    }
                }
                else if (n == "fromPart_node") {
                    if (f & 1) {
                        vp.nodeFromPartitioned(u, p, o2);
                    }
                    else {
                        o2 = vp.NodeFromPartitioned(u, p);
                    }
                }
                else {
                    if (f & 1) {
                        vp.elementFromPartitioned(u, p, o3);
                    }
                    else {
                        o3 = vp.ElementFromPartitioned(u, p);
                    }
                }
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            std::vector<double> ref;
            if (n == "fromPart_dofs") {
                want_exact(o1, full, n);
            }
            else if (n == "fromPart_node") {
                for (auto d : t.dofs) {
                    ref.push_back(full[d]);
                }
                want_exact(o2, ref, n);
            }
            else {
                for (size_t e = 0; e < t.nelem; ++e) {
                    for (size_t m = 0; m < t.nne; ++m) {
                        for (size_t j = 0; j < t.ndim; ++j) {
                            ref.push_back(full[t.d(t.c(e, m), j)]);
                        }
                    }
                }
                want_exact(o3, ref, n);
            }
        }
        else if (n.rfind("asDofs_u", 0) == 0 || n.rfind("asDofs_p", 0) == 0) {
            bool isp = n[7] == 'p';
            const auto& set = isp ? iip : iiu;
            std::string from = n.substr(9);
            T1 o;
            if (f & 1) {
                o = dirty<T1>({set.size()}, r);
            }
            Res res = sim::run(from == "dof" ? c : cw, [&]() {
                auto go = [&](const auto& x) {
                    if (f & 1) {
                        if (isp) {
                            vp.asDofs_p(x, o);
                        }
                        else {
                            vp.asDofs_u(x, o);
                        }
                    }
                    else {
                        o = isp ? vp.AsDofs_p(x) : vp.AsDofs_u(x);
                    }
                };
                if (from == "dof") {
                    go(dof);
                }
                else if (from == "node") {
                    go(node);
                }
                else {
                    go(elem);
                }
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            Contrib k(t.ndof), s(set.size());
            if (from == "dof") {
                for (size_t q = 0; q < t.ndof; ++q) {
                    k.v[q].push_back(dof(q));
                }
            }
            else if (from == "node") {
                nodes_of(k, node);
            }
            else {
                elems_of(k, elem);
            }
            for (size_t q = 0; q < set.size(); ++q) {
                s.v[q] = k.v[set[q]];
            }
            s.check_one_of(o, n);
        }
        else if (n == "split_join") {
            // splitting a vector in its unknown and prescribed part and joining them gives it back
            T1 o;
            Res res = sim::run(c, [&]() { o = vp.DofsFromParitioned(vp.AsDofs_u(dof), vp.AsDofs_p(dof)); });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            want_exact(o, flat(dof), n);
        }
        else if (n == "t_base") {
            T2 o2;
            T1 o1;
            Res res = sim::run(c, [&]() {
                o2 = vt.AsNode(dof);
                o1 = vt.AssembleDofs(elem);
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            Contrib k(T.ndof);
            elems_of(k, elem);
            want_exact(o1, k.sums(), n);
            std::vector<double> ref;
            for (auto d : T.dofs) {
                ref.push_back(dof(d));
            }
            want_exact(o2, ref, n);
            if (vt.nnu() != nnu || vt.nnp() != nnp || vt.nnd() != nnd || vt.nni() != nnu + nnp) {
                violate("wrong-value", "sizes of the tied partition");
            }
            std::vector<double> a, b, ci, d;
            for (size_t q = 0; q < T.ndof; ++q) {
                (q < nnu ? a : q < nnu + nnp ? b : d).push_back((double)q);
                if (q < nnu + nnp) {
                    ci.push_back((double)q);
                }
            }
            want_exact(vt.iiu(), a, "iiu");
            want_exact(vt.iip(), b, "iip");
            want_exact(vt.iii(), ci, "iii");
            want_exact(vt.iid(), d, "iid");
        }
        else if (n == "t_copy_p") {
            size_t a = f & 1 ? tt.ndof : nnu + nnp;
            T1 src = rnd1(f & 2 ? tt.ndof : nnu + nnp, r), dst = rnd1(a, r);
            auto ref = flat(dst);
            for (size_t q = nnu; q < nnu + nnp; ++q) {
                ref[q] = src(q);
            }
            Res res = sim::run(c, [&]() { vt.copy_p(src, dst); });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            want_exact(dst, ref, n);
        }
        else if (n == "t_asDofs_i" || n == "t_asDofs_i_raw") {
            bool tie = n == "t_asDofs_i";
            T1 o;
            if (!tie || (f & 1)) {
                o = dirty<T1>({nnu + nnp}, r);
            }
            Res res = sim::run(cw, [&]() {
                if (!tie) {
                    vt.asDofs_i(node, o, false);
                }
                else if (f & 1) {
                    vt.asDofs_i(node, o);
                }
                else {
                    o = vt.AsDofs_i(node);
                }
            });
            if (!res.ok()) {
                violate("unexpected-exception", n + ": " + res.what);
            }
            std::vector<double> full(tt.ndof, 0.0), ref(nnu + nnp, 0.0);
            for (size_t m = 0; m < tt.nnode; ++m) {
                for (size_t j = 0; j < tt.ndim; ++j) {
                    full[tt.d(m, j)] = node(m, j);
                }
            }
            for (size_t q = 0; q < nnu + nnp; ++q) {
                ref[q] = full[q];
            }
            if (tie) {
                for (size_t d = 0; d < nnd; ++d) {
                    for (size_t q = 0; q < nnu; ++q) {
                        ref[q] += Cdu[d * nnu + q] * full[nnu + nnp + d];
                    }
                    for (size_t q = 0; q < nnp; ++q) {
                        ref[nnu + q] += Cdp[d * nnp + q] * full[nnu + nnp + d];
                    }
                }
            }
            want_exact(o, ref, n);
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    topo_generate(p, r, true);
    topo_enlarge(p, r, 0.03, 20, 400);
    p.cfg["renode"] = (int64_t)r.below(2);
    p.cfg["iip"] = (int64_t)r.below(5);
    p.cfg["pseed"] = (int64_t)(r.next() >> 20);
    size_t n = 2 + r.below(r.chance(0.03) && !p.get("big") ? 60 : 6);
    bool part = p.prop == "C02" || (p.prop != "C01" && r.chance(0.7));
    p.cfg["part"] = part;
    p.cfg["unit"] = random_unit(r);
    p.cfg["wide"] = r.chance(0.3);
    bool copies = p.prop == "C16";
    for (size_t i = 0; i < n; ++i) {
        Op op;
        if (part) {
            op.name = r.chance(0.15) ? ops1[r.below(sizeof(ops1) / sizeof(*ops1))] : ops2[r.below(sizeof(ops2) / sizeof(*ops2))];
        }
        else {
            op.name = ops1[r.below(sizeof(ops1) / sizeof(*ops1))];
        }
        if (copies && r.chance(0.5)) {
            op.name = "dup";
        }
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(6), (int64_t)r.below(2)};
        op.ctl = random_ctl(r, true, op.name == "dup");
        p.ops.push_back(op);
    }
}

void sim::world_execute(const Plan& p)
{
    unit = std::ldexp(1.0, (int)p.get("unit"));
    wide = p.get("wide") != 0;
    W w(p);
    for (size_t i = 0; i < p.ops.size(); ++i) {
        try {
            w.exec(i);
        }
        catch (int) {
            break;
        }
    }
}
