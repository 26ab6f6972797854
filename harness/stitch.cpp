// World "stitch": stitched and stacked meshes (C11, C12), failed additions (C13), copies (C16), dirty memory (C17).
#include "common.h"
#include <GooseFEM/Mesh.h>

const char* sim::world_name = "stitch";

namespace {

using GooseFEM::Mesh::ManualStitch;
using GooseFEM::Mesh::Stitch;
using GooseFEM::Mesh::Vstack;

struct Piece {
    size_t ndim = 2, nne = 4;
    std::vector<std::vector<double>> x; // per node
    std::vector<size_t> conn;
    std::vector<size_t> bot, top; // rows of nodes, corresponding order
    size_t nel() const { return conn.size() / nne; }
    T2 xcoor;
    I2 xconn;
    std::vector<size_t> order; // of `top`
    void seal()
    {
        sim::OnHeap h;
        xcoor = T2::from_shape({x.size(), ndim});
        for (size_t i = 0; i < x.size(); ++i) {
            for (size_t k = 0; k < ndim; ++k) {
                xcoor(i, k) = x[i][k];
            }
        }
        xconn = I2::from_shape({nel(), nne});
        std::copy(conn.begin(), conn.end(), xconn.begin());
    }
};

I1 list(const std::vector<size_t>& v)
{
    sim::OnHeap h;
    I1 o = I1::from_shape({v.size()});
    std::copy(v.begin(), v.end(), o.begin());
    return o;
}

// grid with its first corner at o, spacing h; nodes and elements in arbitrary order
Piece grid_piece(Rng& r, size_t ndim, const std::vector<size_t>& n, const std::vector<double>& o, const std::vector<double>& h, bool tri)
{
    Topo t;
    grid(t, n[0], n[1], ndim == 3 ? n[2] : 0);
    Piece p;
    p.ndim = ndim;
    p.nne = t.nne;
    bool shuffle = r.chance(0.6);
    auto q = permutation(t.nnode, r), e = permutation(t.nelem, r);
    if (!shuffle) {
        for (size_t i = 0; i < q.size(); ++i) {
            q[i] = i;
        }
        for (size_t i = 0; i < e.size(); ++i) {
            e[i] = i;
        }
    }
    p.x.resize(t.nnode);
    for (size_t i = 0; i < t.nnode; ++i) {
        for (size_t k = 0; k < ndim; ++k) {
            p.x[q[i]].push_back(o[k] + h[k] * t.coor[i * ndim + k]);
        }
    }
    for (size_t i = 0; i < t.nelem; ++i) {
        if (tri && ndim == 2) {
            // two triangles
            for (size_t m : {0, 1, 2, 0, 2, 3}) {
                p.conn.push_back(q[t.c(e[i], m)]);
            }
            continue;
        }
        for (size_t m = 0; m < t.nne; ++m) {
            p.conn.push_back(q[t.c(e[i], m)]);
        }
    }
    if (tri && ndim == 2) {
        p.nne = 3;
    }
    for (size_t i = 0; i < t.nnode; ++i) {
        if (t.coor[i * ndim + 1] == 0) {
            p.bot.push_back(q[i]);
        }
        if (t.coor[i * ndim + 1] == (double)n[1]) {
            p.top.push_back(q[i]);
        }
    }
    p.seal();
    return p;
}

struct Obj {
    bool stack = false;
    std::unique_ptr<Stitch> s;
    std::unique_ptr<Vstack> v;
    double rtol = 1e-5, atol = 1e-8;
    bool check = true;
    std::vector<size_t> width; // stacks: nodes along the interface
    // reference
    std::vector<Piece> pieces;
    std::vector<std::vector<size_t>> map;
    std::vector<std::vector<double>> x;
    std::vector<size_t> conn, offset;
    std::vector<size_t> top; // stacks
    std::vector<size_t> order; // of the nodes along the top (empty: as they come)
    size_t ndim() const { return pieces[0].ndim; }
    size_t nne() const { return pieces[0].nne; }
    const Stitch& get() const { return stack ? *v : *s; }
};

struct World {
    const Plan& plan;
    std::vector<Obj> objs;
    double U; // unit of length
    explicit World(const Plan& p) : plan(p), U(std::ldexp(1.0, (int)std::max<int64_t>(-40, std::min<int64_t>(40, p.get("su"))))) {}

    bool done(const Res& r, const std::string& n)
    {
        if (r.kind == Res::BAD_ALLOC && r.fault_fired) {
            return false;
        }
        if (!r.ok()) {
            violate("unexpected-exception", n + ": " + r.what);
        }
        return true;
    }
    static Ctl safe(const Ctl& c)
    {
        Ctl o = c;
        o.fail = -1;
        return o;
    }

    Obj new_obj(const Ctl& c, Rng& r, bool stack)
    {
        Obj o;
        o.stack = stack;
        int k = (int)r.below(3);
        o.check = r.chance(0.6);
        if (k == 0 && U < 1e-4) {
            k = 1; // smaller than the default tolerance
        }
        if (k == 1) {
            o.rtol = 0;
            o.atol = 1e-3 * U;
        }
        else if (k == 2) {
            o.rtol = 1e-4;
            o.atol = 1e-6 * U;
        }
        Res res = sim::run(safe(c), [&]() {
            if (stack) {
                if (k == 0 && o.check) {
                    o.v.reset(new Vstack());
                }
                else {
                    o.v.reset(new Vstack(o.check, o.rtol, o.atol));
                }
            }
            else if (k == 0) {
                o.s.reset(new Stitch());
            }
            else {
                o.s.reset(new Stitch(o.rtol, o.atol));
            }
        });
        done(res, "constructor");
        return o;
    }

    // the largest and smallest distance still called overlapping, over the coordinates in use
    void tol(const Obj& o, double& lo, double& hi)
    {
        lo = o.atol;
        hi = o.atol + o.rtol * 40 * U;
    }

    Piece next_stitch_piece(Obj& o, Rng& r)
    {
        size_t ndim = o.pieces.empty() ? (plan.get("ndim") == 3 ? 3 : 2) : o.ndim();
        std::vector<size_t> n;
        std::vector<double> x0, h;
        static const double hs[] = {1.0, 1.0, 0.5, 2.0};
        double hh = U * hs[r.below(4)];
        bool off = r.chance(0.15);
        double lo, hi;
        tol(o, lo, hi);
        for (size_t k = 0; k < ndim; ++k) {
            n.push_back(1 + r.below(ndim == 3 ? 2 : 3));
            x0.push_back(U * (double)r.range(-4, 6));
            h.push_back(hh);
            if (off) {
                x0.back() += (r.chance(0.5) ? 1 : -1) * 20 * hi; // close by, but not overlapping
            }
        }
        Piece p = grid_piece(r, ndim, n, x0, h, plan.get("tri") != 0);
        if (!off && r.chance(0.4)) {
            // not exactly at the same place, well within the tolerance
            for (auto& x : p.x) {
                for (auto& v : x) {
                    v += r.real(-0.05, 0.05) * lo;
                }
            }
            p.seal();
        }
        return p;
    }

    Piece next_layer(Obj& o, Rng& r)
    {
        size_t ndim = o.pieces.empty() ? (plan.get("ndim") == 3 ? 3 : 2) : o.ndim();
        if (o.pieces.empty()) {
            o.width = {1 + r.below(4), 1 + r.below(2)};
        }
        double bottom = U * (r.chance(0.6) ? 0.0 : (double)r.range(-3, 3));
        static const double hy[] = {1.0, 0.5, 2.0, 0.25};
        std::vector<size_t> n = {o.width[0], 1 + r.below(3)};
        std::vector<double> x0 = {U * (double)plan.get("x0"), bottom}, h = {U, U * hy[r.below(4)]};
        if (ndim == 3) {
            n.push_back(o.width[1]);
            x0.push_back(0.0);
            h.push_back(U);
        }
        Piece p = grid_piece(r, ndim, n, x0, h, plan.get("tri") != 0);
        // the interface is listed in any order: that of the bottom follows the top it comes on
        if (!o.order.empty()) {
            std::vector<size_t> b;
            for (size_t i : o.order) {
                b.push_back(p.bot[i]);
            }
            p.bot = b;
        }
        p.order = permutation(p.top.size(), r);
        if (plan.get("order")) {
            std::vector<size_t> t;
            for (size_t i : p.order) {
                t.push_back(p.top[i]);
            }
            p.top = t;
        }
        else {
            p.order.clear();
        }
        if (r.chance(0.4)) {
            // not exactly as wide, within the tolerance
            for (auto& v : p.x) {
                for (size_t k = 0; k < ndim; ++k) {
                    if (k != 1) {
                        v[k] += r.real(-0.4, 0.4) * std::max(o.atol, o.rtol * std::abs(v[k]));
                    }
                }
            }
            p.seal();
        }
        return p;
    }

    bool near(const Obj& o, const std::vector<double>& a, const std::vector<double>& b)
    {
        double lo, hi;
        tol(o, lo, hi);
        for (size_t k = 0; k < a.size(); ++k) {
            double d = std::abs(a[k] - b[k]);
            if (d > 0.5 * lo && d < 2 * hi) {
                throw std::runtime_error("harness: ambiguous overlap");
            }
            if (d > lo) {
                return false;
            }
        }
        return true;
    }

    // ---- reading the object and comparing with the reference
    void check(const Obj& o, const Ctl& c, const std::string& after)
    {
        const Stitch& s = o.get();
        size_t nm = 0;
        T2 x;
        I2 e;
        std::vector<I1> nd, el;
        Res res = sim::run(safe(c), [&]() {
            nm = s.nmesh();
            x = s.coor();
            e = s.conn();
            nd = s.nodemap();
            el = s.elemmap();
        });
        done(res, "queries");
        compare(o, nm, x, e, nd, el, after);
        if (s.nelem() != o.conn.size() / (o.pieces.empty() ? 1 : o.nne()) || s.nnode() != o.x.size()) {
            if (!o.pieces.empty()) {
                violate("wrong-value", "number of nodes or elements after " + after);
            }
        }
    }
    void compare(const Obj& o, size_t nm, const T2& x, const I2& e, const std::vector<I1>& nd, const std::vector<I1>& el, const std::string& after)
    {
        if (nm != o.pieces.size()) {
            violate("wrong-value", SAY("number of meshes is " << nm << ", expected " << o.pieces.size() << " after " << after));
        }
        if (nm == 0) {
            return;
        }
        std::vector<double> rx;
        for (auto& v : o.x) {
            rx.insert(rx.end(), v.begin(), v.end());
        }
        want_shape(x, {o.x.size(), o.ndim()}, "coordinates after " + after);
        want_exact(x, rx, "coordinates after " + after);
        want_shape(e, {o.conn.size() / o.nne(), o.nne()}, "connectivity after " + after);
        want_exact(e, std::vector<double>(o.conn.begin(), o.conn.end()), "connectivity after " + after);
        if (nd.size() != nm || el.size() != nm) {
            violate("wrong-shape", "maps after " + after);
        }
        for (size_t i = 0; i < nm; ++i) {
            want_exact(nd[i], std::vector<double>(o.map[i].begin(), o.map[i].end()), "node map after " + after);
            std::vector<double> q;
            for (size_t k = 0; k < o.pieces[i].nel(); ++k) {
                q.push_back((double)(o.offset[i] + k));
            }
            want_exact(el[i], q, "element map after " + after);
        }
    }

    // the addition went through: take over its numbering of the new nodes, after checking everything else about it
    // `twin`: for every node of the piece the existing node it coincides with, or -1
    void accept(Obj& o, const Piece& p, const std::vector<long>& twin, const std::string& n)
    {
        const Stitch& s = o.get();
        size_t k = o.pieces.size();
        if (s.nmesh() != k + 1) {
            violate("wrong-value", SAY("number of meshes is " << s.nmesh() << " after adding number " << k + 1));
        }
        size_t old = o.x.size(), fresh = 0;
        for (long t : twin) {
            fresh += t < 0;
        }
        I1 m;
        T2 x;
        Ctl c;
        Res res = sim::run(c, [&]() {
            m = s.nodemap(k);
            x = s.coor();
        });
        done(res, "nodemap");
        want_shape(x, {old + fresh, p.ndim}, "coordinates after " + n);
        want_shape(m, {p.x.size()}, "node map after " + n);
        std::vector<char> seen(old + fresh, 0);
        std::vector<size_t> map;
        o.x.resize(old + fresh);
        for (size_t j = 0; j < p.x.size(); ++j) {
            size_t to = m(j);
            if (twin[j] >= 0) {
                if (to != (size_t)twin[j]) {
                    violate("wrong-value", SAY(n << ": node " << j << " coincides with node " << twin[j] << " but is mapped to " << to));
                }
            }
            else {
                if (to < old || to >= old + fresh || seen[to]) {
                    violate("wrong-value", SAY(n << ": new node " << j << " is mapped to " << to << ", which is taken"));
                }
                seen[to] = 1;
                o.x[to] = p.x[j];
            }
            map.push_back(to);
        }
        o.offset.push_back(k ? o.offset[k - 1] + o.pieces[k - 1].nel() : 0);
        for (size_t q : p.conn) {
            o.conn.push_back(map[q]);
        }
        o.map.push_back(map);
        o.pieces.push_back(p);
        if (o.stack) {
            o.top.clear();
            for (size_t q : p.top) {
                o.top.push_back(map[q]);
            }
            o.order = p.order;
        }
    }

    // style 0: library arrays, 1: dynamic arrays
    Res add_run(Obj& o, const Piece& p, const Ctl& c, int style)
    {
        if (o.stack) {
            I1 b = list(p.bot), t = list(p.top);
            return sim::run(c, [&]() { o.v->push_back(p.xcoor, p.xconn, b, t); });
        }
        if (style) {
            auto x = to_dynamic(p.xcoor);
            auto e = to_dynamic(p.xconn);
            return sim::run(c, [&]() { o.s->push_back(x, e); });
        }
        return sim::run(c, [&]() { o.s->push_back(p.xcoor, p.xconn); });
    }

    void add(Obj& o, const Ctl& c, Rng& r)
    {
        if (o.pieces.size() > 11) {
            return;
        }
        Piece p = o.stack ? next_layer(o, r) : next_stitch_piece(o, r);
        int style = r.chance(0.2);
        Piece placed = p;
        std::vector<long> twin(p.x.size(), -1);
        if (o.stack) {
            if (!o.pieces.empty()) {
                double top = -1e300, bot = 1e300;
                for (auto& v : o.x) {
                    top = std::max(top, v[1]);
                }
                for (auto& v : p.x) {
                    bot = std::min(bot, v[1]);
                }
                for (auto& v : placed.x) {
                    v[1] += top - bot;
                }
                for (size_t i = 0; i < p.bot.size(); ++i) {
                    twin[p.bot[i]] = (long)o.top[i];
                }
            }
        }
        else {
            for (size_t j = 0; j < p.x.size(); ++j) {
                for (size_t i = 0; i < o.x.size(); ++i) {
                    if (near(o, o.x[i], p.x[j])) {
                        twin[j] = (long)i;
                    }
                }
            }
        }
        Res res = add_run(o, p, c, style);
        if (!done(res, "adding a mesh")) {
            sim::count("probe:addition-failed-part-way");
            check(o, c, "a failed addition");
            if (r.chance(0.5)) {
                return;
            }
            sim::count("probe:addition-retried");
            res = add_run(o, p, safe(c), style);
            done(res, "adding a mesh again");
        }
        accept(o, placed, twin, "adding a mesh");
        check(o, c, "adding a mesh");
        for (long t : twin) {
            if (t >= 0) {
                sim::count("probe:merged-nodes");
                break;
            }
        }
    }

    void reject(Obj& o, const Ctl& c, Rng& r, int64_t which)
    {
        if (o.pieces.empty()) {
            return;
        }
        Res res;
        Rng q(r.next());
        if (o.stack) {
            Piece p = next_layer(o, q);
            if (which % 2 == 0 && !(o.ndim() == 3 && p.bot.size() < 2)) {
                std::vector<size_t> b(p.bot.begin(), p.bot.end() - 1); // wrong number of interface nodes
                I1 xb = list(b), xt_ = list(p.top);
                res = sim::run(c, [&]() { o.v->push_back(p.xcoor, p.xconn, xb, xt_); });
            }
            else if (o.check) {
                double lo, hi, away = 0.5 * U;
                tol(o, lo, hi);
                if (q.chance(0.5)) {
                    away = 3 * hi; // just
                }
                for (auto& v : p.x) {
                    v[0] += away; // beside the stack
                }
                p.seal();
                res = add_run(o, p, c, 0);
            }
            else {
                return;
            }
        }
        else if (which % 2 == 0) {
            // other number of dimensions
            size_t nd = o.ndim() == 2 ? 3 : 2;
            T2 x = make<double, 2>({4, nd}, [&]() { return q.real(0, 1); });
            I2 e = I2::from_shape({1, o.nne()});
            e.fill(0);
            res = sim::run(c, [&]() { o.s->push_back(x, e); });
        }
        else {
            // other number of nodes per element
            T2 x = make<double, 2>({4, o.ndim()}, [&]() { return q.real(0, 1); });
            I2 e = I2::from_shape({1, o.nne() + 1});
            e.fill(0);
            res = sim::run(c, [&]() { o.s->push_back(x, e); });
        }
        if (res.ok()) {
            violate("wrong-value", "a mesh that does not fit was accepted");
        }
        sim::count("probe:addition-refused");
        check(o, c, "a refused addition");
    }

    std::vector<size_t> subset(size_t n, Rng& r)
    {
        auto p = permutation(n, r);
        p.resize(1 + r.below(n));
        return p;
    }

    void query(Obj& o, const Ctl& c, Rng& r, int64_t form)
    {
        if (o.pieces.empty()) {
            return;
        }
        const Stitch& s = o.get();
        size_t k = r.below(o.pieces.size());
        switch (form % 6) {
        case 0: {
            check(o, c, "history");
            I1 nd, el;
            I2 df;
            Res res = sim::run(c, [&]() {
                nd = s.nodemap(k);
                el = s.elemmap(k);
                df = s.dofs();
            });
            if (done(res, "maps")) {
                want_exact(nd, std::vector<double>(o.map[k].begin(), o.map[k].end()), "node map");
                std::vector<double> q, f;
                for (size_t i = 0; i < o.pieces[k].nel(); ++i) {
                    q.push_back((double)(o.offset[k] + i));
                }
                want_exact(el, q, "element map");
                for (size_t i = 0; i < o.x.size() * o.ndim(); ++i) {
                    f.push_back((double)i);
                }
                want_shape(df, {o.x.size(), o.ndim()}, "dofs");
                want_exact(df, f, "DOF numbers");
            }
            if (s.nne() != o.nne() || s.ndim() != o.ndim()) {
                violate("wrong-value", "nodes per element or dimensions");
            }
            break;
        }
        case 1:
        case 2: {
            bool node = form % 6 == 1;
            auto set = subset(node ? o.pieces[k].x.size() : o.pieces[k].nel(), r);
            I1 in = list(set), out;
            Res res;
            if (r.chance(0.3)) {
                auto dyn = to_dynamic(in);
                xt::xarray<size_t> dout;
                res = sim::run(c, [&]() {
                    dout = node ? s.nodeset(dyn, k) : s.elemset(dyn, k);
                    out = dout;
                });
            }
            else {
                res = sim::run(c, [&]() { out = node ? s.nodeset(in, k) : s.elemset(in, k); });
            }
            if (done(res, "set")) {
                std::vector<double> q;
                for (size_t i : set) {
                    q.push_back((double)(node ? o.map[k][i] : o.offset[k] + i));
                }
                want_exact(out, q, node ? "node set" : "element set");
            }
            break;
        }
        case 3:
        case 4: {
            bool node = form % 6 == 3;
            std::vector<I1> in;
            std::vector<size_t> q;
            for (size_t m = 0; m < o.pieces.size(); ++m) {
                auto set = subset(node ? o.pieces[m].x.size() : o.pieces[m].nel(), r);
                in.push_back(list(set));
                for (size_t i : set) {
                    q.push_back(node ? o.map[m][i] : o.offset[m] + i);
                }
            }
            if (node) {
                std::sort(q.begin(), q.end());
                q.erase(std::unique(q.begin(), q.end()), q.end());
            }
            I1 out;
            Res res = sim::run(c, [&]() {
                if (in.size() == 2) {
                    out = node ? s.nodeset({in[0], in[1]}) : s.elemset({in[0], in[1]});
                }
                else {
                    out = node ? s.nodeset(in) : s.elemset(in);
                }
            });
            if (done(res, "sets")) {
                want_exact(out, std::vector<double>(q.begin(), q.end()), node ? "node sets" : "element sets");
            }
            break;
        }
        default: {
            // numbers that do not exist
            bool node = r.chance(0.5);
            size_t n = node ? o.pieces[k].x.size() : o.pieces[k].nel();
            I1 in = list({0, n + r.below(3)}), out;
            Res res = sim::run(c, [&]() { out = node ? s.nodeset(in, k) : s.elemset(in, k); });
            if (res.ok()) {
                violate("wrong-value", "a set with numbers that do not exist was accepted");
            }
        }
        }
    }

    // two meshes, overlap given by the caller
    void manual(const Ctl& c, Rng& r)
    {
        Obj o; // only for its tolerance
        Obj empty;
        bool own_tol = U < 1e-4 || r.chance(0.4);
        if (own_tol) {
            empty.rtol = o.rtol = r.chance(0.5) ? 0 : 1e-6;
            empty.atol = o.atol = 1e-4 * U;
        }
        Piece a = next_stitch_piece(empty, r), b;
        o.pieces.push_back(a);
        b = next_stitch_piece(o, r);
        std::vector<size_t> na, nb;
        for (size_t i = 0; i < a.x.size(); ++i) {
            for (size_t j = 0; j < b.x.size(); ++j) {
                if (near(o, a.x[i], b.x[j])) {
                    na.push_back(i);
                    nb.push_back(j);
                }
            }
        }
        if (na.size() > 1 && r.chance(0.3)) { // the caller may list fewer, in any order
            auto p = permutation(na.size(), r);
            p.resize(1 + r.below(p.size()));
            std::vector<size_t> ca, cb;
            for (size_t i : p) {
                ca.push_back(na[i]);
                cb.push_back(nb[i]);
            }
            na = ca;
            nb = cb;
        }
        bool chk = r.chance(0.5), bad = false;
        if (own_tol && !na.empty() && r.chance(0.3)) {
            // just not overlapping
            double lo, hi;
            tol(o, lo, hi);
            for (auto& v : b.x) {
                v[0] += 4 * hi;
            }
            b.seal();
            bad = true;
        }
        if (na.empty()) {
            // tie nodes at different places
            na.push_back(r.below(a.x.size()));
            nb.push_back(r.below(b.x.size()));
            bad = true;
        }
        I1 xa = list(na), xb = list(nb);
        ManualStitch* p = nullptr;
        Res res = sim::run(c, [&]() {
            if (!own_tol) {
                p = chk ? new ManualStitch(a.xcoor, a.xconn, xa, b.xcoor, b.xconn, xb) : new ManualStitch(a.xcoor, a.xconn, xa, b.xcoor, b.xconn, xb, false);
                return;
            }
            p = new ManualStitch(a.xcoor, a.xconn, xa, b.xcoor, b.xconn, xb, chk, o.rtol, o.atol);
        });
        std::unique_ptr<ManualStitch> own(p);
        if (bad && chk) {
            if (res.ok()) {
                violate("wrong-value", "nodes at different places were accepted as overlapping");
            }
            return;
        }
        if (!done(res, "manual stitch")) {
            return;
        }
        // same reference as an addition
        const ManualStitch& s = *p;
        size_t fresh = b.x.size() - nb.size(), old = a.x.size();
        std::vector<long> twin(b.x.size(), -1);
        for (size_t i = 0; i < nb.size(); ++i) {
            twin[nb[i]] = (long)na[i];
        }
        T2 x;
        I2 e, df;
        std::vector<I1> nd, el;
        I1 n1;
        auto ns = subset(b.x.size(), r), es = subset(b.nel(), r), ns0 = subset(a.x.size(), r), es0 = subset(a.nel(), r);
        I1 xns = list(ns), xes = list(es), xns0 = list(ns0), xes0 = list(es0), on, oe, on0, oe0;
        Ctl c2;
        Res q = sim::run(c2, [&]() {
            x = s.coor();
            e = s.conn();
            df = s.dofs();
            nd = s.nodemap();
            el = s.elemmap();
            n1 = s.nodemap(1);
            on = s.nodeset(xns, 1);
            oe = s.elemset(xes, 1);
            on0 = s.nodeset(xns0, 0);
            oe0 = s.elemset(xes0, 0);
        });
        done(q, "queries");
        want_shape(x, {old + fresh, a.ndim}, "coordinates of a manual stitch");
        want_shape(e, {a.nel() + b.nel(), a.nne}, "connectivity of a manual stitch");
        want_shape(df, {old + fresh, a.ndim}, "DOFs of a manual stitch");
        if (s.nmesh() != 2 || nd.size() != 2 || el.size() != 2 || s.nelem() != e.shape(0) || s.nnode() != x.shape(0) || s.nne() != a.nne || s.ndim() != a.ndim) {
            violate("wrong-value", "sizes of a manual stitch");
        }
        want_shape(n1, {b.x.size()}, "node map of a manual stitch");
        std::vector<double> rx((old + fresh) * a.ndim), re, m0, m1, e0, e1;
        std::vector<char> seen(old + fresh, 0);
        for (size_t i = 0; i < old; ++i) {
            m0.push_back((double)i);
            for (size_t k = 0; k < a.ndim; ++k) {
                rx[i * a.ndim + k] = a.x[i][k];
            }
        }
        for (size_t j = 0; j < b.x.size(); ++j) {
            size_t to = n1(j);
            if (twin[j] >= 0 ? to != (size_t)twin[j] : (to < old || to >= old + fresh || seen[to])) {
                violate("wrong-value", SAY("manual stitch: node " << j << " is mapped to " << to));
            }
            m1.push_back((double)to);
            if (twin[j] < 0) {
                seen[to] = 1;
                for (size_t k = 0; k < a.ndim; ++k) {
                    rx[to * a.ndim + k] = b.x[j][k];
                }
            }
        }
        for (size_t i : a.conn) {
            re.push_back((double)i);
        }
        for (size_t i : b.conn) {
            re.push_back((double)n1(i));
        }
        for (size_t i = 0; i < a.nel(); ++i) {
            e0.push_back((double)i);
        }
        for (size_t i = 0; i < b.nel(); ++i) {
            e1.push_back((double)(a.nel() + i));
        }
        want_exact(x, rx, "coordinates of a manual stitch");
        want_exact(e, re, "connectivity of a manual stitch");
        want_exact(nd[0], m0, "node map 0 of a manual stitch");
        want_exact(nd[1], m1, "node map 1 of a manual stitch");
        want_exact(el[0], e0, "element map 0 of a manual stitch");
        want_exact(el[1], e1, "element map 1 of a manual stitch");
        std::vector<double> w;
        for (size_t i : ns) {
            w.push_back(m1[i]);
        }
        want_exact(on, w, "node set of a manual stitch");
        w.clear();
        for (size_t i : es) {
            w.push_back(e1[i]);
        }
        want_exact(oe, w, "element set of a manual stitch");
        want_exact(on0, std::vector<double>(ns0.begin(), ns0.end()), "node set 0 of a manual stitch");
        want_exact(oe0, std::vector<double>(es0.begin(), es0.end()), "element set 0 of a manual stitch");
        for (size_t i = 0; i < df.size(); ++i) {
            if (df.data()[i] != i) {
                violate("wrong-value", "DOFs of a manual stitch");
            }
        }
    }

    Obj twin_of(const Obj& o)
    {
        Obj t;
        t.stack = o.stack;
        t.rtol = o.rtol;
        t.atol = o.atol;
        t.check = o.check;
        t.width = o.width;
        t.pieces = o.pieces;
        t.map = o.map;
        t.x = o.x;
        t.conn = o.conn;
        t.offset = o.offset;
        t.top = o.top;
        t.order = o.order;
        return t;
    }

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        Rng r(op.seed);
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        const std::string& n = op.name;
        sim::count(("op:" + n).c_str());
        if (n == "manual") {
            manual(c, r);
            return;
        }
        if (n == "new" || objs.empty()) {
            bool stack = plan.prop == "C12" ? true : plan.prop == "C11" ? false : arg(0) % 2;
            Obj o = new_obj(c, r, stack);
            if (objs.size() < 3) {
                objs.push_back(std::move(o));
            }
            else {
                objs[(size_t)arg(1) % objs.size()] = std::move(o);
            }
            return;
        }
        size_t k = (size_t)arg(2) % objs.size();
        Obj& o = objs[k];
        if (n == "add") {
            add(o, c, r);
        }
        else if (n == "reject") {
            reject(o, c, r, arg(0));
        }
        else if (n == "query") {
            query(o, c, r, arg(0));
        }
        else if (n == "copy" || n == "move") {
            Obj t = twin_of(o);
            bool mv = n == "move";
            Res res = sim::run(mv ? safe(c) : c, [&]() {
                if (o.stack) {
                    t.v.reset(mv ? new Vstack(std::move(*o.v)) : new Vstack(*o.v));
                }
                else {
                    t.s.reset(mv ? new Stitch(std::move(*o.s)) : new Stitch(*o.s));
                }
            });
            if (done(res, n)) {
                if (mv) {
                    objs[k] = std::move(t);
                }
                else if (objs.size() < 3) {
                    objs.push_back(std::move(t));
                }
                else {
                    objs[(k + 1) % objs.size()] = std::move(t);
                }
            }
        }
        else if (n == "assign" || n == "move_assign") {
            size_t j = (size_t)arg(1) % objs.size();
            if (j == k || objs[j].stack != o.stack) {
                return;
            }
            bool mv = n == "move_assign";
            Obj t = twin_of(o);
            t.v = std::move(objs[j].v);
            t.s = std::move(objs[j].s);
            Res res = sim::run(mv ? safe(c) : c, [&]() {
                if (o.stack) {
                    if (mv) {
                        *t.v = std::move(*o.v);
                    }
                    else {
                        *t.v = *o.v;
                    }
                }
                else if (mv) {
                    *t.s = std::move(*o.s);
                }
                else {
                    *t.s = *o.s;
                }
            });
            if (done(res, n)) {
                objs[j] = std::move(t);
                if (mv) {
                    objs.erase(objs.begin() + (long)k);
                }
            }
            else {
                objs.erase(objs.begin() + (long)j); // basic guarantee only
            }
        }
        else if (n == "drop") {
            if (objs.size() > 1) {
                Res res = sim::run(c, [&]() {
                    o.s.reset();
                    o.v.reset();
                });
                done(res, n);
                objs.erase(objs.begin() + (long)k);
            }
        }
        if (c.fail >= 0) {
            for (auto& q : objs) {
                check(q, c, "an operation that may have failed");
            }
        }
    }

    void all()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
            exec(i);
        }
        sim::current_op = (int)plan.ops.size();
        Rng r(plan.seed + 3);
        Ctl c;
        for (auto& o : objs) {
            check(o, c, "the history");
            for (int64_t f = 0; f < 5; ++f) {
                query(o, c, r, f);
            }
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    p.cfg["ndim"] = r.chance(0.3) ? 3 : 2;
    p.cfg["x0"] = r.below(3);
    static const int64_t us[] = {-30, -10, 10, 20};
    p.cfg["su"] = r.chance(0.6) ? 0 : us[r.below(4)];
    p.cfg["tri"] = (int64_t)r.chance(0.2);
    p.cfg["order"] = (int64_t)r.chance(0.4);
    bool faults = p.prop == "C13" || p.prop == "C16";
    auto add = [&](const std::string& name, bool fault) {
        Op op;
        op.name = name;
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(12), (int64_t)r.below(8), (int64_t)r.below(8)};
        op.ctl = random_ctl(r, false, fault);
        p.ops.push_back(op);
    };
    struct Wt {
        const char* n;
        double w;
    };
    std::vector<Wt> w;
    if (p.prop == "C11") {
        w = {{"add", 6}, {"query", 6}, {"manual", 2}, {"reject", 0.4}, {"copy", 0.3}};
    }
    else if (p.prop == "C12") {
        w = {{"add", 6}, {"query", 6}, {"reject", 0.6}, {"copy", 0.3}};
    }
    else if (p.prop == "C13") {
        w = {{"add", 8}, {"reject", 2}, {"query", 2}, {"copy", 0.3}};
    }
    else if (p.prop == "C17") {
        w = {{"add", 4}, {"query", 6}, {"manual", 2}};
    }
    else {
        w = {{"add", 5}, {"copy", 3}, {"assign", 3}, {"move", 1}, {"move_assign", 1}, {"drop", 1}, {"new", 1}, {"query", 2}, {"reject", 0.5}};
    }
    double tot = 0;
    for (auto& x : w) {
        tot += x.w;
    }
    add("new", false);
    if (p.prop == "C16") {
        add("new", false);
    }
    add("add", faults);
    size_t n = 3 + r.below(r.chance(0.05) ? 30 : 9);
    for (size_t i = 0; i < n; ++i) {
        double u = r.unit() * tot;
        size_t k = 0;
        while (k + 1 < w.size() && u >= w[k].w) {
            u -= w[k].w;
            ++k;
        }
        add(w[k].n, faults);
    }
}

void sim::world_execute(const Plan& p) { World(p).all(); }
