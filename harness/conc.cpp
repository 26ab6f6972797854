// World "conc": several caller threads on shared objects, read-only, and on objects of their own (C15).
#include "common.h"
#include <GooseFEM/Iterate.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>

const char* sim::world_name = "conc";

namespace {

namespace GM = GooseFEM::Mesh;
namespace GE = GooseFEM::Element;
using GooseFEM::Matrix;
using GooseFEM::MatrixDiagonal;
using GooseFEM::MatrixDiagonalPartitioned;
using GooseFEM::MatrixPartitioned;
using GooseFEM::MatrixPartitionedTyings;
using GooseFEM::Vector;
using GooseFEM::VectorPartitioned;
using GooseFEM::VectorPartitionedTyings;

// what one call returned, flattened; recorded outside the simulation
struct Out {
    std::vector<double> v;
    template <class F>
    void quiet(F&& f)
    {
        bool z = sim::armed_off();
        f();
        sim::armed_on(z);
    }
    template <class A>
    void array(const A& a)
    {
        quiet([&]() {
            v.push_back((double)a.dimension());
            for (size_t i = 0; i < a.dimension(); ++i) {
                v.push_back((double)a.shape(i));
            }
            for (auto x : a) {
                v.push_back((double)x);
            }
        });
    }
    void num(double x)
    {
        quiet([&]() { v.push_back(x); });
    }
    template <class T>
    void lists(const std::vector<std::vector<T>>& a)
    {
        quiet([&]() {
            v.push_back((double)a.size());
            for (auto& r : a) {
                v.push_back((double)r.size());
                for (auto x : r) {
                    v.push_back((double)x);
                }
            }
        });
    }
    void sparse(const Eigen::SparseMatrix<double>& m)
    {
        quiet([&]() {
            v.push_back((double)m.rows());
            v.push_back((double)m.cols());
            for (int k = 0; k < m.outerSize(); ++k) {
                for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) {
                    v.push_back((double)it.row());
                    v.push_back((double)it.col());
                    v.push_back(it.value());
                }
            }
        });
    }
};

struct Shared {
    Topo t;
    size_t nnp = 0;
    I1 iip;
    GM::Quad4::Regular q4;
    GM::Quad4::FineLayer fine;
    GM::Hex8::Regular hex{1, 1, 1};
    GM::Hex8::FineLayer hexfine{3, 3, 3};
    GM::Tri3::Regular tri{1, 1};
    GM::Quad4::Map::RefineRegular refine;
    GM::Quad4::Map::FineLayer2Regular f2r;
    GM::Stitch stitch;
    GM::Renumber renum;
    GM::Reorder reorder;
    GooseFEM::Iterate::StopList stop;
    Vector vec;
    VectorPartitioned vp;
    VectorPartitionedTyings vt;
    Matrix K;
    MatrixPartitioned Kp;
    MatrixPartitionedTyings Kt;
    MatrixDiagonal Md;
    MatrixDiagonalPartitioned Mp;
    GooseFEM::Tyings::Periodic tie;
    GooseFEM::Tyings::Control control;
    GE::Quad4::Quadrature quad;
    GE::Hex8::Quadrature hquad;
    GE::Quad4::QuadraturePlanar planar;
    GE::Quad4::QuadratureAxisymmetric axi;
    T3 qx, hx;
    size_t ndof_t = 0;
    I2 conn_t, dofs_t; // of the periodic cell
    T3 small;
};

double num(Rng& r) { return (double)r.range(-9, 9); }

std::shared_ptr<Shared> make_shared_objects(const Plan& p)
{
    auto s = std::make_shared<Shared>();
    s->t = topo_make(p);
    const Topo& t = s->t;
    Rng r((uint64_t)p.get("tseed") + 5);
    size_t np = r.below(t.ndof + 1);
    auto q = permutation(t.ndof, r);
    q.resize(np);
    std::sort(q.begin(), q.end());
    size_t nx = 1 + r.below(3), ny = 1 + r.below(3);
    auto elemmat = [&](size_t nelem, size_t n) {
        T3 m = make<double, 3>({nelem, n, n}, [&]() { return 0.0; });
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j <= i; ++j) {
                    m(e, i, j) = m(e, j, i) = (i == j ? 40.0 : 0.0) + num(r);
                }
            }
        }
        return m;
    };
    T3 ke = elemmat(t.nelem, t.nne * t.ndim);
    T3 me = make<double, 3>({t.nelem, t.nne * t.ndim, t.nne * t.ndim}, [&]() { return 0.0; });
    for (size_t e = 0; e < t.nelem; ++e) {
        for (size_t i = 0; i < t.nne * t.ndim; ++i) {
            me(e, i, i) = 1.0 + (double)r.below(9);
        }
    }
    std::vector<double> res;
    for (int i = 0; i < 6; ++i) {
        res.push_back(r.real(0, 1));
    }
    {
        sim::OnHeap h;
        s->iip = I1::from_shape({np});
        std::copy(q.begin(), q.end(), s->iip.begin());
    }
    Ctl c;
    c.seed = (uint64_t)p.get("tseed");
    Res rs = sim::run(c, [&]() {
        s->q4 = GM::Quad4::Regular(nx, ny, 0.5);
        s->fine = GM::Quad4::FineLayer(3 * nx, 5 + 2 * ny);
        s->hex = GM::Hex8::Regular(nx, ny, 1);
        s->hexfine = GM::Hex8::FineLayer(3, 3, 3);
        s->tri = GM::Tri3::Regular(nx, ny);
        s->refine = GM::Quad4::Map::RefineRegular(s->q4, 2, 1 + ny % 2);
        s->f2r = GM::Quad4::Map::FineLayer2Regular(s->fine);
        T2 x = s->q4.coor();
        s->stitch.push_back(x, s->q4.conn());
        xt::view(x, xt::all(), 0) += 0.5 * (double)nx;
        s->stitch.push_back(x, s->q4.conn());
        s->renum = GM::Renumber(t.xdofs);
        s->reorder = GM::Reorder({s->iip, I1(xt::setdiff1d(xt::arange<size_t>(t.ndof), s->iip))});
        s->stop = GooseFEM::Iterate::StopList(5);
        for (double v : res) {
            s->stop.roll_insert(v);
        }
        s->vec = Vector(t.xconn, t.xdofs);
        s->vp = VectorPartitioned(t.xconn, t.xdofs, s->iip);
        s->K = Matrix(t.xconn, t.xdofs);
        s->K.assemble(ke);
        s->Kp = MatrixPartitioned(t.xconn, t.xdofs, s->iip);
        s->Kp.assemble(ke);
        s->Md = MatrixDiagonal(t.xconn, t.xdofs);
        s->Md.assemble(me);
        s->Mp = MatrixDiagonalPartitioned(t.xconn, t.xdofs, s->iip);
        s->Mp.assemble(me);
        s->control = GooseFEM::Tyings::Control(s->q4.coor(), s->q4.dofs());
        I1 iip = xt::flatten(s->control.controlDofs());
        s->tie = GooseFEM::Tyings::Periodic(
            s->control.coor(), s->control.dofs(), s->control.controlDofs(), s->q4.nodesPeriodic(), iip);
        s->conn_t = s->q4.conn();
        s->dofs_t = s->tie.dofs();
        s->ndof_t = s->tie.nni() + s->tie.nnd();
        s->vt = VectorPartitionedTyings(s->conn_t, s->dofs_t, s->tie.Cdu(), s->tie.Cdp(), s->tie.Cdi());
        s->Kt = MatrixPartitionedTyings(s->conn_t, s->dofs_t, s->tie.Cdu(), s->tie.Cdp());
        Vector v4(s->q4.conn(), s->q4.dofs());
        s->qx = v4.AsElement(s->q4.coor());
        s->quad = GE::Quad4::Quadrature(s->qx);
        s->planar = GE::Quad4::QuadraturePlanar(s->qx, 2.0);
        T3 shifted = s->qx + 1.0;
        s->axi = GE::Quad4::QuadratureAxisymmetric(shifted);
        Vector v8(s->hex.conn(), s->hex.dofs());
        s->hx = v8.AsElement(s->hex.coor());
        s->hquad = GE::Hex8::Quadrature(s->hx);
    });
    if (!rs.ok()) {
        violate("unexpected-exception", "building the shared objects: " + rs.what);
    }
    T3 kt = elemmat(s->conn_t.shape(0), 8);
    rs = sim::run(c, [&]() { s->Kt.assemble(kt); });
    if (!rs.ok()) {
        violate("unexpected-exception", "building the shared objects: " + rs.what);
    }
    return s;
}

using Call = std::function<void(const Shared&, Out&)>;

template <size_t N>
std::shared_ptr<xt::xtensor<double, N>> input(Rng& r, const std::array<size_t, N>& s)
{
    auto p = std::make_shared<xt::xtensor<double, N>>(make<double, N>(s, [&]() { return num(r); }));
    return p;
}

// overlap: 0 no two iterations store to one entry; 1 they do when DOFs are shared; 2 always
struct Made {
    Call f;
    int overlap = 0;
    const char* what = "";
};

Made make_call(const Shared& s, Rng& r)
{
    const Topo& t = s.t;
    Made m;
    auto set = [&](const char* w, int o, Call f) {
        m.what = w;
        m.overlap = o;
        m.f = std::move(f);
    };
    auto dof = [&]() { return input<1>(r, {t.ndof}); };
    auto node = [&]() { return input<2>(r, {t.nnode, t.ndim}); };
    auto elem = [&]() { return input<3>(r, {t.nelem, t.nne, t.ndim}); };
    int k = (int)r.below(66);
    switch (k) {
    case 0: {
        auto x = dof();
        set("AsNode(dofval)", 0, [x](const Shared& s, Out& o) { o.array(s.vec.AsNode(*x)); });
        break;
    }
    case 1: {
        auto x = dof();
        set("AsElement(dofval)", 0, [x](const Shared& s, Out& o) { o.array(s.vec.AsElement(*x)); });
        break;
    }
    case 2: {
        auto x = node();
        set("AsElement(nodevec)", 0, [x](const Shared& s, Out& o) { o.array(s.vp.AsElement(*x)); });
        break;
    }
    case 3: {
        auto x = node();
        set("AssembleDofs(nodevec)", 0, [x](const Shared& s, Out& o) { o.array(s.vec.AssembleDofs(*x)); });
        break;
    }
    case 4: {
        auto x = elem();
        set("AssembleDofs(elemvec)", 0, [x](const Shared& s, Out& o) { o.array(s.vp.AssembleDofs(*x)); });
        break;
    }
    case 5: {
        auto x = elem();
        set("AssembleNode(elemvec)", 0, [x](const Shared& s, Out& o) { o.array(s.vec.AssembleNode(*x)); });
        break;
    }
    case 6: {
        auto d = dof();
        std::shared_ptr<T2> x = node();
        for (size_t n = 0; n < t.nnode; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                (*x)(n, i) = (*d)(t.d(n, i));
            }
        }
        set("AsDofs(nodevec)", 1, [x](const Shared& s, Out& o) {
            o.array(s.vec.AsDofs(*x));
            o.array(s.vp.AsDofs_u(*x));
            o.array(s.vp.AsDofs_p(*x));
        });
        break;
    }
    case 7: {
        auto d = dof();
        std::shared_ptr<T3> x = elem();
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t a = 0; a < t.nne; ++a) {
                for (size_t i = 0; i < t.ndim; ++i) {
                    (*x)(e, a, i) = (*d)(t.d(t.c(e, a), i));
                }
            }
        }
        set("AsDofs(elemvec), AsNode(elemvec)", 2, [x](const Shared& s, Out& o) {
            o.array(s.vec.AsDofs(*x));
            o.array(s.vec.AsNode(*x));
            o.array(s.vp.AsDofs_u(*x));
        });
        break;
    }
    case 8: {
        auto x = dof();
        auto y = node();
        set("partitions", 0, [x, y](const Shared& s, Out& o) {
            auto u = s.vp.AsDofs_u(*x);
            auto p = s.vp.AsDofs_p(*x);
            o.array(u);
            o.array(s.vp.DofsFromParitioned(u, p));
            o.array(s.vp.dofs_is_u());
            o.array(s.vp.iiu());
        });
        break;
    }
    case 9: {
        auto x = node(), y = node();
        set("Copy", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.vec.Copy(*x, *y));
            o.array(s.vec.allocate_elemmat(1.0));
            o.num((double)s.vec.ndof());
        });
        break;
    }
    case 10: {
        auto x = node(), y = node();
        set("Copy_u, Copy_p", 1, [x, y](const Shared& s, Out& o) {
            o.array(s.vp.Copy_u(*x, *y));
            o.array(s.vp.Copy_p(*x, *y));
        });
        break;
    }
    case 11: {
        auto x = input<2>(r, {(size_t)s.dofs_t.shape(0), 2});
        set("AsDofs_i", 0, [x](const Shared& s, Out& o) { o.array(s.vt.AsDofs_i(*x)); });
        break;
    }
    case 12: {
        auto x = dof();
        set("Matrix::Dot(dofval)", 0, [x](const Shared& s, Out& o) { o.array(s.K.Dot(*x)); });
        break;
    }
    case 13: {
        auto d = dof();
        auto x = node();
        for (size_t n = 0; n < t.nnode; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                (*x)(n, i) = (*d)(t.d(n, i));
            }
        }
        set("Dot(nodevec)", 1, [x](const Shared& s, Out& o) {
            o.array(s.K.Dot(*x));
            o.array(s.Kp.Dot(*x));
            o.array(s.Md.Dot(*x));
            o.array(s.Mp.Dot(*x));
        });
        break;
    }
    case 14:
        set("Todense", 0, [](const Shared& s, Out& o) {
            o.array(s.K.Todense());
            o.array(s.Kp.Todense());
        });
        break;
    case 15: {
        auto x = dof(), b = dof();
        set("partitioned Dot, Reaction", 0, [x, b](const Shared& s, Out& o) {
            o.array(s.Kp.Dot(*x));
            o.array(s.Kp.Reaction(*x, *b));
        });
        break;
    }
    case 16: {
        auto xu = input<1>(r, {t.ndof - s.iip.size()}), xp = input<1>(r, {s.iip.size()});
        set("Reaction_p", 0, [xu, xp](const Shared& s, Out& o) {
            o.array(s.Kp.Reaction_p(*xu, *xp));
            o.array(s.Mp.Reaction_p(*xu, *xp));
            o.array(s.Mp.Dot_u(*xu, *xp));
        });
        break;
    }
    case 17: {
        auto x = dof(), b = dof();
        set("diagonal Dot, Reaction, data", 0, [x, b](const Shared& s, Out& o) {
            o.array(s.Md.Dot(*x));
            o.array(s.Md.data());
            o.array(s.Mp.Dot(*x));
            o.array(s.Mp.Reaction(*x, *b));
            o.array(s.Mp.data());
        });
        break;
    }
    case 18:
        set("tied matrix blocks", 0, [](const Shared& s, Out& o) {
            o.sparse(s.Kt.data_uu());
            o.sparse(s.Kt.data_ud());
            o.array(s.Kt.iid());
            o.sparse(s.K.data());
            o.sparse(s.Kp.data_pu());
        });
        break;
    case 19: {
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        set("GradN, SymGradN, InterpQuad", 0, [x](const Shared& s, Out& o) {
            o.array(s.quad.GradN_vector(*x));
            o.array(s.quad.GradN_vector_T(*x));
            o.array(s.quad.SymGradN_vector(*x));
            o.array(s.quad.InterpQuad_vector(*x));
        });
        break;
    }
    case 20: {
        auto x = input<4>(r, {s.qx.shape(0), 4, 2, 2});
        set("Int_gradN_dot_tensor2_dV", 0, [x](const Shared& s, Out& o) {
            o.array(s.quad.Int_gradN_dot_tensor2_dV(*x));
            o.array(s.quad.dV());
        });
        break;
    }
    case 21: {
        auto x = input<6>(r, {s.qx.shape(0), 4, 2, 2, 2, 2});
        set("Int_gradN_dot_tensor4_dot_gradNT_dV", 0, [x](const Shared& s, Out& o) { o.array(s.quad.Int_gradN_dot_tensor4_dot_gradNT_dV(*x)); });
        break;
    }
    case 22: {
        auto x = input<2>(r, {s.qx.shape(0), 4});
        auto y = input<3>(r, {s.qx.shape(0), 4, 2});
        set("Int_N", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.quad.Int_N_scalar_NT_dV(*x));
            o.array(s.quad.Int_N_vector_dV(*y));
            o.array(s.planar.Int_N_scalar_NT_dV(*x));
        });
        break;
    }
    case 23: {
        auto x = input<3>(r, {s.hx.shape(0), 8, 3});
        set("Hex8 SymGradN", 0, [x](const Shared& s, Out& o) { o.array(s.hquad.SymGradN_vector(*x)); });
        break;
    }
    case 24: {
        auto x = input<4>(r, {s.hx.shape(0), 8, 3, 3});
        set("Hex8 Int_gradN_dot_tensor2_dV", 0, [x](const Shared& s, Out& o) { o.array(s.hquad.Int_gradN_dot_tensor2_dV(*x)); });
        break;
    }
    case 25: {
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        auto y = input<4>(r, {s.qx.shape(0), 4, 3, 3});
        set("planar", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.planar.SymGradN_vector(*x));
            o.array(s.planar.Int_gradN_dot_tensor2_dV(*y));
        });
        break;
    }
    case 26: {
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        auto y = input<4>(r, {s.qx.shape(0), 4, 3, 3});
        set("axisymmetric", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.axi.SymGradN_vector(*x));
            o.array(s.axi.Int_gradN_dot_tensor2_dV(*y));
        });
        break;
    }
    case 27: {
        auto x = input<2>(r, {s.qx.shape(0), 4});
        set("AsTensor, allocate", 0, [x](const Shared& s, Out& o) {
            o.array(s.quad.AsTensor<2>(*x));
            o.array(s.quad.allocate_qtensor<2>(3.0));
            o.num((double)s.quad.nip());
        });
        break;
    }
    case 28:
        set("Quad4::Regular", 0, [](const Shared& s, Out& o) {
            o.array(s.q4.coor());
            o.array(s.q4.conn());
            o.array(s.q4.dofsPeriodic());
        });
        break;
    case 29:
        set("Quad4::Regular sets", 0, [](const Shared& s, Out& o) {
            o.array(s.q4.nodesPeriodic());
            o.array(s.q4.nodesBottomEdge());
            o.array(s.q4.nodesRightOpenEdge());
            o.array(s.q4.elementgrid());
            o.num((double)s.q4.nodesTopLeftCorner());
        });
        break;
    case 30:
        set("Quad4::FineLayer", 0, [](const Shared& s, Out& o) {
            o.array(s.fine.coor());
            o.array(s.fine.elementsMiddleLayer());
        });
        break;
    case 31:
        set("Quad4::FineLayer conn", 0, [](const Shared& s, Out& o) {
            o.array(s.fine.conn());
            o.array(s.fine.nodesLeftEdge());
        });
        break;
    case 32:
        set("Quad4::FineLayer groups", 0, [](const Shared& s, Out& o) {
            o.array(s.fine.elemrow_nhx());
            o.array(s.fine.elementgrid_ravel({0, 1}, {0, 1}));
        });
        break;
    case 33:
        set("Hex8::Regular", 0, [](const Shared& s, Out& o) {
            o.array(s.hex.coor());
            o.array(s.hex.conn());
            o.array(s.hex.nodesPeriodic());
        });
        break;
    case 34:
        set("Tri3::Regular", 0, [](const Shared& s, Out& o) {
            o.array(s.tri.coor());
            o.array(s.tri.conn());
        });
        break;
    case 35: {
        auto x = input<1>(r, {s.refine.fineMesh().nelem()});
        auto y = input<1>(r, {s.refine.coarseMesh().nelem()});
        set("RefineRegular", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.refine.map());
            o.array(s.refine.meanToCoarse(*x));
            o.array(s.refine.mapToFine(*y));
        });
        break;
    }
    case 36: {
        auto x = input<1>(r, {s.fine.nelem()});
        set("FineLayer2Regular", 0, [x](const Shared& s, Out& o) {
            o.array(s.f2r.mapToRegular(*x));
            o.lists(s.f2r.map());
        });
        break;
    }
    case 37:
        set("Stitch", 0, [](const Shared& s, Out& o) {
            o.array(s.stitch.coor());
            o.array(s.stitch.nodemap(1));
            o.array(s.stitch.elemmap(1));
            o.array(s.stitch.dofs());
            I1 n = I1::from_shape({2});
            n(0) = 1;
            n(1) = 0;
            o.array(s.stitch.nodeset(n, 1));
        });
        break;
    case 38: {
        set("Renumber, Reorder", 0, [](const Shared& s, Out& o) {
            o.array(s.renum.apply(s.t.xdofs));
            o.array(s.renum.index());
            o.array(s.reorder.apply(s.t.xdofs));
        });
        break;
    }
    case 39:
        set("StopList", 0, [](const Shared& s, Out& o) {
            o.num(s.stop.descending());
            o.num(s.stop.all_less(0.5));
            for (double v : s.stop.data()) {
                o.num(v);
            }
        });
        break;
    case 40:
        set("Tyings", 0, [](const Shared& s, Out& o) {
            o.sparse(s.tie.Cdu());
            o.sparse(s.tie.Cdp());
            o.array(s.tie.dofs());
            o.array(s.tie.iid());
            o.array(s.control.coor());
        });
        break;
    case 41:
        set("mesh functions", 0, [](const Shared& s, Out& o) {
            o.array(GM::coordination(s.t.xconn));
            o.lists(GM::elem2node(s.t.xconn));
            o.array(GM::centers(s.stitch.coor(), s.stitch.conn(), GM::ElementType::Quad4));
            o.array(GM::edgesize(s.stitch.coor(), s.stitch.conn(), GM::ElementType::Quad4));
            o.lists(GM::node2dof(s.t.xdofs));
        });
        break;
    case 42: {
        // copies of shared objects, used by their new owner
        auto x = dof();
        auto y = elem();
        set("copies", 0, [x, y](const Shared& s, Out& o) {
            Matrix A = s.K;
            o.array(A.Dot(*x));
            Vector v = s.vec;
            o.array(v.AssembleDofs(*y));
            GooseFEM::Iterate::StopList l = s.stop;
            l.roll_insert(0.25);
            o.num(l.data()[0]);
            GM::Stitch st = s.stitch;
            o.num((double)st.nnode());
        });
        break;
    }
    case 43: {
        // objects of the caller's own, read-only arguments shared
        auto ke = std::make_shared<T3>(make<double, 3>({t.nelem, t.nne * t.ndim, t.nne * t.ndim}, [&]() { return 0.0; }));
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t i = 0; i < t.nne * t.ndim; ++i) {
                for (size_t j = 0; j <= i; ++j) {
                    (*ke)(e, i, j) = (*ke)(e, j, i) = (i == j ? 60.0 : 0.0) + num(r);
                }
            }
        }
        auto b = dof();
        set("own matrix and solver", 0, [ke, b](const Shared& s, Out& o) {
            Matrix A(s.t.xconn, s.t.xdofs);
            A.assemble(*ke);
            o.array(A.Dot(*b));
            if (s.t.ndof > 8) {
                return;
            }
            I1 all = xt::arange<size_t>(s.t.ndof);
            A.add(all, all, xt::eval(200.0 * xt::eye<double>(s.t.ndof))); // also the nodes without element
            GooseFEM::MatrixSolver<> S;
            o.array(S.Solve(A, *b));
            A.add(xt::eval(xt::arange<size_t>(1)), xt::eval(xt::arange<size_t>(1)), xt::eval(1000.0 * xt::ones<double>({1, 1})));
            o.array(S.Solve(A, *b));
        });
        break;
    }
    case 44: {
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        double h = 1 + (double)r.below(3);
        set("own quadrature", 0, [x, h](const Shared& s, Out& o) {
            T3 pos = h * s.qx;
            GE::Quad4::Quadrature q(pos);
            o.array(q.SymGradN_vector(*x));
            q.update_x(s.qx);
            o.array(q.GradN_vector(*x));
        });
        break;
    }
    case 45:
        set("Hex8 sets", 0, [](const Shared& s, Out& o) {
            auto both = [&](const auto& m) {
                for (const auto& a :
                     {m.nodesFront(), m.nodesBack(), m.nodesLeft(), m.nodesRight(), m.nodesBottom(), m.nodesTop(), m.nodesFrontBottomEdge(),
                      m.nodesBackTopOpenEdge(), m.nodesTopLeftEdge(), m.nodesBottomRightOpenEdge(), m.nodesFrontFace(), m.nodesLeftFace()}) {
                    o.array(a);
                }
                o.num((double)m.nodesFrontBottomLeftCorner());
                o.num((double)m.nodesBackTopRightCorner());
                o.num((double)m.nodesOrigin());
                o.num((double)m.nelz());
            };
            both(s.hex);
            both(s.hexfine);
        });
        break;
    case 46:
        set("Hex8::FineLayer", 0, [](const Shared& s, Out& o) {
            o.array(s.hexfine.conn());
            o.array(s.hexfine.elementsMiddleLayer());
            o.array(s.hexfine.nodesPeriodic());
        });
        break;
    case 47:
        set("Hex8::FineLayer coor", 0, [](const Shared& s, Out& o) {
            o.array(s.hexfine.coor());
            o.array(s.hexfine.dofsPeriodic());
        });
        break;
    case 48:
        set("Tri3::Regular sets", 0, [](const Shared& s, Out& o) {
            o.array(s.tri.nodesBottomEdge());
            o.array(s.tri.nodesLeftOpenEdge());
            o.array(s.tri.nodesPeriodic());
            o.array(s.tri.dofs());
            o.array(GM::Tri3::getOrientation(s.tri.coor(), s.tri.conn()));
            o.num((double)s.tri.nodesTopRightCorner());
        });
        break;
    case 49: {
        size_t l = r.below(s.fine.elemrow_nelem().size());
        set("Quad4::FineLayer rows", 0, [l](const Shared& s, Out& o) {
            o.array(s.fine.elemrow_nhy());
            o.array(s.fine.elemrow_nelem());
            o.array(s.fine.elemrow_type());
            o.array(s.fine.elementsLayer(l));
            o.array(s.fine.nodesPeriodic());
            o.array(s.fine.dofsPeriodic());
        });
        break;
    }
    case 50:
        set("meshes of the maps", 0, [](const Shared& s, Out& o) {
            o.array(s.refine.coarseMesh().conn());
            o.array(s.refine.fineMesh().conn());
            o.array(s.refine.getMap());
            o.array(s.f2r.regularMesh().coor());
            o.array(s.f2r.fineLayerMesh().conn());
            o.lists(s.f2r.getMapFraction());
        });
        break;
    case 51: {
        auto x = input<4>(r, {s.hx.shape(0), 8, 3, 3});
        auto y = input<2>(r, {s.hx.shape(0), 8});
        auto z = input<3>(r, {s.hx.shape(0), 8, 3});
        set("Hex8 Int_N, GradN", 0, [x, y, z](const Shared& s, Out& o) {
            o.array(s.hquad.Int_N_scalar_NT_dV(*y));
            o.array(s.hquad.Int_N_vector_dV(*z));
            o.array(s.hquad.GradN_vector(*z));
            o.array(s.hquad.GradN());
            o.array(s.hquad.dV());
        });
        break;
    }
    case 52: {
        auto x = input<6>(r, {s.qx.shape(0), 4, 3, 3, 3, 3});
        set("planar and axisymmetric stiffness", 0, [x](const Shared& s, Out& o) {
            o.array(s.planar.Int_gradN_dot_tensor4_dot_gradNT_dV(*x));
            o.array(s.axi.Int_gradN_dot_tensor4_dot_gradNT_dV(*x));
            o.array(s.axi.B());
            o.array(s.axi.dV());
        });
        break;
    }
    case 53: {
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        auto y = input<2>(r, {s.qx.shape(0), 4});
        set("planar and axisymmetric fields", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.planar.GradN_vector(*x));
            o.array(s.planar.GradN_vector_T(*x));
            o.array(s.planar.InterpQuad_vector(*x));
            o.array(s.axi.GradN_vector(*x));
            o.array(s.axi.Int_N_scalar_NT_dV(*y));
            o.array(s.axi.InterpQuad_vector(*x));
        });
        break;
    }
    case 54: {
        auto x = node();
        auto d = dof();
        set("partitioned to nodes and elements", 0, [x, d](const Shared& s, Out& o) {
            auto u = s.vp.AsDofs_u(*d);
            auto p = s.vp.AsDofs_p(*d);
            o.array(s.vp.NodeFromPartitioned(u, p));
            o.array(s.vp.ElementFromPartitioned(u, p));
            o.array(s.vp.dofs_is_p());
            o.array(s.vp.AssembleDofs(*x));
        });
        break;
    }
    case 55: {
        auto x = input<1>(r, {s.t.ndof - s.iip.size()}), y = input<1>(r, {s.iip.size()});
        set("diagonal partial products", 0, [x, y](const Shared& s, Out& o) {
            o.array(s.Mp.Dot_p(*x, *y));
            o.array(s.Mp.data_uu());
            o.array(s.Mp.data_pp());
            o.array(s.Mp.Todense());
            o.array(s.Md.Todense());
        });
        break;
    }
    case 56:
        set("all tied matrix blocks", 0, [](const Shared& s, Out& o) {
            o.sparse(s.Kt.data_up());
            o.sparse(s.Kt.data_pu());
            o.sparse(s.Kt.data_pp());
            o.sparse(s.Kt.data_pd());
            o.sparse(s.Kt.data_du());
            o.sparse(s.Kt.data_dp());
            o.sparse(s.Kt.data_dd());
            o.sparse(s.Kp.data_up());
            o.sparse(s.Kp.data_uu());
            o.array(s.Kt.iiu());
            o.array(s.Kt.iip());
        });
        break;
    case 57:
        set("mesh functions (2)", 0, [](const Shared& s, Out& o) {
            auto type = GM::ElementType::Quad4;
            o.array(GM::nodal_mass(s.stitch.coor(), s.stitch.conn(), type));
            o.array(GM::center_of_gravity(s.stitch.coor(), s.stitch.conn(), type));
            o.array(GM::renumber(s.t.xdofs));
            o.lists(GM::nodaltyings(s.q4.dofsPeriodic()));
            o.array(GM::dofs(3, 2));
        });
        break;
    case 58:
        set("Stitch, all meshes", 0, [](const Shared& s, Out& o) {
            for (auto& m : s.stitch.nodemap()) {
                o.array(m);
            }
            for (auto& m : s.stitch.elemmap()) {
                o.array(m);
            }
            I1 n = I1::from_shape({1});
            n(0) = 0;
            std::vector<I1> l = {n, n};
            o.array(s.stitch.nodeset(l));
            o.array(s.stitch.elemset(l));
            o.num((double)s.stitch.nmesh());
        });
        break;
    case 59:
        set("Tyings, all", 0, [](const Shared& s, Out& o) {
            o.sparse(s.tie.Cdi());
            o.array(s.tie.control());
            o.array(s.tie.iii());
            o.array(s.tie.iiu());
            o.array(s.tie.iip());
            o.array(s.tie.nodal_tyings());
            o.array(s.control.dofs());
            o.array(s.control.controlDofs());
            o.array(s.control.controlNodes());
            o.array(s.vt.iii());
            o.array(s.vt.iid());
        });
        break;
    case 60: {
        auto x = input<3>(r, {s.conn_t.shape(0), 4, 2});
        auto y = input<2>(r, {(size_t)s.dofs_t.shape(0), 2});
        auto z = input<1>(r, {s.ndof_t});
        set("tied vector", 0, [x, y, z](const Shared& s, Out& o) {
            o.array(s.vt.AssembleDofs(*x));
            o.array(s.vt.AssembleNode(*x));
            o.array(s.vt.AsElement(*y));
            o.array(s.vt.AsNode(*z));
            o.array(s.vt.AsElement(*z));
        });
        break;
    }
    case 61: {
        auto y = input<2>(r, {(size_t)s.dofs_t.shape(0), 2}), z = input<2>(r, {(size_t)s.dofs_t.shape(0), 2});
        set("tied vector, copies", 0, [y, z](const Shared& s, Out& o) {
            T1 a = s.vt.AsDofs_i(*y), b = s.vt.AsDofs_i(*z);
            s.vt.copy_p(a, b);
            o.array(b);
        });
        break;
    }
    case 62: {
        // output-argument forms: outputs of the caller's own
        auto x = elem();
        auto y = node();
        set("output-argument forms", 0, [x, y](const Shared& s, Out& o) {
            T1 d = s.vec.allocate_dofval();
            T2 n = s.vec.allocate_nodevec();
            T3 e = s.vec.allocate_elemvec();
            s.vec.assembleDofs(*x, d);
            o.array(d);
            s.vec.assembleNode(*x, n);
            o.array(n);
            s.vec.asElement(*y, e);
            o.array(e);
            s.vp.assembleDofs(*y, d);
            o.array(d);
            s.vec.asNode(d, n);
            o.array(n);
        });
        break;
    }
    case 63: {
        auto f = elem();
        auto x = input<3>(r, {s.qx.shape(0), 4, 2});
        set("quadrature into arrays of the caller", 0, [x](const Shared& s, Out& o) {
            auto g = s.quad.allocate_qtensor<2>(7.0);
            auto v = s.quad.allocate_qtensor<1>(7.0);
            auto f = s.quad.allocate_elemvec(7.0);
            s.quad.gradN_vector(*x, g);
            o.array(g);
            s.quad.symGradN_vector(*x, g);
            o.array(g);
            s.quad.interpQuad_vector(*x, v);
            o.array(v);
            s.quad.int_gradN_dot_tensor2_dV(g, f);
            o.array(f);
            s.quad.int_N_vector_dV(v, f);
            o.array(f);
        });
        break;
    }
    case 64:
        set("copies (2)", 0, [](const Shared& s, Out& o) {
            GE::Quad4::Quadrature q = s.quad;
            q.update_x(s.qx);
            o.array(q.dV());
            MatrixDiagonal D = s.Md;
            T1 one = T1::from_shape({s.t.ndof});
            one.fill(1.0);
            o.array(D.Solve(one));
            MatrixDiagonalPartitioned E = s.Mp;
            o.array(E.Solve(one));
            GM::Quad4::FineLayer m = s.fine;
            o.array(m.coor());
            GM::Quad4::Map::RefineRegular f = s.refine;
            o.array(f.map());
            VectorPartitioned v = s.vp;
            o.array(v.iiu());
        });
        break;
    default: {
        size_t nx = 1 + r.below(3), ny = 1 + r.below(3);
        auto b = dof();
        set("own mesh, stitch, stop list", 0, [nx, ny, b](const Shared& s, Out& o) {
            GM::Quad4::Regular m(nx, ny);
            GM::Vstack st(false);
            I1 bot = m.nodesBottomEdge(), top = m.nodesTopEdge();
            st.push_back(m.coor(), m.conn(), bot, top);
            st.push_back(m.coor(), m.conn(), bot, top);
            o.array(st.coor());
            o.array(st.conn());
            MatrixDiagonal D(s.t.xconn, s.t.xdofs);
            D.set(s.Md.data());
            o.array(D.Solve(*b));
            GooseFEM::Iterate::StopList l(3);
            l.roll_insert(1);
            l.reset(2);
            o.num((double)l.data().size());
        });
    }
    }
    return m;
}

// Objects of every caller's own, from the very first use of the library on: nothing has been
// called before, so that whatever the library sets up at first use is set up concurrently.
struct Cold {
    Topo t;
    I1 iip;
    T3 ke, me, qx, hx;
    std::vector<double> res;
    size_t nx = 1, ny = 1;
};

std::shared_ptr<Cold> make_cold(const Plan& p)
{
    auto s = std::make_shared<Cold>();
    s->t = topo_make(p);
    const Topo& t = s->t;
    Rng r((uint64_t)p.get("tseed") + 77);
    s->nx = 1 + r.below(3);
    s->ny = 1 + r.below(2);
    size_t n = t.nne * t.ndim;
    s->ke = make<double, 3>({t.nelem, n, n}, [&]() { return num(r); });
    s->me = make<double, 3>({t.nelem, n, n}, [&]() { return 0.0; });
    for (size_t e = 0; e < t.nelem; ++e) {
        for (size_t i = 0; i < n; ++i) {
            s->me(e, i, i) = 1.0 + (double)r.below(9);
        }
    }
    static const double c[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    size_t i = 0;
    s->qx = make<double, 3>({2, 4, 2}, [&]() {
        double v = c[(i / 2) % 4][i % 2] + 0.2 * r.unit() + 1.0;
        ++i;
        return v;
    });
    i = 0;
    s->hx = make<double, 3>({1, 8, 3}, [&]() {
        double v = c[i / 3][i % 3] + 0.2 * r.unit();
        ++i;
        return v;
    });
    size_t np = r.below(t.ndof + 1);
    auto q = permutation(t.ndof, r);
    q.resize(np);
    std::sort(q.begin(), q.end());
    for (int k = 0; k < 5; ++k) {
        s->res.push_back(r.unit());
    }
    sim::OnHeap h;
    s->iip = I1::from_shape({np});
    std::copy(q.begin(), q.end(), s->iip.begin());
    return s;
}

using ColdCall = std::function<void(const Cold&, Out&)>;

std::vector<std::pair<const char*, ColdCall>> cold_calls()
{
    std::vector<std::pair<const char*, ColdCall>> l;
    l.push_back({"cold: points", [](const Cold&, Out& o) {
                     o.array(GE::Quad4::Gauss::xi());
                     o.array(GE::Quad4::Gauss::w());
                     o.array(GE::Quad4::Nodal::xi());
                     o.array(GE::Quad4::Nodal::w());
                     o.array(GE::Quad4::MidPoint::xi());
                     o.array(GE::Quad4::MidPoint::w());
                     o.array(GE::Hex8::Gauss::xi());
                     o.array(GE::Hex8::Gauss::w());
                     o.array(GE::Hex8::Nodal::xi());
                     o.array(GE::Hex8::Nodal::w());
                     o.num((double)GooseFEM::version().size());
                     o.num((double)GooseFEM::version_dependencies().size());
                 }});
    l.push_back({"cold: quadrature", [](const Cold& s, Out& o) {
                     GE::Quad4::Quadrature q(s.qx);
                     o.array(q.dV());
                     o.array(q.GradN());
                     o.array(q.SymGradN_vector(s.qx));
                     o.array(q.GradN_vector_T(s.qx));
                     auto g = q.GradN_vector(s.qx);
                     o.array(q.Int_gradN_dot_tensor2_dV(g));
                     o.array(q.InterpQuad_vector(s.qx));
                     o.array(q.Int_N_scalar_NT_dV(q.dV()));
                     o.array(q.AsTensor<2>(q.dV()));
                     GE::Quad4::Quadrature n(s.qx, GE::Quad4::Nodal::xi(), GE::Quad4::Nodal::w());
                     o.array(n.dV());
                     q.update_x(s.qx);
                     o.array(q.dV());
                 }});
    l.push_back({"cold: other quadratures", [](const Cold& s, Out& o) {
                     GE::Quad4::QuadraturePlanar p(s.qx, 0.5);
                     auto g = p.SymGradN_vector(s.qx);
                     o.array(g);
                     o.array(p.Int_gradN_dot_tensor2_dV(g));
                     GE::Quad4::QuadratureAxisymmetric a(s.qx);
                     g = a.SymGradN_vector(s.qx);
                     o.array(g);
                     o.array(a.Int_gradN_dot_tensor2_dV(g));
                     GE::Hex8::Quadrature h(s.hx);
                     auto k = h.SymGradN_vector(s.hx);
                     o.array(k);
                     o.array(h.Int_gradN_dot_tensor2_dV(k));
                 }});
    l.push_back({"cold: regular meshes", [](const Cold& s, Out& o) {
                     GM::Quad4::Regular m(s.nx, s.ny);
                     o.array(m.coor());
                     o.array(m.conn());
                     o.array(m.dofsPeriodic());
                     GM::Tri3::Regular t(s.nx, s.ny);
                     o.array(t.coor());
                     o.array(t.conn());
                     GM::Hex8::Regular h(s.nx, s.ny, 1);
                     o.array(h.conn());
                     o.array(h.nodesPeriodic());
                     GM::Quad4::Map::RefineRegular r(m, 2, 1);
                     o.array(r.map());
                     o.lists(GM::elem2node(m.conn()));
                     o.array(GM::edgesize(m.coor(), m.conn()));
                     o.array(GM::centers(m.coor(), m.conn()));
                     o.array(GM::nodal_mass(m.coor(), m.conn()));
                     o.array(GM::coordination(m.conn()));
                 }});
    l.push_back({"cold: graded meshes", [](const Cold& s, Out& o) {
                     GM::Quad4::FineLayer f(3 * s.nx, 3 + 2 * s.ny);
                     o.array(f.coor());
                     o.array(f.conn());
                     o.array(f.nodesPeriodic());
                     o.array(f.elementgrid_around_ravel(f.elementsMiddleLayer()(0), 1));
                     GM::Quad4::Map::FineLayer2Regular m(f);
                     o.lists(m.map());
                     GM::Hex8::FineLayer h(3, 3, 3);
                     o.array(h.conn());
                 }});
    l.push_back({"cold: stitching", [](const Cold& s, Out& o) {
                     GM::Quad4::Regular m(s.nx, s.ny);
                     GM::Stitch t;
                     t.push_back(m.coor(), m.conn());
                     T2 x = m.coor();
                     xt::view(x, xt::all(), 0) += (double)s.nx;
                     t.push_back(x, m.conn());
                     o.array(t.coor());
                     o.array(t.nodemap(1));
                     o.array(GM::overlapping(m.coor(), x));
                     GM::Vstack v;
                     I1 bot = m.nodesBottomEdge(), top = m.nodesTopEdge();
                     v.push_back(m.coor(), m.conn(), bot, top);
                     v.push_back(m.coor(), m.conn(), bot, top);
                     o.array(v.conn());
                     o.array(GM::renumber(s.t.xdofs));
                     GM::Reorder r({s.iip, I1(xt::setdiff1d(xt::arange<size_t>(s.t.ndof), s.iip))});
                     o.array(r.index());
                 }});
    l.push_back({"cold: vectors", [](const Cold& s, Out& o) {
                     Vector v(s.t.xconn, s.t.xdofs);
                     VectorPartitioned p(s.t.xconn, s.t.xdofs, s.iip);
                     T1 x = T1::from_shape({s.t.ndof});
                     for (size_t i = 0; i < s.t.ndof; ++i) {
                         x(i) = (double)i;
                     }
                     T2 n = v.AsNode(x);
                     o.array(n);
                     T3 e = v.AsElement(n);
                     o.array(v.AssembleDofs(e));
                     o.array(v.AssembleNode(e));
                     o.array(p.AsDofs_u(x));
                     o.array(p.dofs_is_p());
                     o.array(p.NodeFromPartitioned(p.AsDofs_u(x), p.AsDofs_p(x)));
                 }});
    l.push_back({"cold: matrices", [](const Cold& s, Out& o) {
                     T1 x = T1::from_shape({s.t.ndof});
                     x.fill(1.0);
                     Matrix A(s.t.xconn, s.t.xdofs);
                     A.assemble(s.ke);
                     o.array(A.Dot(x));
                     MatrixPartitioned P(s.t.xconn, s.t.xdofs, s.iip);
                     P.assemble(s.ke);
                     o.array(P.Dot(x));
                     o.array(P.Reaction(x, x));
                     MatrixDiagonal D(s.t.xconn, s.t.xdofs);
                     D.assemble(s.me);
                     o.array(D.Dot(x));
                     MatrixDiagonalPartitioned E(s.t.xconn, s.t.xdofs, s.iip);
                     E.assemble(s.me);
                     o.array(E.Dot(x));
                     o.array(E.Reaction(x, x));
                     if (s.t.ndof <= 8) {
                         I1 all = xt::arange<size_t>(s.t.ndof);
                         A.set(all, all, xt::eval(4.0 * xt::eye<double>(s.t.ndof)));
                         GooseFEM::MatrixSolver<> S;
                         o.array(S.Solve(A, x));
                     }
                 }});
    l.push_back({"cold: tyings", [](const Cold& s, Out& o) {
                     GM::Quad4::Regular m(s.nx, s.ny);
                     GooseFEM::Tyings::Control c(m.coor(), m.dofs());
                     I1 iip = xt::flatten(c.controlDofs());
                     GooseFEM::Tyings::Periodic t(c.coor(), c.dofs(), c.controlDofs(), m.nodesPeriodic(), iip);
                     o.sparse(t.Cdp());
                     VectorPartitionedTyings v(m.conn(), t.dofs(), t.Cdu(), t.Cdp(), t.Cdi());
                     T2 x = T2::from_shape({c.coor().shape(0), 2});
                     x.fill(2.0);
                     o.array(v.AsDofs_i(x));
                     MatrixPartitionedTyings K(m.conn(), t.dofs(), t.Cdu(), t.Cdp());
                     o.num((double)K.nnu());
                     GooseFEM::Iterate::StopList l(3);
                     for (double d : s.res) {
                         l.roll_insert(d);
                     }
                     o.num(l.descending());
                     o.num(l.all_less(0.5));
                 }});
    return l;
}

struct World {
    const Plan& plan;
    std::shared_ptr<Shared> a, b;
    bool tied = false; // two nodes share a DOF
    explicit World(const Plan& p) : plan(p) {}

    void exec(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        auto arg = [&](size_t k) { return k < op.a.size() ? op.a[k] : 0; };
        sim::count(("op:" + op.name).c_str());
        size_t n = 2 + (size_t)arg(0) % 3;
        std::vector<std::vector<Made>> calls(n);
        // same: every caller makes the same calls with the same arguments
        bool same = op.name == "same";
        for (size_t k = 0; k < n; ++k) {
            Rng r(op.seed + (same ? 0 : k * 7919));
            size_t m = 1 + r.below(3);
            for (size_t j = 0; j < m; ++j) {
                Made q = make_call(*a, r);
                if (q.overlap == 2 || (q.overlap == 1 && tied)) {
                    c.team = 1; // result and overlapping stores are those of one thread
                    c.shrink = 0;
                }
                calls[k].push_back(q);
            }
        }
        if (c.team > 1) {
            sim::count("probe:callers-with-teams");
        }
        std::vector<Out> got(n), want(n);
        std::vector<std::function<void()>> fs;
        for (size_t k = 0; k < n; ++k) {
            fs.push_back([&, k]() {
                for (auto& q : calls[k]) {
                    q.f(*a, got[k]);
                }
            });
        }
        Res res = sim::run_callers(c, fs);
        if (!res.ok()) {
            violate("unexpected-exception", "concurrent calls: " + res.what);
        }
        for (size_t k = 0; k < n; ++k) {
            Ctl lone;
            lone.seed = c.seed + 1;
            for (auto& q : calls[k]) {
                sim::count(("call:" + std::string(q.what)).c_str());
                res = sim::run(lone, [&]() { q.f(*b, want[k]); });
                if (getenv("CONC_STEPS")) sim::count(("steps:" + std::string(q.what)).c_str(), res.steps);
                if (!res.ok()) {
                    violate("unexpected-exception", SAY("lone call " << q.what << ": " << res.what));
                }
            }
            for (double v : got[k].v) {
                sim::mix_double(v);
            }
            if (got[k].v.size() != want[k].v.size()) {
                violate("wrong-shape", SAY("caller " << k << " of " << n << " got another number of values than a lone caller"));
            }
            for (size_t j = 0; j < want[k].v.size(); ++j) {
                double x = got[k].v[j], y = want[k].v[j];
                if (!(x == y || (std::isnan(x) && std::isnan(y)))) {
                    std::string names;
                    for (auto& q : calls[k]) {
                        names += std::string(names.empty() ? "" : "; ") + q.what;
                    }
                    violate("wrong-value", SAY("caller " << k << " of " << n << " (" << names << "): value " << j << " is " << x << ", a lone caller gets " << y));
                }
            }
        }
    }

    void cold(size_t i)
    {
        const Op& op = plan.ops[i];
        Ctl c = sim::op_ctl(plan, i);
        sim::count(("op:" + op.name).c_str());
        auto in = make_cold(plan);
        auto list = cold_calls();
        size_t n = 2 + (op.a.empty() ? 0 : (size_t)op.a[0] % 3);
        std::vector<std::vector<size_t>> calls(n);
        Rng r(op.seed);
        size_t first = r.below(list.size());
        for (size_t k = 0; k < n; ++k) {
            // most often all begin with the same
            calls[k].push_back(r.chance(0.7) ? first : r.below(list.size()));
            while (r.chance(0.3)) {
                calls[k].push_back(r.below(list.size()));
            }
        }
        c.team = 1;
        c.shrink = 0;
        std::vector<Out> got(n), want(n);
        std::vector<std::function<void()>> fs;
        for (size_t k = 0; k < n; ++k) {
            fs.push_back([&, k]() {
                for (auto q : calls[k]) {
                    list[q].second(*in, got[k]);
                }
            });
        }
        Res res = sim::run_callers(c, fs);
        if (!res.ok()) {
            violate("unexpected-exception", "first calls, concurrent: " + res.what);
        }
        for (size_t k = 0; k < n; ++k) {
            Ctl lone;
            lone.seed = c.seed + 1;
            for (auto q : calls[k]) {
                sim::count(("call:" + std::string(list[q].first)).c_str());
                res = sim::run(lone, [&]() { list[q].second(*in, want[k]); });
                if (!res.ok()) {
                    violate("unexpected-exception", SAY("lone call " << list[q].first << ": " << res.what));
                }
            }
            for (double v : got[k].v) {
                sim::mix_double(v);
            }
            if (got[k].v.size() != want[k].v.size()) {
                violate("wrong-shape", SAY("caller " << k << " of " << n << ", first calls: another number of values than a lone caller"));
            }
            for (size_t j = 0; j < want[k].v.size(); ++j) {
                double x = got[k].v[j], y = want[k].v[j];
                if (!(x == y || (std::isnan(x) && std::isnan(y)))) {
                    violate("wrong-value", SAY("caller " << k << " of " << n << ", first calls (" << list[calls[k][0]].first << " ...): value " << j << " is " << x << ", a lone caller gets " << y));
                }
            }
        }
    }

    void all()
    {
        size_t i0 = 0;
        while (i0 < plan.ops.size() && plan.ops[i0].name == "cold") {
            cold(i0++);
        }
        if (i0 == plan.ops.size()) {
            return;
        }
        a = make_shared_objects(plan);
        b = make_shared_objects(plan);
        tied = a->t.ndof != a->t.nnode * a->t.ndim;
        for (size_t i = i0; i < plan.ops.size(); ++i) {
            if (plan.ops[i].name == "cold") {
                cold(i);
            }
            else {
                exec(i);
            }
        }
    }
};

} // namespace

void sim::world_generate(Plan& p, Rng& r)
{
    topo_generate(p, r, true, 3);
    p.cfg["nelem"] = r.range(1, 6);
    p.cfg["nnode"] = r.range(2, 10);
    if (r.chance(0.5)) {
        p.cfg["dofkind"] = r.chance(0.5) ? 0 : 1;
    }
    bool cold = r.chance(0.3);
    size_t n = cold ? 1 + r.below(2) : 2 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
        Op op;
        op.name = i == 0 && cold ? "cold" : r.chance(0.3) ? "same" : "read";
        op.seed = r.next() >> 20;
        op.a = {(int64_t)r.below(12)};
        op.ctl = random_ctl(r, true, false);
        if (op.ctl.mode == SERIAL) {
            op.ctl.mode = MEDIUM;
        }
        op.ctl.team = r.chance(0.5) ? 1 : 2 + (int)r.below(2);
        p.ops.push_back(op);
    }
}

void sim::world_execute(const Plan& p) { World(p).all(); }
