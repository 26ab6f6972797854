// Reference element arithmetic: shape functions, gradients, volumes and integrals from their definitions.
#pragma once
#include "common.h"

namespace {

enum Kind { QUAD = 0, PLANAR = 1, AXI = 2, HEX = 3 };

struct Def {
    int kind = 0;
    size_t nelem = 0, nne = 0, ndim = 0, tdim = 0, nip = 0;
    int scheme = 0; // 0 default constructor, 1 Gauss given, 2 Nodal, 3 MidPoint, 4 custom
    double thick = 1.0;
    std::vector<double> xi, w; // [nip, ndim], [nip]
    std::vector<size_t> conn;
    size_t nx, ny, nz;
};

const double quad_sign[4][3] = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}};
const double hex_sign[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1},
                               {-1, -1, 1},  {1, -1, 1},  {1, 1, 1},  {-1, 1, 1}};

// Reference: everything a quadrature object must answer for one set of coordinates.
struct Ref {
    const Def& d;
    std::vector<double> x;
    std::vector<double> N; // [nip, nne]
    std::vector<double> dN; // [nelem, nip, nne, ndim]
    std::vector<double> vol; // [nelem, nip]
    std::vector<double> rad; // [nelem, nip]

    double sg(size_t m, size_t i) const { return d.kind == HEX ? hex_sign[m][i] : quad_sign[m][i]; }

    Ref(const Def& d_, const std::vector<double>& x_) : d(d_), x(x_)
    {
        size_t nd = d.ndim;
        for (size_t q = 0; q < d.nip; ++q) {
            for (size_t m = 0; m < d.nne; ++m) {
                double v = 1;
                for (size_t i = 0; i < nd; ++i) {
                    v *= 0.5 * (1 + sg(m, i) * d.xi[q * nd + i]);
                }
                N.push_back(v);
            }
        }
        dN.assign(d.nelem * d.nip * d.nne * nd, 0.0);
        for (size_t e = 0; e < d.nelem; ++e) {
            for (size_t q = 0; q < d.nip; ++q) {
                double dxi[8][3];
                for (size_t m = 0; m < d.nne; ++m) {
                    for (size_t i = 0; i < nd; ++i) {
                        double v = 0.5 * sg(m, i);
                        for (size_t j = 0; j < nd; ++j) {
                            if (j != i) {
                                v *= 0.5 * (1 + sg(m, j) * d.xi[q * nd + j]);
                            }
                        }
                        dxi[m][i] = v;
                    }
                }
                // J(i,j) = d x_j / d xi_i ; solve J * dNdx = dNdxi per node (Gaussian elimination, pivoted)
                double J[3][3] = {{0}};
                for (size_t i = 0; i < nd; ++i) {
                    for (size_t j = 0; j < nd; ++j) {
                        for (size_t m = 0; m < d.nne; ++m) {
                            J[i][j] += dxi[m][i] * x[(e * d.nne + m) * nd + j];
                        }
                    }
                }
                double A[3][11];
                for (size_t i = 0; i < nd; ++i) {
                    for (size_t j = 0; j < nd; ++j) {
                        A[i][j] = J[i][j];
                    }
                    for (size_t m = 0; m < d.nne; ++m) {
                        A[i][nd + m] = dxi[m][i];
                    }
                }
                double det = 1;
                size_t C = nd + d.nne;
                for (size_t k = 0; k < nd; ++k) {
                    size_t piv = k;
                    for (size_t i = k + 1; i < nd; ++i) {
                        if (std::abs(A[i][k]) > std::abs(A[piv][k])) {
                            piv = i;
                        }
                    }
                    if (piv != k) {
                        for (size_t c = 0; c < C; ++c) {
                            std::swap(A[k][c], A[piv][c]);
                        }
                        det = -det;
                    }
                    det *= A[k][k];
                    for (size_t i = 0; i < nd; ++i) {
                        if (i != k) {
                            double f = A[i][k] / A[k][k];
                            for (size_t c = k; c < C; ++c) {
                                A[i][c] -= f * A[k][c];
                            }
                        }
                    }
                }
                for (size_t m = 0; m < d.nne; ++m) {
                    for (size_t i = 0; i < nd; ++i) {
                        dN[((e * d.nip + q) * d.nne + m) * nd + i] = A[i][nd + m] / A[i][i];
                    }
                }
                double r = 0;
                for (size_t m = 0; m < d.nne; ++m) {
                    r += N[q * d.nne + m] * x[(e * d.nne + m) * nd + 1];
                }
                rad.push_back(r);
                double v = d.w[q] * det;
                if (d.kind == PLANAR) {
                    v *= d.thick;
                }
                if (d.kind == AXI) {
                    v *= 2.0 * 3.14159265358979323846 * r;
                }
                vol.push_back(v);
            }
        }
    }

    double n(size_t q, size_t m) const { return N[q * d.nne + m]; }
    double dn(size_t e, size_t q, size_t m, size_t i) const { return dN[((e * d.nip + q) * d.nne + m) * d.ndim + i]; }
    double v(size_t e, size_t q) const { return vol[e * d.nip + q]; }

    // coefficient of nodal DOF (m, a) in component (i, j) of the gradient d_i u_j
    double G(size_t e, size_t q, size_t m, size_t a, size_t i, size_t j) const
    {
        if (d.kind == AXI) {
            // tensor axes: 0 = r, 1 = theta, 2 = z; nodal components: 0 = z, 1 = r
            if (a == 1) { // u_r
                if (i == 0 && j == 0) {
                    return dn(e, q, m, 1);
                }
                if (i == 1 && j == 1) {
                    return n(q, m) / rad[e * d.nip + q];
                }
                if (i == 2 && j == 0) {
                    return dn(e, q, m, 0);
                }
            }
            else { // u_z
                if (i == 0 && j == 2) {
                    return dn(e, q, m, 1);
                }
                if (i == 2 && j == 2) {
                    return dn(e, q, m, 0);
                }
            }
            return 0.0;
        }
        return (i < d.ndim && j == a) ? dn(e, q, m, i) : 0.0;
    }
};

struct Val {
    std::vector<double> v;
    double scale = 0;
    void push(double x, double mag)
    {
        v.push_back(x);
        scale = std::max(scale, mag);
    }
};

// mode 0: d_i u_j, 1: transposed, 2: symmetric
Val ref_grad(const Ref& r, const std::vector<double>& u, int mode)
{
    const Def& d = r.d;
    Val o;
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t q = 0; q < d.nip; ++q) {
            double g[3][3] = {{0}}, mag = 0;
            for (size_t m = 0; m < d.nne; ++m) {
                for (size_t a = 0; a < d.ndim; ++a) {
                    for (size_t i = 0; i < d.tdim; ++i) {
                        for (size_t j = 0; j < d.tdim; ++j) {
                            double t = r.G(e, q, m, a, i, j) * u[(e * d.nne + m) * d.ndim + a];
                            g[i][j] += t;
                            mag = std::max(mag, std::abs(t));
                        }
                    }
                }
            }
            for (size_t i = 0; i < d.tdim; ++i) {
                for (size_t j = 0; j < d.tdim; ++j) {
                    o.push(mode == 0 ? g[i][j] : mode == 1 ? g[j][i] : 0.5 * (g[i][j] + g[j][i]), mag);
                }
            }
        }
    }
    return o;
}

Val ref_interp(const Ref& r, const std::vector<double>& u, size_t n)
{
    const Def& d = r.d;
    Val o;
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t q = 0; q < d.nip; ++q) {
            for (size_t i = 0; i < n; ++i) {
                double s = 0, mag = 0;
                for (size_t m = 0; m < d.nne; ++m) {
                    double t = r.n(q, m) * u[(e * d.nne + m) * n + i];
                    s += t;
                    mag += std::abs(t);
                }
                o.push(s, mag);
            }
        }
    }
    return o;
}

Val ref_intN(const Ref& r, const std::vector<double>& f, size_t n)
{
    const Def& d = r.d;
    Val o;
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t m = 0; m < d.nne; ++m) {
            for (size_t i = 0; i < n; ++i) {
                double s = 0, mag = 0;
                for (size_t q = 0; q < d.nip; ++q) {
                    double t = r.n(q, m) * f[(e * d.nip + q) * n + i] * r.v(e, q);
                    s += t;
                    mag += std::abs(t);
                }
                o.push(s, mag);
            }
        }
    }
    return o;
}

Val ref_intNN(const Ref& r, const std::vector<double>& f)
{
    const Def& d = r.d;
    Val o;
    size_t L = d.nne * d.ndim;
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t a = 0; a < L; ++a) {
            for (size_t b = 0; b < L; ++b) {
                double s = 0, mag = 0;
                if (a % d.ndim == b % d.ndim) {
                    for (size_t q = 0; q < d.nip; ++q) {
                        double t = r.n(q, a / d.ndim) * f[e * d.nip + q] * r.n(q, b / d.ndim) * r.v(e, q);
                        s += t;
                        mag += std::abs(t);
                    }
                }
                o.push(s, mag);
            }
        }
    }
    return o;
}

Val ref_int2(const Ref& r, const std::vector<double>& f)
{
    const Def& d = r.d;
    Val o;
    size_t T = d.tdim;
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t m = 0; m < d.nne; ++m) {
            for (size_t a = 0; a < d.ndim; ++a) {
                double s = 0, mag = 0;
                for (size_t q = 0; q < d.nip; ++q) {
                    for (size_t i = 0; i < T; ++i) {
                        for (size_t j = 0; j < T; ++j) {
                            double t = r.G(e, q, m, a, i, j) * f[((e * d.nip + q) * T + i) * T + j] * r.v(e, q);
                            s += t;
                            mag += std::abs(t);
                        }
                    }
                }
                o.push(s, mag);
            }
        }
    }
    return o;
}

Val ref_int4(const Ref& r, const std::vector<double>& f)
{
    const Def& d = r.d;
    Val o;
    size_t T = d.tdim, L = d.nne * d.ndim;
    for (size_t e = 0; e < d.nelem; ++e) {
        std::vector<double> K(L * L, 0.0), M(L * L, 0.0);
        for (size_t q = 0; q < d.nip; ++q) {
            // H[b][i][j] = sum_kl C(i,j,k,l) G(b; l, k)
            std::vector<double> H(L * T * T, 0.0);
            for (size_t b = 0; b < L; ++b) {
                for (size_t l = 0; l < T; ++l) {
                    for (size_t k = 0; k < T; ++k) {
                        double g = r.G(e, q, b / d.ndim, b % d.ndim, l, k);
                        if (g == 0) {
                            continue;
                        }
                        for (size_t i = 0; i < T; ++i) {
                            for (size_t j = 0; j < T; ++j) {
                                H[(b * T + i) * T + j] += f[((((e * d.nip + q) * T + i) * T + j) * T + k) * T + l] * g;
                            }
                        }
                    }
                }
            }
            for (size_t a = 0; a < L; ++a) {
                for (size_t i = 0; i < T; ++i) {
                    for (size_t j = 0; j < T; ++j) {
                        double g = r.G(e, q, a / d.ndim, a % d.ndim, i, j);
                        if (g == 0) {
                            continue;
                        }
                        for (size_t b = 0; b < L; ++b) {
                            double t = g * H[(b * T + i) * T + j] * r.v(e, q);
                            K[a * L + b] += t;
                            M[a * L + b] += std::abs(t);
                        }
                    }
                }
            }
        }
        for (size_t i = 0; i < L * L; ++i) {
            o.push(K[i], M[i]);
        }
    }
    return o;
}

} // namespace
