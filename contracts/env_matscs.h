// Common part of the contracts on the coupled problem: callees replaced by their contracts on the symbolic scalar.
#pragma once
#include "vc_eigen.h"
#include "env_legendre.h"
#include "matscs.h"
#include "matscs/matscs_formulas.h"
#include "util/legendre.h"
#include "util/calculateEta.h"
#include "util/constants.h"

using vc::Sym;
using vc::F;
typedef Eigen::Matrix<Sym, Eigen::Dynamic, Eigen::Dynamic> MatX;

// contract of calculateEta (C03): entry i is eta_i(Z)
inline Sym etaOf(int i, const Sym &Z) { return vc::uf("eta" + std::to_string(i), {Z}); }
template<int n> Eigen::Array<Sym, n, 1> etaContract(const Sym &Z) {
    Eigen::Array<Sym, n, 1> r;
    for (int i = 0; i < n; ++i) r[i] = etaOf(i, Z);
    return r;
}
template<> inline Eigen::Array<Sym, MATSCS_ETA_delta, 1> calculateEta<Sym, MATSCS_ETA_delta>(Sym Z) { return etaContract<MATSCS_ETA_delta>(Z); }
template<> inline Eigen::Array<Sym, MATSCS_ETA_h, 1> calculateEta<Sym, MATSCS_ETA_h>(Sym Z) { return etaContract<MATSCS_ETA_h>(Z); }
template<> inline Eigen::Array<Sym, 2, 1> calculateEta<Sym, 2>(Sym Z) { return etaContract<2>(Z); }

// contract of calculate_tcoeff_matrix (C05_formulas): a function of h and v0..v8
inline Sym tcoeffOf(bool atEnd, int i, int j, int r, int c, const Sym &h, const std::array<MatX, MATSCS_N> &vs) {
    std::vector<Sym> a{h};
    for (int k = 0; k < MATSCS_N; ++k)
        for (int q = 0; q < vs[k].cols(); ++q)
            for (int p = 0; p < vs[k].rows(); ++p) a.push_back(vs[k](p, q));
    return vc::uf(std::string(atEnd ? "tH" : "tD") + "_" + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(r) + "_" + std::to_string(c), a);
}
template<> inline void calculate_tcoeff_matrix<Sym>(
        int n, Sym h, const std::array<MatX, MATSCS_N> &vs, Eigen::Array<MatX, MATSCS_ETA_delta, MATSCS_HMAX_delta> &tDelta,
        std::array<MatX, MATSCS_ETA_h> &tH) {
    for (int i = 0; i < MATSCS_ETA_delta; ++i)
        for (int j = 0; j < MATSCS_HMAX_delta; ++j) {
            tDelta(i, j).resize(2 * n, 2 * n);
            for (int r = 0; r < 2 * n; ++r)
                for (int c = 0; c < 2 * n; ++c) tDelta(i, j)(r, c) = tcoeffOf(false, i, j, r, c, h, vs);
        }
    for (int i = 0; i < MATSCS_ETA_h; ++i) {
        tH[i].resize(2 * n, 2 * n);
        for (int r = 0; r < 2 * n; ++r)
            for (int c = 0; c < 2 * n; ++c) tH[i](r, c) = tcoeffOf(true, i, 0, r, c, h, vs);
    }
}

template<> inline const Sym constants<Sym>::PI = vc::PI();

// contract of Eigen's eigen decomposition: some matrix of eigenvectors, a function of the matrix
namespace Eigen {
    template<> class SelfAdjointEigenSolver<MatX> {
        MatX D;
    public:
        SelfAdjointEigenSolver() {}
        template<typename M> explicit SelfAdjointEigenSolver(const M &a_, int = 0) { compute(a_); }
        template<typename M> SelfAdjointEigenSolver &compute(const M &a_, int = 0) {
            MatX a = a_;
            std::vector<Sym> args;
            for (int q = 0; q < a.cols(); ++q)
                for (int p = 0; p < a.rows(); ++p) args.push_back(a(p, q));
            D.resize(a.rows(), a.cols());
            for (int q = 0; q < a.cols(); ++q)
                for (int p = 0; p < a.rows(); ++p) D(p, q) = vc::uf("eigenvector_" + std::to_string(p) + "_" + std::to_string(q), args);
            return *this;
        }
        const MatX &eigenvectors() const { return D; }
    };
}

// contract of the linear solvers: the solution of A X = B for a regular A (Cramer's rule)
inline Sym minorOf(const MatX &A, const std::vector<int> &rows, const std::vector<int> &cols) {
    if (rows.empty()) return 1;
    Sym sum = 0;
    for (size_t c = 0; c < cols.size(); ++c) {
        std::vector<int> rr(rows.begin() + 1, rows.end()), cc = cols;
        cc.erase(cc.begin() + c);
        Sym v = A(rows[0], cols[c]) * minorOf(A, rr, cc);
        if (c % 2) sum -= v; else sum += v;
    }
    return sum;
}
inline MatX inverseContract(const MatX &A) {
    int n = A.rows();
    std::vector<int> all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    Sym det = minorOf(A, all, all);
    MatX inv(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            std::vector<int> r = all, c = all;
            r.erase(r.begin() + j);
            c.erase(c.begin() + i);
            Sym m = minorOf(A, r, c) / det;
            inv(i, j) = (i + j) % 2 ? -m : m;
        }
    return inv;
}
inline MatX solveContract(const MatX &A, const MatX &B) {
    vc::assumption("the linear solvers of Eigen return the solution of A X = B, for a regular A");
    return inverseContract(A) * B;
}
namespace Eigen {
#define VC_SOLVER(Name) \
    template<> class Name<MatX> { \
        MatX A; \
    public: \
        template<typename M> explicit Name(const M &a) : A(a) {} \
        template<typename M> MatX solve(const M &b) const { return solveContract(A, MatX(b)); } \
    };
    VC_SOLVER(HouseholderQR) VC_SOLVER(ColPivHouseholderQR) VC_SOLVER(FullPivHouseholderQR) VC_SOLVER(PartialPivLU) VC_SOLVER(FullPivLU)
#undef VC_SOLVER
}

struct GivenMatscsMesh : matslise::sector_builder::SectorBuilder<matslise::Matscs<Sym>> {
    typedef matslise::sector_builder::SectorBuilderReturn<matslise::Matscs<Sym>> Return;
    std::function<Return(const matslise::Matscs<Sym> *)> make;
    Return operator()(const matslise::Matscs<Sym> *ms, const Sym &, const Sym &) const override { return make(ms); }
};

inline MatX matrixPotential(int n, const Sym &x) {
    MatX V(n, n);
    for (int p = 0; p < n; ++p)
        for (int q = 0; q <= p; ++q) V(p, q) = V(q, p) = vc::uf("V_" + std::to_string(p) + std::to_string(q), {x});
    return V;
}

inline std::unique_ptr<matslise::Matscs<Sym>> oneMatscsSector(int n, const Sym &lo, const Sym &hi, matslise::Direction d) {
    GivenMatscsMesh mesh;
    mesh.make = [=](const matslise::Matscs<Sym> *ms) {
        GivenMatscsMesh::Return r;
        r.sectors.push_back(std::make_unique<matslise::Matscs<Sym>::Sector>(ms, lo, hi, d));
        r.matchIndex = 0;
        return r;
    };
    return std::make_unique<matslise::Matscs<Sym>>([n](const Sym &x) { return matrixPotential(n, x); }, n, lo, hi, mesh);
}
