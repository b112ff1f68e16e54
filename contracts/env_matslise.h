// Common part of the contracts on the scalar problem.  The callees named here are replaced by their contracts
// (explicit specialisations on the symbolic scalar); each of them is verified against that contract elsewhere.
#pragma once
#include "vc_eigen.h"
#include "env_legendre.h"
#include "matslise.h"
#include "matslise/matslise_formulas.h"
#include "util/legendre.h"
#include "util/calculateEta.h"
#include "util/constants.h"

using vc::Sym;
using vc::F;

// contract of calculateEta (C03): entry i is eta_i(Z)
inline Sym etaOf(int i, const Sym &Z) { return vc::uf("eta" + std::to_string(i), {Z}); }

template<int n> Eigen::Array<Sym, n, 1> etaContract(const Sym &Z) {
    Eigen::Array<Sym, n, 1> r;
    for (int i = 0; i < n; ++i) r[i] = etaOf(i, Z);
    return r;
}
#ifndef ENV_REAL_ETA
template<> inline Eigen::Array<Sym, MATSLISE_ETA_delta, 1> calculateEta<Sym, MATSLISE_ETA_delta>(Sym Z) { return etaContract<MATSLISE_ETA_delta>(Z); }
template<> inline Eigen::Array<Sym, MATSLISE_ETA_h, 1> calculateEta<Sym, MATSLISE_ETA_h>(Sym Z) { return etaContract<MATSLISE_ETA_h>(Z); }
#endif

// contract of calculate_tcoeff_matrix (C04_formulas): a function of h and v1..v15
inline Sym tcoeffOf(bool atEnd, int i, int j, int r, int c, const Sym &h, const std::array<Sym, MATSLISE_N> &vs) {
    std::vector<Sym> a{h};
    for (int k = 1; k < MATSLISE_N; ++k) a.push_back(vs[k]);
    return vc::uf(std::string(atEnd ? "tH" : "tD") + "_" + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(r) + std::to_string(c), a);
}
template<> inline void calculate_tcoeff_matrix<Sym>(
        const Sym &h, const std::array<Sym, MATSLISE_N> &vs,
        Eigen::Array<Eigen::Matrix<Sym, 2, 2, Eigen::DontAlign>, MATSLISE_ETA_delta, MATSLISE_HMAX_delta, Eigen::DontAlign> &tDelta,
        Eigen::Matrix<Sym, 2, 2, Eigen::DontAlign> *tH) {
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            for (int i = 0; i < MATSLISE_ETA_delta; ++i)
                for (int j = 0; j < MATSLISE_HMAX_delta; ++j) tDelta(i, j)(r, c) = tcoeffOf(false, i, j, r, c, h, vs);
            for (int i = 0; i < MATSLISE_ETA_h; ++i) tH[i](r, c) = tcoeffOf(true, i, 0, r, c, h, vs);
        }
}

#ifdef ENV_HALF_TURNS
template<> inline const Sym constants<Sym>::PI = (vc::halfTurns(), vc::PI());
#else
template<> inline const Sym constants<Sym>::PI = vc::PI();
#endif

// a mesh that is given from outside
struct GivenMesh : matslise::sector_builder::SectorBuilder<matslise::Matslise<Sym>> {
    typedef matslise::sector_builder::SectorBuilderReturn<matslise::Matslise<Sym>> Return;
    std::function<Return(const matslise::Matslise<Sym> *)> make;

    Return operator()(const matslise::Matslise<Sym> *ms, const Sym &, const Sym &) const override { return make(ms); }
};

// an object with one sector [lo, hi], built by the real constructors
inline std::unique_ptr<matslise::Matslise<Sym>> oneSector(const Sym &lo, const Sym &hi, matslise::Direction d) {
    GivenMesh mesh;
    mesh.make = [=](const matslise::Matslise<Sym> *ms) {
        GivenMesh::Return r;
        r.sectors.push_back(std::make_unique<matslise::Matslise<Sym>::Sector>(ms, lo, hi, d));
        r.matchIndex = 0;
        return r;
    };
    return std::make_unique<matslise::Matslise<Sym>>([](const Sym &x) { return vc::uf("V", {x}); }, lo, hi, Sym(1e-8), mesh);
}
