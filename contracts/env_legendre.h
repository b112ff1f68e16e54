// Node and weight tables as named unknowns: their defining property (C02_tables) is not needed where only the same
// projection occurs on both sides.
#pragma once
#include "vc_eigen.h"
#include "util/legendre.h"
namespace matslise::legendre {
    template<int k> Eigen::Array<vc::Sym, k, 1> namedNodes() {
        Eigen::Array<vc::Sym, k, 1> a;
        for (int i = 0; i < k; ++i) a[i] = vc::Sym::var("node" + std::to_string(k) + "_" + std::to_string(i));
        return a;
    }
    template<int k> Eigen::Array<vc::Sym, k, k> namedWeights() {
        Eigen::Array<vc::Sym, k, k> a;
        for (int i = 0; i < k; ++i)
            for (int j = 0; j < k; ++j) a(i, j) = vc::Sym::var("weight" + std::to_string(k) + "_" + std::to_string(i) + "_" + std::to_string(j));
        return a;
    }
#define VC_NAMED(k) \
    template<> inline const Eigen::Array<vc::Sym, k, 1> nodes<vc::Sym, k> = namedNodes<k>(); \
    template<> inline const Eigen::Array<vc::Sym, k, k> weights<vc::Sym, k> = namedWeights<k>();
    VC_NAMED(2) VC_NAMED(4) VC_NAMED(6) VC_NAMED(8) VC_NAMED(10) VC_NAMED(12) VC_NAMED(14) VC_NAMED(16)
#undef VC_NAMED
}
