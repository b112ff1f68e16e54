#pragma once
#include "vc.h"
#include <Eigen/Dense>

namespace Eigen {
    template<> struct NumTraits<vc::Sym> : GenericNumTraits<vc::Sym> {
        typedef vc::Sym Real;
        typedef vc::Sym NonInteger;
        typedef vc::Sym Nested;
        typedef vc::Sym Literal;
        enum {
            IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1,
            ReadCost = 1, AddCost = 10, MulCost = 10
        };
        static inline Real epsilon() { return vc::Sym(std::numeric_limits<double>::epsilon()); }
        static inline Real dummy_precision() { return vc::Sym(1e-12); }
        static inline Real highest() { return std::numeric_limits<vc::Sym>::max(); }
        static inline Real lowest() { return std::numeric_limits<vc::Sym>::lowest(); }
        static inline int digits10() { return 15; }
    };
    namespace numext {
        template<> EIGEN_STRONG_INLINE vc::Sym mini(const vc::Sym &a, const vc::Sym &b) { return vc::min(a, b); }
        template<> EIGEN_STRONG_INLINE vc::Sym maxi(const vc::Sym &a, const vc::Sym &b) { return vc::max(a, b); }
    }
}
