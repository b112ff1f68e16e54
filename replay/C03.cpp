#include "common.h"
#include <quadmath.h>
#include "util/calculateEta.h"
using namespace nat;

static __float128 exact(int i, double Z_) {
    __float128 Z = Z_;
    if (fabs(Z_) < 120) {
        __float128 t = 1, r = 0;
        if (i > 0) for (int j = 1; j < i; ++j) t *= 1 / (__float128) (2 * j + 1); // 1/(2i-1)!!
        r = t;
        for (int q = 1; q < 200; ++q) {
            if (i == 0) t *= Z / ((2 * q) * (__float128) (2 * q - 1));
            else t *= Z / ((2 * q) * (__float128) (2 * q + 2 * i - 1));
            r += t;
        }
        return r;
    }
    __float128 s = sqrtq(fabsq(Z)), a, b;
    if (Z > 0) a = coshq(s), b = sinhq(s) / s; else a = cosq(s), b = sinq(s) / s;
    if (i == 0) return a;
    for (int j = 2; j <= i; ++j) {
        __float128 c = (a - (2 * j - 3) * b) / Z;
        a = b;
        b = c;
    }
    return b;
}
template<int n> static void one(double Z) {
    auto eta = calculateEta<double, n>(Z);
    for (int i = 0; i < n; ++i) {
        double e = (double) exact(i, Z), scale = 1;
        for (int j = 1; j < i; ++j) scale /= 2 * j + 1;
        double s = std::max(std::abs(e), Z > 1 ? 0. : scale * std::pow(1 + std::abs(Z) / 100, -i / 2.));
        expectClose(eta[i], e, 0, 1e-8 * s, Msg() << "calculateEta<double," << n << ">(" << Z << ")[" << i << "]");
    }
}
static void all(double Z) {
    one<2>(Z); one<5>(Z); one<6>(Z); one<9>(Z); one<10>(Z);
}
NATIVE_SEARCH {
    for (int k = -600; k <= 400 && timeLeft(); ++k)
        for (double d: {-.5, -1e-9, 0., 1e-9, .5}) all(k + d);
    for (double e = 1e-12; e < 1; e *= 3) all(e), all(-e);
    while (timeLeft() && evaluations < 3000000) {
        all(uni(-120, 120));
        all(-std::exp(uni(0, 9)));
        all(std::exp(uni(0, 6)));
        Eigen::Array<double, Eigen::Dynamic, 1> Z(4);
        for (int i = 0; i < 4; ++i) Z[i] = uni(-300, 200);
        auto a = calculateEta<double, 5>(Z);
        for (int i = 0; i < 4; ++i) {
            auto b = calculateEta<double, 5>(Z[i]);
            for (int j = 0; j < 5; ++j) expect(a(j, i) == b[j], Msg() << "array version differs at Z=" << Z[i] << " entry " << j);
        }
    }
    return 0;
}
