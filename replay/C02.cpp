#include "common.h"
#include "util/legendre.h"
#include <boost/multiprecision/float128.hpp>
using namespace nat;
using namespace matslise::legendre;

template<int n> static void one() {
    double a = uni(-3, 3), h = std::exp(uni(-3, 1)), b = a + h;
    int d = irand(0, n - 1);
    std::vector<double> g(d + 1);
    for (auto &x: g) x = uni(-1, 1);
    auto f = [&](double x) {
        double u = (x - a) / h, r = 0;
        for (int i = d; i >= 0; --i) r = r * u + g[i];
        return r;
    };
    Legendre<double, n> l{f, a, b};
    std::string t = Msg() << "n=" << n << " on [" << a << "," << b << "], polynomial of degree " << d;
    const auto &c = l.getCoefficients();
    // value from the coefficients through the Legendre recursion
    for (int s = 0; s < 3; ++s) {
        double u = uni(0, 1), z = 2 * u - 1, v = 0, H = 1, p0 = 1, p1 = z;
        for (int i = 0; i < n; ++i) {
            v += c[i] * H * p0;
            H *= h;
            double p2 = ((2 * i + 3) * z * p1 - (i + 1) * p0) / (i + 2);
            p0 = p1;
            p1 = p2;
        }
        expectClose(v, f(a + u * h), 0, 1e-9, "sum of Legendre terms at u=" + std::to_string(u) + ", " + t);
    }
    auto c2 = getCoefficients<n, double>(f, a, b);
    for (int i = 0; i < n; ++i) expect(std::abs(c[i] - c2[i]) <= 1e-9 * (1 + std::abs(c[i])), "getCoefficients differs from the object, " + t);
    double I = 0;
    for (int i = 0; i <= d; ++i) I += g[i] / (i + 1);
    expectClose(2 * l.integrate(), I * h, 0, 1e-9 * h, "integrate() (half of the integral), " + t);
    if constexpr (n <= 12) {
        const auto &p = l.asPolynomial();
        for (int s = 0; s < 3; ++s) {
            double u = uni(0, 1);
            expectClose(p(u), f(a + u * h), 0, 1e-7, "asPolynomial at u=" + std::to_string(u) + ", " + t);
        }
    }
    // componentwise
    auto F = [&](double x) {
        Eigen::MatrixXd m(2, 2);
        m << f(x), 2 * f(x), x, 1;
        return m;
    };
    auto cm = getCoefficients<n, double, Eigen::MatrixXd>(F, a, b);
    for (int i = 0; i < n; ++i) {
        expectClose(cm[i](0, 0), c[i], 1e-9, 1e-9 * std::abs(std::pow(h, -i)), "matrix valued projection, " + t);
        expectClose(cm[i](0, 1), 2 * c[i], 1e-9, 1e-9 * std::abs(std::pow(h, -i)), "matrix valued projection, " + t);
    }
}
template<typename S, int k> static void tab(const char *nm, double tol) {
    for (int i = 0; i < k; ++i) {
        std::vector<S> pw(k, S(1));
        for (int m = 0; m + i < 2 * k; ++m) {
            S s(0), n(0);
            for (int j = 0; j < k; ++j) {
                s += weights<S, k>(i, j) * pw[j];
                n += weights<S, k>(i, j) < 0 ? S(-weights<S, k>(i, j)) : weights<S, k>(i, j);
                pw[j] *= nodes<S, k>[j];
            }
            if (m < i || (m + i) % 2) {
                double r = std::abs((double) (s / n));
                expect(r <= tol, Msg() << "table " << nm << " k=" << k << ": P_" << i << " is not orthogonal to t^" << m << ", relative error " << r);
            }
        }
        // zeroth moment of P_i^2
        S q(0);
        for (int j = 0; j < k; ++j) q += weights<S, k>(i, j) * weights<S, k>(i, j) / weights<S, k>(0, j);
        S want = S(2 * i + 1) * S(2);
        for (int e = 0; e <= i; ++e) want /= 4;
        want *= 2; // (2i+1)^2/4^i * sum (w/2) P_i^2 = (2i+1)/4^i
        want = S(2 * i + 1);
        for (int e = 0; e < i; ++e) want /= 4;
        double r = std::abs((double) (q / want - S(1)));
        expect(r <= tol * 10, Msg() << "table " << nm << " k=" << k << ": norm of P_" << i << " wrong by a relative " << r);
    }
}
template<typename S> static void tabs(const char *n, double tol) {
    tab<S, 2>(n, tol); tab<S, 4>(n, tol); tab<S, 6>(n, tol); tab<S, 8>(n, tol); tab<S, 10>(n, tol); tab<S, 12>(n, tol); tab<S, 14>(n, tol); tab<S, 16>(n, tol); tab<S, 18>(n, tol);
}
NATIVE_SEARCH {
    tabs<double>("double", 1e-13);
    tabs<long double>("long double", 1e-16);
    tabs<boost::multiprecision::float128>("float128", 1e-31);
    while (timeLeft() && evaluations < 2000000) {
        one<1>(); one<2>(); one<3>(); one<4>(); one<5>(); one<6>(); one<7>(); one<8>(); one<9>(); one<10>(); one<11>(); one<12>(); one<14>(); one<16>(); one<18>();
    }
    return 0;
}
