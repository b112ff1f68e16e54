// legendre.h with symbolic node and weight tables: the projection is the quadrature of f at the mapped nodes, linear in f,
// and asPolynomial rebuilds sum_i c_i h^i P_i^*(u) from it.
#include "vc_eigen.h"
#include "util/legendre.h"
using namespace vc;

template<int k> static Eigen::Array<Sym, k, 1> symNodes() {
    Eigen::Array<Sym, k, 1> r;
    for (int j = 0; j < k; ++j) r[j] = Sym::var("t" + std::to_string(j));
    return r;
}
template<int k> static Eigen::Array<Sym, k, k> symWeights() {
    Eigen::Array<Sym, k, k> r;
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) r(i, j) = Sym::var("w" + std::to_string(i) + "_" + std::to_string(j));
    return r;
}
namespace matslise::legendre {
#define TABLE(k) \
    template<> inline const Eigen::Array<Sym, k, 1> nodes<Sym, k> = symNodes<k>(); \
    template<> inline const Eigen::Array<Sym, k, k> weights<Sym, k> = symWeights<k>();
    TABLE(2) TABLE(4) TABLE(6) TABLE(8) TABLE(10) TABLE(12) TABLE(14) TABLE(16) TABLE(18)
}
using namespace matslise::legendre;

static mpq_class binom(int n, int k) {
    mpz_class r;
    mpz_bin_uiui(r.get_mpz_t(), n, k);
    return r;
}
// coefficient of u^j in the shifted Legendre polynomial P_i^*
static mpq_class shifted(int i, int j) {
    mpq_class r = binom(i, j) * binom(i + j, j);
    return (i + j) % 2 ? mpq_class(-r) : r;
}

template<int n> static void projection() {
    constexpr int k = n + n % 2;
    std::string N = std::to_string(n);
    underContract("legendre::Legendre<Scalar," + N + ">::Legendre, integrate, getCoefficients" + (n <= 16 ? ", asPolynomial" : "") + " (matslise/util/legendre.h)");
    Sym a = Sym::var("a"), b = Sym::var("b");
    assume(lt(a, b));
    Sym c = (a + b) / 2, h = b - a;
    auto t = symNodes<k>();
    auto w = symWeights<k>();
    {
        auto f = [](const Sym &x) { return uf("f", {x}); };
        auto co = getCoefficients<n, Sym>(f, a, b);
        prove("number of coefficients", F(co.size() == n));
        Sym hp(1);
        for (int i = 0; i < n; ++i) {
            Sym q(0);
            for (int j = 0; j < k; ++j) q += w(i, j) * uf("f", {c + t[j] * h / 2});
            prove("c_i (h/2)^i = sum_j w_ij f(x_j), the quadrature at the mapped nodes", eq(co[i] * hp, q));
            hp *= h / 2;
        }
        canary("canary: c_0 is f at the first node", eq(co[0], uf("f", {c + t[0] * h / 2})));
        Legendre<Sym, n> l{f, a, b};
        Sym q(0);
        for (int j = 0; j < k; ++j) q += w(0, j) * uf("f", {c + t[j] * h / 2});
        prove("integrate() is (h/2) sum_j w_0j f(x_j), with w_0 = half of the Gauss weights", eq(l.integrate(), q * h / 2));
        if constexpr (n <= 16) {
            auto p = l.asPolynomial();
            auto co2 = l.getCoefficients();
            Sym u = Sym::var("u"), v(0), H(1);
            for (int i = 0; i < n; ++i) {
                Sym Pi(0), up(1);
                for (int j = 0; j <= i; ++j) {
                    Pi += Sym(shifted(i, j)) * up;
                    up *= u;
                }
                v += co2[i] * H * Pi;
                H *= h;
                prove("getCoefficients of the object agrees", eq(co2[i], co[i]));
            }
            // compare coefficientwise in u (each side is a polynomial in u)
            for (int j = 0; j < n; ++j) {
                Sym want(0), Hh(1);
                for (int i = 0; i < n; ++i) {
                    if (j <= i) want += co2[i] * Hh * Sym(shifted(i, j));
                    Hh *= h;
                }
                prove("asPolynomial is sum_i c_i h^i P_i^*(u), coefficientwise", eq(p[j], want));
            }
            auto again = l.asPolynomial();
            for (int j = 0; j < n; ++j) prove("asPolynomial is stable when asked again", eq(again[j], p[j]));
            if constexpr (n <= 8) prove("asPolynomial(u) = sum_i c_i h^i P_i^*(u)", eq(p(u), v));
        }
    }
    cover("projection n=" + N);
}
template<int n> static void matrixValued() {
    constexpr int k = n + n % 2;
    typedef Eigen::Matrix<Sym, Eigen::Dynamic, Eigen::Dynamic> M;
    Sym a = Sym::var("a"), b = Sym::var("b");
    assume(lt(a, b));
    auto f = [](const Sym &x) {
        M m(2, 2);
        m << uf("f00", {x}), uf("f01", {x}), uf("f10", {x}), uf("f11", {x});
        return m;
    };
    auto co = getCoefficients<n, Sym, M>(f, a, b);
    const char *nm[2][2] = {{"f00", "f01"}, {"f10", "f11"}};
    for (int r = 0; r < 2; ++r)
        for (int s = 0; s < 2; ++s) {
            auto one = getCoefficients<n, Sym>([&](const Sym &x) { return uf(nm[r][s], {x}); }, a, b);
            for (int i = 0; i < n; ++i) prove("matrix valued projection is componentwise", eq(co[i](r, s), one[i]));
        }
    cover("matrix");
}
// The quadrature moments and the reconstruction, composed: if the tables satisfy the moment equations (C02_tables), the
// projection of t^m has the exact coefficients and the polynomial rebuilt is t^m.
static mpq_class moment(int i, int m) { // (2i+1)/2^{i+1} int_{-1}^{1} P_i(t) t^m dt
    // P_i(t) = P_i^*((t+1)/2): expand in t
    std::vector<mpq_class> p(i + 1);
    for (int j = 0; j <= i; ++j) {
        mpq_class c = shifted(i, j);
        for (int q = 0; q < j; ++q) c /= 2;
        for (int e = 0; e <= j; ++e) p[e] += c * binom(j, e);
    }
    mpq_class r = 0;
    for (int e = 0; e <= i; ++e) if ((e + m) % 2 == 0) r += p[e] * mpq_class(2, e + m + 1);
    r *= (2 * i + 1);
    for (int q = 0; q <= i; ++q) r /= 2;
    return r;
}
VC_CASE(lemma) {
    explore("lemma", [] {
        for (int n = 1; n <= 16; ++n)
            for (int m = 0; m < n; ++m) {
                // sum_i M_im 2^i P_i^*(u) = (2u-1)^m, coefficientwise in u
                for (int j = 0; j < n; ++j) {
                    mpq_class v = 0, p2 = 1;
                    for (int i = 0; i < n; ++i) {
                        if (j <= i) v += moment(i, m) * p2 * shifted(i, j);
                        p2 *= 2;
                    }
                    mpq_class want = 0;
                    if (j <= m) {
                        want = binom(m, j);
                        for (int q = 0; q < j; ++q) want *= 2;
                        if ((m - j) % 2) want = -want;
                    }
                    proveExact("lemma: exact moments reproduce every monomial of degree < n", v == want, "n=" + std::to_string(n) + " m=" + std::to_string(m) + " j=" + std::to_string(j));
                }
            }
        for (int i = 0; i < 16; ++i)
            for (int j = 0; j < 16; ++j)
                prove("table of shifted Legendre polynomials (symbolic scalar)", eq(polynomials<Sym>(i, j), j <= i ? Sym(shifted(i, j)) : Sym(0)));
    });
}
VC_CASE(low) { explore("n<=8", [] { projection<1>(); projection<2>(); projection<3>(); projection<4>(); projection<5>(); projection<6>(); projection<7>(); projection<8>(); }); }
VC_CASE(n9) { explore("n=9", [] { projection<9>(); }); }
VC_CASE(n10) { explore("n=10", [] { projection<10>(); }); }
VC_CASE(n11) { explore("n=11", [] { projection<11>(); }); }
VC_CASE(n12) { explore("n=12", [] { projection<12>(); }); }
VC_CASE(n14) { explore("n=14", [] { projection<14>(); }); }
VC_CASE(n16) { explore("n=16", [] { projection<16>(); }); }
VC_CASE(matrix) { explore("matrix", [] { matrixValued<9>(); matrixValued<4>(); matrixValued<16>(); }); }
