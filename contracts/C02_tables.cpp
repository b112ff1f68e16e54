// Every node and weight table compiled into the library, checked exactly (rational arithmetic) against the moment equations
// sum_j w_ij t_j^m = (2i+1)/2^{i+1} int P_i(t) t^m dt  for all i < k, m + i <= 2k - 1, up to the rounding of the table itself.
#define MATSLISE_LONG_DOUBLE
#define MATSLISE_QUADMATH
#include "vc_eigen.h"
#include "util/legendre.h"
using namespace vc;

static mpq_class binom(int n, int k) {
    mpz_class r;
    mpz_bin_uiui(r.get_mpz_t(), n, k);
    return r;
}
static mpq_class shifted(int i, int j) {
    mpq_class r = binom(i, j) * binom(i + j, j);
    return (i + j) % 2 ? mpq_class(-r) : r;
}
static mpq_class moment(int i, int m) {
    std::vector<mpq_class> p(i + 1);
    for (int j = 0; j <= i; ++j) {
        mpq_class c = shifted(i, j);
        for (int q = 0; q < j; ++q) c /= 2;
        for (int e = 0; e <= j; ++e) p[e] += c * binom(j, e);
    }
    mpq_class r = 0;
    for (int e = 0; e <= i; ++e) if ((e + m) % 2 == 0) r += p[e] * mpq_class(2, e + m + 1);
    r *= (2 * i + 1);
    for (int q = 0; q <= i; ++q) r /= 2;
    return r;
}
template<typename S> static mpq_class exact(const S &v) { // exact value of a binary floating point number
    S x = v;
    mpq_class r = 0;
    for (int i = 0; i < 6; ++i) {
        double d = static_cast<double>(x);
        r += mpq_class(d);
        x -= S(d);
    }
    return r;
}
template<typename S, int k> static void table(const std::string &name, int digits) {
    mpq_class eps = 1;
    for (int i = 0; i < digits; ++i) eps /= 2;
    std::vector<mpq_class> t(k);
    std::vector<std::vector<mpq_class>> w(k, std::vector<mpq_class>(k));
    for (int j = 0; j < k; ++j) t[j] = exact<S>(matslise::legendre::nodes<S, k>[j]);
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) w[i][j] = exact<S>(matslise::legendre::weights<S, k>(i, j));
    for (int j = 0; j < k; ++j) {
        proveExact("nodes lie inside (-1,1) in increasing order", t[j] > -1 && t[j] < 1 && (j == 0 || t[j - 1] < t[j]), name + " k=" + std::to_string(k) + " node " + std::to_string(j));
        proveExact("weights of the constant are positive", w[0][j] > 0, name + " k=" + std::to_string(k) + " weight " + std::to_string(j));
    }
    for (int i = 0; i < k; ++i) {
        mpq_class norm = 0;
        for (int j = 0; j < k; ++j) norm += ::abs(w[i][j]);
        std::vector<mpq_class> pw(k, mpq_class(1));
        for (int m = 0; m + i <= 2 * k - 1; ++m) {
            mpq_class s = 0;
            for (int j = 0; j < k; ++j) {
                s += w[i][j] * pw[j];
                pw[j] *= t[j];
            }
            mpq_class err = ::abs(mpq_class(s - moment(i, m)));
            proveExact("moment equation up to the rounding of the table entries", err <= 10 * (m + 3) * eps * norm,
                       name + " k=" + std::to_string(k) + " i=" + std::to_string(i) + " m=" + std::to_string(m) + " error " + std::to_string(mpq_class(err / (eps * norm)).get_d()) + " units of eps*sum|w|");
        }
        // each weight separately: w_ij = (2i+1)/2^i P_i(t_j) w_0j
        for (int j = 0; j < k; ++j) {
            mpq_class p = 0, u = (t[j] + 1) / 2, up = 1;
            for (int e = 0; e <= i; ++e) {
                p += shifted(i, e) * up;
                up *= u;
            }
            p *= (2 * i + 1);
            for (int q = 0; q < i; ++q) p /= 2;
            mpq_class err = ::abs(mpq_class(w[i][j] - p * w[0][j]));
            proveExact("weight w_ij = (2i+1)/2^i P_i(t_j) w_0j up to rounding", err <= 10 * (4 + i * (i + 1)) * eps * norm,
                       name + " k=" + std::to_string(k) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + " error " + std::to_string(mpq_class(err / (eps * norm)).get_d()) + " units of eps*sum|w|");
        }
    }
    note("table " + name + " k=" + std::to_string(k), "checked");
}
template<typename S> static void polys(const std::string &name) {
    for (int i = 0; i < 16; ++i)
        for (int j = 0; j < 16; ++j)
            proveExact("table of shifted Legendre polynomials is exact", exact<S>(matslise::legendre::polynomials<S>(i, j)) == (j <= i ? shifted(i, j) : mpq_class(0)), name + " P*_" + std::to_string(i) + " u^" + std::to_string(j));
}
template<typename S> static void all(const std::string &name, int digits) {
    underContract("legendre::nodes/weights/polynomials<" + name + "> (matslise/util/legendre_data.h, legendre.h)");
    table<S, 2>(name, digits); table<S, 4>(name, digits); table<S, 6>(name, digits); table<S, 8>(name, digits);
    table<S, 10>(name, digits); table<S, 12>(name, digits); table<S, 14>(name, digits); table<S, 16>(name, digits); table<S, 18>(name, digits);
    polys<S>(name);
}
VC_CASE(tables_double) { explore("double", [] { all<double>("double", 53); }); }
VC_CASE(tables_long_double) { explore("long double", [] { all<long double>("long double", 63); }); }
VC_CASE(tables_float128) { explore("float128", [] { all<boost::multiprecision::float128>("float128", 112); }); }
