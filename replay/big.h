// 700-bit numbers with trivial destruction (values are never freed), so that the large formulas compile quickly
#pragma once
#include <gmpxx.h>
#include <type_traits>
#include <Eigen/Core>

struct Big {
    mpf_class *p;
    static mpf_class *mk(const mpf_class &v) noexcept { return new mpf_class(v, 700); }
    Big() noexcept : p(mk(0)) {}
    template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
    Big(T v) noexcept { if constexpr (std::is_integral_v<T>) p = mk(mpf_class((long) v, 700)); else p = mk(mpf_class((double) v, 700)); }
    explicit Big(mpf_class *q) noexcept : p(q) {}
    __attribute__((noinline)) friend Big operator+(const Big &a, const Big &b) noexcept { Big r(mk(*a.p)); *r.p += *b.p; return r; }
    __attribute__((noinline)) friend Big operator-(const Big &a, const Big &b) noexcept { Big r(mk(*a.p)); *r.p -= *b.p; return r; }
    __attribute__((noinline)) friend Big operator*(const Big &a, const Big &b) noexcept { Big r(mk(*a.p)); *r.p *= *b.p; return r; }
    __attribute__((noinline)) friend Big operator/(const Big &a, const Big &b) noexcept { Big r(mk(*a.p)); *r.p /= *b.p; return r; }
    Big operator-() const noexcept { return Big(0) - *this; }
    Big &operator+=(const Big &o) noexcept { return *this = *this + o; }
    Big &operator-=(const Big &o) noexcept { return *this = *this - o; }
    Big &operator*=(const Big &o) noexcept { return *this = *this * o; }
    Big &operator/=(const Big &o) noexcept { return *this = *this / o; }
    friend bool operator==(const Big &a, const Big &b) noexcept { return *a.p == *b.p; }
    friend bool operator!=(const Big &a, const Big &b) noexcept { return *a.p != *b.p; }
    friend bool operator<(const Big &a, const Big &b) noexcept { return *a.p < *b.p; }
    friend bool operator>(const Big &a, const Big &b) noexcept { return *a.p > *b.p; }
    double d() const { return p->get_d(); }
    double log2abs() const { long e; double m = mpf_get_d_2exp(&e, p->get_mpf_t()); return m == 0 ? -1e9 : std::log2(std::abs(m)) + e; }
};
namespace Eigen {
    template<> struct NumTraits<Big> : GenericNumTraits<double> {
        typedef Big Real; typedef Big NonInteger; typedef Big Nested; typedef Big Literal;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 100, AddCost = 100, MulCost = 100 };
        static inline Real epsilon() { return Real(0); }
        static inline Real dummy_precision() { return Real(0); }
        static inline int digits10() { return 0; }
    };
}
