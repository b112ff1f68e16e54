// Exact scalars for polynomial identities: the free (or commutative) Q-algebra over letters, with two central
// indeterminates h and d.  The formula templates of /repo are instantiated with it, so that what they compute
// is read off as a polynomial instead of as a term.
#pragma once

#include <gmpxx.h>
#include <map>
#include <string>
#include <sstream>
#include <algorithm>
#include <Eigen/Core>

namespace ring {
    struct Mono {
        int h = 0, d = 0;
        std::string w; // letters 'a'+k stand for v_k

        bool operator<(const Mono &o) const {
            return h != o.h ? h < o.h : d != o.d ? d < o.d : w < o.w;
        }

        bool operator==(const Mono &o) const { return h == o.h && d == o.d && w == o.w; }
    };

    typedef std::map<Mono, mpq_class> Terms;

    // set when the code divided by something that is not a nonzero constant
    inline bool &notPolynomial() {
        static bool b = false;
        return b;
    }

    // A value is an immutable term map that is never freed: the scalar stays trivially destructible, which keeps
    // the instantiation of formulas with thousands of operations compilable.
    template<bool commutative>
    class Poly {
        const Terms *p;

        static const Terms *zero() {
            static Terms z;
            return &z;
        }

        static const Terms *make(Terms &&t) {
            for (auto it = t.begin(); it != t.end();)
                if (it->second == 0) it = t.erase(it); else ++it;
            return t.empty() ? zero() : new Terms(std::move(t));
        }

        static const Terms *one(int h, int d, const std::string &w, const mpq_class &q) {
            Terms t;
            Mono m;
            m.h = h;
            m.d = d;
            m.w = w;
            t[m] = q;
            return make(std::move(t));
        }

    public:
        Poly() noexcept : p(zero()) {}

        explicit Poly(Terms &&t) : p(make(std::move(t))) {}

        template<typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
        __attribute__((noinline)) Poly(T v) noexcept : p(one(0, 0, "", mpq_class((long) v))) {}

        Poly(double v) noexcept : p(one(0, 0, "", mpq_class(v))) {}

        Poly(const mpq_class &q) noexcept : p(one(0, 0, "", q)) {}

        const Terms &terms() const { return *p; }

        static Poly letter(int k) {
            Poly r;
            r.p = one(0, 0, std::string(1, (char) ('a' + k)), 1);
            return r;
        }

        static Poly H(int e = 1) {
            Poly r;
            r.p = one(e, 0, "", 1);
            return r;
        }

        static Poly D(int e = 1) {
            Poly r;
            r.p = one(0, e, "", 1);
            return r;
        }

        __attribute__((noinline)) static const Terms *sum(const Terms &a, const Terms &b, int sign) {
            Terms t = a;
            for (auto &x: b) {
                auto &c = t[x.first];
                if (sign > 0) c += x.second; else c -= x.second;
            }
            return make(std::move(t));
        }

        __attribute__((noinline)) static const Terms *product(const Terms &a, const Terms &b) {
            Terms t;
            for (auto &x: a)
                for (auto &y: b) {
                    Mono m;
                    m.h = x.first.h + y.first.h;
                    m.d = x.first.d + y.first.d;
                    m.w = x.first.w + y.first.w;
                    if (commutative) std::sort(m.w.begin(), m.w.end());
                    t[m] += x.second * y.second;
                }
            return make(std::move(t));
        }

        __attribute__((noinline)) static const Terms *quotient(const Terms &a, const Terms &b) {
            if (b.size() != 1 || b.begin()->first.h || b.begin()->first.d || !b.begin()->first.w.empty())
            {
                notPolynomial() = true;
                return zero();
            }
            Terms t = a;
            for (auto &x: t) x.second /= b.begin()->second;
            return make(std::move(t));
        }

        friend Poly operator+(const Poly &a, const Poly &b) noexcept { Poly r; r.p = sum(*a.p, *b.p, 1); return r; }
        friend Poly operator-(const Poly &a, const Poly &b) noexcept { Poly r; r.p = sum(*a.p, *b.p, -1); return r; }
        friend Poly operator*(const Poly &a, const Poly &b) noexcept { Poly r; r.p = product(*a.p, *b.p); return r; }
        friend Poly operator/(const Poly &a, const Poly &b) noexcept { Poly r; r.p = quotient(*a.p, *b.p); return r; }
        Poly operator-() const noexcept { return Poly() - *this; }
        Poly &operator+=(const Poly &o) noexcept { return *this = *this + o; }
        Poly &operator-=(const Poly &o) noexcept { return *this = *this - o; }
        Poly &operator*=(const Poly &o) noexcept { return *this = *this * o; }
        Poly &operator/=(const Poly &o) noexcept { return *this = *this / o; }
        friend bool operator==(const Poly &a, const Poly &b) { return *a.p == *b.p; }
        friend bool operator!=(const Poly &a, const Poly &b) { return !(*a.p == *b.p); }

        // d/dd
        Poly derivative() const {
            Terms r;
            for (auto &t: *p)
                if (t.first.d) {
                    Mono m = t.first;
                    --m.d;
                    r[m] += t.second * t.first.d;
                }
            return Poly(std::move(r));
        }

        // multiply by d^e (e may be negative)
        Poly shift(int e) const {
            Terms r;
            for (auto &t: *p) {
                Mono m = t.first;
                m.d += e;
                r[m] = t.second;
            }
            return Poly(std::move(r));
        }

        // d := h
        Poly atEnd() const {
            Terms r;
            for (auto &t: *p) {
                Mono m = t.first;
                m.h += m.d;
                m.d = 0;
                r[m] += t.second;
            }
            return Poly(std::move(r));
        }

        // smallest h+d exponent of a term (1000: zero)
        int order() const {
            int o = 1000;
            for (auto &t: *p) o = std::min(o, t.first.h + t.first.d);
            return o;
        }

        int degree() const {
            int o = -1000;
            for (auto &t: *p) o = std::max(o, t.first.h + t.first.d);
            return o;
        }

        // the letters v_k with k >= first set to zero
        Poly without(int first) const {
            Terms r;
            for (auto &t: *p) {
                bool keep = true;
                for (char l: t.first.w)
                    if (l - 'a' >= first) keep = false;
                if (keep) r.insert(t);
            }
            return Poly(std::move(r));
        }

        Poly truncate(int below) const {
            Terms r;
            for (auto &t: *p)
                if (t.first.h + t.first.d < below) r.insert(t);
            return Poly(std::move(r));
        }

        std::string show(int max = 6) const {
            std::ostringstream o;
            int k = 0;
            for (auto &t: *p) {
                if (k++ == max) {
                    o << " + ... (" << p->size() << " terms)";
                    break;
                }
                o << (k > 1 ? " + " : "") << t.second;
                if (t.first.h) o << " h^" << t.first.h;
                if (t.first.d) o << " delta^" << t.first.d;
                for (char l: t.first.w) o << " v" << (int) (l - 'a');
            }
            return p->empty() ? "0" : o.str();
        }
    };
}

namespace Eigen {
    template<bool b> struct NumTraits<ring::Poly<b>> : GenericNumTraits<int> {
        typedef ring::Poly<b> Real;
        typedef ring::Poly<b> NonInteger;
        typedef ring::Poly<b> Nested;
        typedef ring::Poly<b> Literal;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1000, AddCost = 1000, MulCost = 1000 };
        static inline Real epsilon() { return Real(0); }
        static inline Real dummy_precision() { return Real(0); }
        static inline int digits10() { return 0; }
    };
}
