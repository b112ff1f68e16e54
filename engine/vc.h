// Deductive verification by symbolic instantiation of C++ templates.
//
// vc::Sym is a scalar type whose values are terms over the mathematical reals.  The templates of /repo are
// compiled with Scalar = vc::Sym; running them executes the real statements on terms.  A branch on a term
// forks the execution (every feasible side is run), contracts are stated with assume()/prove(), and each
// prove() on each path is an obligation   path condition + axioms |= goal.
#pragma once

#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace vc {
    typedef uint32_t Id;

    struct PathEnd {
        // not derived from std::exception on purpose
    };

    class Sym;

    // ---- formulas -------------------------------------------------------------------------------------
    struct F {
        Id id; // index in the formula arena, 0 = false, 1 = true
        F() : id(1) {}
        explicit F(Id id_) : id(id_) {}
        F(bool b) : id(b ? 1 : 0) {}
        template<typename T, typename = std::enable_if_t<!std::is_same_v<T, bool> && !std::is_integral_v<T>>>
        F(const T *) = delete;
    };

    F operator&&(F a, F b);
    F operator||(F a, F b);
    F operator!(F a);
    inline F implies(F a, F b) { return !a || b; }
    inline F iff(F a, F b) { return implies(a, b) && implies(b, a); }

    // ---- terms ----------------------------------------------------------------------------------------
    Id mkConst(const mpq_class &q);
    Id mkVar(const std::string &name, bool isInt);
    Id mkFresh(const std::string &hint, bool isInt);
    Id mkAdd(Id a, Id b);
    Id mkMul(Id a, Id b);
    Id mkDiv(Id a, Id b);
    Id mkNeg(Id a);
    Id mkApp(const std::string &fn, const std::vector<Id> &args, bool isInt = false);
    bool isConst(Id a);
    const mpq_class &constValue(Id a);
    bool isIntSort(Id a);
    F mkEq(Id a, Id b);
    F mkLt(Id a, Id b);
    F mkLe(Id a, Id b);
    bool decide(F f);
    long concretizeInt(Id a); // fork over the integer values an (integer-valued) term can take
    std::string show(Id a);
    std::string show(F f);
    mpq_class ratOf(double d);
    mpq_class ratOf(long double d);
    Id initTerm(Id a);        // an uninitialised scalar that is read becomes an arbitrary value

    constexpr Id UNINIT = 0;

    class SInt;

    class Sym {
    public:
        Id id;

        Sym() : id(UNINIT) {}

        template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
        Sym(T v) : id(mkConst(mpq_class(static_cast<long>(v)))) {}

        Sym(double v) : id(mkConst(ratOf(v))) {}

        Sym(float v) : id(mkConst(ratOf((double) v))) {}

        Sym(long double v) : id(mkConst(ratOf(v))) {}

        Sym(const mpq_class &q) : id(mkConst(q)) {}

        inline Sym(const SInt &);

        static Sym raw(Id i) {
            Sym s;
            s.id = i;
            return s;
        }

        static Sym var(const std::string &name) { return raw(mkVar(name, false)); }

        static Sym fresh(const std::string &hint) { return raw(mkFresh(hint, false)); }

        Id t() const { return id == UNINIT ? (const_cast<Sym *>(this)->id = initTerm(id)) : id; }

        explicit operator int() const;
        explicit operator long() const;
        explicit operator unsigned long() const { return (unsigned long) (long) *this; }
        explicit operator long long() const { return (long) *this; }
        explicit operator double() const;
        explicit operator long double() const { return (double) *this; }

        Sym &operator+=(const Sym &o) { id = mkAdd(t(), o.t()); return *this; }
        Sym &operator-=(const Sym &o) { id = mkAdd(t(), mkNeg(o.t())); return *this; }
        Sym &operator*=(const Sym &o) { id = mkMul(t(), o.t()); return *this; }
        Sym &operator/=(const Sym &o) { id = mkDiv(t(), o.t()); return *this; }
        Sym operator-() const { return raw(mkNeg(t())); }
        Sym operator+() const { return *this; }
        Sym &operator++() { return *this += Sym(1); }
        Sym &operator--() { return *this -= Sym(1); }
        Sym operator++(int) { Sym r = *this; ++*this; return r; }
        Sym operator--(int) { Sym r = *this; --*this; return r; }
    };

#define VC_SYM_OP(op, expr) \
    inline Sym operator op(const Sym &a, const Sym &b) { return expr; } \
    template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> \
    inline Sym operator op(const Sym &a, T b_) { Sym b(b_); return expr; } \
    template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> \
    inline Sym operator op(T a_, const Sym &b) { Sym a(a_); return expr; }
    VC_SYM_OP(+, Sym::raw(mkAdd(a.t(), b.t())))
    VC_SYM_OP(-, Sym::raw(mkAdd(a.t(), mkNeg(b.t()))))
    VC_SYM_OP(*, Sym::raw(mkMul(a.t(), b.t())))
    VC_SYM_OP(/, Sym::raw(mkDiv(a.t(), b.t())))
#undef VC_SYM_OP
#define VC_SYM_CMP(op, expr) \
    inline bool operator op(const Sym &a, const Sym &b) { return decide(expr); } \
    template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> \
    inline bool operator op(const Sym &a, T b_) { Sym b(b_); return decide(expr); } \
    template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> \
    inline bool operator op(T a_, const Sym &b) { Sym a(a_); return decide(expr); }
    VC_SYM_CMP(==, mkEq(a.t(), b.t()))
    VC_SYM_CMP(!=, !mkEq(a.t(), b.t()))
    VC_SYM_CMP(<, mkLt(a.t(), b.t()))
    VC_SYM_CMP(>, mkLt(b.t(), a.t()))
    VC_SYM_CMP(<=, mkLe(a.t(), b.t()))
    VC_SYM_CMP(>=, mkLe(b.t(), a.t()))
#undef VC_SYM_CMP

    // a symbolic machine integer, treated as a mathematical integer
    class SInt {
    public:
        Id id;

        SInt() : id(UNINIT) {}

        template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
        SInt(T v) : id(mkConst(mpq_class(static_cast<long>(v)))) {}

        explicit SInt(const Sym &s);  // C++ conversion: truncation
        explicit SInt(double v) : id(mkConst(mpq_class((long) v))) {}

        static SInt raw(Id i) {
            SInt s;
            s.id = i;
            return s;
        }

        static SInt var(const std::string &name) { return raw(mkVar(name, true)); }

        Id t() const { return id == UNINIT ? (const_cast<SInt *>(this)->id = mkFresh("uninit", true)) : id; }

        operator long() const;
        explicit operator bool() const { return decide(!mkEq(t(), mkConst(0))); }

        SInt &operator+=(const SInt &o) { id = mkAdd(t(), o.t()); return *this; }
        SInt &operator-=(const SInt &o) { id = mkAdd(t(), mkNeg(o.t())); return *this; }
        SInt &operator*=(const SInt &o) { id = mkMul(t(), o.t()); return *this; }
        SInt &operator/=(const SInt &o);
        SInt &operator++() { return *this += SInt(1); }
        SInt &operator--() { return *this -= SInt(1); }
        SInt operator++(int) { SInt r = *this; ++*this; return r; }
        SInt operator--(int) { SInt r = *this; --*this; return r; }
        SInt operator-() const { return raw(mkNeg(t())); }
    };

    inline Sym::Sym(const SInt &i) : id(i.t()) {}

    SInt divTrunc(const SInt &a, const SInt &b);
    SInt modTrunc(const SInt &a, const SInt &b);

    template<typename T> struct is_symint_arg : std::integral_constant<bool, std::is_integral_v<T> || std::is_same_v<T, SInt>> {};

#define VC_SINT_OP(op, expr) \
    inline SInt operator op(const SInt &a, const SInt &b) { return expr; } \
    template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> \
    inline SInt operator op(const SInt &a, T b_) { SInt b(b_); return expr; } \
    template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> \
    inline SInt operator op(T a_, const SInt &b) { SInt a(a_); return expr; }
    VC_SINT_OP(+, SInt::raw(mkAdd(a.t(), b.t())))
    VC_SINT_OP(-, SInt::raw(mkAdd(a.t(), mkNeg(b.t()))))
    VC_SINT_OP(*, SInt::raw(mkMul(a.t(), b.t())))
    VC_SINT_OP(/, divTrunc(a, b))
    VC_SINT_OP(%, modTrunc(a, b))
#undef VC_SINT_OP
#define VC_SINT_CMP(op, expr) \
    inline bool operator op(const SInt &a, const SInt &b) { return decide(expr); } \
    template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> \
    inline bool operator op(const SInt &a, T b_) { SInt b(b_); return decide(expr); } \
    template<typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> \
    inline bool operator op(T a_, const SInt &b) { SInt a(a_); return decide(expr); }
    VC_SINT_CMP(==, mkEq(a.t(), b.t()))
    VC_SINT_CMP(!=, !mkEq(a.t(), b.t()))
    VC_SINT_CMP(<, mkLt(a.t(), b.t()))
    VC_SINT_CMP(>, mkLt(b.t(), a.t()))
    VC_SINT_CMP(<=, mkLe(a.t(), b.t()))
    VC_SINT_CMP(>=, mkLe(b.t(), a.t()))
#undef VC_SINT_CMP
#define VC_MIX_OP(op) \
    inline Sym operator op(const SInt &a, const Sym &b) { return Sym(a) op b; } \
    inline Sym operator op(const Sym &a, const SInt &b) { return a op Sym(b); } \
    inline Sym operator op(const SInt &a, double b) { return Sym(a) op Sym(b); } \
    inline Sym operator op(double a, const SInt &b) { return Sym(a) op Sym(b); }
    VC_MIX_OP(+) VC_MIX_OP(-) VC_MIX_OP(*) VC_MIX_OP(/)
#undef VC_MIX_OP
#define VC_MIX_CMP(op) \
    inline bool operator op(const SInt &a, const Sym &b) { return Sym(a) op b; } \
    inline bool operator op(const Sym &a, const SInt &b) { return a op Sym(b); }
    VC_MIX_CMP(==) VC_MIX_CMP(!=) VC_MIX_CMP(<) VC_MIX_CMP(>) VC_MIX_CMP(<=) VC_MIX_CMP(>=)
#undef VC_MIX_CMP
    inline SInt &SInt::operator/=(const SInt &o) { *this = divTrunc(*this, o); return *this; }
    SInt abs(const SInt &);

    std::ostream &operator<<(std::ostream &, const Sym &);
    std::ostream &operator<<(std::ostream &, const SInt &);

    // ---- the mathematical functions the code calls on Scalar -------------------------------------------
    Sym abs(const Sym &);
    // x = whole + rest, whole: the integer multiples of integers
    void splitInteger(const Sym &x, Sym &whole, Sym &rest);
    Sym fabs(const Sym &);
    Sym sqrt(const Sym &);
    Sym sin(const Sym &);
    Sym cos(const Sym &);
    Sym tan(const Sym &);
    Sym atan(const Sym &);
    Sym atan2(const Sym &, const Sym &);
    Sym sinh(const Sym &);
    Sym cosh(const Sym &);
    Sym exp(const Sym &);
    Sym log(const Sym &);
    Sym floor(const Sym &);
    Sym ceil(const Sym &);
    Sym round(const Sym &);
    Sym trunc(const Sym &);
    Sym pow(const Sym &, const Sym &);
    Sym hypot(const Sym &, const Sym &);
    inline Sym pow(const Sym &a, int b) { return pow(a, Sym(b)); }
    inline Sym pow(const Sym &a, double b) { return pow(a, Sym(b)); }
    inline bool isnan(const Sym &) { return false; }
    inline bool isfinite(const Sym &) { return true; }
    inline bool isinf(const Sym &) { return false; }
    Sym min(const Sym &, const Sym &);
    Sym max(const Sym &, const Sym &);
    Sym fmin(const Sym &, const Sym &);
    Sym fmax(const Sym &, const Sym &);
    inline Sym fma(const Sym &a, const Sym &b, const Sym &c) { return a * b + c; }
    inline bool signbit(const Sym &a) { return a < Sym(0); }
    Sym PI();
    void cancelFactors(); // (p * b) / b is p, where b is provably not zero
    bool factor(const Sym &p, const Sym &f, Sym &q); // p is q * f, by structure
    void halfTurns(); // measure angles in half turns from here on: PI() = 1
    // sign of a term (-1, 0, 1; 2: not determined) from the signs of its atoms
    int signOf(const Sym &);
    // value at a sample point, NAN where it cannot be computed
    double sampleAt(const Sym &s, const std::function<double(const std::string &)> &value);

    // uninterpreted function of the contract language (congruence only, plus the axioms registered for it)
    inline Sym uf(const std::string &fn, const std::vector<Sym> &args) {
        std::vector<Id> ids;
        for (auto &a: args) ids.push_back(a.t());
        return Sym::raw(mkApp(fn, ids));
    }

    // axiom schema: called for every application of fn occurring in a query / every pair of applications
    typedef std::function<F(const std::vector<Sym> &args, const Sym &value)> Axiom1;
    typedef std::function<F(const std::vector<Sym> &, const Sym &, const std::vector<Sym> &, const Sym &)> Axiom2;
    void addAxiom(const std::string &fn, Axiom1 ax);
    void addPairAxiom(const std::string &fn, Axiom2 ax);
    // in the normaliser replace value^2 by the given term (value is an atom)
    void addSquareRule(const Sym &atom, const Sym &square);

    // d s / d x; rule gives the (total) derivative of an application of a contract function
    typedef std::function<Sym(const std::string &fn, const std::vector<Sym> &args, const Sym &value)> DiffRule;
    Sym derivative(const Sym &s, const Sym &x, const DiffRule &rule);

    inline F eq(const Sym &a, const Sym &b) { return mkEq(a.t(), b.t()); }
    inline F ne(const Sym &a, const Sym &b) { return !mkEq(a.t(), b.t()); }
    inline F lt(const Sym &a, const Sym &b) { return mkLt(a.t(), b.t()); }
    inline F le(const Sym &a, const Sym &b) { return mkLe(a.t(), b.t()); }
    inline F gt(const Sym &a, const Sym &b) { return mkLt(b.t(), a.t()); }
    inline F ge(const Sym &a, const Sym &b) { return mkLe(b.t(), a.t()); }

    // ---- the verifier ----------------------------------------------------------------------------------
    struct Options {
        long maxPaths = 20000;
        bool prune = true;          // ask the solver whether a branch side is feasible before running it
        unsigned feasTimeoutMs = 1500;
        unsigned proveTimeoutMs = 20000;
        long maxConcretize = 400;
        bool bounded = false;       // this exploration covers a stated bound only
        std::string bound;          // the bound
        long maxPathSeconds = 600;
        bool allowThrow = false;
    };

    void assume(F f);
    // an obligation; label names the contract clause
    void prove(const std::string &label, F f);
    // coefficients of a term that is a polynomial with rational coefficients in x (false: it is not)
    bool univariate(const Sym &s, const Sym &x, std::vector<mpq_class> &c);
    // an obligation whose goal is refutable: vacuity guard (an internal error if it is provable)
    void canary(const std::string &label, F f);
    // this point must be reached on some feasible path
    void cover(const std::string &label);
    void fail(const std::string &label, const std::string &why);  // an obligation that is violated outright (on a feasible path)
    bool provable(F f);      // ask, do not record
    bool choose(const std::string &hint); // demonic choice
    void note(const std::string &key, const std::string &value);

    // run fn on every feasible path
    void explore(const std::string &caseName, const std::function<void()> &fn, const Options &opts = Options());

    // exact (decidable, computed) obligation that does not come from a term
    void proveExact(const std::string &label, bool ok, const std::string &detail, const std::string &backend = "exact-rational");

    // evidence
    void underContract(const std::string &function);
    void assumption(const std::string &text);

    struct Case {
        std::string name;
        std::function<void()> run;
    };
    std::vector<Case> &cases();
    struct RegisterCase {
        RegisterCase(const std::string &name, std::function<void()> run) { cases().push_back({name, run}); }
    };

    // ---- loop contracts --------------------------------------------------------------------------------
    void havoc(Sym &s);
    void havoc(SInt &s);
    bool loopsCut();           // loop contracts in force?
    void setLoopsCut(bool);

    class Loop {
        std::string name;
        int arrivals = 0;
    public:
        explicit Loop(const char *n) : name(n) {}

        // while loop, called first in the body; true: skip to the condition on an arbitrary state
        template<typename Inv, typename... Vars>
        bool cut(const Inv &inv, Vars &...vars) {
            if (!loopsCut()) return false;
            ++arrivals;
            if (arrivals == 1) {
                prove("loop " + name + ": invariant holds on entry", inv());
                (havoc(vars), ...);
                assume(inv());
                return true;
            }
            if (arrivals == 2) return false;
            prove("loop " + name + ": invariant preserved", inv());
            throw PathEnd{};
        }

        // do-while / for(;;) loop, called first in the body
        template<typename Inv, typename... Vars>
        void cutDo(const Inv &inv, Vars &...vars) {
            if (!loopsCut()) return;
            ++arrivals;
            if (arrivals == 1) {
                prove("loop " + name + ": invariant holds on entry", inv());
                (havoc(vars), ...);
                assume(inv());
                return;
            }
            prove("loop " + name + ": invariant preserved", inv());
            throw PathEnd{};
        }
    };
}

#define VC_CASE(name) \
    static void vc_case_##name(); \
    static ::vc::RegisterCase vc_reg_##name(#name, vc_case_##name); \
    static void vc_case_##name()

namespace std {
    template<> class numeric_limits<vc::Sym> {
    public:
        static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
                has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false,
                is_bounded = true, is_modulo = false, has_denorm_loss = false, traps = false, tinyness_before = false;
        static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021,
                max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
        static constexpr std::float_denorm_style has_denorm = std::denorm_absent;
        static constexpr std::float_round_style round_style = std::round_to_nearest;
        static vc::Sym epsilon() { return vc::Sym(std::numeric_limits<double>::epsilon()); }
        static vc::Sym min() { return vc::Sym(std::numeric_limits<double>::min()); }
        static vc::Sym max() { return vc::Sym(std::numeric_limits<double>::max()); }
        static vc::Sym lowest() { return vc::Sym(-std::numeric_limits<double>::max()); }
        static vc::Sym infinity() { return vc::Sym(std::numeric_limits<double>::max()); }
        static vc::Sym quiet_NaN() { return vc::Sym(0); }
    };
}
