#include "vc.h"
#include "vc_internal.h"
#include <z3++.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace vc {
    using std::string;
    using std::vector;
    using std::map;
    using std::set;
    typedef unsigned __int128 u128;

    static double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    // ================================================================================ term arena
    enum Kind : uint8_t { K_UNINIT, K_CONST, K_VAR, K_ADD, K_MUL, K_DIV, K_APP };
    static const uint64_t P61 = (1ull << 61) - 1;

    static uint64_t mulm(uint64_t a, uint64_t b) {
        u128 c = (u128) a * b;
        uint64_t lo = (uint64_t) (c & P61), hi = (uint64_t) (c >> 61);
        uint64_t r = lo + hi;
        return r >= P61 ? r - P61 : r;
    }
    static uint64_t addm(uint64_t a, uint64_t b) {
        uint64_t r = a + b;
        return r >= P61 ? r - P61 : r;
    }
    static uint64_t powm(uint64_t a, uint64_t e) {
        uint64_t r = 1;
        while (e) {
            if (e & 1) r = mulm(r, a);
            a = mulm(a, a);
            e >>= 1;
        }
        return r;
    }
    static uint64_t invm(uint64_t a) { return powm(a, P61 - 2); }
    static uint64_t mix(uint64_t x) {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    static uint64_t hashStr(const string &s, uint64_t h = 1469598103934665603ull) {
        for (unsigned char c: s) h = mix(h ^ c);
        return h;
    }

    struct Node {
        Kind kind;
        bool isInt;
        Id a, b;      // operands; K_APP: index in apps
        uint64_t val; // value modulo P61 at a pseudo-random point
    };
    struct App {
        string fn;
        vector<Id> args;
    };

    struct Arena {
        vector<Node> nodes;
        vector<mpq_class> consts;
        vector<App> apps;
        vector<string> varNames;
        map<string, Id> constIdx;
        map<string, Id> varIdx;
        std::unordered_map<uint64_t, vector<Id>> opIdx;
        std::unordered_map<uint64_t, vector<Id>> appIdx;

        Arena() {
            nodes.push_back({K_UNINIT, false, 0, 0, 0});
        }
    };
    static Arena &A() {
        static Arena *a = new Arena();
        return *a;
    }

    static uint64_t modq(const mpq_class &q) {
        mpz_class p = mpz_class((unsigned long) P61);
        mpz_class n = q.get_num() % p, d = q.get_den() % p;
        if (n < 0) n += p;
        return mulm(n.get_ui(), invm(d.get_ui()));
    }

    Id mkConst(const mpq_class &q0) {
        mpq_class q = q0;
        q.canonicalize();
        auto &ar = A();
        string key = q.get_str(62);
        auto it = ar.constIdx.find(key);
        if (it != ar.constIdx.end()) return it->second;
        ar.consts.push_back(q);
        Id id = ar.nodes.size();
        ar.nodes.push_back({K_CONST, q.get_den() == 1, (Id) (ar.consts.size() - 1), 0, modq(q)});
        ar.constIdx[key] = id;
        return id;
    }

    mpq_class ratOf(double d) {
        if (!std::isfinite(d)) return mpq_class(std::numeric_limits<double>::max());
        return mpq_class(d);
    }
    mpq_class ratOf(long double d) {
        double hi = (double) d;
        long double r = d - (long double) hi;
        mpq_class q(hi);
        q += mpq_class((double) r);
        return q;
    }

    Id mkVar(const string &name, bool isInt) {
        auto &ar = A();
        string key = (isInt ? "i:" : "r:") + name;
        auto it = ar.varIdx.find(key);
        if (it != ar.varIdx.end()) return it->second;
        Id id = ar.nodes.size();
        ar.varNames.push_back(name);
        ar.nodes.push_back({K_VAR, isInt, (Id) (ar.varNames.size() - 1), 0, hashStr(key) % P61});
        ar.varIdx[key] = id;
        return id;
    }

    bool isConst(Id a) { return A().nodes[a].kind == K_CONST; }
    const mpq_class &constValue(Id a) { return A().consts[A().nodes[a].a]; }
    bool isIntSort(Id a) { return A().nodes[a].isInt; }

    static Id mkOp(Kind k, Id a, Id b, uint64_t val, bool isInt) {
        auto &ar = A();
        uint64_t h = mix(mix((uint64_t) k * 1000003 + a) ^ ((uint64_t) b << 20));
        auto &bucket = ar.opIdx[h];
        for (Id i: bucket)
            if (ar.nodes[i].kind == k && ar.nodes[i].a == a && ar.nodes[i].b == b) return i;
        Id id = ar.nodes.size();
        ar.nodes.push_back({k, isInt, a, b, val});
        bucket.push_back(id);
        return id;
    }

    Id mkAdd(Id a, Id b) {
        auto &ar = A();
        if (isConst(a) && isConst(b)) return mkConst(constValue(a) + constValue(b));
        if (isConst(a) && constValue(a) == 0) return b;
        if (isConst(b) && constValue(b) == 0) return a;
        if (a > b) std::swap(a, b);
        return mkOp(K_ADD, a, b, addm(ar.nodes[a].val, ar.nodes[b].val), ar.nodes[a].isInt && ar.nodes[b].isInt);
    }
    static bool g_cancelQuotients = false; // a * (b / a) is b
    Id mkMul(Id a, Id b) {
        auto &ar = A();
        if (g_cancelQuotients) {
            if (ar.nodes[b].kind == K_DIV && ar.nodes[b].b == a) return ar.nodes[b].a;
            if (ar.nodes[a].kind == K_DIV && ar.nodes[a].b == b) return ar.nodes[a].a;
        }
        if (isConst(a) && isConst(b)) return mkConst(constValue(a) * constValue(b));
        if (isConst(b)) std::swap(a, b);
        if (isConst(a)) {
            const mpq_class &q = constValue(a);
            if (q == 0) return a;
            if (q == 1) return b;
            // fold nested constants
            const Node &nb = ar.nodes[b];
            if (nb.kind == K_MUL && isConst(nb.a)) {
                Id inner = nb.b;
                return mkMul(mkConst(q * constValue(nb.a)), inner);
            }
        } else if (a > b) std::swap(a, b);
        return mkOp(K_MUL, a, b, mulm(ar.nodes[a].val, ar.nodes[b].val), ar.nodes[a].isInt && ar.nodes[b].isInt);
    }
    static bool g_cancelFactors = false; // (p * b) / b is p where b is not zero
    void cancelFactors() { g_cancelFactors = true; }
    // q with p = q * f, found by looking for the factor f in the term p
    static bool factorOf(Id p, Id f, Id &q) {
        if (p == f) {
            q = mkConst(1);
            return true;
        }
        Node n = A().nodes[p];
        Id r;
        if (n.kind == K_MUL) {
            if (factorOf(n.a, f, r)) return q = mkMul(r, n.b), true;
            if (factorOf(n.b, f, r)) return q = mkMul(n.a, r), true;
        }
        if (n.kind == K_DIV && factorOf(n.a, f, r)) return q = mkDiv(r, n.b), true;
        return false;
    }
    bool factor(const Sym &p, const Sym &f, Sym &q) {
        Id r;
        if (!factorOf(p.t(), f.t(), r)) return false;
        q = Sym::raw(r);
        return true;
    }
    Id mkDiv(Id a, Id b) {
        auto &ar = A();
        Id q;
        if (g_cancelFactors && !isConst(b) && !isConst(a) && factorOf(a, b, q) && provable(!mkEq(b, mkConst(0)))) return q;
        if (isConst(b)) {
            if (constValue(b) == 0) {
                // IEEE infinity / NaN: an arbitrary real
                return mkFresh("divzero", false);
            }
            return mkMul(mkConst(1 / constValue(b)), a);
        }
        if (isConst(a) && constValue(a) == 0) return a;
        return mkOp(K_DIV, a, b, mulm(ar.nodes[a].val, invm(ar.nodes[b].val)), false);
    }
    Id mkNeg(Id a) { return mkMul(mkConst(-1), a); }

    static bool sameTerm(Id a, Id b);

    Id mkApp(const string &fn, const vector<Id> &args, bool isInt) {
        auto &ar = A();
        uint64_t h = hashStr(fn);
        for (Id a: args) h = mix(h ^ ar.nodes[a].val);
        auto &bucket = ar.appIdx[h];
        for (Id i: bucket) {
            const App &ap = ar.apps[ar.nodes[i].a];
            if (ap.fn != fn || ap.args.size() != args.size()) continue;
            bool same = true;
            for (size_t j = 0; same && j < args.size(); ++j)
                same = ap.args[j] == args[j] || sameTerm(ap.args[j], args[j]);
            if (same) return i;
        }
        ar.apps.push_back({fn, args});
        Id id = ar.nodes.size();
        ar.nodes.push_back({K_APP, isInt, (Id) (ar.apps.size() - 1), 0, h % P61});
        bucket.push_back(id);
        return id;
    }

    static map<string, long> g_freshCounters;
    static string freshName(const string &hint) { return hint + "!" + std::to_string(g_freshCounters[hint]++); }
    Id mkFresh(const string &hint, bool isInt) { return mkVar(freshName(hint), isInt); }
    Id initTerm(Id) { return mkFresh("uninit", false); }

    static void showTo(std::ostream &os, Id a, int depth) {
        auto &n = A().nodes[a];
        if (depth > 12) {
            os << "...";
            return;
        }
        switch (n.kind) {
            case K_UNINIT: os << "uninit"; break;
            case K_CONST: {
                const mpq_class &q = constValue(a);
                string s = q.get_str();
                if (s.size() > 24) os << q.get_d(); else os << s;
                break;
            }
            case K_VAR: os << A().varNames[n.a]; break;
            case K_ADD: os << "("; showTo(os, n.a, depth + 1); os << " + "; showTo(os, n.b, depth + 1); os << ")"; break;
            case K_MUL: showTo(os, n.a, depth + 1); os << "*"; showTo(os, n.b, depth + 1); break;
            case K_DIV: os << "("; showTo(os, n.a, depth + 1); os << ")/("; showTo(os, n.b, depth + 1); os << ")"; break;
            case K_APP: {
                const App &ap = A().apps[n.a];
                os << ap.fn << "(";
                for (size_t i = 0; i < ap.args.size(); ++i) {
                    if (i) os << ", ";
                    showTo(os, ap.args[i], depth + 1);
                }
                os << ")";
            }
        }
    }
    string show(Id a) {
        std::ostringstream os;
        showTo(os, a, 0);
        string s = os.str();
        if (s.size() > 600) s = s.substr(0, 600) + "...";
        return s;
    }
    std::ostream &operator<<(std::ostream &os, const Sym &s) { return os << show(s.t()); }
    std::ostream &operator<<(std::ostream &os, const SInt &s) { return os << show(s.t()); }

    // ================================================================================ formulas
    enum FKind : uint8_t { F_FALSE, F_TRUE, F_EQ, F_LT, F_LE, F_AND, F_OR, F_NOT };
    struct FNode {
        FKind kind;
        Id a, b;
    };
    struct FArena {
        vector<FNode> nodes;
        map<std::tuple<int, Id, Id>, Id> idx;
        FArena() {
            nodes.push_back({F_FALSE, 0, 0});
            nodes.push_back({F_TRUE, 0, 0});
        }
    };
    static FArena &FA() {
        static FArena *f = new FArena();
        return *f;
    }
    static F mkF(FKind k, Id a, Id b) {
        auto &fa = FA();
        auto key = std::make_tuple((int) k, a, b);
        auto it = fa.idx.find(key);
        if (it != fa.idx.end()) return F(it->second);
        Id id = fa.nodes.size();
        fa.nodes.push_back({k, a, b});
        fa.idx[key] = id;
        return F(id);
    }
    F operator&&(F a, F b) {
        if (a.id == 0 || b.id == 0) return F(false);
        if (a.id == 1) return b;
        if (b.id == 1) return a;
        if (a.id == b.id) return a;
        return mkF(F_AND, a.id, b.id);
    }
    F operator||(F a, F b) {
        if (a.id == 1 || b.id == 1) return F(true);
        if (a.id == 0) return b;
        if (b.id == 0) return a;
        if (a.id == b.id) return a;
        return mkF(F_OR, a.id, b.id);
    }
    F operator!(F a) {
        if (a.id == 0) return F(true);
        if (a.id == 1) return F(false);
        auto &n = FA().nodes[a.id];
        if (n.kind == F_NOT) return F(n.a);
        if (n.kind == F_LT) return mkLe(n.b, n.a);
        if (n.kind == F_LE) return mkLt(n.b, n.a);
        return mkF(F_NOT, a.id, 0);
    }
    F mkEq(Id a, Id b) {
        if (a == b) return F(true);
        if (isConst(a) && isConst(b)) return F(constValue(a) == constValue(b));
        if (sameTerm(a, b)) return F(true);
        if (a > b) std::swap(a, b);
        return mkF(F_EQ, a, b);
    }
    F mkLt(Id a, Id b) {
        if (a == b) return F(false);
        if (isConst(a) && isConst(b)) return F(constValue(a) < constValue(b));
        return mkF(F_LT, a, b);
    }
    F mkLe(Id a, Id b) {
        if (a == b) return F(true);
        if (isConst(a) && isConst(b)) return F(constValue(a) <= constValue(b));
        return mkF(F_LE, a, b);
    }
    static void showF(std::ostream &os, F f, int depth) {
        auto n = FA().nodes[f.id];
        if (depth > 14) {
            os << "...";
            return;
        }
        switch (n.kind) {
            case F_FALSE: os << "false"; break;
            case F_TRUE: os << "true"; break;
            case F_EQ: os << show(n.a) << " = " << show(n.b); break;
            case F_LT: os << show(n.a) << " < " << show(n.b); break;
            case F_LE: os << show(n.a) << " <= " << show(n.b); break;
            case F_AND: os << "("; showF(os, F(n.a), depth + 1); os << " & "; showF(os, F(n.b), depth + 1); os << ")"; break;
            case F_OR: os << "("; showF(os, F(n.a), depth + 1); os << " | "; showF(os, F(n.b), depth + 1); os << ")"; break;
            case F_NOT: os << "!("; showF(os, F(n.a), depth + 1); os << ")"; break;
        }
    }
    string show(F f) {
        std::ostringstream os;
        showF(os, f, 0);
        string s = os.str();
        if (s.size() > 1200) s = s.substr(0, 1200) + "...";
        return s;
    }

    // ================================================================================ normaliser
    typedef vector<std::pair<Id, int>> Mono;
    typedef map<Mono, mpq_class> Poly;

    struct TooBig {};
    static size_t g_polyCap = 60000;

    static Mono mulMono(const Mono &a, const Mono &b) {
        Mono r;
        r.reserve(a.size() + b.size());
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size()) {
            if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
            else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
            else {
                r.push_back({a[i].first, a[i].second + b[j].second});
                ++i, ++j;
            }
        }
        return r;
    }
    static void addTo(Poly &p, const Mono &m, const mpq_class &c) {
        if (c == 0) return;
        auto it = p.find(m);
        if (it == p.end()) p.emplace(m, c);
        else {
            it->second += c;
            if (it->second == 0) p.erase(it);
        }
    }
    static Poly polyMul(const Poly &a, const Poly &b) {
        Poly r;
        if (a.size() * b.size() > 50 * g_polyCap) throw TooBig{};
        for (auto &x: a)
            for (auto &y: b) addTo(r, mulMono(x.first, y.first), x.second * y.second);
        if (r.size() > g_polyCap) throw TooBig{};
        return r;
    }
    static Poly polyAdd(Poly a, const Poly &b) {
        for (auto &y: b) addTo(a, y.first, y.second);
        return a;
    }
    static Poly polyConst(const mpq_class &q) {
        Poly p;
        if (q != 0) p.emplace(Mono(), q);
        return p;
    }

    static vector<Poly> g_factors;          // irreducible-as-far-as-we-know denominator factors
    static map<Poly, int> g_factorIdx;
    typedef map<int, int> Den;              // factor -> exponent
    struct Rat {
        Poly num;
        Den den;
    };
    static int factorId(const Poly &p) {
        auto it = g_factorIdx.find(p);
        if (it != g_factorIdx.end()) return it->second;
        g_factors.push_back(p);
        g_factorIdx[p] = g_factors.size() - 1;
        return g_factors.size() - 1;
    }
    // split p = c * prod factors
    static mpq_class factorise(const Poly &p0, Den &den) {
        Poly p = p0;
        // common monomial
        Mono common;
        bool first = true;
        for (auto &t: p) {
            if (first) {
                common = t.first;
                first = false;
            } else {
                Mono r;
                size_t i = 0, j = 0;
                while (i < common.size() && j < t.first.size()) {
                    if (common[i].first < t.first[j].first) ++i;
                    else if (common[i].first > t.first[j].first) ++j;
                    else {
                        r.push_back({common[i].first, std::min(common[i].second, t.first[j].second)});
                        ++i, ++j;
                    }
                }
                common = r;
            }
        }
        if (!common.empty()) {
            Poly q;
            for (auto &t: p) {
                Mono m;
                size_t i = 0;
                for (auto &e: t.first) {
                    while (i < common.size() && common[i].first < e.first) ++i;
                    int ex = e.second;
                    if (i < common.size() && common[i].first == e.first) ex -= common[i].second;
                    if (ex) m.push_back({e.first, ex});
                }
                q.emplace(m, t.second);
            }
            p = q;
            for (auto &e: common) {
                Poly v;
                v.emplace(Mono{{e.first, 1}}, 1);
                den[factorId(v)] += e.second;
            }
        }
        mpq_class lead = p.rbegin()->second;
        if (p.size() == 1 && p.begin()->first.empty()) return lead;
        for (auto &t: p) t.second /= lead;
        den[factorId(p)] += 1;
        return lead;
    }
    static Poly denPoly(const Den &d) {
        Poly r = polyConst(1);
        for (auto &e: d)
            for (int i = 0; i < e.second; ++i) r = polyMul(r, g_factors[e.first]);
        return r;
    }
    static void cancelMonomials(Rat &r) {
        for (auto it = r.den.begin(); it != r.den.end();) {
            const Poly &f = g_factors[it->first];
            if (f.size() == 1 && !r.num.empty()) {
                Id v = f.begin()->first[0].first;
                int mn = it->second;
                for (auto &t: r.num) {
                    int e = 0;
                    for (auto &x: t.first) if (x.first == v) e = x.second;
                    mn = std::min(mn, e);
                    if (!mn) break;
                }
                if (mn) {
                    Poly q;
                    for (auto &t: r.num) {
                        Mono m;
                        for (auto &x: t.first) {
                            if (x.first == v) {
                                if (x.second > mn) m.push_back({v, x.second - mn});
                            } else m.push_back(x);
                        }
                        q.emplace(m, t.second);
                    }
                    r.num = std::move(q);
                    it->second -= mn;
                    if (!it->second) {
                        it = r.den.erase(it);
                        continue;
                    }
                }
            } else if (f.size() > 1 && r.num.size() == f.size()) {
                // num == c * f * monomial? only the c*f case
                mpq_class c = r.num.rbegin()->second;
                bool same = true;
                auto i1 = r.num.begin();
                auto i2 = f.begin();
                for (; same && i1 != r.num.end(); ++i1, ++i2)
                    same = i1->first == i2->first && i1->second == c * i2->second;
                if (same) {
                    r.num = polyConst(c);
                    if (!--it->second) {
                        it = r.den.erase(it);
                        continue;
                    }
                }
            }
            ++it;
        }
        if (r.num.empty()) r.den.clear();
    }
    static Rat ratMul(const Rat &a, const Rat &b) {
        Rat r;
        r.num = polyMul(a.num, b.num);
        r.den = a.den;
        for (auto &e: b.den) r.den[e.first] += e.second;
        cancelMonomials(r);
        return r;
    }
    static Rat ratAdd(const Rat &a, const Rat &b) {
        Rat r;
        if (a.den == b.den) {
            r.num = polyAdd(a.num, b.num);
            r.den = a.den;
        } else {
            Den l = a.den, da, db;
            for (auto &e: b.den) {
                int &x = l[e.first];
                x = std::max(x, e.second);
            }
            for (auto &e: l) {
                auto ia = a.den.find(e.first), ib = b.den.find(e.first);
                int ea = ia == a.den.end() ? 0 : ia->second, eb = ib == b.den.end() ? 0 : ib->second;
                if (e.second > ea) da[e.first] = e.second - ea;
                if (e.second > eb) db[e.first] = e.second - eb;
            }
            r.num = polyAdd(polyMul(a.num, denPoly(da)), polyMul(b.num, denPoly(db)));
            r.den = l;
        }
        cancelMonomials(r);
        return r;
    }
    static Rat ratInv(const Rat &a) {
        Rat r;
        Den den;
        if (a.num.empty()) throw TooBig{};
        mpq_class c = factorise(a.num, den);
        r.num = polyConst(1 / c);
        // numerator gets a.den
        for (auto it = a.den.begin(); it != a.den.end(); ++it) {
            auto jt = den.find(it->first);
            int e = it->second;
            if (jt != den.end()) {
                int k = std::min(e, jt->second);
                e -= k;
                jt->second -= k;
                if (!jt->second) den.erase(jt);
            }
            for (int i = 0; i < e; ++i) r.num = polyMul(r.num, g_factors[it->first]);
        }
        r.den = den;
        return r;
    }

    static map<Id, Id> g_squareRules;
    static std::unordered_map<Id, std::shared_ptr<Rat>> g_norm;
    static map<Id, Id> g_subst; // path equalities var := term (only active inside zero tests on a path)
    static std::unordered_map<Id, std::shared_ptr<Rat>> g_normSubst;

    static const Rat &norm(Id a);

    static Rat polySquareReduce(Rat r);

    static bool squareRule(Id atom, Id &sq) {
        auto it = g_squareRules.find(atom);
        if (it != g_squareRules.end()) {
            sq = it->second;
            return true;
        }
        auto n = A().nodes[atom];
        if (n.kind != K_APP) return false;
        App ap = A().apps[n.a];
        if (ap.fn == "sqrt") {
            sq = ap.args[0];
            return true;
        }
        if (ap.fn == "abs") {
            sq = mkMul(ap.args[0], ap.args[0]);
            return true;
        }
        if (ap.fn == "sin") {
            Id c = mkApp("cos", ap.args);
            sq = mkAdd(mkConst(1), mkNeg(mkMul(c, c)));
            return true;
        }
        if (ap.fn == "cosh") {
            Id s = mkApp("sinh", ap.args);
            sq = mkAdd(mkConst(1), mkMul(s, s));
            return true;
        }
        return false;
    }

    static Rat normCompute(Id a) {
        Node n = A().nodes[a];
        switch (n.kind) {
            case K_CONST: {
                Rat r;
                r.num = polyConst(constValue(a));
                return r;
            }
            case K_ADD: return ratAdd(Rat(norm(n.a)), norm(n.b));
            case K_MUL: return polySquareReduce(ratMul(Rat(norm(n.a)), norm(n.b)));
            case K_DIV: {
                Rat d = ratInv(polySquareReduce(norm(n.b)));
                return ratMul(norm(n.a), d);
            }
            default: {
                if (!g_subst.empty()) {
                    auto it = g_subst.find(a);
                    if (it != g_subst.end()) return norm(it->second);
                }
                Rat r;
                r.num.emplace(Mono{{a, 1}}, 1);
                return r;
            }
        }
    }
    static const Rat &norm(Id a) {
        auto &memo = g_subst.empty() ? g_norm : g_normSubst;
        auto it = memo.find(a);
        if (it != memo.end()) return *it->second;
        auto r = std::make_shared<Rat>(normCompute(a));
        if (r->num.size() > g_polyCap) throw TooBig{};
        memo[a] = r;
        return *r;
    }

    // replace atom^k (k>=2) in the numerator
    static Rat polySquareReduce(Rat r) {
        for (int guard = 0; guard < 200; ++guard) {
            Id best = 0, sq = 0;
            for (auto &t: r.num)
                for (auto &e: t.first)
                    if (e.second >= 2 && e.first > best) {
                        Id s;
                        if (squareRule(e.first, s)) {
                            best = e.first;
                            sq = s;
                        }
                    }
            if (!best) return r;
            Rat s = norm(sq);
            map<int, Poly> parts; // power of s -> remaining polynomial
            for (auto &t: r.num) {
                Mono m;
                int k = 0;
                for (auto &e: t.first) {
                    if (e.first == best) {
                        k = e.second / 2;
                        if (e.second % 2) m.push_back({best, 1});
                    } else m.push_back(e);
                }
                addTo(parts[k], m, t.second);
            }
            Rat total;
            Rat pw;
            pw.num = polyConst(1);
            int cur = 0;
            for (auto &p: parts) {
                while (cur < p.first) {
                    pw = ratMul(pw, s);
                    ++cur;
                }
                Rat q;
                q.num = p.second;
                total = ratAdd(total, ratMul(q, pw));
            }
            for (auto &e: r.den) total.den[e.first] += e.second;
            cancelMonomials(total);
            r = total;
        }
        throw TooBig{};
    }

    static bool hasRule(Id) { return true; }

    // 1 zero, 0 not zero (as a rational function of its atoms), -1 too big
    static int zeroTest(Id d) {
        if (isConst(d)) return constValue(d) == 0;
        try {
            Rat r = polySquareReduce(norm(d));
            return r.num.empty() ? 1 : 0;
        } catch (TooBig &) {
            return -1;
        }
    }
    bool univariate(const Sym &s, const Sym &x, vector<mpq_class> &c) {
        c.clear();
        try {
            Rat r = polySquareReduce(norm(s.t()));
            if (!r.den.empty()) return false;
            for (auto &t: r.num) {
                size_t e = 0;
                if (t.first.size() > 1) return false;
                if (t.first.size() == 1) {
                    if (t.first[0].first != x.t()) return false;
                    e = t.first[0].second;
                }
                if (c.size() <= e) c.resize(e + 1);
                c[e] = t.second;
            }
            return true;
        } catch (TooBig &) {
            return false;
        }
    }
    static bool sameTerm(Id a, Id b) {
        if (a == b) return true;
        auto &ar = A();
        if (ar.nodes[a].val != ar.nodes[b].val) return false;
        map<Id, Id> save;
        save.swap(g_subst);
        int z = zeroTest(mkAdd(a, mkNeg(b)));
        save.swap(g_subst);
        return z == 1;
    }

    // ================================================================================ mathematical functions
    static Sym app1(const string &fn, const Sym &x, bool isInt = false) {
        return Sym::raw(mkApp(fn, {x.t()}, isInt));
    }
    // angles in half turns: pi is the number 1 and sin, cos stand for sin(pi x), cos(pi x)
    static bool g_halfTurns = false;
    void halfTurns() { g_halfTurns = g_cancelQuotients = true; }
    Sym PI() {
        if (g_halfTurns) return Sym(1);
        return Sym::raw(mkVar("pi", false));
    }
    Sym abs(const Sym &x) {
        if (isConst(x.t())) return Sym(mpq_class(::abs(constValue(x.t()))));
        return app1("abs", x);
    }
    Sym fabs(const Sym &x) { return abs(x); }
    Sym sqrt(const Sym &x) {
        if (isConst(x.t())) {
            const mpq_class &q = constValue(x.t());
            if (q >= 0) {
                mpz_class n = ::sqrt(q.get_num()), d = ::sqrt(q.get_den());
                if (n * n == q.get_num() && d * d == q.get_den()) return Sym(mpq_class(n, d));
            }
        }
        if (g_halfTurns) { // the square of something that is known not to be negative
            const Rat r = norm(x.t());
            if (r.den.empty() && r.num.size() == 1 && r.num.begin()->second == 1) {
                Sym root(1);
                bool ok = true;
                for (auto &f: r.num.begin()->first) {
                    if (f.second % 2 || !provable(ge(Sym::raw(f.first), 0))) {
                        ok = false;
                        break;
                    }
                    for (int i = 0; i < f.second / 2; ++i) root *= Sym::raw(f.first);
                }
                if (ok) return root;
            }
        }
        return app1("sqrt", x);
    }
    static Sym zeroAt(const string &fn, const Sym &x, int at0) {
        if (isConst(x.t()) && constValue(x.t()) == 0) return Sym(at0);
        return app1(fn, x);
    }
    // ---- possible signs of a term, from the signs of its atoms (bits: 1 negative, 2 zero, 4 positive)
    static std::unordered_map<Id, int> g_signs;           // of this path
    static std::map<Id, std::pair<Sym, Sym>> g_angles;     // of this path: the angle of the direction (y, x)
    static int signProduct(int a, int b) {
        int r = 0;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                if ((a >> i & 1) && (b >> j & 1)) r |= 1 << ((i - 1) * (j - 1) + 1);
        return r;
    }
    static int signSum(int a, int b) {
        int r = 0;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                if ((a >> i & 1) && (b >> j & 1)) r |= (i - 1) * (j - 1) < 0 ? 7 : i != 1 ? 1 << i : 1 << j;
        return r;
    }
    static int signMask(Id a);
    static int atomSign(Id a) {
        auto it = g_signs.find(a);
        if (it != g_signs.end()) return it->second;
        int r = 7;
        Node n = A().nodes[a];
        App ap;
        if (n.kind == K_APP) ap = A().apps[n.a];
        if (ap.fn == "sqrt") r = signMask(ap.args[0]) == 4 ? 4 : 6;
        else {
            Sym x = Sym::raw(a);
            r = provable(gt(x, 0)) ? 4 : provable(lt(x, 0)) ? 1 : provable(eq(x, 0)) ? 2 : provable(ge(x, 0)) ? 6 : provable(le(x, 0)) ? 3 : 7;
        }
        return g_signs[a] = r;
    }
    static int polySign(const Poly &p) {
        int r = 2;
        for (auto &m: p) {
            int t = m.second > 0 ? 4 : 1;
            for (auto &f: m.first) {
                int q = atomSign(f.first);
                t = signProduct(t, f.second % 2 ? q : (q & 5 ? 4 : 0) | (q & 2));
            }
            r = signSum(r, t);
        }
        return r;
    }
    static int signMask(Id a) {
        const Rat r = polySquareReduce(norm(a));
        int t = polySign(r.num);
        for (auto &d: r.den) {
            int q = polySign(g_factors[d.first]) & 5;
            t = signProduct(t, d.second % 2 ? q : 4);
        }
        return t;
    }
    int signOf(const Sym &x) {
        int m = signMask(x.t());
        return m == 1 ? -1 : m == 2 ? 0 : m == 4 ? 1 : 2;
    }
    // the angle in (-1, 1] half turns of the direction (y, x); what its quadrant says is put on the path right away
    static Sym angleTo(const Sym &y, const Sym &x) {
        for (auto &g: g_angles) {
            const Sym &y2 = g.second.first, &x2 = g.second.second;
            if (zeroTest((y * x2 - x * y2).t()) == 1 && signOf(y * y2 + x * x2) == 1) return Sym::raw(g.first);
        }
        int sy = signOf(y), sx = signOf(x);
        if (sy == 0 && (sx == 1 || sx == 0)) return Sym(0);
        if (sy == 0 && sx == -1) return Sym(1);
        if (sx == 0 && sy == 1) return Sym(mpq_class(1, 2));
        if (sx == 0 && sy == -1) return Sym(mpq_class(-1, 2));
        Sym v = Sym::fresh("angle"), h(mpq_class(1, 2));
        g_angles[v.t()] = {y, x};
        assume(gt(v, -1) && le(v, 1));
        if (sy == 1) assume(gt(v, 0) && lt(v, 1));
        if (sy == -1) assume(lt(v, 0));
        if (sx == 1) assume(gt(v, -h) && lt(v, h));
        if (sx == -1) assume(gt(v, h) || lt(v, -h));
        if (sy == 2 && sx != 1) {
            assume(implies(gt(y, 0), gt(v, 0) && lt(v, 1)) && implies(lt(y, 0), lt(v, 0)) && implies(eq(y, 0), eq(v, 0) || eq(v, 1)));
        }
        return v;
    }
    double sampleAt(const Sym &s, const std::function<double(const std::string &)> &value) {
        std::unordered_map<Id, double> memo;
        std::function<double(Id)> go = [&](Id a) -> double {
            auto it = memo.find(a);
            if (it != memo.end()) return it->second;
            const Node n = A().nodes[a];
            double r = NAN;
            switch (n.kind) {
                case K_CONST: r = constValue(a).get_d(); break;
                case K_ADD: r = go(n.a) + go(n.b); break;
                case K_MUL: r = go(n.a) * go(n.b); break;
                case K_DIV: r = go(n.a) / go(n.b); break;
                case K_VAR: r = value(A().varNames[n.a]); break;
                default: {
                    const App ap = A().apps[n.a];
                    if (ap.fn == "sqrt") r = std::sqrt(go(ap.args[0]));
                    else if (ap.fn == "abs") r = std::abs(go(ap.args[0]));
                }
            }
            return memo[a] = r;
        };
        return go(s.t());
    }

    // sin and cos of a sum of integer multiples of atan2 terms, quarter turns and even multiples of integers
    static void sinCos(const Sym &x, Sym &s, Sym &c) {
        const Rat r = norm(x.t());
        s = Sym(0);
        c = Sym(1);
        if (!r.den.empty()) {
            s = zeroAt("sin", x, 0);
            c = zeroAt("cos", x, 1);
            return;
        }
        auto turn = [&](const Sym &s1, const Sym &c1, long k) {
            for (long i = 0; i < (k < 0 ? -k : k); ++i) {
                Sym s2 = s * c1 + (k < 0 ? -1 : 1) * (c * s1), c2 = c * c1 - (k < 0 ? -1 : 1) * (s * s1);
                s = s2;
                c = c2;
            }
        };
        Sym rest(0);
        for (auto &m: r.num) {
            const mpq_class &q = m.second;
            const mpq_class q2 = 2 * q;
            if (m.first.empty() && q2.get_den() == 1) {
                mpz_class k = q2.get_num() % 4;
                turn(Sym(1), Sym(0), k.get_si());
                continue;
            }
            if (m.first.size() == 1 && m.first[0].second == 1 && q.get_den() == 1 && abs(q) < 9) {
                Id a = m.first[0].first;
                if (isIntSort(a) && q.get_num() % 2 == 0) continue;
                auto it = g_angles.find(a);
                if (it != g_angles.end()) {
                    Sym y = it->second.first, w = it->second.second, h = sqrt(y * y + w * w);
                    turn(y / h, w / h, q.get_num().get_si());
                    continue;
                }
            }
            Sym t(q);
            for (auto &f: m.first)
                for (int i = 0; i < f.second; ++i) t *= Sym::raw(f.first);
            rest += t;
        }
        if (!(isConst(rest.t()) && constValue(rest.t()) == 0)) turn(zeroAt("sin", rest, 0), zeroAt("cos", rest, 1), 1);
    }
    Sym sin(const Sym &x) {
        if (!g_halfTurns) return zeroAt("sin", x, 0);
        Sym s, c;
        sinCos(x, s, c);
        return s;
    }
    Sym cos(const Sym &x) {
        if (!g_halfTurns) return zeroAt("cos", x, 1);
        Sym s, c;
        sinCos(x, s, c);
        return c;
    }
    Sym tan(const Sym &x) { return sin(x) / cos(x); }
    Sym atan(const Sym &x) { return atan2(x, Sym(1)); }
    Sym atan2(const Sym &y, const Sym &x) {
        if (g_halfTurns) return angleTo(y, x);
        return Sym::raw(mkApp("atan2", {y.t(), x.t()}));
    }
    Sym sinh(const Sym &x) { return zeroAt("sinh", x, 0); }
    Sym cosh(const Sym &x) { return zeroAt("cosh", x, 1); }
    Sym exp(const Sym &x) { return zeroAt("exp", x, 1); }
    Sym log(const Sym &x) { return app1("log", x); }
    static mpz_class floorQ(const mpq_class &q) {
        mpz_class r;
        mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
        return r;
    }
    void splitInteger(const Sym &x, Sym &whole, Sym &rest) {
        const Rat r = norm(x.t());
        whole = Sym(0);
        rest = x;
        if (!r.den.empty()) return;
        rest = Sym(0);
        for (auto &m: r.num) {
            bool isInt = m.second.get_den() == 1;
            Sym t(m.second);
            for (auto &f: m.first) {
                isInt = isInt && isIntSort(f.first);
                for (int i = 0; i < f.second; ++i) t *= Sym::raw(f.first);
            }
            if (isInt) whole += t; else rest += t;
        }
    }
    Sym floor(const Sym &x) {
        if (isConst(x.t())) return Sym(mpq_class(floorQ(constValue(x.t()))));
        if (isIntSort(x.t())) return x;
        if (g_halfTurns) {
            Sym w, r;
            splitInteger(x, w, r);
            return isConst(r.t()) ? w + Sym(mpq_class(floorQ(constValue(r.t())))) : w + app1("floor", r, true);
        }
        return app1("floor", x, true);
    }
    Sym ceil(const Sym &x) { return -floor(-x); }
    Sym round(const Sym &x) {
        if (isConst(x.t())) {
            const mpq_class &q = constValue(x.t());
            mpz_class r = q >= 0 ? floorQ(q + mpq_class(1, 2)) : mpz_class(-floorQ(-q + mpq_class(1, 2)));
            return Sym(mpq_class(r));
        }
        if (isIntSort(x.t())) return x;
        if (g_halfTurns) { // some nearest integer
            Sym w, r;
            splitInteger(x, w, r);
            if (!isConst(r.t()) || constValue(r.t()) == 0) return isConst(r.t()) ? w : w + app1("nearest", r, true);
        }
        return app1("round", x, true);
    }
    Sym trunc(const Sym &x) {
        if (isConst(x.t())) {
            const mpq_class &q = constValue(x.t());
            return Sym(mpq_class(q >= 0 ? floorQ(q) : mpz_class(-floorQ(-q))));
        }
        if (isIntSort(x.t())) return x;
        return app1("trunc", x, true);
    }
    Sym pow(const Sym &b, const Sym &e) {
        if (isConst(e.t())) {
            const mpq_class &q = constValue(e.t());
            if (q.get_den() == 1 && ::abs(q) <= 64) {
                long k = q.get_num().get_si();
                Sym r(1);
                for (long i = 0; i < (k < 0 ? -k : k); ++i) r *= b;
                return k < 0 ? Sym(1) / r : r;
            }
            if (q == mpq_class(1, 2)) return sqrt(b);
        }
        return Sym::raw(mkApp("pow", {b.t(), e.t()}));
    }
    Sym hypot(const Sym &a, const Sym &b) { return sqrt(a * a + b * b); }
    Sym min(const Sym &a, const Sym &b) { return b < a ? b : a; }
    Sym max(const Sym &a, const Sym &b) { return a < b ? b : a; }
    Sym fmin(const Sym &a, const Sym &b) { return min(a, b); }
    Sym fmax(const Sym &a, const Sym &b) { return max(a, b); }
    SInt::SInt(const Sym &s) : id(trunc(s).t()) {}
    Sym::operator int() const { return (int) concretizeInt(trunc(*this).t()); }
    Sym::operator long() const { return concretizeInt(trunc(*this).t()); }
    Sym::operator double() const {
        if (isConst(t())) return constValue(t()).get_d();
        throw std::runtime_error("vc: a symbolic value is converted to a machine double: " + show(t()));
    }
    SInt::operator long() const { return concretizeInt(t()); }
    SInt divTrunc(const SInt &a, const SInt &b) {
        if (isConst(a.t()) && isConst(b.t()) && constValue(b.t()) != 0)
            return SInt::raw(trunc(Sym(mpq_class(constValue(a.t()) / constValue(b.t())))).t());
        return SInt::raw(trunc(Sym(a) / Sym(b)).t());
    }
    SInt modTrunc(const SInt &a, const SInt &b) { return a - divTrunc(a, b) * b; }
    SInt abs(const SInt &a) { return a < 0 ? -a : a; }

    static Sym diffRec(Id a, Id x, const DiffRule &rule, map<Id, Sym> &memo) {
        auto it = memo.find(a);
        if (it != memo.end()) return it->second;
        Node n = A().nodes[a];
        Sym r;
        if (a == x) r = Sym(1);
        else
            switch (n.kind) {
                case K_ADD:
                    r = diffRec(n.a, x, rule, memo) + diffRec(n.b, x, rule, memo);
                    break;
                case K_MUL:
                    r = diffRec(n.a, x, rule, memo) * Sym::raw(n.b) + Sym::raw(n.a) * diffRec(n.b, x, rule, memo);
                    break;
                case K_DIV:
                    r = (diffRec(n.a, x, rule, memo) * Sym::raw(n.b) - Sym::raw(n.a) * diffRec(n.b, x, rule, memo)) / (Sym::raw(n.b) * Sym::raw(n.b));
                    break;
                case K_APP: {
                    App ap = A().apps[n.a];
                    vector<Sym> args;
                    for (Id i: ap.args) args.push_back(Sym::raw(i));
                    if (ap.fn == "sqrt") r = diffRec(ap.args[0], x, rule, memo) / (Sym(2) * Sym::raw(a));
                    else r = rule(ap.fn, args, Sym::raw(a));
                    break;
                }
                default:
                    r = Sym(0);
            }
        memo.emplace(a, r);
        return r;
    }
    Sym derivative(const Sym &s, const Sym &x, const DiffRule &rule) {
        map<Id, Sym> memo;
        return diffRec(s.t(), x.t(), rule, memo);
    }

    // ================================================================================ solver
    static map<string, vector<Axiom1>> g_ax1;
    static map<string, vector<Axiom2>> g_ax2;
    void addAxiom(const string &fn, Axiom1 ax) { g_ax1[fn].push_back(ax); }
    void addPairAxiom(const string &fn, Axiom2 ax) { g_ax2[fn].push_back(ax); }
    void addSquareRule(const Sym &atom, const Sym &square) { g_squareRules[atom.t()] = square.t(); }

    struct Z {
        z3::context ctx;
        std::unordered_map<Id, z3::expr> terms;
        std::unordered_map<Id, z3::expr> forms;
    };
    static Z &ZZ() {
        static Z *z = new Z();
        return *z;
    }
    static z3::expr zTerm(Id a) {
        Z &z = ZZ();
        auto it = z.terms.find(a);
        if (it != z.terms.end()) return it->second;
        Node n = A().nodes[a];
        auto &c = z.ctx;
        z3::expr e(c);
        auto asReal = [&](z3::expr x) { return x.is_int() ? z3::to_real(x) : x; };
        switch (n.kind) {
            case K_CONST: {
                const mpq_class &q = constValue(a);
                if (n.isInt) e = c.int_val(q.get_str().c_str());
                else e = c.real_val(q.get_str().c_str());
                break;
            }
            case K_ADD: {
                z3::expr x = zTerm(n.a), y = zTerm(n.b);
                e = (x.is_int() && y.is_int()) ? x + y : asReal(x) + asReal(y);
                break;
            }
            case K_MUL: {
                z3::expr x = zTerm(n.a), y = zTerm(n.b);
                e = (x.is_int() && y.is_int()) ? x * y : asReal(x) * asReal(y);
                break;
            }
            case K_DIV: e = asReal(zTerm(n.a)) / asReal(zTerm(n.b)); break;
            case K_VAR: {
                string nm = A().varNames[n.a];
                e = n.isInt ? c.int_const(("i_" + nm).c_str()) : c.real_const(nm.c_str());
                break;
            }
            case K_APP: {
                string nm = A().apps[n.a].fn + "#" + std::to_string(a);
                e = n.isInt ? c.int_const(nm.c_str()) : c.real_const(nm.c_str());
                break;
            }
            default: e = c.real_const("uninit");
        }
        z.terms.emplace(a, e);
        return e;
    }
    static z3::expr zForm(F f) {
        Z &z = ZZ();
        auto it = z.forms.find(f.id);
        if (it != z.forms.end()) return it->second;
        FNode n = FA().nodes[f.id];
        auto &c = z.ctx;
        z3::expr e(c);
        auto cmp = [&](Id a, Id b, int k) {
            z3::expr x = zTerm(a), y = zTerm(b);
            if (x.is_int() != y.is_int()) {
                if (x.is_int()) x = z3::to_real(x);
                if (y.is_int()) y = z3::to_real(y);
            }
            return k == 0 ? x == y : k == 1 ? x < y : x <= y;
        };
        switch (n.kind) {
            case F_FALSE: e = c.bool_val(false); break;
            case F_TRUE: e = c.bool_val(true); break;
            case F_EQ: e = cmp(n.a, n.b, 0); break;
            case F_LT: e = cmp(n.a, n.b, 1); break;
            case F_LE: e = cmp(n.a, n.b, 2); break;
            case F_AND: e = zForm(F(n.a)) && zForm(F(n.b)); break;
            case F_OR: e = zForm(F(n.a)) || zForm(F(n.b)); break;
            case F_NOT: e = !zForm(F(n.a)); break;
        }
        z.forms.emplace(f.id, e);
        return e;
    }
    // atoms (variables and applications) of a term, recursively through application arguments
    static void atomsOfTerm(Id a, set<Id> &out, std::unordered_set<Id> &seen) {
        vector<Id> st{a};
        while (!st.empty()) {
            Id x = st.back();
            st.pop_back();
            if (!seen.insert(x).second) continue;
            const Node &n = A().nodes[x];
            switch (n.kind) {
                case K_ADD: case K_MUL: case K_DIV: st.push_back(n.a); st.push_back(n.b); break;
                case K_VAR: out.insert(x); break;
                case K_APP: {
                    out.insert(x);
                    for (Id y: A().apps[n.a].args) st.push_back(y);
                    break;
                }
                default: break;
            }
        }
    }
    static void atomsOfForm(F f, set<Id> &out, std::unordered_set<Id> &seen, set<Id> &fseen) {
        if (!fseen.insert(f.id).second) return;
        FNode n = FA().nodes[f.id];
        switch (n.kind) {
            case F_EQ: case F_LT: case F_LE: atomsOfTerm(n.a, out, seen); atomsOfTerm(n.b, out, seen); break;
            case F_AND: case F_OR: atomsOfForm(F(n.a), out, seen, fseen); atomsOfForm(F(n.b), out, seen, fseen); break;
            case F_NOT: atomsOfForm(F(n.a), out, seen, fseen); break;
            default: break;
        }
    }
    static std::unordered_map<Id, set<Id>> g_formAtoms;
    static const set<Id> &atomsOf(F f) {
        auto it = g_formAtoms.find(f.id);
        if (it != g_formAtoms.end()) return it->second;
        set<Id> out, fseen;
        std::unordered_set<Id> seen;
        atomsOfForm(f, out, seen, fseen);
        return g_formAtoms[f.id] = out;
    }

    static std::unordered_map<Id, vector<F>> g_builtinAx;
    static const vector<F> &builtinAxioms(Id a) {
        auto it = g_builtinAx.find(a);
        if (it != g_builtinAx.end()) return it->second;
        vector<F> r;
        Node n = A().nodes[a];
        if (n.kind == K_VAR) {
            if (A().varNames[n.a] == "pi" && !n.isInt) {
                Sym p = Sym::raw(a);
                r.push_back(gt(p, Sym(mpq_class("31415926535897932384/10000000000000000000"))));
                r.push_back(lt(p, Sym(mpq_class("31415926535897932385/10000000000000000000"))));
            }
        } else if (n.kind == K_APP) {
            App ap = A().apps[n.a];
            vector<Sym> x;
            for (Id i: ap.args) x.push_back(Sym::raw(i));
            Sym v = Sym::raw(a);
            const string &f = ap.fn;
            if (f == "sqrt") {
                r.push_back(implies(ge(x[0], 0), ge(v, 0) && eq(v * v, x[0])));
                r.push_back(implies(gt(x[0], 0), gt(v, 0)));
            } else if (f == "abs") {
                r.push_back(implies(ge(x[0], 0), eq(v, x[0])));
                r.push_back(implies(lt(x[0], 0), eq(v, -x[0])));
            } else if (f == "floor") {
                r.push_back(le(v, x[0]) && lt(x[0], v + 1));
            } else if (f == "nearest") {
                Sym h(mpq_class(1, 2));
                r.push_back(le(v - h, x[0]) && le(x[0], v + h));
            } else if (f == "round") {
                Sym h(mpq_class(1, 2));
                r.push_back(implies(ge(x[0], 0), le(v - h, x[0]) && lt(x[0], v + h)));
                r.push_back(implies(lt(x[0], 0), lt(v - h, x[0]) && le(x[0], v + h)));
            } else if (f == "trunc") {
                r.push_back(implies(ge(x[0], 0), le(v, x[0]) && lt(x[0], v + 1)));
                r.push_back(implies(lt(x[0], 0), ge(v, x[0]) && gt(x[0], v - 1)));
            } else if (f == "sin" || f == "cos") {
                Sym s = app1("sin", x[0]), c = app1("cos", x[0]);
                r.push_back(eq(s * s + c * c, 1));
            } else if (f == "sinh" || f == "cosh") {
                Sym s = sinh(x[0]), c = cosh(x[0]);
                r.push_back(eq(c * c - s * s, 1) && ge(c, 1));
            } else if (f == "exp") {
                r.push_back(gt(v, 0));
            } else if (f == "pow") {
                r.push_back(implies(gt(x[0], 0), gt(v, 0)));
                r.push_back(implies(gt(x[0], 1) && gt(x[1], 0), gt(v, 1)));
                r.push_back(implies(gt(x[0], 0) && lt(x[0], 1) && gt(x[1], 0), lt(v, 1)));
                r.push_back(implies(eq(x[0], 1), eq(v, 1)));
            } else if (f == "atan2") {
                Sym y = x[0], c = x[1], p = PI();
                Sym h = p * Sym(mpq_class(1, 2));
                r.push_back(gt(v, -p) && le(v, p));
                r.push_back(implies(gt(y, 0), gt(v, 0) && lt(v, p)));
                r.push_back(implies(lt(y, 0), lt(v, 0)));
                r.push_back(implies(eq(y, 0) && ge(c, 0), eq(v, 0)));
                r.push_back(implies(eq(y, 0) && lt(c, 0), eq(v, p)));
                r.push_back(implies(gt(c, 0), gt(v, -h) && lt(v, h)));
                r.push_back(implies(lt(c, 0) && ge(y, 0), gt(v, h)));
                r.push_back(implies(lt(c, 0) && lt(y, 0), lt(v, -h)));
                r.push_back(implies(eq(c, 0) && gt(y, 0), eq(v, h)));
                r.push_back(implies(eq(c, 0) && lt(y, 0), eq(v, -h)));
            }
            auto ia = g_ax1.find(f);
            if (ia != g_ax1.end())
                for (auto &ax: ia->second) r.push_back(ax(x, v));
        }
        return g_builtinAx[a] = r;
    }
    static map<std::pair<Id, Id>, vector<F>> g_pairAx;
    static const vector<F> &pairAxioms(Id a, Id b) {
        auto key = std::make_pair(a, b);
        auto it = g_pairAx.find(key);
        if (it != g_pairAx.end()) return it->second;
        vector<F> r;
        App pa = A().apps[A().nodes[a].a], pb = A().apps[A().nodes[b].a];
        vector<Sym> xa, xb;
        F same(true);
        for (size_t i = 0; i < pa.args.size(); ++i) {
            xa.push_back(Sym::raw(pa.args[i]));
            xb.push_back(Sym::raw(pb.args[i]));
            same = same && mkEq(pa.args[i], pb.args[i]);
        }
        Sym va = Sym::raw(a), vb = Sym::raw(b);
        if (same.id != 0) r.push_back(implies(same, eq(va, vb)));
        auto ia = g_ax2.find(pa.fn);
        if (ia != g_ax2.end())
            for (auto &ax: ia->second) {
                r.push_back(ax(xa, va, xb, vb));
                r.push_back(ax(xb, vb, xa, va));
            }
        return g_pairAx[key] = r;
    }
    // close a set of formulas under the axioms of the atoms they mention
    static vector<F> axiomsFor(const vector<F> &fs, bool withPairs) {
        set<Id> atoms;
        for (F f: fs) for (Id a: atomsOf(f)) atoms.insert(a);
        vector<F> out;
        set<Id> done;
        for (int round = 0; round < 3; ++round) {
            vector<Id> todo;
            for (Id a: atoms) if (!done.count(a)) todo.push_back(a);
            if (todo.empty()) break;
            for (Id a: todo) {
                done.insert(a);
                for (F f: builtinAxioms(a)) {
                    out.push_back(f);
                    for (Id b: atomsOf(f)) atoms.insert(b);
                }
            }
        }
        if (withPairs) {
            map<string, vector<Id>> byFn;
            for (Id a: atoms)
                if (A().nodes[a].kind == K_APP) byFn[A().apps[A().nodes[a].a].fn + "/" + std::to_string(A().apps[A().nodes[a].a].args.size())].push_back(a);
            size_t cnt = 0;
            for (auto &g: byFn)
                for (size_t i = 0; i < g.second.size(); ++i)
                    for (size_t j = i + 1; j < g.second.size(); ++j) {
                        if (++cnt > 600) break;
                        for (F f: pairAxioms(g.second[i], g.second[j])) out.push_back(f);
                    }
        }
        return out;
    }

    struct Stats {
        long z3Queries = 0;
        double z3Time = 0;
        long normQueries = 0;
        double normTime = 0;
    };
    static Stats g_stats;
    static std::ofstream *g_smtDump = nullptr;

    static unsigned rlimitPerMs() {
        static unsigned k = getenv("VC_RLIMIT_PER_MS") ? atoi(getenv("VC_RLIMIT_PER_MS")) : 1000;
        return k;
    }

    // one thread for the whole run that interrupts a solver call that overstays
    struct Watchdog {
        std::atomic<long> deadline{0};  // ms, 0: idle
        static long ms() {
            return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
        }
        Watchdog() {
            z3::context *c = &ZZ().ctx;
            std::thread([this, c] {
                for (;;) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(100));
                    long d = deadline.load();
                    if (d && ms() > d) c->interrupt();
                }
            }).detach();
        }
        void arm(long t) { deadline = ms() + t; }
        void disarm() { deadline = 0; }
    };
    static Watchdog &watchdog() {
        static Watchdog *w = new Watchdog();
        return *w;
    }

    // returns sat / unsat / unknown
    static z3::check_result zCheck(const vector<F> &fs, unsigned timeout, string *model, bool axioms = true, string *dump = nullptr) {
        for (F f: fs) if (f.id == 0) return z3::unsat;
        vector<F> all = fs;
        if (axioms) for (F f: axiomsFor(fs, true)) all.push_back(f);
        Z &z = ZZ();
        double t0 = now();
        z3::check_result r;
        {
            z3::solver s(z.ctx);
            z3::params p(z.ctx);
            // a resource limit, not a timeout: the timer threads of z3 4.8 can deadlock; the wall clock guard is ours
            p.set("rlimit", timeout * rlimitPerMs());
            s.set(p);
            for (F f: all) if (f.id != 1) s.add(zForm(f));
            if (dump) *dump = s.to_smt2();
            static const char *slowFile = getenv("VC_LAST_QUERY");
            if (slowFile) std::ofstream(slowFile) << s.to_smt2();
            watchdog().arm(timeout * 3 + 1000);
            try {
                r = s.check();
            } catch (z3::exception &e) {
                r = z3::unknown;
            }
            watchdog().disarm();
            if (r == z3::sat && model) {
                std::ostringstream os;
                z3::model m = s.get_model();
                set<Id> atoms;
                for (F f: fs) for (Id a: atomsOf(f)) atoms.insert(a);
                int cnt = 0;
                for (Id a: atoms) {
                    z3::expr v = m.eval(zTerm(a), false);
                    string sv;
                    if (v.is_numeral()) sv = v.is_real() || v.is_int() ? v.get_decimal_string(12) : "";
                    else if (v.is_algebraic()) sv = v.get_decimal_string(12);
                    else continue;
                    if (cnt++) os << "; ";
                    os << show(a) << " = " << sv;
                    if (cnt > 60) {
                        os << "; ...";
                        break;
                    }
                }
                *model = os.str();
            }
        }
        g_stats.z3Queries++;
        g_stats.z3Time += now() - t0;
        return r;
    }

    // ================================================================================ explorer
    struct Decision {
        F cond;
        bool value;
        bool open;    // the other side is still to be explored
        Id term = 0;  // bounds record of a concretised integer
        mpz_class lo = 0, hi = 0;
    };
    struct ObResult {
        long count = 0, normaliser = 0, z3 = 0, exact = 0, trivial = 0, failed = 0, undecided = 0;
        double time = 0;
        vector<std::pair<string, string>> failures; // description, model
        vector<string> undecidedAt;
    };
    struct Report {
        map<string, ObResult> obs;
        vector<string> obOrder;
        map<string, long> covers;
        map<string, int> canaries; // label -> 1 refuted(ok), 0 provable (bad)
        vector<string> underContract, assumptions;
        map<string, string> notes;
        long paths = 0, infeasible = 0, cutPaths = 0, thrown = 0;
        bool truncated = false;
        bool bounded = false;
        vector<string> bounds;
        vector<string> errors;
        long forks = 0;
    };
    static Report g_rep;
    struct State {
        bool active = false;
        vector<Decision> trail;
        size_t pos = 0;
        vector<F> pc;
        set<Id> pcSet;
        Options opts;
        string caseName;
        double pathStart = 0;
        std::unordered_map<Id, int> decided;
    };
    static State g_st;
    static bool g_loopsCut = false;
    bool loopsCut() { return g_loopsCut; }
    void setLoopsCut(bool b) { g_loopsCut = b; }
    void havoc(Sym &s) { s = Sym::fresh("havoc"); }
    void havoc(SInt &s) { s = SInt::raw(mkFresh("ihavoc", true)); }

    static void pushPc(F f) {
        if (f.id == 1) return;
        FNode n = FA().nodes[f.id];
        if (n.kind == F_AND) {
            pushPc(F(n.a));
            pushPc(F(n.b));
            return;
        }
        if (g_st.pcSet.insert(f.id).second) g_st.pc.push_back(f);
    }

    static vector<F> withPc(F f) {
        vector<F> v = g_st.pc;
        v.push_back(f);
        return v;
    }
    // conjuncts of the path condition connected to the goal through shared atoms
    static vector<F> sliced(F goal) {
        set<Id> atoms = atomsOf(goal);
        for (F f: axiomsFor({goal}, false)) for (Id a: atomsOf(f)) atoms.insert(a);
        vector<bool> in(g_st.pc.size(), false);
        bool changed = true;
        Id pi = mkVar("pi", false);
        while (changed) {
            changed = false;
            for (size_t i = 0; i < g_st.pc.size(); ++i)
                if (!in[i]) {
                    bool hit = false;
                    for (Id a: atomsOf(g_st.pc[i])) if (a != pi && atoms.count(a)) hit = true;
                    if (hit) {
                        in[i] = true;
                        changed = true;
                        for (Id a: atomsOf(g_st.pc[i])) atoms.insert(a);
                    }
                }
        }
        vector<F> r;
        for (size_t i = 0; i < in.size(); ++i) if (in[i]) r.push_back(g_st.pc[i]);
        return r;
    }

    static bool impliedTrivially(F f) {
        return g_st.pcSet.count(f.id) > 0;
    }

    bool decide(F f) {
        if (f.id == 0) return false;
        if (f.id == 1) return true;
        if (!g_st.active) throw std::runtime_error("vc: branch on a symbolic value outside of an exploration: " + show(f));
        if (impliedTrivially(f)) return true;
        F nf = !f;
        if (impliedTrivially(nf)) return false;
        auto &st = g_st;
        if (st.pos < st.trail.size()) {
            Decision &d = st.trail[st.pos++];
            if (d.cond.id != f.id) {
                // non-deterministic re-execution: a machinery error
                throw std::runtime_error("vc: re-execution diverged at " + show(f) + " versus " + show(d.cond));
            }
            pushPc(d.value ? f : nf);
            return d.value;
        }
        bool t = true, e = true;
        if (st.opts.prune) {
            vector<F> sl = sliced(f);
            sl.push_back(f);
            t = zCheck(sl, st.opts.feasTimeoutMs, nullptr) != z3::unsat;
            if (t) {
                sl.back() = nf;
                e = zCheck(sl, st.opts.feasTimeoutMs, nullptr) != z3::unsat;
            }
        }
        if (!t && !e) throw PathEnd{};
        bool v = t;
        st.trail.push_back({f, v, t && e});
        if (t && e) g_rep.forks++;
        st.pos++;
        pushPc(v ? f : nf);
        return v;
    }

    bool choose(const string &hint) {
        Sym v = Sym::raw(mkFresh("choice_" + hint, false));
        return decide(lt(Sym(0), v));
    }

    long concretizeInt(Id a) {
        if (isConst(a)) {
            const mpq_class &q = constValue(a);
            return q.get_num().get_si();
        }
        // bounds of the value on this path (found once, recorded in the trail), then binary splitting
        mpz_class lo, hi;
        if (g_st.pos < g_st.trail.size()) {
            Decision &d = g_st.trail[g_st.pos++];
            if (d.cond.id != 1 || d.term != a) throw std::runtime_error("vc: re-execution diverged in concretisation");
            lo = d.lo, hi = d.hi;
        } else {
            auto feasible = [&](F f) {
                vector<F> sl = sliced(f);
                sl.push_back(f);
                return zCheck(sl, 4000, nullptr) != z3::unsat;
            };
            auto atLeast = [&](const mpz_class &v) { return feasible(mkLe(mkConst(mpq_class(v)), a)); };
            auto atMost = [&](const mpz_class &v) { return feasible(mkLe(a, mkConst(mpq_class(v)))); };
            mpz_class cap = 1000000, step;
            // largest value: find by doubling from 0 in the right direction, then bisect
            auto extreme = [&](auto &&possible, int sgn) -> mpz_class { // possible(v): some value is >= v (sgn=1) / <= v (sgn=-1)
                mpz_class good, bad;
                if (possible(mpz_class(0))) {
                    good = 0;
                    step = 1;
                    while (possible(mpz_class(good + sgn * step))) {
                        good += sgn * step;
                        step *= 2;
                        if (step > cap) throw std::runtime_error("vc: too many integer values for " + show(a));
                    }
                    bad = good + sgn * step;
                } else {
                    bad = 0;
                    step = 1;
                    while (!possible(mpz_class(bad - sgn * step))) {
                        bad -= sgn * step;
                        step *= 2;
                        if (step > cap) throw PathEnd{};
                    }
                    good = bad - sgn * step;
                }
                while (::abs(mpz_class(bad - good)) > 1) {
                    mpz_class mid = (bad + good) / 2;
                    if (mid == good || mid == bad) break;
                    if (possible(mid)) good = mid; else bad = mid;
                }
                return good;
            };
            hi = extreme(atLeast, 1);
            lo = extreme(atMost, -1);
            Decision d{F(true), true, false};
            d.term = a;
            d.lo = lo, d.hi = hi;
            g_st.trail.push_back(d);
            g_st.pos++;
        }
        if (hi - lo > 2 * g_st.opts.maxConcretize) throw std::runtime_error("vc: too many integer values for " + show(a));
        while (lo < hi) {
            mpz_class mid = lo + (hi - lo) / 2;
            if (decide(mkLe(a, mkConst(mpq_class(mid))))) hi = mid; else lo = mid + 1;
        }
        if (lo > hi) throw PathEnd{};
        pushPc(mkEq(a, mkConst(mpq_class(lo))));
        return lo.get_si();
    }

    void assume(F f) {
        if (f.id == 0) throw PathEnd{};
        pushPc(f);
    }

    static ObResult &ob(const string &label) {
        auto it = g_rep.obs.find(label);
        if (it == g_rep.obs.end()) {
            g_rep.obOrder.push_back(label);
            return g_rep.obs[label];
        }
        return it->second;
    }

    static string pathDescription() {
        std::ostringstream os;
        os << "path of case '" << g_st.caseName << "': ";
        int c = 0;
        for (auto &d: g_st.trail) {
            if (c++) os << " & ";
            os << show(d.value ? d.cond : !d.cond);
            if (c > 14) {
                os << " & ...";
                break;
            }
        }
        return os.str();
    }

    // path equalities usable as substitutions for the normaliser
    static void setSubst() {
        g_subst.clear();
        g_normSubst.clear();
        map<Id, Id> sub;
        for (F f: g_st.pc) {
            FNode n = FA().nodes[f.id];
            if (n.kind != F_EQ) continue;
            // find an atom occurring linearly with constant coefficient in a - b
            Id d = mkAdd(n.a, mkNeg(n.b));
            try {
                g_subst = sub;
                g_normSubst.clear();
                Rat r = norm(d);
                g_subst.clear();
                if (!r.den.empty() && denPoly(r.den).size() == 0) continue;
                Id best = 0;
                mpq_class coef;
                for (auto &t: r.num)
                    if (t.first.size() == 1 && t.first[0].second == 1) {
                        Id v = t.first[0].first;
                        int occ = 0;
                        for (auto &u: r.num) for (auto &e: u.first) if (e.first == v) ++occ;
                        if (occ == 1 && v > best) {
                            // avoid atoms whose arguments mention v: fine, only polynomial substitution
                            best = v;
                            coef = t.second;
                        }
                    }
                if (!best) continue;
                // v = -(rest)/coef
                Id rest = mkConst(0);
                for (auto &t: r.num) {
                    if (t.first.size() == 1 && t.first[0].first == best) continue;
                    Id m = mkConst(-t.second / coef);
                    for (auto &e: t.first) for (int i = 0; i < e.second; ++i) m = mkMul(m, e.first);
                    rest = mkAdd(rest, m);
                }
                sub[best] = rest;
                // keep previously chosen right hand sides free of best
            } catch (TooBig &) {
                g_subst.clear();
            }
        }
        g_subst = sub;
        g_normSubst.clear();
    }
    static void clearSubst() {
        g_subst.clear();
        g_normSubst.clear();
    }

    static void conjuncts(F f, vector<F> &out) {
        FNode n = FA().nodes[f.id];
        if (n.kind == F_AND) {
            conjuncts(F(n.a), out);
            conjuncts(F(n.b), out);
        } else out.push_back(f);
    }

    // evaluate under an assignment of rationals to atoms, for falsification by sampling
    static bool evalTerm(Id a, std::unordered_map<Id, mpq_class> &val, mpq_class &out) {
        auto it = val.find(a);
        if (it != val.end()) {
            out = it->second;
            return true;
        }
        const Node n = A().nodes[a];
        mpq_class x, y;
        switch (n.kind) {
            case K_CONST: out = constValue(a); break;
            case K_ADD: if (!evalTerm(n.a, val, x) || !evalTerm(n.b, val, y)) return false; out = x + y; break;
            case K_MUL: if (!evalTerm(n.a, val, x) || !evalTerm(n.b, val, y)) return false; out = x * y; break;
            case K_DIV: if (!evalTerm(n.a, val, x) || !evalTerm(n.b, val, y)) return false; if (y == 0) return false; out = x / y; break;
            default: return false;
        }
        val[a] = out;
        return true;
    }
    static int evalForm(F f, std::unordered_map<Id, mpq_class> &val) {
        FNode n = FA().nodes[f.id];
        mpq_class x, y;
        switch (n.kind) {
            case F_FALSE: return 0;
            case F_TRUE: return 1;
            case F_EQ: case F_LT: case F_LE:
                if (!evalTerm(n.a, val, x) || !evalTerm(n.b, val, y)) return -1;
                return n.kind == F_EQ ? x == y : n.kind == F_LT ? x < y : x <= y;
            case F_AND: { int a = evalForm(F(n.a), val); if (a == 0) return 0; int b = evalForm(F(n.b), val); if (b == 0) return 0; return a < 0 || b < 0 ? -1 : 1; }
            case F_OR: { int a = evalForm(F(n.a), val); if (a == 1) return 1; int b = evalForm(F(n.b), val); if (b == 1) return 1; return a < 0 || b < 0 ? -1 : 0; }
            case F_NOT: { int a = evalForm(F(n.a), val); return a < 0 ? -1 : 1 - a; }
        }
        return -1;
    }
    // look for a rational point satisfying the path condition and all axioms and violating the goal
    static bool sampleCounterexample(F goal, string &model) {
        vector<F> all = g_st.pc;
        all.push_back(!goal);
        for (F f: axiomsFor(all, true)) all.push_back(f);
        set<Id> atoms;
        for (F f: all) for (Id a: atomsOf(f)) atoms.insert(a);
        uint64_t seed = 12345;
        auto rnd = [&]() { seed = mix(seed); return seed; };
        for (int trial = 0; trial < 400; ++trial) {
            std::unordered_map<Id, mpq_class> val;
            bool ok = true;
            for (Id a: atoms) { // ascending ids: arguments come before applications
                Node n = A().nodes[a];
                mpq_class v;
                if (n.kind == K_VAR && A().varNames[n.a] == "pi") v = mpq_class("31415926535897932384626/10000000000000000000000");
                else {
                    long num = (long) (rnd() % 41) - 20;
                    v = n.isInt ? mpq_class(num) : mpq_class(num, 1 + (long) (rnd() % 4));
                    v.canonicalize();
                    if (n.kind == K_APP) {
                        const App ap = A().apps[n.a];
                        mpq_class x;
                        if ((ap.fn == "abs" || ap.fn == "floor" || ap.fn == "sqrt") && evalTerm(ap.args[0], val, x)) {
                            if (ap.fn == "abs") v = ::abs(x);
                            else if (ap.fn == "floor") v = mpq_class(floorQ(x));
                            else if (x >= 0) {
                                mpz_class sn = ::sqrt(x.get_num()), sd = ::sqrt(x.get_den());
                                v = mpq_class(sn, sd == 0 ? mpz_class(1) : sd);
                                v.canonicalize();
                            }
                        }
                    }
                }
                val[a] = v;
            }
            for (F f: all) {
                int e = evalForm(f, val);
                if (e != 1) {
                    ok = false;
                    break;
                }
            }
            if (ok) {
                std::ostringstream os;
                int cnt = 0;
                for (Id a: atoms) {
                    if (cnt++) os << "; ";
                    os << show(a) << " = " << val[a].get_d();
                    if (cnt > 60) break;
                }
                model = os.str();
                return true;
            }
        }
        return false;
    }

    enum Verdict { PROVED_TRIVIAL, PROVED_NORM, PROVED_Z3, FAILED, UNDECIDED };

    static Verdict discharge(F f, string *model) {
        if (f.id == 1) return PROVED_TRIVIAL;
        if (impliedTrivially(f)) return PROVED_TRIVIAL;
        FNode n = FA().nodes[f.id];
        bool eqGoal = n.kind == F_EQ;
        if (eqGoal) {
            double t0 = now();
            Id d = mkAdd(n.a, mkNeg(n.b));
            int z = zeroTest(d);
            if (z != 1) {
                setSubst();
                if (!g_subst.empty()) z = zeroTest(d);
                clearSubst();
            }
            g_stats.normQueries++;
            g_stats.normTime += now() - t0;
            if (z == 1) return PROVED_NORM;
        }
        F nf = !f;
        vector<F> sl = sliced(f);
        sl.push_back(nf);
        unsigned to = g_st.opts.proveTimeoutMs;
        auto r = zCheck(sl, to, nullptr);
        if (r == z3::unsat) return PROVED_Z3;
        if (r == z3::sat) {
            vector<F> all = withPc(nf);
            r = zCheck(all, to, model);
            if (r == z3::unsat) return PROVED_Z3;
            if (r == z3::sat) return FAILED;
        } else {
            vector<F> all = withPc(nf);
            if (all.size() != sl.size()) {
                r = zCheck(all, to, model);
                if (r == z3::unsat) return PROVED_Z3;
                if (r == z3::sat) return FAILED;
            }
        }
        if (sampleCounterexample(f, *model)) return FAILED;
        return UNDECIDED;
    }

    bool provable(F f) {
        string m;
        vector<F> cs;
        conjuncts(f, cs);
        for (F c: cs) {
            Verdict v = discharge(c, &m);
            if (v == FAILED || v == UNDECIDED) return false;
        }
        return true;
    }

    static std::unordered_map<string, Verdict> g_obCache; // (pc,goal) already discharged

    void prove(const string &label, F f) {
        ObResult &o = ob(label);
        double t0 = now();
        vector<F> cs;
        conjuncts(f, cs);
        for (F c: cs) {
            o.count++;
            if (o.failed + o.undecided >= 12) { // enough evidence of a failure for this clause
                o.undecided++;
                continue;
            }
            string model;
            Verdict v = discharge(c, &model);
            switch (v) {
                case PROVED_TRIVIAL: o.trivial++; break;
                case PROVED_NORM: o.normaliser++; break;
                case PROVED_Z3: o.z3++; break;
                case FAILED:
                    o.failed++;
                    if (o.failures.size() < 3) o.failures.push_back({show(c) + "  on " + pathDescription(), model});
                    break;
                case UNDECIDED:
                    o.undecided++;
                    if (o.undecidedAt.size() < 3) o.undecidedAt.push_back(show(c) + "  on " + pathDescription());
                    break;
            }
        }
        o.time += now() - t0;
    }

    void fail(const string &label, const string &why) {
        ObResult &o = ob(label);
        o.count++;
        string model;
        auto r = zCheck(g_st.pc, g_st.opts.proveTimeoutMs, &model);
        if (r == z3::unsat) {
            o.z3++;
            return;
        }
        if (r == z3::unknown) {
            o.undecided++;
            if (o.undecidedAt.size() < 3) o.undecidedAt.push_back(why + "  on " + pathDescription());
            return;
        }
        o.failed++;
        if (o.failures.size() < 3) o.failures.push_back({why + "  on " + pathDescription(), model});
    }

    void canary(const string &label, F f) {
        string m;
        bool p = true;
        vector<F> cs;
        conjuncts(f, cs);
        for (F c: cs) {
            Verdict v = discharge(c, &m);
            if (v == FAILED || v == UNDECIDED) p = false;
        }
        auto it = g_rep.canaries.find(label);
        int ok = p ? 0 : 1;
        if (it == g_rep.canaries.end()) g_rep.canaries[label] = ok;
        else it->second = std::max(it->second, ok); // must be refutable on at least one path
    }

    void cover(const string &label) {
        long &c = g_rep.covers[label];
        if (c == 0) {
            string m;
            auto r = zCheck(g_st.pc, 10000, &m);
            if (r != z3::unsat) c++;
        } else c++;
    }

    void note(const string &k, const string &v) { g_rep.notes[k] = v; }
    void underContract(const string &f) {
        if (std::find(g_rep.underContract.begin(), g_rep.underContract.end(), f) == g_rep.underContract.end())
            g_rep.underContract.push_back(f);
    }
    void assumption(const string &t) {
        if (std::find(g_rep.assumptions.begin(), g_rep.assumptions.end(), t) == g_rep.assumptions.end())
            g_rep.assumptions.push_back(t);
    }
    void proveExact(const string &label, bool ok, const string &detail, const string &) {
        ObResult &o = ob(label);
        o.count++;
        if (ok) o.exact++;
        else {
            o.failed++;
            if (o.failures.size() < 6) o.failures.push_back({detail, ""});
        }
    }

    static void resetPath() {
        g_st.pos = 0;
        g_st.pc.clear();
        g_st.pcSet.clear();
        g_freshCounters.clear();
        g_signs.clear();
        g_angles.clear();
    }

    void explore(const string &name, const std::function<void()> &fn, const Options &opts) {
        g_st = State();
        g_st.active = true;
        g_st.opts = opts;
        g_st.caseName = name;
        if (opts.bounded) {
            g_rep.bounded = true;
            if (std::find(g_rep.bounds.begin(), g_rep.bounds.end(), opts.bound) == g_rep.bounds.end())
                g_rep.bounds.push_back(opts.bound);
        }
        double start = now();
        while (true) {
            resetPath();
            g_st.pathStart = now();
            try {
                fn();
                g_rep.paths++;
            } catch (PathEnd &) {
                g_rep.cutPaths++;
            } catch (std::exception &e) {
                g_rep.thrown++;
                string w = e.what();
                if (w.rfind("vc: ", 0) == 0) {
                    g_rep.errors.push_back(name + ": " + w);
                    break;
                }
                if (!opts.allowThrow)
                    fail("no exception is thrown within the precondition", string("exception: ") + w);
            }
            if (g_rep.paths + g_rep.cutPaths > opts.maxPaths || now() - start > opts.maxPathSeconds) {
                g_rep.truncated = true;
                g_rep.bounds.push_back("exploration of " + name + " stopped after " + std::to_string(g_rep.paths) + " paths");
                break;
            }
            while (!g_st.trail.empty() && !g_st.trail.back().open) g_st.trail.pop_back();
            if (g_st.trail.empty()) break;
            g_st.trail.back().open = false;
            g_st.trail.back().value = !g_st.trail.back().value;
        }
        g_st.active = false;
    }

    vector<Case> &cases() {
        static vector<Case> *c = new vector<Case>();
        return *c;
    }

    // ================================================================================ output
    static string js(const string &s) {
        string r = "\"";
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c == '\n') r += "\\n";
            else if (c < 0x20) r += ' ';
            else r += c;
        }
        return r + "\"";
    }
    static void writeReport(std::ostream &os, const string &caseName, double wall) {
        auto &r = g_rep;
        os << "{\"case\":" << js(caseName) << ",\"wall_s\":" << wall << ",\"paths\":" << r.paths << ",\"cut_paths\":" << r.cutPaths
           << ",\"forks\":" << r.forks << ",\"truncated\":" << (r.truncated ? "true" : "false")
           << ",\"bounded\":" << (r.bounded ? "true" : "false") << ",\"terms\":" << A().nodes.size()
           << ",\"z3_queries\":" << g_stats.z3Queries << ",\"z3_s\":" << g_stats.z3Time
           << ",\"normaliser_queries\":" << g_stats.normQueries << ",\"normaliser_s\":" << g_stats.normTime;
        auto list = [&](const char *k, const vector<string> &v) {
            os << ",\"" << k << "\":[";
            for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << js(v[i]);
            os << "]";
        };
        list("bounds", r.bounds);
        list("errors", r.errors);
        list("under_contract", r.underContract);
        list("assumptions", r.assumptions);
        os << ",\"covers\":{";
        bool first = true;
        for (auto &c: r.covers) {
            os << (first ? "" : ",") << js(c.first) << ":" << c.second;
            first = false;
        }
        os << "},\"canaries\":{";
        first = true;
        for (auto &c: r.canaries) {
            os << (first ? "" : ",") << js(c.first) << ":" << c.second;
            first = false;
        }
        os << "},\"notes\":{";
        first = true;
        for (auto &c: r.notes) {
            os << (first ? "" : ",") << js(c.first) << ":" << js(c.second);
            first = false;
        }
        os << "},\"obligations\":[";
        first = true;
        for (auto &l: r.obOrder) {
            auto &o = r.obs[l];
            os << (first ? "" : ",") << "\n {\"label\":" << js(l) << ",\"count\":" << o.count << ",\"normaliser\":" << o.normaliser
               << ",\"z3\":" << o.z3 << ",\"exact\":" << o.exact << ",\"path_condition\":" << o.trivial << ",\"failed\":" << o.failed
               << ",\"undecided\":" << o.undecided << ",\"time_s\":" << o.time << ",\"failures\":[";
            for (size_t i = 0; i < o.failures.size(); ++i)
                os << (i ? "," : "") << "{\"goal\":" << js(o.failures[i].first) << ",\"model\":" << js(o.failures[i].second) << "}";
            os << "],\"undecided_at\":[";
            for (size_t i = 0; i < o.undecidedAt.size(); ++i) os << (i ? "," : "") << js(o.undecidedAt[i]);
            os << "]}";
            first = false;
        }
        os << "]}\n";
    }

    int mainImpl(int argc, char **argv) {
        string which, out;
        for (int i = 1; i < argc; ++i) {
            if (!strcmp(argv[i], "--list")) {
                for (auto &c: cases()) std::cout << c.name << "\n";
                return 0;
            }
            if (!strcmp(argv[i], "--case") && i + 1 < argc) which = argv[++i];
            else if (!strcmp(argv[i], "--out") && i + 1 < argc) out = argv[++i];
        }
        int rc = 0;
        double t0 = now();
        bool found = false;
        for (auto &c: cases())
            if (which.empty() || c.name == which) {
                found = true;
                try {
                    c.run();
                } catch (PathEnd &) {
                    g_rep.errors.push_back(c.name + ": path end outside exploration");
                } catch (std::exception &e) {
                    g_rep.errors.push_back(c.name + ": " + e.what());
                } catch (TooBig &) {
                    g_rep.errors.push_back(c.name + ": normal form too big");
                }
            }
        if (!found) {
            std::cerr << "no such case\n";
            return 2;
        }
        if (!out.empty()) {
            std::ofstream f(out);
            writeReport(f, which.empty() ? "all" : which, now() - t0);
        } else writeReport(std::cout, which.empty() ? "all" : which, now() - t0);
        return rc;
    }
}

int main(int argc, char **argv) { return vc::mainImpl(argc, argv); }
