// Matching error and periodic characteristic value: the reported derivative is the derivative of the value.
// Matslise::propagate is replaced by its contract (C06, C08): an energy dependent solution with its derivative.
#include "env_matslise.h"
using namespace vc;

static Sym rule(const std::string &fn, const std::vector<Sym> &a, const Sym &) {
    if (fn[0] == 'u') return uf("d" + fn, a);
    throw std::runtime_error("no derivative for " + fn);
}
template<int cols, typename Theta>
static void propagated(const Sym &E, const matslise::Y<Sym, 1, cols> &y, const Sym &a, const Sym &b, bool use_h, matslise::Y<Sym, 1, cols> &out, Theta theta) {
    std::vector<Sym> x{E, a, b, Sym(use_h ? 1 : 0)};
    for (int c = 0; c < cols; ++c) {
        std::vector<Sym> z = x;
        for (int r = 0; r < 4; ++r) z.push_back(y.data(r, c));
        for (int r = 0; r < 2; ++r) {
            out.data(r, c) = uf("u" + std::to_string(r), z);
            out.data(2 + r, c) = uf("du" + std::to_string(r), z);
        }
        theta(c) = uf("theta", z);
    }
}
template<> template<> inline std::pair<matslise::Y<Sym, 1, 1>, Sym>
matslise::Matslise<Sym>::propagate<1>(const Sym &E, const matslise::Y<Sym, 1, 1> &y, const Sym &a, const Sym &b, bool use_h) const {
    matslise::Y<Sym, 1, 1> r;
    Sym th;
    propagated<1>(E, y, a, b, use_h, r, [&](int) -> Sym & { return th; });
    return {r, th};
}
template<> template<> inline std::pair<matslise::Y<Sym, 1, 2>, Eigen::Array<Sym, 2, 1>>
matslise::Matslise<Sym>::propagate<2>(const Sym &E, const matslise::Y<Sym, 1, 2> &y, const Sym &a, const Sym &b, bool use_h) const {
    matslise::Y<Sym, 1, 2> r;
    Eigen::Array<Sym, 2, 1> th;
    propagated<2>(E, y, a, b, use_h, r, [&](int c) -> Sym & { return th[c]; });
    return {r, th};
}
#include "sources_matslise.h"

VC_CASE(matching) {
    explore("matching", [] {
        underContract("Matslise::matchingError");
        Sym lo = Sym::var("min"), mid = Sym::var("mid"), hi = Sym::var("max"), E = Sym::var("E");
        assume(lt(lo, mid) && lt(mid, hi));
        GivenMesh mesh;
        mesh.make = [=](const Matslise<Sym> *ms) {
            GivenMesh::Return r;
            r.sectors.push_back(std::make_unique<Matslise<Sym>::Sector>(ms, lo, mid, Direction::forward));
            r.sectors.push_back(std::make_unique<Matslise<Sym>::Sector>(ms, mid, hi, Direction::backward));
            r.matchIndex = 0;
            return r;
        };
        Matslise<Sym> ms([](const Sym &x) { return uf("V", {x}); }, lo, hi, Sym(1e-8), mesh);
        Y<Sym> left, right;
        for (int i = 0; i < 4; ++i) left.data[i] = i < 2 ? Sym::var("l" + std::to_string(i)) : Sym(0), right.data[i] = i < 2 ? Sym::var("r" + std::to_string(i)) : Sym(0);
        bool use_h = choose("use_h");
        auto [error, derror, theta] = ms.matchingError(E, left, right, use_h);
        auto l = ms.propagate<1>(E, left, lo, mid, use_h), r = ms.propagate<1>(E, right, hi, mid, use_h);
        prove("the matching error is the Wronskian of both sides at the matching point", eq(error, l.first.data[1] * r.first.data[0] - r.first.data[1] * l.first.data[0]));
        prove("the derivative of the matching error is its derivative to the energy", eq(derror, derivative(error, E, rule)));
        prove("the angle is the difference of both sides", eq(theta, l.second - r.second));
        canary("error is zero", eq(error, 0));
    });
}

VC_CASE(periodic) {
    explore("periodic", [] {
        underContract("PeriodicMatslise::matchingError");
        underContract("calculateMatchingError (matslise/matslise/periodic.cpp)");
        Sym lo = Sym::var("min"), hi = Sym::var("max"), E = Sym::var("E");
        assume(lt(lo, hi));
        GivenMesh mesh;
        mesh.make = [=](const Matslise<Sym> *ms) {
            GivenMesh::Return r;
            r.sectors.push_back(std::make_unique<Matslise<Sym>::Sector>(ms, lo, hi, Direction::forward));
            r.matchIndex = 0;
            return r;
        };
        Eigen::Matrix<Sym, 2, 2> K;
        for (int i = 0; i < 4; ++i) K(i / 2, i % 2) = Sym::var("K" + std::to_string(i));
        PeriodicMatslise<Sym> pm([](const Sym &x) { return uf("V", {x}); }, lo, hi, Sym(1e-8), mesh, K);
        auto y = pm.matchingError(E, choose("use_h")).first;
        for (int c = 0; c < 2; ++c)
            for (int r = 0; r < 2; ++r) prove("the mismatch of both sides carries its energy derivative", eq(y.data(2 + r, c), derivative(y.data(r, c), E, rule)));
        auto [value, dvalue] = calculateMatchingError(y);
        prove("the characteristic value is the determinant of the mismatch", eq(value, y.data(0, 0) * y.data(1, 1) - y.data(0, 1) * y.data(1, 0)));
        prove("the reported derivative of the characteristic value is its derivative to the energy", eq(dvalue, derivative(value, E, rule)));
        canary("error is zero", eq(value, 0));
    });
}
