// constructPiecewise: the pieces cover both domains without gaps.  The constructor of one piece is replaced by its
// contract (C17_piece): it covers the given r-interval and maps it on [0, L], L > 0.
#include "env_liouville.h"
typedef matslise::LiouvilleTransformation<Sym> LT;
static int constructed = 0, limitPieces = 0;
static bool deep = false; // interval lengths for which every interval is accepted or rejected for one reason only
template<> matslise::LiouvilleTransformation<Sym>::Piece::Piece(const LT &, const matslise::Domain<Sym> &r_) : r(r_), x({Sym(0), Sym(0)}) {
    using namespace vc;
    if (++constructed > limitPieces) throw PathEnd{};
    Sym L = Sym::fresh("L"), c = Sym::fresh("c");
    if (deep) {
        Sym scale = 1;
        for (int k = 0; k < constructed; ++k) scale /= 4;
        if (choose("short")) assume(gt(L, 0) && lt(L, Sym(1e-9)));
        else assume(gt(L, scale) && lt(L, 2 * scale));
        c = 0;
    } else assume(gt(L, 0) && gt(L, c) && gt(L, -c));
    r2x = matslise::Polynomial<Sym, 8>{Sym(0), L - c, c};
    x.max = r2x(Sym(1));
    p = matslise::Polynomial<Sym, 8>(Sym(1));
    w = matslise::Polynomial<Sym, 8>(Sym(1));
    pwx = matslise::Polynomial<Sym, 10>(Sym(1));
}
LIOU_PIECE_X2R
#include "liouville/liouville.cpp"
using namespace vc;

static void cover_(int limit, bool deep_) {
    Options o;
    o.bounded = true;
    o.bound = "at most " + std::to_string((limit - 1) / 2) + " bisected intervals";
    o.maxPaths = 400000;
    o.feasTimeoutMs = 300;
    explore("tiling", [limit, deep_] {
        underContract("constructPiecewise");
        underContract("setXMin");
        underContract("LiouvilleTransformation::LiouvilleTransformation");
        underContract("LiouvilleTransformation::xDomain");
        deep = deep_, constructed = 0, limitPieces = limit;
        Sym a = Sym::var("a"), b = Sym::var("b");
        assume(lt(a, b));
        auto f = [](const Sym &r) { return uf("f", {r}); };
        LT t(matslise::Domain<Sym>{a, b}, f, f, f);
        size_t n = t.pieces.size();
        proveExact("there are pieces", n > 0, "no pieces");
        cover("pieces");
        if (n > 2) cover("a refined interval");
        prove("the first piece starts at the lower end", eq(t.pieces[0].r.min, a));
        prove("the last piece ends at the upper end", eq(t.pieces[n - 1].r.max, b));
        prove("the x-domain starts at zero", eq(t.xDomain().min, 0));
        prove("the x-domain ends with the last piece", eq(t.xDomain().max, t.pieces[n - 1].x.max));
        for (size_t i = 0; i < n; ++i) {
            auto &p = t.pieces[i];
            prove("every piece has positive length in r", lt(p.r.min, p.r.max));
            prove("every piece has positive length in x", lt(p.x.min, p.x.max));
            prove("the map of a piece starts at the start of the piece", eq(p.r2x(Sym(0)), p.x.min));
            prove("the map of a piece ends at the end of the piece", eq(p.r2x(Sym(1)), p.x.max));
            if (i) {
                prove("no gap in r", eq(t.pieces[i - 1].r.max, p.r.min));
                prove("no gap in x", eq(t.pieces[i - 1].x.max, p.x.min));
            }
        }
        canary("three pieces or more", F(n > 2));
    }, o);
}
VC_CASE(tiling_one) { cover_(3, false); }
VC_CASE(tiling_three) { cover_(7, true); }
VC_CASE(tiling_four) { cover_(9, true); }
