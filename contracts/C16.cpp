// z2y and y2z: product and chain rule with (pw)^(1/4), and inverses of each other
#include "env_liouville.h"
LIOU_PIECE_X2R
#include "liouville/liouville.cpp"
using namespace vc;
using matslise::Y;
typedef liou::LT LT;

static Y<Sym> vec(int k) {
    Y<Sym> z;
    for (int i = 0; i < 4; ++i) z.data[i] = Sym(i == k ? 1 : 0);
    return z;
}
static Y<Sym> any(const std::string &n) {
    Y<Sym> z;
    for (int i = 0; i < 4; ++i) z.data[i] = Sym::var(n + std::to_string(i));
    return z;
}
using liou::Setup;
static Options pieces(int n) {
    Options o;
    if (n > 1) { o.bounded = true; o.bound = "lookup among up to 6 pieces"; }
    return o;
}
static void transforms(int n) {
    explore("z2y", [n] {
        underContract("LiouvilleTransformation::z2y");
        underContract("findPiece");
        Setup s(n);
        cover("piece " + std::to_string(s.k));
        Y<Sym> a = s.lt->z2y(s.r, vec(0)), b = s.lt->z2y(s.r, vec(1));
        Sym m = a.data[0], A = a.data[1], B = b.data[1];
        prove("the factor is positive", gt(m, 0));
        prove("the fourth power of the factor is p w", eq(m * m * m * m, s.p * s.w));
        // dx/dr = sqrt(w/p): y' = (m z)' / (dx/dr)
        prove("chain rule: the derivative is divided by dx/dr > 0", gt(B, 0));
        prove("chain rule: the derivative is divided by dx/dr = sqrt(w/p)", eq(B * B * s.w, m * m * s.p));
        prove("product rule with the logarithmic derivative of (pw)^(1/4)", eq(4 * A * s.p * s.w, B * (s.dp * s.w + s.dw * s.p)));
        auto z = any("z");
        auto y = s.lt->z2y(s.r, z);
        prove("the value is multiplied by the factor", eq(y.data[0], m * z.data[0]));
        prove("the derivative is linear in value and derivative", eq(y.data[1], A * z.data[0] + B * z.data[1]));
        prove("the energy derivative of the value is transformed alike", eq(y.data[2], m * z.data[2]));
        prove("the energy derivative of the derivative is transformed alike", eq(y.data[3], A * z.data[2] + B * z.data[3]));
        canary("the value is kept", eq(y.data[0], z.data[0]));
        canary("p and w are constant", eq(A, 0));
    }, pieces(n));
}
static void inverse(int n) {
    explore("inverse", [n] {
        underContract("LiouvilleTransformation::y2z");
        underContract("LiouvilleTransformation::z2y");
        underContract("LiouvilleTransformation::r2x");
        Setup s(n);
        cover("piece " + std::to_string(s.k));
        auto z = any("z");
        prove("r2x evaluates the map of the piece the point lies in", eq(s.lt->r2x(s.r), s.x));
        Sym x = s.x;
        auto y = s.lt->z2y(s.r, z);
        auto back = s.lt->y2z(x, y);
        auto other = s.lt->z2y(s.r, s.lt->y2z(x, z));
        for (int i = 0; i < 4; ++i) {
            prove("y2z undoes z2y", eq(back.data[i], z.data[i]));
            prove("z2y undoes y2z", eq(other.data[i], z.data[i]));
        }
        canary("y2z does nothing", eq(s.lt->y2z(x, z).data[0], z.data[0]));
    }, pieces(n));
}
VC_CASE(forward_one) { transforms(1); }
VC_CASE(forward_six) { transforms(6); }
VC_CASE(inverse_one) { inverse(1); }
VC_CASE(inverse_three) { inverse(3); }
VC_CASE(inverse_six) { inverse(6); }
