#include "liou.h"
using namespace nat;
static void one() {
    SL s = randomSL();
    LiouvilleTransformation<double> lt({s.lo, s.hi}, s.p, s.q, s.w);
    for (int i = 0; i < 40; ++i) {
        double r = coin(.3) ? (coin() ? pick(lt.pieces).r.min : pick(lt.pieces).r.max) : pointIn(s.lo, s.hi);
        Y<double> z;
        for (int k = 0; k < 4; ++k) z.data[k] = coin(.2) ? 0 : uni(-2, 2);
        std::string w = Msg() << s.text() << " r=" << r << " z=" << z.data.transpose();
        double p = s.p(r), W = s.w(r), m = std::pow(p * W, .25), dm = .25 * m * (s.p.d(r) / p + s.w.d(r) / W), speed = std::sqrt(W / p);
        auto y = lt.z2y(r, z);
        double want[4] = {m * z.data[0], (dm * z.data[0] + m * z.data[1]) / speed, m * z.data[2], (dm * z.data[2] + m * z.data[3]) / speed};
        const char *rows[] = {"value", "derivative", "energy derivative of the value", "energy derivative of the derivative"};
        for (int k = 0; k < 4; ++k) expectClose(y.data[k], want[k], 1e-6, 1e-6 * (1 + std::abs(want[k])), w + " z2y " + rows[k]);
        double x = lt.r2x(r);
        auto back = lt.y2z(x, y);
        for (int k = 0; k < 4; ++k) expectClose(back.data[k], z.data[k], 1e-7, 1e-7 * (1 + z.data.cwiseAbs().maxCoeff()), w + " y2z(z2y) " + rows[k]);
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
