// The loss functions: value, negative gradient, curvature.
#include <tuple>
#include "h.h"
#include "src/loss_func/loss_func_math.h"
using namespace gbdt;
typedef std::tuple<double, double, double> T3;
static double lo_(const T3& t) { return std::get<0>(t); }
static double g_(const T3& t) { return std::get<1>(t); }
static double h_(const T3& t) { return std::get<2>(t); }
static bool ne(double a, double b, double e) { return a - b <= e && b - a <= e; }
static double real(const char* n, double lo, double hi) { return P("real", 1) ? __sym_real(n, lo, hi) : __sym_num(n, (int)(lo * P("den", 8)), (int)(hi * P("den", 8)), P("den", 8)); }
ENTRY c11_mse() {
  double y = real("y", -1000, 1000), a = real("f", -1000, 1000); T3 A = ComputeMSE(y, a);
  CHECK_(ne(lo_(A), (y - a) * (y - a), 1e-6), "the loss is the squared residual"); CHECK_(ne(g_(A), y - a, 1e-9), "the gradient is the residual"); CHECK_(ne(h_(A), 1, 1e-12), "the curvature is constant");
  __sym_reach("mse");
}
ENTRY c11_hinge() {   // 1/2 - yf | (1 - yf)^2 / 2 | 0
  double y = CH("y", 0, 1) ? 1 : -1, a = real("f", -1000, 1000), b = real("f2", -1000, 1000); T3 A = ComputeHuberizedHinge(y, a), B = ComputeHuberizedHinge(y, b); double m = y * a, m2 = y * b;
  double l = m <= 0 ? 0.5 - m : m >= 1 ? 0 : 0.5 * (1 - m) * (1 - m);
  CHECK_(ne(lo_(A), l, 1e-6), "the value of the huberized hinge");
  CHECK_(lo_(A) >= -1e-9 && h_(A) >= -1e-9 && h_(A) <= 1 + 1e-9, "loss and curvature are not negative");
  CHECK_(y * g_(A) >= -1e-9 && y * g_(A) <= 1 + 1e-9, "the gradient pulls towards the target, at most at unit speed");
  CHECK_(lo_(B) + 1e-6 >= lo_(A) - g_(A) * (b - a), "the gradient is the slope of a convex loss");
  if (m > 0 && m < 1 && m2 > 0 && m2 < 1) CHECK_(ne(g_(B) - g_(A), -h_(A) * (b - a), 1e-6) && h_(A) > 0, "the curvature is the slope of the gradient (inner part)");
  if ((m < 0 && m2 < 0) || (m > 1 && m2 > 1)) CHECK_(ne(g_(B), g_(A), 1e-9) && ne(h_(A), 0, 1e-12), "the outer parts are straight");
  __sym_reach("hinge");
}
ENTRY c11_squared() {   // max(target difference - score difference, 0)^2 for a positive target difference
  double t = real("t", -100, 100), a = real("f", -100, 100), b = real("f2", -100, 100); ASSUME_(t > 0.001); T3 A = ComputeSquaredHinge(t, a), B = ComputeSquaredHinge(t, b);
  double r = t - a > 0 ? t - a : 0;
  CHECK_(ne(lo_(A), r * r, 1e-6), "the value of the squared hinge"); CHECK_(ne(g_(A), r, 1e-6), "its (halved) gradient"); if (t - a > 1e-6) CHECK_(ne(h_(A), 1, 1e-12), "its curvature inside"); if (t - a < -1e-6) CHECK_(ne(h_(A), 0, 1e-12), "its curvature outside");
  CHECK_(lo_(B) + 1e-6 >= lo_(A) - 2 * g_(A) * (b - a), "the gradient is the slope of a convex loss");
  __sym_reach("squared");
}
ENTRY c11_negative() {   // a negative target mirrors a positive one
  double t = real("t", -100, 100), a = real("f", -100, 100); ASSUME_((t > 0.001) | (t < -0.001)); ASSUME_((t - a > 1e-4) | (t - a < -1e-4)); T3 A = ComputeSquaredHinge(t, a), B = ComputeSquaredHinge(-t, -a);
  CHECK_(ne(lo_(A), lo_(B), 1e-6) & ne(g_(A), -g_(B), 1e-6) & ne(h_(A), h_(B), 1e-6), "the loss of a negative target is that of the mirrored one");
  double r = t > 0 ? (t - a > 0 ? t - a : 0) : (t - a < 0 ? t - a : 0); CHECK_(ne(lo_(A), r * r, 1e-6) & ne(g_(A), r, 1e-6), "the loss acts while the score has not reached the target");
  __sym_reach(t < 0 ? "negative" : "positive");
}
ENTRY c11_log() {   // log(1 + exp(-yf))
  double R = P("range", 1000); double y = CH("y", 0, 1) ? 1 : -1, f = __sym_real("f", -R, R); T3 A = ComputeLogLoss(y, f); double m = y * f, g = y * g_(A);
  CHECK_(std::isfinite(lo_(A)) && std::isfinite(g_(A)) && std::isfinite(h_(A)), "loss, gradient and curvature are finite");
  CHECK_(g >= -1e-9 && g <= 1 + 1e-9, "the gradient pulls towards the target, at most at unit speed");
  CHECK_(h_(A) >= -1e-9 && h_(A) <= 0.25 + 1e-9, "the curvature is between 0 and 1/4");
  if (m >= 0) { double e = exp(-m); CHECK_(ne(g * (1 + e), e, 1e-9), "the gradient is the logistic function"); CHECK_(ne(lo_(A), log(1 + e), 1e-9), "the value of the log loss"); }
  else { double e = exp(m); CHECK_(ne(g * (1 + e), 1, 1e-9), "the gradient is the logistic function"); CHECK_(ne(lo_(A), log(1 + e) - m, 1e-9 + -m * 1e-12), "the value of the log loss"); }
  CHECK_(ne(h_(A), g * (1 - g), 1e-9), "the curvature is the slope of the gradient");
  __sym_reach("log"); if (m < -700) __sym_reach("extreme");
}
