// Pointwise losses through the training interface: gradients at the shifted scores, optimal constant.
#include <atomic>
#include <cstdlib>
#include "h.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
DECLARE_int32(num_threads);
using namespace gbdt;
static bool ne(double, double, double);
#include "progress.h"
static double ab(double x) { return x < 0 ? -x : x; }
static bool ne(double a, double b, double e) { return (a - b <= e) & (b - a <= e); }
static void ref(int kind, double y, double f, double* g, double* h) {   // negative gradient and curvature
  if (kind == 0) { *g = y - f; *h = 1; return; }
  double m = y * f;
  if (kind == 1) { double s = m >= 0 ? exp(-m) / (1 + exp(-m)) : 1 / (1 + exp(m)); *g = y * s; *h = s * (1 - s); return; }
  if (m >= 1) { *g = 0; *h = 0; } else if (m >= 0) { *g = y * (1 - m); *h = 1; } else { *g = y; *h = 0; }
}
static void run(int kind) {
  static const char* names[] = {"mse", "logloss", "huberized_hinge"};
  int n = P("n", 3); FLAGS_num_threads = P("threads", 1); if (kind == 1) __sym_option("exp_exact", 1);
  Config cfg; cfg.set_loss_func(names[kind]); auto loss = LossFuncFactory::CreateLossFunc(cfg); CHECK_(loss != nullptr, "the loss exists");
  std::vector<float> y, w; std::vector<double> f; double W = 0;
  for (int i = 0; i < n; ++i) { y.push_back(kind ? ((i < P("yc", n) ? CH("y", 0, 1) : i % 3 == 1) ? 1.f : -1.f) : i < P("ys", n) ? (float)__sym_num("y", -6, 6, 1) : (float)(i % 3)); w.push_back(i < P("ws", 2) ? (P("zero", 0) ? 0.f : 1.f) + CH("w", 0, 1) : 1.f); int den = P("den", 2); f.push_back(i < P("fs", n) ? __sym_num("f", -P("fmax", 6), P("fmax", 6), den) : (i % 5 - 2) * 0.25); W += w[i]; }
  int extra = CH("oldsize", 0, P("olds", 0) ? 2 : 0); std::vector<GradientData> gd(extra == 0 ? 0 : extra == 1 ? n : n + 2, GradientData(7, 7));
  std::atomic<int> asked{0};
  CHECK_(loss->Init(n, [w](int i) { return w[i]; }, [y, &asked](int i) { ++asked; return y[i]; }, nullptr).ok(), "valid targets are accepted"); asked = 0;
  double c = 123; std::string prog; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, (P("olds", 0) ? CH("prog", 0, 1) : 0) ? &prog : nullptr);
  CHECK_((int)gd.size() == n, "one gradient per row"); int iters = asked / n; CHECK_(asked <= 30 * n, "at most ten steps");   // a row may be looked at more than once in a step
  double G = 0, H = 0; for (int i = 0; i < n; ++i) { G += w[i] * gd[i].g; H += w[i] * gd[i].h; }
  double d = H == 0 ? 0 : G / H, c0 = c - d;   // the last step and the constant before it
  for (int i = 0; i < n; ++i) { double g, h; ref(kind, y[i], f[i] + c0, &g, &h); double m = y[i] * (f[i] + c0);
    if (kind == 2) { bool kink = (ab(m) <= 1e-6) | (ab(m - 1) <= 1e-6); CHECK_(ne(gd[i].g, g, 1e-5), "a row carries the unweighted gradient of the loss at its shifted score"); CHECK_(kink | ne(gd[i].h, h, 1e-6), "a row carries the curvature of the loss at its shifted score"); }
    else CHECK_(ne(gd[i].g, g, 1e-6) && ne(gd[i].h, h, 1e-6), "a row carries the unweighted gradient and curvature of the loss at its shifted score"); }
  if (!prog.empty() && W > 0 && ab(c) < 1000 && ab(d) < 1000) { double L = 0, v; CHECK_(prog.compare(0, 5, "loss=") == 0, "the progress message starts with the loss"); if (prog[5] == 1) memcpy(&v, prog.data() + 6, 8); else v = strtod(prog.c_str() + 5, nullptr);
    for (int i = 0; i < n; ++i) { double fc = f[i] + c0, m = y[i] * fc; L += w[i] * (kind == 0 ? (y[i] - fc) * (y[i] - fc) : kind == 2 ? (m >= 1 ? 0 : m >= 0 ? 0.5 * (1 - m) * (1 - m) : 0.5 - m) : m >= 0 ? log(1 + exp(-m)) : log(1 + exp(m)) - m); }
    CHECK_(ne(v * W, L, 1e-3), "the reported loss is the weighted mean loss of the rows"); __sym_reach("progress"); }
  if (iters >= 1 && iters < 10) CHECK_(ab(d) <= 1.001e-4, "the constant is stepped until it is stationary");
  if (kind == 0) { double e = 0; for (int i = 0; i < n; ++i) e += w[i] * (y[i] - f[i]); CHECK_(ne(c * W, e, 1e-6), "the constant of the squared loss is the weighted mean residual"); }
  CHECK_(ab(c) < 1e6 || kind == 1, "the constant is finite");
  __sym_observe_i("iters", iters); __sym_reach("pointwise"); if (iters > 2) __sym_reach("steps"); if (iters == 10) __sym_reach("limit");
}
ENTRY c12_mse() { run(0); }
ENTRY c12_log() { run(1); }
ENTRY c12_hinge() { run(2); }
ENTRY c12_progress() { progress(0, 2); }
ENTRY c12_targets() {   // classification losses only take +1/-1
  static const char* names[] = {"logloss", "huberized_hinge"}; FLAGS_num_threads = 1; Config cfg; cfg.set_loss_func(names[CH("loss", 0, 1)]); auto loss = LossFuncFactory::CreateLossFunc(cfg);
  int n = CH("n", 1, 3); std::vector<float> y; bool good = true; for (int i = 0; i < n; ++i) { y.push_back(bits_f("y")); if (!(y[i] == 1.f || y[i] == -1.f)) good = false; }
  std::vector<float> w; for (int i = 0; i < n; ++i) w.push_back(CH("w", 0, 2) * 0.5f);
  CHECK_(loss->Init(n, [w](int i) { return w[i]; }, [y](int i) { return y[i]; }, nullptr).ok() == good, "targets other than +1 and -1 are refused, those are accepted");
  __sym_reach(good ? "good" : "bad");
}
ENTRY c12_factory() {
  Config cfg; static const char* names[] = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart", "", "MSE", "mse "}; int k = CH("name", 0, 9); cfg.set_loss_func(names[k]);
  auto l = LossFuncFactory::CreateLossFunc(cfg); CHECK_((l != nullptr) == (k < 7), "exactly the documented losses exist"); auto v = LossFuncFactory::LossFuncs(); bool in = false; for (auto& s : v) if (s == names[k]) in = true; CHECK_(in == (k < 7) && v.size() == 7, "the list of losses names them all"); __sym_reach("factory");
}
