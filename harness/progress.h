// Progress messages of the losses.
#ifndef PROGRESS_H_
#define PROGRESS_H_
#include <cstdlib>
#include <cstring>
// The number after `name` in a progress message (printed, or a token of its bytes).
static double after(const std::string& s, const char* name, size_t* at) {
  size_t k = s.find(name, *at); CHECK_(k != std::string::npos, "the progress message tells the loss and its reduction"); k += std::string(name).size(); double v;
  if (s[k] == 1) { memcpy(&v, s.data() + k + 1, 8); *at = k + 9; } else { v = strtod(s.c_str() + k, nullptr); *at = k; } return v;
}
static void progress(int lo, int hi) {   // every loss reports how far it has come since its first report
  static const char* names[] = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"}; int k = CH("loss", lo, hi), n = 3; FLAGS_num_threads = 1; Config cfg; cfg.set_loss_func(names[k]); cfg.set_pair_sampling_rate(0.7f); if (k) __sym_option("exp_exact", 1);
  auto loss = LossFuncFactory::CreateLossFunc(cfg); std::vector<float> y; std::vector<double> f(n); for (int i = 0; i < n; ++i) y.push_back(k == 1 || k == 2 ? (i % 2 ? 1.f : -1.f) : (float)(i % 2 ? 1 : 4 - i)); int sym = P("sym", 0) && k == 0;
  std::vector<GradientData> gd; CHECK_(loss->Init(n, [](int) { return 1.f; }, [y](int i) { return y[i]; }, nullptr).ok(), "the data is accepted"); double first = 0;
  for (int call = 0; call < P("calls", 3); ++call) {
    for (int i = 0; i < n; ++i) f[i] = sym ? (i ? 0.5 : __sym_num("f", -4, 4, 2)) : i == 2 ? 0.25 * call : i ? 0.5 * CH("f", 0, 1) : 0.75 * CH("f", -1, 1);
    double c = 0; std::string s; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, CH("asked", 0, 1) ? &s : nullptr); if (s.empty()) continue;
    size_t at = 0; double l = after(s, "loss=", &at), r = after(s, "reduced=", &at); if (first == 0) { CHECK_(ne(r, 0, 1e-9), "nothing is reduced at first"); first = l; if (first == 0) break; continue; }
    CHECK_(ne(r * first, 100 * (first - l), 0.0051 * first + 1e-3 * (first + l)), "the reduction is relative to the loss reported first, in percent"); __sym_reach("reduced");
  }
  __sym_reach("progress");
}
#endif
