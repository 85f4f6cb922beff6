// Reference for the pairwise losses.
#ifndef PAIRS_H_
#define PAIRS_H_
#include <algorithm>
#include "h.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace gbdt;
static double ab(double x) { return x < 0 ? -x : x; }
static bool ne(double a, double b, double e) { return (a - b <= e) & (b - a <= e); }
struct Contr { int p, n; double w, g, h, l; };   // weighted pair
// Value, negative slope and curvature of the documented losses of a pair.
static void ref_pair(int kind, double dy, double df, double* l, double* g, double* h) {
  if (kind == 0) { if (df >= 1) { *l = *g = *h = 0; } else if (df >= 0) { *l = 0.5 * (1 - df) * (1 - df); *g = 1 - df; *h = 1; } else { *l = 0.5 - df; *g = 1; *h = 0; } }
  else if (kind == 2) { if (dy - df > 0) { *l = (dy - df) * (dy - df); *g = dy - df; *h = 1; } else *l = *g = *h = 0; }
  else { double e = df >= 0 ? exp(-df) : exp(df), s = df >= 0 ? e / (1 + e) : 1 / (1 + e); *l = df >= 0 ? log(1 + e) : log(1 + e) - df; *g = s; *h = s * (1 - s); }
}
// Parses "loss=V,..." of a progress message (V printed or as symbolic token).
static double parse_loss(const std::string& s) {
  CHECK_(s.compare(0, 5, "loss=") == 0, "the progress message starts with the loss"); double v; if (s[5] == 1) memcpy(&v, s.data() + 6, 8); else v = strtod(s.c_str() + 5, nullptr); return v;
}
// Some multiset of N pairs of cs explains the gradients of the rows (all rows in `mine`) and the loss.
static bool explained(const std::vector<Contr>& cs, int N, const std::vector<int>& mine, const std::vector<GradientData>& gd, double e, size_t from = 0, std::vector<Contr>* acc = nullptr) {
  std::vector<Contr> a; if (!acc) acc = &a;
  if (N == 0) { bool ok = true; for (int r : mine) { double g = 0, h = 0; for (auto& c : *acc) { if (c.p == r) { g += c.g; h += 2 * c.h; } if (c.n == r) { g -= c.g; h += 2 * c.h; } } ok = ok & ne(gd[r].g, g, e) & ne(gd[r].h, h, e); } return ok; }
  bool any = false; for (size_t i = from; i < cs.size(); ++i) { acc->push_back(cs[i]); any = any | explained(cs, N - 1, mine, gd, e, i, acc); acc->pop_back(); } return any;
}
#endif
