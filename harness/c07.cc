// Search for the best split of one feature.
#include <algorithm>
#include "h.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
using namespace gbdt;
static const double kTol = 1e-9, kMinGain = 1e-6;   // smallest gain that counts as one
static double energy(double g, double h, double l) { return h + l == 0 ? 0 : g * g / (h + l); }
struct Rows { std::vector<GradientData> gd; std::vector<float> w; std::vector<unsigned> s; GradientData total; };
static Rows rows(int n, bool weights, bool subset) {
  Rows r; static const double hs[] = {1, 0.5, 2, 0};
  for (int i = 0; i < n; ++i) {
    double g = P("real", 0) ? __sym_real("g", -P("gmax", 4), P("gmax", 4)) : __sym_num("g", -P("gmax", 4), P("gmax", 4), P("gden", 1)); double h = hs[CH("h", 0, P("hs", 1) - 1)];
    r.gd.push_back(GradientData(g, h)); r.w.push_back(weights && CH("w", 0, 1) ? 2.f : 1.f);
  }
  int skip = subset ? CH("skip", -1, n - 1) : -1;
  for (int i = n - 1; i >= 0; --i) if (i != skip) { r.s.push_back(i); r.total.g += r.w[i] * r.gd[i].g; r.total.h += r.w[i] * r.gd[i].h; }
  return r;
}
// The gain of sending `left` to the left, and whether both sides are heavy enough.
static double gain_of(const Rows& r, const std::vector<char>& left, double l, double mh, bool* ok) {
  double g = 0, h = 0; for (unsigned i : r.s) if (left[i]) { g += r.w[i] * r.gd[i].g; h += r.w[i] * r.gd[i].h; }
  double G = r.total.g - g, H = r.total.h - h; *ok = std::min(h, H) > mh;
  return energy(g, h, l) + energy(G, H, l) - energy(r.total.g, r.total.h, l);
}
static void verify(bool found, const Column* c, Split& sp, Rows& r, const Config& cfg, const std::vector<std::vector<char>>& candidates) {
  double l = cfg.l2_lambda(), mh = cfg.min_hessian(), mg = std::max(cfg.min_gain(), kMinGain); double best = 0;
  for (auto& left : candidates) { bool ok; double g = gain_of(r, left, l, mh, &ok); if (!ok) continue;
    if (found) CHECK_(g <= sp.gain() + kTol, "no admissible split has a larger gain");
    else CHECK_(g <= mg + kTol, "a split is found whenever an admissible one exceeds the required gain"); }
  if (!found) { __sym_reach("none"); return; }
  CHECK_(sp.gain() > mg - kTol, "the gain exceeds min_gain");
  auto s = r.s; auto parts = Partition(c, sp, VectorSlice<unsigned>(s));
  std::vector<char> left(r.gd.size(), 0); for (int i = 0; i < parts.first.size(); ++i) left[parts.first[i]] = 1;
  bool ok; double g = gain_of(r, left, l, mh, &ok);
  CHECK_(ok, "both sides have more than min_hessian");
  CHECK_(g <= sp.gain() + kTol && g >= sp.gain() - kTol, "the reported gain is the gain of routing the samples by the split");
  __sym_observe_i("left", parts.first.size());
  __sym_reach("found");
}
static Config config() {
  Config c; static const double ls[] = {0, 1, 0.5}; c.set_l2_lambda(ls[CH("lambda", 0, P("lambdas", 2) - 1)]);
  static const double mh[] = {0, 1, 2}; c.set_min_hessian(mh[CH("min_hessian", 0, P("mhs", 2) - 1)]);
  static const double mg[] = {0, 1, 6}; c.set_min_gain(mg[CH("min_gain", 0, P("mgs", 1) - 1)]); return c;
}
ENTRY c07_float() {
  static const float vals[] = {NAN, -1.f, 0.f, 2.f, 3.f};
  int n = P("n", 3); std::vector<float> v; int lo = 0; for (int i = 0; i < n; ++i) { int k = CH("v", lo, P("vals", 4) - 1); if (P("sorted", 1)) lo = k; v.push_back(vals[k]); }
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v);
  Rows r = rows(n, P("weights", 0), P("subset", 0)); Config cfg = config();
  Split sp; std::vector<float> w = r.w;
  bool found = FindBestSplit(c.get(), [&w](int i) { return w[i]; }, &r.gd, VectorSlice<unsigned>(r.s), cfg, r.total, &sp);
  if (found) CHECK_(sp.has_float_split() && !sp.has_cat_split(), "a numeric feature gets a threshold");
  std::vector<std::vector<char>> cand;
  for (int t = 1; t < 5; ++t) for (int mr = 0; mr < 2; ++mr) { std::vector<char> left; for (float x : v) left.push_back(nanb(x) ? !mr : x < vals[t]); cand.push_back(left); }
  verify(found, c.get(), sp, r, cfg, cand);
}
ENTRY c07_string() {
  static const char* cats[] = {"__missing__", "a", "b", "c", "d"};
  int n = P("n", 3); std::vector<std::string> v; int lo = 0; for (int i = 0; i < n; ++i) { int k = CH("v", lo, P("vals", 4) - 1); if (P("sorted", 1)) lo = k; v.push_back(cats[k]); }
  std::unique_ptr<Column> c = Column::CreateStringColumn("s", v);
  Rows r = rows(n, P("weights", 0), P("subset", 0)); Config cfg = config();
  Split sp; std::vector<float> w = r.w;
  bool found = FindBestSplit(c.get(), [&w](int i) { return w[i]; }, &r.gd, VectorSlice<unsigned>(r.s), cfg, r.total, &sp);
  if (found) CHECK_(sp.has_cat_split() && !sp.has_float_split(), "a categorical feature gets a set of categories");
  // Candidates: prefixes of the categories ordered by their score.  Without smoothing and lower
  // bounds that is the optimum over all sets of categories.
  std::vector<std::vector<char>> cand; bool all = cfg.l2_lambda() == 0 && cfg.min_hessian() == 0 && P("hs", 1) < 4;
  if (all) { for (int m = 1; m < 31; ++m) { std::vector<char> left; for (auto& x : v) { int k = 0; while (x != cats[k]) ++k; left.push_back(m >> k & 1); } cand.push_back(left); } }
  else {
    double l = cfg.l2_lambda(); std::vector<double> sc(n), gg(n), hh(n); std::vector<char> in(n, 0);
    for (unsigned i : r.s) in[i] = 1;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (in[j] && v[j] == v[i]) { gg[i] += r.w[j] * r.gd[j].g; hh[i] += r.w[j] * r.gd[j].h; } sc[i] = hh[i] + l == 0 ? 0 : gg[i] / (hh[i] + l); }
    for (int i = 0; i < n; ++i) if (in[i]) { std::vector<char> left; for (int j = 0; j < n; ++j) left.push_back(sc[j] < sc[i]); cand.push_back(left); }
  }
  verify(found, c.get(), sp, r, cfg, cand);
}
// Columns of many categories or buckets, most of them of equal score.
static void many(bool str) {
  int n = P("n", 20), k = P("sym", 2); std::vector<float> v; std::vector<std::string> t; Rows r; static const int at[] = {3, 17, 10};
  for (int i = 0; i < n; ++i) { int x = i * 7 % n; v.push_back(x); t.push_back(std::string(1, (char)('a' + x))); r.gd.push_back(GradientData(P("flat", 1) ? 0 : (i % P("period", 4) == P("period", 4) - 1) - 0.5, 1)); r.w.push_back(1); r.s.push_back(i); }
  for (int i = 0; i < k; ++i) r.gd[at[i]].g = __sym_num("g", -P("gmax", 3), P("gmax", 3), 1); for (int i = 0; i < n; ++i) { r.total.g += r.gd[i].g; r.total.h += r.gd[i].h; }
  auto c = str ? Column::CreateStringColumn("f", t) : Column::CreateBucketizedFloatColumn("f", v); Config cfg = config(); Split sp; bool found = FindBestSplit(c.get(), [](int) { return 1.f; }, &r.gd, VectorSlice<unsigned>(r.s), cfg, r.total, &sp);
  std::vector<std::vector<char>> cand; if (found) CHECK_(str ? sp.has_cat_split() && !sp.has_float_split() : sp.has_float_split() && !sp.has_cat_split(), "the kind of split is that of the column");
  for (int i = 0; i < n; ++i) { std::vector<char> left; for (int j = 0; j < n; ++j) left.push_back(str ? r.gd[j].g < r.gd[i].g : v[j] < v[i]); cand.push_back(left); }
  verify(found, c.get(), sp, r, cfg, cand); __sym_reach("many");
}
ENTRY c07_manys() { many(true); }
ENTRY c07_manyf() { many(false); }
ENTRY c07_threshold() {   // the threshold separates what the gain was computed for, for every pair of values
  float a = bits_f("a"), b = bits_f("b"); ASSUME_(!nanb(a) && !nanb(b) && a < b); bool miss = CH("missing", 0, 1), swap = CH("swap", 0, 1);
  std::vector<float> v = {a, b}; if (miss) v.push_back(NAN);
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v);
  std::vector<GradientData> gd = {GradientData(1, 1), GradientData(-1, 1)}; if (miss) gd.push_back(GradientData(swap ? 1 : -1, 1));
  GradientData total; for (auto& x : gd) total += x;
  std::vector<unsigned> s; for (size_t i = 0; i < v.size(); ++i) s.push_back(i);
  Config cfg; Split sp; bool found = FindBestSplit(c.get(), [](int) { return 1.f; }, &gd, VectorSlice<unsigned>(s), cfg, total, &sp);
  CHECK_(found, "two separable values are split");
  auto p = Partition(c.get(), sp, VectorSlice<unsigned>(s));
  std::vector<char> left(v.size(), 0); for (int i = 0; i < p.first.size(); ++i) left[p.first[i]] = 1;
  CHECK_(left[0] && !left[1], "the smaller value is on the left, the larger on the right");
  if (miss) CHECK_(left[2] == (swap ? 1 : 0), "missing goes to the side it was counted on");
  float t = sp.float_split().threshold(); CHECK_(t > a && t <= b, "the threshold lies between the two values");
  __sym_reach("threshold");
}
ENTRY c07_none() {   // nothing to split on
  int n = CH("n", 0, 3), kind = CH("kind", 0, 2); Rows r = rows(n, false, false); Config cfg = config();
  std::unique_ptr<Column> c; if (kind == 0) c = Column::CreateRawFloatColumn("r", std::vector<float>(n, 1.f)); else if (kind == 1) c = Column::CreateBucketizedFloatColumn("f", std::vector<float>(n, 1.f)); else c = Column::CreateStringColumn("s", std::vector<std::string>(n, "x"));
  Split sp; CHECK_(!FindBestSplit(c.get(), [](int) { return 1.f; }, &r.gd, VectorSlice<unsigned>(r.s), cfg, r.total, &sp), "a constant or raw column has no split");
  __sym_reach("nosplit");
}

ENTRY c07_coarse() {   // buckets of several values: the threshold also separates the values themselves
  static const float vals[] = {NAN, 1.f, 2.f, 4.f, 10.f, 100.f, 1000.f};
  int n = P("n", 4); std::vector<float> v; int lo = 0; for (int i = 0; i < n; ++i) { int k = CH("v", lo, P("vals", 7) - 1); lo = k; v.push_back(vals[k]); }
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v, CH("buckets", 2, 3)); auto& b = static_cast<BucketizedFloatColumn&>(*c);
  Rows r = rows(n, P("weights", 0), P("subset", 0)); Config cfg = config(); Split sp; std::vector<float> w = r.w;
  bool found = FindBestSplit(c.get(), [&w](int i) { return w[i]; }, &r.gd, VectorSlice<unsigned>(r.s), cfg, r.total, &sp);
  std::vector<std::vector<char>> cand;
  for (unsigned t = 1; t < b.max_int(); ++t) for (int mr = 0; mr < 2; ++mr) { std::vector<char> left; for (int i = 0; i < n; ++i) left.push_back(nanb(v[i]) ? !mr : b.col()[i] < t); cand.push_back(left); }
  verify(found, c.get(), sp, r, cfg, cand);
  if (found) {
    auto s = r.s; auto parts = Partition(c.get(), sp, VectorSlice<unsigned>(s)); float t = sp.float_split().threshold();
    for (int i = 0; i < parts.first.size(); ++i) { float x = v[parts.first[i]]; if (!nanb(x)) { CHECK_(x < t, "every value on the left is below the threshold"); } }
    for (int i = 0; i < parts.second.size(); ++i) { float x = v[parts.second[i]]; if (!nanb(x)) { CHECK_(x >= t, "no value on the right is below the threshold"); } }
    __sym_reach("coarse");
  }
}
