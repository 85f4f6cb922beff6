// Feature importance and the features a model needs.
#include <algorithm>
#include <map>
#include <set>
#include "h.h"
#include "src/gbdt_algo/utils.h"
#include "src/proto/tree.pb.h"
using namespace gbdt;
static const char* names[] = {"x", "y", "", "x2"};
static std::map<std::string, double> sum; static std::set<std::string> inner, any; static double total;
static int nd = 0;
static void grow(TreeNode* t, int depth) {
  int k = CH("node", 0, depth > 0 ? 2 : 1);   // leaf, leaf that still carries a split, inner node
  if (!k) return;
  std::string f = names[CH("feature", 0, P("features", 2))]; double g = nd < P("symg", 8) ? __sym_num("gain", P("gmin", 0), P("gmax", 8), 4) : 1.5; ++nd; t->mutable_split()->set_feature(f); t->mutable_split()->set_gain(g); any.insert(f);
  if (k < 2) return;
  inner.insert(f); sum[f] += g; grow(t->mutable_left_child(), depth - 1); grow(t->mutable_right_child(), P("right", 1) ? depth - 1 : 0);
}
ENTRY c19_importance() {
  sum.clear(); inner.clear(); any.clear(); nd = 0; Forest f; int nt = CH("trees", 0, P("trees", 2)); for (int i = 0; i < nt; ++i) grow(f.add_tree(), i == 0 ? P("depth", 2) : P("depth2", 1));
  auto v = ComputeFeatureImportance(f); CHECK_(v.size() == inner.size(), "every feature the model splits on is listed once"); double mx = 0; for (auto& p : sum) mx = p.second > mx ? p.second : mx;
  std::set<std::string> seen; for (size_t i = 0; i < v.size(); ++i) {
    CHECK_(inner.count(v[i].first) && seen.insert(v[i].first).second, "every feature the model splits on is listed once"); double want = sum[v[i].first], got = v[i].second;
    if (mx > 0) { double e = got * mx - want; CHECK_((e <= 1e-6) & (e >= -1e-6), "the importance is the total gain relative to the largest one"); } else CHECK_(got == want, "without any gain every importance is 0");
    if (i) CHECK_(v[i - 1].second - got >= -1e-9, "importances are in descending order"); CHECK_(got <= 1 + 1e-9, "the largest importance is 1"); }
  if (!v.empty() && mx > 0) CHECK_((v[0].second - 1 <= 1e-9) & (1 - v[0].second <= 1e-9), "the largest importance is 1");
  __sym_reach("importance"); if (v.size() > 1) __sym_reach("several"); if (!v.empty()) { if (mx <= 0) __sym_reach("nogain"); }
}
ENTRY c19_features() {
  sum.clear(); inner.clear(); any.clear(); nd = 1000; Forest f; int nt = CH("trees", 0, P("trees", 2)); for (int i = 0; i < nt; ++i) grow(f.add_tree(), i == 0 ? P("depth", 2) : P("depth2", 1));
  auto s = CollectAllFeatures(f); for (auto& n : inner) CHECK_(s.count(n), "every feature of an inner node is collected"); for (auto& n : s) CHECK_(any.count(n), "only features of the model are collected");
  for (auto& t : f.tree()) CHECK_(IsSingleNodeTree(t) == !t.has_left_child(), "a tree without children is a single node"); __sym_reach("features");
}
ENTRY c19_many() {   // more features than a short sort takes, most of them of equal gain
  int n = P("n", 20); Forest f; std::vector<double> g(n, 1.0); for (int i = 0; i < P("sym", 2); ++i) g[i * 11] = __sym_num("gain", 0, 8, 4); std::vector<std::string> nm; for (int i = 0; i < n; ++i) nm.push_back(std::string(1, (char)('a' + i * 7 % n)));
  TreeNode* t = f.add_tree(); for (int i = 0; i < n; ++i) { t->mutable_split()->set_feature(nm[i]); t->mutable_split()->set_gain(g[i]); if (i & 1) { t->mutable_left_child(); t = t->mutable_right_child(); } else { t->mutable_right_child(); t = t->mutable_left_child(); } if (i == 9) t = f.add_tree(); }
  auto v = ComputeFeatureImportance(f); CHECK_((int)v.size() == n, "every feature the model splits on is listed once"); double mx = 0; for (double x : g) mx = x > mx ? x : mx; std::vector<char> seen(n, 0);
  for (int i = 0; i < n; ++i) { int k = -1; for (int j = 0; j < n; ++j) if (nm[j] == v[i].first) k = j; CHECK_(k >= 0 && !seen[k], "every feature the model splits on is listed once"); seen[k] = 1; double e = v[i].second * mx - g[k]; CHECK_((e <= 1e-6) & (e >= -1e-6), "the importance is the total gain relative to the largest one"); if (i) CHECK_(v[i - 1].second - v[i].second >= -1e-9, "importances are in descending order"); }
  auto s = CollectAllFeatures(f); CHECK_((int)s.size() == n, "the features of the model are collected"); for (auto& x : nm) CHECK_(s.count(x), "every feature of an inner node is collected"); __sym_reach("many");
}
