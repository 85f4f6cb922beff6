// Reference for growing one regression tree: what a fitted tree over the samples `all` must look like.
#ifndef TREEGROW_H_
#define TREEGROW_H_
#include <algorithm>
#include "h.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace gbdt;
static const double kTol = 1e-9;
static double energy(double g, double h, double l) { return h + l == 0 ? 0 : g * g / (h + l); }
struct Data { std::vector<float> x, z; std::vector<std::string> s; std::vector<GradientData> gd; std::vector<float> w; };
struct Node { const TreeNode* t; std::vector<int> in; double g = 0, h = 0; };
static bool goes_left(const Data& d, const Split& sp, int i) {
  if (sp.feature() == "x") { CHECK_(sp.has_float_split(), "a split on the numeric feature has a threshold"); return nanb(d.x[i]) ? !sp.float_split().missing_to_right_child() : d.x[i] < sp.float_split().threshold(); }
  if (sp.feature() == "z" && !d.z.empty()) { CHECK_(sp.has_float_split(), "a split on the numeric feature has a threshold"); return nanb(d.z[i]) ? !sp.float_split().missing_to_right_child() : d.z[i] < sp.float_split().threshold(); }
  CHECK_(sp.feature() == "s" && sp.has_cat_split(), "a split names one of the features, with its kind");
  for (const auto& c : sp.cat_split().category()) if (c == d.s[i]) return true;
  return false;
}
static Node make(const Data& d, const TreeNode* t, const std::vector<int>& in) { Node n; n.t = t; n.in = in; for (int i : in) { n.g += d.w[i] * d.gd[i].g; n.h += d.w[i] * d.gd[i].h; } return n; }
static bool near(double a, double b) { return a - b <= 1e-5 && b - a <= 1e-5; }
// Best gain over every threshold and every set of categories that keeps both sides heavy enough.
static double best_gain(const Data& d, const Node& n, double l, double mh, bool useS, bool useX = true) {
  double best = 0; static const char* cats[] = {"a", "b", "__missing__"};
  for (int col = useX ? 0 : 2; col < 3; ++col) {
    const std::vector<float>& x = col ? d.z : d.x; std::vector<float> ts; if (col < 2) for (float v : x) { bool in = nanb(v); for (float t : ts) in |= t == v; if (!in) ts.push_back(v); }
    for (int k = col < 2 ? 0 : 1; k < (col < 2 ? 2 * (int)ts.size() : useS ? 8 : 0); ++k) {
      double g = 0, h = 0;
      for (int i : n.in) { bool left; if (col < 2) left = nanb(x[i]) ? k & 1 : x[i] < ts[k / 2]; else { int c = 0; while (d.s[i] != cats[c]) ++c; left = k >> c & 1; } if (left) { g += d.w[i] * d.gd[i].g; h += d.w[i] * d.gd[i].h; } }
      double G = n.g - g, H = n.h - h; if (std::min(h, H) <= mh) continue;
      double e = energy(g, h, l) + energy(G, H, l) - energy(n.g, n.h, l); if (e > best) best = e;
    }
  }
  return best;
}
static void verify(const Data& d, const TreeNode& tree, const Config& cfg, bool useS, const std::vector<int>& all, bool sampled = false) {   // sampled: the features are sampled, too
  double l = cfg.l2_lambda(), mh = cfg.min_hessian(), mg = std::max(cfg.min_gain(), 1e-6);
  std::vector<Node> frontier = {make(d, &tree, all)}; int leaves = 1;
  for (;;) {   // replay the growth: repeatedly open the best node
    int best = -1;
    for (size_t i = 0; i < frontier.size(); ++i) { const TreeNode* t = frontier[i].t; CHECK_(t->has_left_child() == t->has_right_child(), "a node has both children or none"); if (t->has_left_child() && (best < 0 || t->split().gain() > frontier[best].t->split().gain())) best = i; }
    if (best < 0) break;
    Node n = frontier[best]; const Split& sp = n.t->split();
    for (auto& f : frontier) CHECK_(f.t->split().gain() <= sp.gain() + kTol, "the node with the largest gain is split first");
    std::vector<int> L, R; for (int i : n.in) (goes_left(d, sp, i) ? L : R).push_back(i);
    Node a = make(d, &n.t->left_child(), L), b = make(d, &n.t->right_child(), R);
    double gain = energy(a.g, a.h, l) + energy(b.g, b.h, l) - energy(n.g, n.h, l);
    CHECK_(sp.gain() <= gain + kTol && sp.gain() >= gain - kTol, "a recorded gain is the gain of the samples routed there");
    CHECK_(sp.gain() > mg - kTol, "a split node exceeds the required gain");
    CHECK_(a.h > mh && b.h > mh, "both children have more than min_hessian");
    if (P("optimal", 1)) CHECK_(best_gain(d, n, l, mh, sampled ? sp.feature() == "s" : useS, sampled ? sp.feature() == "x" : true) <= sp.gain() + kTol, "no feature offers a better split");
    frontier.erase(frontier.begin() + best); frontier.push_back(a); frontier.push_back(b); ++leaves;
  }
  CHECK_(leaves <= std::max(1, (int)cfg.num_leaves()), "at most num_leaves leaves");
  for (auto& f : frontier) {
    if (leaves < cfg.num_leaves() && !sampled && P("optimal", 1)) CHECK_(best_gain(d, f, l, mh, useS) <= mg + kTol, "growth stops early only when nothing is worth splitting");
  }
  __sym_observe_i("leaves", leaves);
  __sym_reach(leaves > 2 ? "deep" : leaves == 2 ? "two" : "stump");
}
static void scores(const Data& d, const TreeNode& t, const std::vector<int>& in, double l) {
  Node n = make(d, &t, in); CHECK_(near(t.score(), n.h + l == 0 ? 0 : n.g / (n.h + l)), "a node's score is its gradient over its hessian plus lambda");
  if (t.has_left_child()) { std::vector<int> L, R; for (int i : in) (goes_left(d, t.split(), i) ? L : R).push_back(i); scores(d, t.left_child(), L, l); scores(d, t.right_child(), R, l); }
}
// A tree fitted on samples of the rows and the features.
static void sampled_tree() {
  static const float vals[] = {-1.f, 0.f, 2.f, NAN}; static const char* cats[] = {"a", "b", "__missing__"}; static const float rates[] = {0.5f, 1.f, 0.25f};
  int n = P("n", 3); bool useS = P("strings", 1); Data d; int gm = P("gmax", 2);
  for (int i = 0; i < n; ++i) { d.x.push_back(P("gfix", 0) ? (float)(i * 3 % 7) : vals[CH("x", 0, P("vals", 1))]); d.s.push_back(cats[!useS ? 0 : P("gfix", 0) ? i % 3 : CH("s", 0, i < 1 ? i : 1)]); d.gd.push_back(GradientData(i < P("symg", 1) ? __sym_num("g", -gm, gm, 1) : P("gfix", 0) ? (i * 5 + 1) % 4 - 1.25 : (double)CH("gc", -1, 1), 1)); d.w.push_back(1.f + (i == 0 && P("weights", 1))); }
  auto x = Column::CreateBucketizedFloatColumn("x", d.x); auto s = Column::CreateStringColumn("s", d.s); std::vector<const Column*> f = {x.get()}; if (useS) f.push_back(s.get());
  Config cfg; cfg.set_num_leaves(P("leaves", 3)); int er = CH("examples", 0, 1), fr = CH("features", P("fmin", 0), 1); cfg.set_example_sampling_rate(rates[er]); cfg.set_feature_sampling_rate(rates[fr]); cfg.set_l2_lambda(P("lambda", 0)); cfg.set_min_hessian(0); cfg.set_min_gain(0); FLAGS_num_threads = P("threads", 1);
  Subsampling::Reseed(6); auto sub = Subsampling::UniformSubsample(n, cfg.example_sampling_rate()); std::vector<int> in(sub.begin(), sub.end());
  Subsampling::Reseed(6); auto w = d.w; TreeNode t = FitTreeToGradients([w](int i) { return w[i]; }, d.gd, f, cfg);
  verify(d, t, cfg, useS, in, fr != 1); scores(d, t, in, cfg.l2_lambda()); if (!er) __sym_reach("sampled"); if (in.empty()) __sym_reach("none"); if (fr != 1 && t.has_left_child()) __sym_reach("features");
}
#endif
