// The boosting loop.
#include "h.h"
#include "model.h"
#include <gflags/gflags.h>
#include <unordered_set>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/proto/config.pb.h"
DECLARE_int32(num_threads);
using namespace gbdt;
// A loss whose gradients and constants are arbitrary.
struct AnyLoss : public LossFunc {
  std::vector<std::vector<double>> f; std::vector<double> c; std::vector<std::vector<double>> g, h; int rows = -1, symg, gmax, only = -1, bad = -1, badkind = 0; int inits = 0; bool refuse = false; const StringColumn* group = nullptr; FloatVector w, y;
  Status Init(int n, FloatVector w, FloatVector y, const StringColumn* group) override { rows = n; ++inits; this->group = group; this->w = w; this->y = y; return refuse ? Status(error::INVALID_ARGUMENT, "refused") : Status::OK; }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& fv, double* cp, std::vector<GradientData>* gd, std::string* progress) override {
    int k = f.size(); f.push_back(fv); gd->resize(fv.size()); g.push_back({}); h.push_back({});
    for (size_t i = 0; i < fv.size(); ++i) { double v = (int)i < symg && (only < 0 || k == only) ? __sym_num("g", -gmax, gmax, 1) : only < 0 ? 1.0 : ((int)i * 7 + k * 3 + (int)i * k) % 5 - 1.5; double hv = P("hs", 1) > 1 ? (double)CH("h", 1, P("hs", 1)) : 1.0; (*gd)[i] = GradientData(v, hv); g[k].push_back(v); h[k].push_back(hv); }
    *cp = P("symc", 1) && (only < 0 || k == only) ? __sym_num("c", -4, 4, 4) : only < 0 ? 0.5 : 0.25 * (k % 4) - 0.5; c.push_back(*cp);
    if (k == bad) *cp = badkind == 0 ? NAN : badkind == 1 ? INFINITY : -INFINITY;
    if (progress) *progress = "p";
  }
};
static void clean(const TreeNode& t, bool isnew) {
  CHECK_(t.has_left_child() == t.has_right_child(), "a node has both children or none");
  if (!t.has_left_child()) { CHECK_(!t.has_split(), "a leaf of the model carries no split"); return; }
  CHECK_(t.has_split() && t.split().has_float_split() != t.split().has_cat_split(), "an inner node carries one kind of split");
  if (t.split().has_cat_split()) CHECK_(t.split().cat_split().internal_categorical_index_size() == 0 && t.split().cat_split().category_size() > 0, "the model names categories, not column indices");
  CHECK_(t.split().feature() == "x" || t.split().feature() == "s", "only the given features are used");
  CHECK_((t.split().feature() == "x") == t.split().has_float_split(), "the kind of split is the kind of its feature");
  clean(t.left_child(), isnew); clean(t.right_child(), isnew);
}
static int leaves(const TreeNode& t) { return t.has_left_child() ? leaves(t.left_child()) + leaves(t.right_child()) : 1; }
ENTRY c09_train() {
  static const float vals[] = {-1.f, 2.f, NAN, 0.f, 5.f, -3.f, 2.f, 8.f, 0.5f, 1.5f, NAN, 4.f, -1.f, 7.f, 6.f, 3.f}; static const char* cats[] = {"a", "b", "a", "c", "d", "b", "e", "c", "a", "d", "e", "b", "c", "a", "f", "b"};
  int n = P("n", 3), kt = CH("trees", P("treesmin", 1), P("trees", 2)); bool useS = P("strings", 1);
  std::vector<Row> rows; std::vector<float> xs, us; std::vector<std::string> ss;
  for (int i = 0; i < n; ++i) { Row r{vals[i], cats[i]}; rows.push_back(r); xs.push_back(r.x); ss.push_back(r.s); us.push_back(i); }
  DataStore d; d.Add(Column::CreateBucketizedFloatColumn("x", xs)); if (useS) d.Add(Column::CreateStringColumn("s", ss)); d.Add(Column::CreateBucketizedFloatColumn("u", us)); d.Add(Column::CreateRawFloatColumn("y", std::vector<float>(us)));
  Config cfg; cfg.set_num_trees(kt); cfg.set_num_leaves(CH("leaves", 1, P("leaves", 3))); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1);
  static const float sh[] = {1.f, 0.5f, 0.25f}; float shrink = sh[CH("shrink", P("shmin", 0), std::max(P("shmin", 0), P("shrinks", 1)))]; cfg.set_shrinkage(shrink); double lam = P("lambda", 0); cfg.set_l2_lambda(lam);
  cfg.set_target_column("y"); FLAGS_num_threads = P("threads", 1);
  AnyLoss loss; loss.symg = P("symg", 2); loss.gmax = P("gmax", 2); if (P("one", 0)) loss.only = CH("round", 0, kt - 1); if (P("diverge", 0)) { loss.bad = CH("bad", 0, kt - 1); loss.badkind = CH("kind", 0, 2); }
  // A model to continue from: a constant, a numeric split, another constant, a split on the strings.
  int nb = CH("base", 0, P("base", 4)); Forest base; std::vector<const TreeNode*> basesplit; double basec = 0;
  for (int b = 0; b < nb; ++b) {
    auto* t = base.add_tree(); double sc[3] = {0, 0, 0}; for (int k = 0; k < 3; ++k) sc[k] = k < 2 && P("symb", 1) ? __sym_num("b", -4, 4, 4) : k - 0.5;
    t->set_score(sc[0]);
    if (b & 1) { t->mutable_left_child()->set_score(sc[1]); t->mutable_right_child()->set_score(sc[2]); t->mutable_split()->set_gain(3);
      if (b == 1) { t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(1.f); t->mutable_split()->mutable_float_split()->set_missing_to_right_child(CH("mr", 0, 1)); }
      else { t->mutable_split()->set_feature(useS ? "s" : "x"); if (useS) t->mutable_split()->mutable_cat_split()->add_category("b"); else t->mutable_split()->mutable_float_split()->set_threshold(0.f); }
      basesplit.push_back(t); } else basec += sc[0];
  }
  std::unordered_set<std::string> feats = {"x"}; if (useS) feats.insert("s");
  std::vector<float> w; for (int i = 0; i < n; ++i) w.push_back(P("weights", 0) && i < 2 ? 1.f + CH("w", 0, 1) : 1.f);
  Forest base0 = base, forest;
  auto st = TrainGBDT(&d, feats, [w](int i) { return w[i]; }, [us](int i) { return us[i]; }, &loss, cfg, nb ? &base : nullptr, &forest);
  if (loss.bad >= 0) { CHECK_(!st.ok() && (int)loss.f.size() == loss.bad + 1, "a diverging loss stops the training with an error"); __sym_reach("diverged"); return; }
  CHECK_(st.ok(), "training succeeds"); CHECK_(loss.rows == n && loss.inits == 1 && (int)loss.f.size() == kt, "the loss is set up once and asked once per tree");
  int ns = basesplit.size(); CHECK_(forest.tree_size() == 1 + ns + kt, "the model holds the constant, the trees it continues from and one tree per round");
  double csum = basec; for (double c : loss.c) csum += c;
  CHECK_(!forest.tree(0).has_left_child() && near_(forest.tree(0).score(), csum, 1e-5), "the first tree is the sum of all constants, not shrunk");
  for (auto& t : forest.tree()) clean(t, true);
  for (int b = 0; b < ns; ++b) for (auto& r : rows) CHECK_(m_tree(forest.tree(1 + b), r) == m_tree(*basesplit[b], r), "the trees of the model continued from are kept in order");
  CHECK_(base.tree_size() == nb, "the model continued from is not changed"); for (int b = 0; b < nb; ++b) CHECK_(base.tree(b).score() == base0.tree(b).score(), "the model continued from is not changed");
  std::vector<double> f(n, 0); for (int i = 0; i < n; ++i) for (auto& t : base.tree()) f[i] += m_tree(t, rows[i]);
  for (int k = 0; k < kt; ++k) {
    const TreeNode& t = forest.tree(1 + ns + k); CHECK_(leaves(t) <= cfg.num_leaves(), "at most num_leaves leaves per tree");
    for (int i = 0; i < n; ++i) {
      CHECK_(near_(loss.f[k][i], f[i], 1e-5), "the loss sees the prediction of the model so far");
      const TreeNode* leaf = m_leaf(t, rows[i]); double g = 0, h = lam; for (int j = 0; j < n; ++j) if (m_leaf(t, rows[j]) == leaf) { g += w[j] * loss.g[k][j]; h += w[j] * loss.h[k][j]; }
      CHECK_(near_(leaf->score(), shrink * g / h, 1e-5), "a leaf is the shrunk optimal step of its samples");
      f[i] += leaf->score() + loss.c[k];
    }
  }
  std::vector<double> sc; CHECK_(EvaluateForest(&d, forest, &sc).ok() && (int)sc.size() == n, "the model can be evaluated");
  for (int i = 0; i < n; ++i) CHECK_(near_(sc[i], f[i], 1e-5), "the model predicts what the training ended with");
  __sym_reach("train"); if (nb) __sym_reach("continued");
}
ENTRY c09_setup() {   // what training hands to the loss, and what it refuses
  DataStore d; d.Add(Column::CreateBucketizedFloatColumn("x", {1, 2})); d.Add(Column::CreateStringColumn("g", {"p", "q"})); d.Add(Column::CreateRawFloatColumn("y", {3, 4}));
  Config cfg; cfg.set_num_trees(1); cfg.set_num_leaves(2); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1); cfg.set_shrinkage(1); FLAGS_num_threads = 1;
  std::unordered_set<std::string> feats = {"x"}; AnyLoss loss; loss.symg = 0; loss.gmax = 1; Forest base, forest; int depth = CH("depth", 0, 1); auto* t = base.add_tree(); TreeNode* q = t; for (int i = 0; i <= depth; ++i) { q->mutable_split()->set_feature("x"); q->mutable_split()->mutable_float_split()->set_threshold(i); q->mutable_left_child(); q = q->mutable_right_child(); }
  int kind = CH("kind", 0, 10); bool withbase = CH("withbase", 0, 1); double v[2] = {__sym_num("v", 0, 8, 2), 5}; float w[2] = {(float)__sym_num("w", 1, 8, 2), 1};
  if (kind == 1) cfg.set_group_column("absent"); if (kind == 2) cfg.set_group_column("y"); if (kind == 3) feats.insert("absent"); if (kind == 4) { (depth ? t->mutable_right_child() : t)->mutable_split()->set_feature("absent"); } if (kind == 10) { auto* sp = (depth ? t->mutable_right_child() : t)->mutable_split(); int how = CH("how", 0, 3); if (how < 2) sp->set_feature(how ? "g" : "y"); else { sp->clear_float_split(); if (how == 3) sp->mutable_cat_split()->add_category("p"); } } if (kind == 5) loss.refuse = true; if (kind == 6) cfg.set_num_trees(CH("nt", -1, 0)); if (kind == 7) cfg.set_num_leaves(0); if (kind == 8) cfg.set_example_sampling_rate(0); if (kind == 9) cfg.set_group_column("g");
  auto st = TrainGBDT(&d, feats, [w](int i) { return w[i]; }, [&v](int i) { return (float)v[i]; }, &loss, cfg, withbase ? &base : nullptr, &forest);
  bool ok = kind == 0 || kind == 9 || ((kind == 4 || kind == 10) && !withbase); CHECK_(st.ok() == ok, "training starts exactly when config, features, group, base model and loss are usable");
  if (!ok) { CHECK_(loss.f.empty(), "a training that cannot start asks no loss"); __sym_reach("refused"); return; }
  CHECK_(loss.rows == 2 && loss.inits == 1 && loss.group == (kind == 9 ? d.GetStringColumn("g") : nullptr), "the loss is set up with the rows and the group column"); for (int i = 0; i < 2; ++i) CHECK_(near_(loss.w(i), w[i], 1e-6) && near_(loss.y(i), v[i], 1e-6), "the loss gets weights and targets"); __sym_reach("started");
}
