// Training, prediction and loading with several threads: no data race, and the result of every schedule is the same.
#include <sys/stat.h>
#include <fstream>
#include "h.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace gbdt;
static bool ne(double a, double b) { return (a - b <= 1e-6) & (b - a <= 1e-6); }
static void go() { FLAGS_num_threads = P("threads", 2); __sym_option("race", 1); __sym_option("sched", 1); __sym_option("preempt", P("preempt", 0)); }
static void stop() { __sym_option("sched", 0); __sym_option("race", 0); }
ENTRY c17_pointwise() {
  int n = P("n", 2); Config cfg; cfg.set_loss_func("mse"); std::vector<float> y, w; std::vector<double> f; for (int i = 0; i < n; ++i) { y.push_back((float)__sym_num("y", -4, 4, 1)); f.push_back(__sym_num("f", -4, 4, 2)); w.push_back(i + 1); }
  auto l1 = LossFuncFactory::CreateLossFunc(cfg), l2 = LossFuncFactory::CreateLossFunc(cfg); std::vector<GradientData> a, b; double c1, c2; auto W = [&w](int i) { return w[i]; }; auto Y = [&y](int i) { return y[i]; };
  FLAGS_num_threads = 1; l1->Init(n, W, Y, nullptr); l1->ComputeFunctionalGradientsAndHessians(f, &c1, &a, nullptr);
  go(); l2->Init(n, W, Y, nullptr); l2->ComputeFunctionalGradientsAndHessians(f, &c2, &b, nullptr); stop();
  CHECK_(ne(c1, c2), "the constant does not depend on threads or schedule"); for (int i = 0; i < n; ++i) CHECK_(ne(a[i].g, b[i].g) & ne(a[i].h, b[i].h), "the gradients do not depend on threads or schedule"); __sym_reach("pointwise");
}
ENTRY c17_pairwise() {
  int n = P("n", 4); static const char* names[] = {"auc", "lambdamart", "gbrank"}; int kind = CH("loss", 0, 2); Config cfg; cfg.set_loss_func(names[kind]); cfg.set_pair_sampling_rate(2); std::vector<float> y; std::vector<double> f; std::vector<std::string> gs; for (int i = 0; i < n; ++i) { y.push_back(i < 2 ? 0 : 1 + i); f.push_back(kind == 1 ? i * 0.5 : __sym_num("f", -4, 4, 2)); gs.push_back(i & 1 ? "a" : "b"); }
  __sym_option("exp_exact", 1); auto col = Column::CreateStringColumn("g", gs); auto g = static_cast<const StringColumn*>(col.get()); auto Y = [&y](int i) { return y[i]; }; auto W = [](int) { return 1.f; };
  auto l1 = LossFuncFactory::CreateLossFunc(cfg), l2 = LossFuncFactory::CreateLossFunc(cfg); std::vector<GradientData> a, b; double c;
  FLAGS_num_threads = P("threads", 2); Subsampling::Reseed(5); l1->Init(n, W, Y, g); l1->ComputeFunctionalGradientsAndHessians(f, &c, &a, nullptr);
  Subsampling::Reseed(5); go(); l2->Init(n, W, Y, g); l2->ComputeFunctionalGradientsAndHessians(f, &c, &b, nullptr); stop();
  for (int i = 0; i < n; ++i) CHECK_(ne(a[i].g, b[i].g) & ne(a[i].h, b[i].h), "with one seed the pair gradients are the same in every schedule"); __sym_reach("pairwise");
}
static void data(DataStore* d, int n) { static const float v[] = {-1, 2, NAN, 0}; static const char* c[] = {"a", "b", "a", "c"}; std::vector<float> x; std::vector<std::string> s; for (int i = 0; i < n; ++i) { x.push_back(v[i]); s.push_back(c[i]); } d->Add(Column::CreateBucketizedFloatColumn("x", x)); d->Add(Column::CreateStringColumn("s", s)); d->Add(Column::CreateBucketizedFloatColumn("x2", x)); }
static bool same(const TreeNode& a, const TreeNode& b) {
  if (!ne(a.score(), b.score()) || a.has_left_child() != b.has_left_child()) return false; if (!a.has_left_child()) return true;
  if (a.split().feature() != b.split().feature() || a.split().has_cat_split() != b.split().has_cat_split() || a.split().float_split().threshold() != b.split().float_split().threshold() || a.split().float_split().missing_to_right_child() != b.split().float_split().missing_to_right_child() || a.split().cat_split().category_size() != b.split().cat_split().category_size()) return false;
  return same(a.left_child(), b.left_child()) && same(a.right_child(), b.right_child());
}
ENTRY c17_tree() {   // two equal features: the choice must not depend on which thread is first
  int n = P("n", 3); DataStore d; data(&d, n); std::vector<const Column*> fs = {d.GetColumn("x"), d.GetColumn((P("dup", 1) ? CH("dup", 0, 1) : 1) ? "x2" : "s")}; std::vector<GradientData> gd; for (int i = 0; i < n; ++i) gd.push_back(GradientData(i < P("symg", 2) ? __sym_num("g", -2, 2, 1) : 1.0, 1));
  Config cfg; cfg.set_num_leaves(P("leaves", 2)); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1); cfg.set_l2_lambda(1); auto w = [](int) { return 1.f; };
  FLAGS_num_threads = 1; TreeNode a = FitTreeToGradients(w, gd, fs, cfg); go(); TreeNode b = FitTreeToGradients(w, gd, fs, cfg); stop();
  CHECK_(same(a, b), "the tree does not depend on threads or schedule"); __sym_reach("tree"); if (a.has_left_child()) __sym_reach("split");
}
ENTRY c17_eval() {
  int n = P("n", 3); DataStore d; data(&d, n); Forest f; auto* t = f.add_tree(); t->set_score(0); t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(__sym_num("thr", -3, 3, 2)); t->mutable_left_child()->set_score(__sym_num("l", -4, 4, 2)); t->mutable_right_child()->set_score(1);
  auto* u = f.add_tree(); u->mutable_split()->set_feature("s"); u->mutable_split()->mutable_cat_split()->add_category("a"); u->mutable_left_child()->set_score(0.5f); u->mutable_right_child()->set_score(-0.25f);
  std::vector<double> a, b; FLAGS_num_threads = 1; EvaluateForest(&d, f, &a); go(); EvaluateForest(&d, f, &b); stop();
  CHECK_((int)b.size() == n, "one score per row"); for (int i = 0; i < n; ++i) CHECK_(ne(a[i], b[i]), "the predictions do not depend on threads or schedule"); __sym_reach("eval");
}
static void put(const char* p, const char* s) { std::ofstream o(p); o << s; }
ENTRY c17_load() {   // features loaded in parallel from flat files
  mkdir("d1", 0755); put("d1/a", "# dtype=strings\nx\ny\n"); put("d1/b", "# dtype=bucketized_floats\n2\n3\n"); bool bad = CH("bad", 0, 1); if (bad) put("d1/c", CH("how", 0, 1) ? "# dtype=other\n1\n2\n" : "# dtype=raw_floats\n1\n");
  FlatfilesDataStore d("d1"); std::unordered_set<std::string> names = {"a", "b"}; if (bad) names.insert("c"); std::vector<const Column*> cols; go(); auto st = LoadFeatures(names, &d, &cols); stop();
  CHECK_(st.ok() == !bad, "loading fails exactly when a column is unusable"); if (!bad) { CHECK_(cols.size() == 2 && d.num_rows() == 2, "all features"); for (auto* c : cols) CHECK_(c->name() == "a" ? c->type() == Column::kStringColumn && static_cast<const StringColumn*>(c)->get_row_string(1) == "y" : c->name() == "b" && static_cast<const BucketizedFloatColumn*>(c)->get_row_max(1) == 3.f, "each column has its contents"); }
  __sym_reach("load");
}
ENTRY c17_tsv() {
  put("t1", "a\tb\tc\td\te\nx\t1\t5\tu\t8\ny\t2\t6\tv\t9\n"); put("t2", "z\t3\t7\tw\t10\n"); Config cfg; cfg.add_categorical_feature("a"); cfg.add_float_feature("b"); cfg.add_additional_float_column("c"); int more = P("more", 0); if (more == 1) cfg.add_categorical_feature("d"); if (more == 2) cfg.add_float_feature("e"); if (more == 3) cfg.add_additional_float_column("e");
  go(); TSVDataStore d(std::vector<std::string>{"t1", "t2"}, cfg); stop(); CHECK_(d.status().ok() && d.num_rows() == 3, "loaded"); auto* a = d.GetStringColumn("a"); auto* b = d.GetBucketizedFloatColumn("b"); auto* c = d.GetRawFloatColumn("c"); CHECK_(a && b && c, "all columns"); if (more == 1) { auto* d2 = d.GetStringColumn("d"); CHECK_(d2 && d2->size() == 3, "rows"); for (int i = 0; i < 3; ++i) CHECK_(d2->get_row_string(i) == std::string(1, "uvw"[i]), "the contents do not depend on the schedule"); } if (more > 1) { auto* e1 = more == 2 ? d.GetBucketizedFloatColumn("e") : nullptr; auto* e2 = more == 3 ? d.GetRawFloatColumn("e") : nullptr; CHECK_(more == 2 ? e1 != nullptr : e2 != nullptr, "all columns"); for (int i = 0; i < 3; ++i) CHECK_(more == 2 ? e1->get_row_max(i) == 8 + i : (*e2)[i] == 8 + i, "the contents do not depend on the schedule"); }
  for (int i = 0; i < 3; ++i) CHECK_(a->get_row_string(i) == std::string(1, "xyz"[i]) && b->get_row_max(i) == i + 1 && (*c)[i] == i + 5, "the contents do not depend on the schedule"); __sym_reach("tsv");
}
