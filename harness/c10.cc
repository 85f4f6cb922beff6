// Prediction and checkpoint files.
#include <fstream>
#include <list>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "h.h"
#include "model.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"
DECLARE_int32(num_threads);
using namespace gbdt;
static bool uses_z = false; static int nsplit = 0;
static void grow(TreeNode* t, int depth, int kinds) {
  t->set_score(P("symscore", 1) ? __sym_num("score", -8, 8, 4) : (double)CH("score", -1, 1));
  int k = depth > 0 ? CH("split", 0, kinds) : 0; if (!k) return;
  ++nsplit; auto* sp = t->mutable_split();
  if (k == 1) { sp->set_feature("x"); sp->mutable_float_split()->set_threshold(__sym_num("thr", -3, 3, 2)); sp->mutable_float_split()->set_missing_to_right_child(CH("mr", 0, 1)); }
  else if (k == 2) { sp->set_feature("s"); int m = CH("cats", 1, 5); for (int i = 0; i < 3; ++i) { static const char* c[] = {"a", "zz", "b"}; if (m >> i & 1) sp->mutable_cat_split()->add_category(c[i]); } }
  else { sp->set_feature(k == 3 ? "b" : k == 4 ? "z" : k == 5 ? "s" : k == 6 ? "x" : "r"); if (k >= 4) uses_z = true;   // from 4 on: absent, or no split of that column
    if (k == 6) sp->mutable_cat_split()->add_category("a"); else sp->mutable_float_split()->set_threshold(0.5f); }
  int right = P("right", 1); bool side = right == 2 && CH("side", 0, 1);   // 2: a chain, turning left or right at every node
  grow(t->mutable_left_child(), side ? 0 : depth - 1, kinds); grow(t->mutable_right_child(), right == 1 || side ? depth - 1 : 0, kinds);
}
static void fill(DataStore* d, int n, std::vector<Row>* rows) {
  static const float vals[] = {0.5f, NAN, -1.f, 2.f, 0.5f, -1.5f, NAN, 1.f}; static const char* cats[] = {"a", "b", "c", "a", "b", "", "c", "a"};
  std::vector<float> xs, bs; std::vector<std::string> ss;
  for (int i = 0; i < n; ++i) { int k = P("vary", 1) && i == 0 ? CH("row", 0, 7) : i; Row r{vals[k], cats[k]}; rows->push_back(r); xs.push_back(r.x); ss.push_back(r.s); bs.push_back(i); }
  d->Add(Column::CreateBucketizedFloatColumn("x", xs)); d->Add(Column::CreateStringColumn("s", ss)); d->Add(Column::CreateBucketizedFloatColumn("b", bs)); if (P("kinds", 4) > 6) d->Add(Column::CreateRawFloatColumn("r", std::move(bs)));
}
static const TreeNode* leaf_of(const TreeNode& t, const Row& r, int i) { const TreeNode* p = &t; while (p->has_left_child()) p = (p->split().feature() == "b" ? i < p->split().float_split().threshold() : m_left(p->split(), r)) ? &p->left_child() : &p->right_child(); return p; }
ENTRY c10_eval() {
  FLAGS_num_threads = P("threads", 2); int n = CH("n", P("nmin", 1), P("n", 3)), kt = CH("trees", P("tmin", 0), P("trees", 2)), kinds = P("kinds", 4);
  DataStore d; std::vector<Row> rows; fill(&d, n, &rows);
  Forest f; for (int i = 0; i < kt; ++i) grow(f.add_tree(), i == 0 ? P("depth", 2) : P("depth2", 1), i == 0 ? kinds : P("kinds2", 2));
  std::vector<double> sc(CH("old", 0, 1) ? 2 * n : 0, 7.0);
  auto st = EvaluateForest(&d, f, &sc);
  if (uses_z) { CHECK_(!st.ok(), "a feature that is not there or of another kind is reported"); __sym_reach("absent"); return; }
  CHECK_(st.ok() && (int)sc.size() == n, "one score per row");
  for (int i = 0; i < n; ++i) { double e = 0; for (auto& t : f.tree()) e += leaf_of(t, rows[i], i)->score(); CHECK_(near_(sc[i], e, 1e-9), "a prediction is the sum of the leaves the row reaches"); }
  // The increments used by the training.
  if (kt) { ComputeTreeScores c(&d); double cst = (P("symscore", 1) ? __sym_num("const", -8, 8, 4) : 2) + 1 / 3.; c.AddTreeScores(f.tree(0), cst, &sc); for (int i = 0; i < n; ++i) { double e = cst + leaf_of(f.tree(0), rows[i], i)->score(); for (auto& t : f.tree()) e += leaf_of(t, rows[i], i)->score(); CHECK_(near_(sc[i], e, 1e-12), "adding a tree adds its leaf and the constant once to every row"); } }
  __sym_reach("eval"); if (nsplit > 1) __sym_reach("deep");
}
static unsigned rnd; static unsigned next(unsigned m) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) % m; }
static int innodes = 0, symnode = -1;
static void concrete(TreeNode* t, int depth) {   // a large tree; the threshold of one node is symbolic
  t->set_score(((int)next(65) - 32) / 8.0); if (depth == 0 || next(6) == 0) return;
  auto* sp = t->mutable_split(); int k = innodes++ == symnode ? 0 : next(3);
  if (k == 0) { sp->set_feature("x"); sp->mutable_float_split()->set_threshold(innodes - 1 == symnode ? __sym_num("thr", -5, 5, 4) : ((int)next(33) - 16) / 4.0); sp->mutable_float_split()->set_missing_to_right_child(next(2)); }
  else if (k == 1) { sp->set_feature("b"); sp->mutable_float_split()->set_threshold(next(P("n", 60))); }
  else { sp->set_feature("s"); int m = next(6) + 1; for (int i = 0; i < m; ++i) sp->mutable_cat_split()->add_category("c" + std::to_string(next(12))); }
  concrete(t->mutable_left_child(), depth - 1); concrete(t->mutable_right_child(), depth - 1);
}
ENTRY c10_big() {   // many rows, trees, levels and threads; one threshold is symbolic
  FLAGS_num_threads = P("threads", 3); int n = P("n", 60), kt = P("trees", 8); rnd = P("variant", 1); symnode = CH("node", 0, P("nodes", 5)) * P("step", 3);
  std::vector<Row> rows; std::vector<float> xs, bs; std::vector<std::string> ss;
  for (int i = 0; i < n; ++i) { Row r{next(9) == 0 ? NAN : ((int)next(41) - 20) / 4.f, "c" + std::to_string(next(9))}; rows.push_back(r); xs.push_back(r.x); ss.push_back(r.s); bs.push_back(i); }
  DataStore d; d.Add(Column::CreateBucketizedFloatColumn("x", xs)); d.Add(Column::CreateStringColumn("s", ss)); d.Add(Column::CreateBucketizedFloatColumn("b", bs));
  Forest f; for (int i = 0; i < kt; ++i) concrete(f.add_tree(), P("depth", 6));
  std::vector<double> sc; CHECK_(EvaluateForest(&d, f, &sc).ok() && (int)sc.size() == n, "one score per row");
  for (int i = 0; i < n; ++i) { double e = 0; for (auto& t : f.tree()) e += leaf_of(t, rows[i], i)->score(); CHECK_(near_(sc[i], e, 1e-6), "a prediction is the sum of the leaves the row reaches"); }
  __sym_reach("big");
}
ENTRY c10_files() {
  FLAGS_num_threads = 1; int n = P("n", 2), kt = CH("trees", 0, P("trees", 3));
  DataStore d; std::vector<Row> rows; fill(&d, n, &rows);
  Forest f; for (int i = 0; i < kt; ++i) { auto* t = f.add_tree(); t->set_score(i == 2 ? 100000.f : 0.123456f); if (i < 2) { t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(i ? 1.f : -1.f); t->mutable_left_child()->set_score(i ? -0.75 : __sym_num("left", -8, 8, 4)); t->mutable_right_child()->set_score(-0.123456f); } }
  int np = CH("points", 0, P("points", 3)); std::list<int> pts; bool want[16] = {}; for (int i = 0; i < np; ++i) { int p = CH("pt", -1, kt + 1); pts.push_back(p); if (p > 0 && p <= kt) want[p] = true; }
  auto st = EvaluateForest(&d, f, pts, "out");
  CHECK_(st.ok(), "the evaluation succeeds");
  std::vector<double> sc(n, 0);
  for (int k = 0; k <= kt + 1; ++k) {
    if (k > 0 && k <= kt) for (int i = 0; i < n; ++i) sc[i] += m_tree(f.tree(k - 1), rows[i]);
    std::ifstream in("out/forest." + std::to_string(k) + ".score");
    CHECK_(in.is_open() == (k < 16 && want[k]), "a score file is written exactly for the requested numbers of trees");
    if (!in.is_open()) continue;
    std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str(); size_t p = 0; int i = 0;
    while (p < t.size()) { CHECK_(i < n, "no more lines than rows"); double v; if (t[p] == 1) { memcpy(&v, t.data() + p + 1, 8); p += 9; } else { char* e; v = strtod(t.c_str() + p, &e); CHECK_(e != t.c_str() + p, "a line is a number"); p = e - t.c_str(); }
      CHECK_(near_(v, sc[i], k >= 3 ? 1.01 : 2e-5), "line i is the prediction of row i with the first trees"); ++i; if (p < t.size()) { CHECK_(t[p] == '\n', "one number per line"); ++p; } }
    CHECK_(i == n, "one line per row"); __sym_reach("file");
  }
}
ENTRY c10_empty() {
  FLAGS_num_threads = CH("threads", 1, 2); DataStore d; Forest f; int kt = CH("trees", 0, 2); for (int i = 0; i < kt; ++i) f.add_tree()->set_score(1); std::vector<double> sc(2, 1);
  CHECK_(EvaluateForest(&d, f, &sc).ok() && sc.empty(), "a store without rows has no predictions"); __sym_reach("empty");
}
ENTRY c10_full() {   // a score file that cannot be opened or written completely is an error
  FLAGS_num_threads = 1; DataStore d; std::vector<Row> rows; fill(&d, 2, &rows); Forest f; for (int i = 0; i < 2; ++i) f.add_tree()->set_score(__sym_num("score", -4, 4, 2)); int bad = CH("bad", 0, 1), at = CH("at", 1, 2); std::list<int> pts = {1}; if (CH("both", 0, 1)) pts.push_back(2);
  mkdir("out", 0755); const char* dir = "out"; if (bad) symlink("/dev/full", at == 1 ? "out/forest.1.score" : "out/forest.2.score");
  bool hit = bad && (at == 1 || pts.size() == 2); CHECK_(EvaluateForest(&d, f, pts, dir).ok() == !hit, "a failed write of a score file is reported"); __sym_reach(hit ? "full" : "written");
}
