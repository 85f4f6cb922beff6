// Growing one regression tree.
#include "treegrow.h"
ENTRY c08_tree() {
  static const float vals[] = {-1.f, 0.f, 2.f, NAN}; static const char* cats[] = {"a", "b", "__missing__"};
  int n = P("n", 3); bool useS = P("strings", 1); Data d; int gm = P("gmax", 2);
  for (int i = 0; i < n; ++i) { d.x.push_back(vals[P("vfix", 0) ? i : CH("x", 0, P("vals", 3))]); d.s.push_back(cats[useS ? CH("s", 0, i < P("cats", 2) ? i : P("cats", 2)) : 0]); d.gd.push_back(GradientData(i < P("symg", 2) ? __sym_num("g", -gm, gm, 1) : (double)CH("gc", -P("gc", 1), P("gc", 1)), 1)); d.w.push_back(i == 0 && P("weights", 0) ? 1.f + CH("w", 0, 1) : 1.f); }
  auto x = Column::CreateBucketizedFloatColumn("x", d.x); auto s = Column::CreateStringColumn("s", d.s);
  std::vector<const Column*> f = {x.get()}; if (useS) f.push_back(s.get());
  Config cfg; cfg.set_num_leaves(CH("leaves", 1, P("leaves", 4))); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1); cfg.set_l2_lambda(P("lambda", 0)); cfg.set_min_hessian(P("min_hessian", 0)); cfg.set_min_gain(P("min_gain", 0));
  FLAGS_num_threads = P("threads", 1);
  auto w = d.w; TreeNode t = FitTreeToGradients([w](int i) { return w[i]; }, d.gd, f, cfg);
  std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i);
  verify(d, t, cfg, useS, all);
  scores(d, t, all, cfg.l2_lambda());
}
ENTRY c08_wide() {   // more rows, leaves and features, of which only few values are open
  int n = P("n", 8), k = P("symg", 1); static const int at[] = {5, 2, 0}; static const double pat[] = {3, -1, 4, -1, -5, 9, -2, 6, 5, -3, 5, 8, 9, -7, 9, -3}; static const float xs[] = {4, 1, NAN, 7, 0, 6, 2, 5, 3, 9, 12, 8, 10, 15, 11, 13};
  Data d; for (int i = 0; i < n; ++i) { d.x.push_back(P("ties", 0) ? (float)(i / P("ties", 0)) : xs[i % 16]); d.z.push_back(P("zs", 1) ? P("ties", 0) ? xs[i % 16] : (float)(i * 5 % n / 2) : 0); d.s.push_back(i % 3 == 1 ? "b" : "a"); d.gd.push_back(GradientData(pat[i % 16], 1 + (P("hs", 0) ? i % 2 : 0))); d.w.push_back(P("weights", 0) && i % 4 == 2 ? 0.5f : 1.f); }
  for (int i = 0; i < k; ++i) d.gd[at[i]].g = __sym_num("g", -P("gmax", 8), P("gmax", 8), P("gden", 1));
  auto x = Column::CreateBucketizedFloatColumn("x", d.x), z = Column::CreateBucketizedFloatColumn("z", d.z); auto s = Column::CreateStringColumn("s", d.s); if (!P("zs", 1)) d.z.clear();
  std::vector<const Column*> f; if (CH("turn", 0, 1)) { f = {s.get(), x.get()}; if (P("zs", 1)) f.push_back(z.get()); } else { if (P("zs", 1)) f.push_back(z.get()); f.push_back(x.get()); f.push_back(s.get()); }
  Config cfg; cfg.set_num_leaves(P("leaves", 6)); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1); cfg.set_l2_lambda(P("lambda", 0)); cfg.set_min_hessian(P("min_hessian", 0)); cfg.set_min_gain(P("min_gain", 0)); FLAGS_num_threads = P("threads", 1);
  auto w = d.w; TreeNode t = FitTreeToGradients([w](int i) { return w[i]; }, d.gd, f, cfg); std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); verify(d, t, cfg, true, all); scores(d, t, all, cfg.l2_lambda()); __sym_reach("wide");
}
ENTRY c08_sampled() { sampled_tree(); }
