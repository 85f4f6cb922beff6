// Pairwise losses: gradients are sums over sampled pairs of their groups.
#include "pairs.h"
#include "progress.h"
ENTRY c14_progress() { progress(3, 6); }
ENTRY c14_grad() {
  static const char* names[] = {"auc", "pairwise_logloss", "gbrank"}; static const double F[] = {-1, 0, 2, 0.5}; FLAGS_num_threads = P("threads", 1); Subsampling::Reseed(3);
  int kind = P("kind", 0), n = P("n", 3), ng = P("groups", 1); if (kind == 1) __sym_option("exp_exact", 1);
  Config cfg; cfg.set_loss_func(names[kind]); static const float rates[] = {1.f, 2.f, 0.5f, 4.f}; double rate = rates[P("rate0", 0) + CH("rate", 0, P("rates", 1))]; cfg.set_pair_sampling_rate(rate);
  bool byt = CH("bytarget", 0, P("bytarget", 1)), eq = CH("equal", 0, P("equal", 1)); cfg.set_pair_weight_by_delta_target(byt); cfg.set_equal_group_weight(eq);
  auto loss = LossFuncFactory::CreateLossFunc(cfg);
  std::vector<float> y, w; std::vector<double> f; std::vector<int> gr; std::vector<std::string> gs; static const char* gn[] = {"q7", "", "a", "b", "q", "q70", "c", "d"};
  for (int i = 0; i < n; ++i) { y.push_back(i < P("ys", n) ? (float)__sym_num("y", 0, P("ymax", 4), 2) : (float)(i & 1)); w.push_back(i < P("ws", 1) ? 1.f + CH("w", 0, 1) : 1.f); f.push_back(kind == 1 ? F[i < P("f1", n) ? CH("f", 0, P("fmax", 2)) : i % 4] : i < P("fs", 2) ? __sym_num("f", -P("fmax", 3), P("fmax", 3), P("fden", 1)) : 0.25); int k = ng > 1 ? P("gfix", 0) == 2 ? i * ng / n : P("gfix", 0) ? (i * i + i) / 2 % ng : CH("group", 0, ng - 1) : 0; gr.push_back(k); gs.push_back(gn[k]); }
  auto col = Column::CreateStringColumn("g", gs); bool nogroup = ng == 1 && CH("nogroup", 0, 1);
  if (P("again", 0)) { std::vector<std::string> one(n, "z"); auto c1 = Column::CreateStringColumn("g", one); loss->Init(n, [](int) { return 3.f; }, [](int i) { return (float)i; }, static_cast<const StringColumn*>(c1.get())); }
  CHECK_(loss->Init(n, [w](int i) { return w[i]; }, [y](int i) { return y[i]; }, nogroup ? nullptr : static_cast<const StringColumn*>(col.get())).ok(), "a group column without missing groups is accepted");
  std::vector<GradientData> gd(CH("old", 0, P("olds", 0)) ? n : 0, GradientData(7, 7)); double c = 5; std::string prog; bool wp = P("prog", 0);
  loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, wp ? &prog : nullptr);
  CHECK_(c == 0 && (int)gd.size() == n, "a pairwise loss has no constant and one gradient per row");
  std::vector<long> np(ng, 0); long total = 0, most = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (gr[i] == gr[j] && y[i] > y[j]) { ++np[gr[i]]; ++total; }
  for (long k : np) most = std::max(most, k);
  double suml = 0, sumw = 0; bool one = true;
  for (int k = 0; k < ng; ++k) {
    std::vector<int> mine; std::vector<Contr> cs; double G = 0;
    for (int i = 0; i < n; ++i) if (gr[i] == k) { mine.push_back(i); G += gd[i].g; CHECK_(gd[i].h >= -1e-9, "curvatures are not negative");
      for (int j = 0; j < n; ++j) if (gr[j] == k && y[i] > y[j]) { Contr q{i, j, 0, 0, 0, 0}; double dy = (double)y[i] - y[j]; ref_pair(kind, dy, f[i] - f[j], &q.l, &q.g, &q.h); q.w = (double)w[i] * w[j] * (byt ? dy : 1) * (eq ? (double)most / np[k] : 1); q.g *= q.w; q.h *= q.w; q.l *= q.w; cs.push_back(q); } }
    CHECK_(ne(G, 0, 1e-6), "the gradients of a group add up to zero");
    double x = total ? np[k] * rate * n / total / 2 : 0; int n1 = (int)(x - 1e-6 < 0 ? 0 : x - 1e-6), n2 = (int)(x + 1e-6); if (n1 > 3) continue;
    CHECK_(explained(cs, n1, mine, gd, 1e-5) | (n2 != n1 ? explained(cs, n2, mine, gd, 1e-5) : false), "the gradients are those of the sampled pairs of the group, as many as its share of pair_sampling_rate");
    if (n1) __sym_reach("sampled"); if (cs.size() == 1) { suml += n1 * cs[0].l; sumw += n1 * cs[0].w; } else if (n1) one = false; if (n1 != n2) one = false;
  }
  if (wp && one) CHECK_(ne(parse_loss(prog) * (sumw > 0 ? sumw : 1), suml, 1e-4), "the reported loss is the weighted mean over the sampled pairs");
  if (total == 0) __sym_reach("constant"); else __sym_reach("grad"); if (ng > 1) { int used = 0; for (long k : np) if (k) ++used; if (used > 1) __sym_reach("groups"); }
}
ENTRY c14_missing() {   // a missing group is an error, a rate that is not a positive number too
  FLAGS_num_threads = 1; Config cfg; static const char* names[] = {"auc", "pairwise_logloss", "gbrank", "lambdamart"}; cfg.set_loss_func(names[CH("loss", 0, 3)]);
  int bad = CH("bad", 0, 1); float rate = bad ? bits_f("rate") : 1; cfg.set_pair_sampling_rate(rate); auto loss = LossFuncFactory::CreateLossFunc(cfg);
  std::vector<std::string> gs; bool miss = false; int n = CH("n", 0, 3); for (int i = 0; i < n; ++i) { int k = bad ? 1 : CH("g", 0, 2); gs.push_back(k == 0 ? "__missing__" : k == 1 ? "a" : "b"); if (!k) miss = true; }
  auto col = Column::CreateStringColumn("g", gs); auto st = loss->Init(n, [](int) { return 1.f; }, [](int i) { return (float)i; }, static_cast<const StringColumn*>(col.get()));
  if (bad) CHECK_(st.ok() == (rate > 0 && fin(rate)), "the pair sampling rate is a positive number"); else CHECK_(st.ok() == !miss, "a missing group is reported");
  __sym_reach(st.ok() ? "accepted" : "refused");
}
// Every round draws pairs of its own, in every group.  Symbolically the markers must be reachable (the solver
// decides whether any draw gets there); the real generator is run over many rounds only as the replay.
ENTRY c14_fresh() {
  FLAGS_num_threads = 1; Subsampling::Reseed(3); Config cfg; static const char* names[] = {"auc", "lambdamart"}; int L = P("lambda", 0); cfg.set_loss_func(names[L]); cfg.set_pair_sampling_rate(0.7f); if (L) __sym_option("exp_exact", 1);
  auto loss = LossFuncFactory::CreateLossFunc(cfg); static const float y[] = {0, 1, 1, 0, 1, 1}; std::vector<std::string> gs = {"a", "a", "a", "b", "b", "b"}; auto col = Column::CreateStringColumn("g", gs);
  CHECK_(loss->Init(6, [](int) { return 1.f; }, [](int i) { return y[i]; }, static_cast<const StringColumn*>(col.get())).ok(), "accepted");
  bool d[3] = {}; int old[2] = {-1, -1};
  for (int r = 0; r < (P("native", 0) ? 60 : 2); ++r) { std::vector<GradientData> gd; double c; std::vector<double> f = {0, 0.25, 0.5, 0, 0.25, 0.5}; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, nullptr); int now[2];
    for (int g = 0; g < 2; ++g) { now[g] = gd[3 * g + 1].g != 0 ? 1 : 2; CHECK_(gd[3 * g + 3 - now[g]].g == 0 && gd[3 * g + now[g]].g != 0, "one pair per group"); if (r && now[g] != old[g]) d[g] = true; old[g] = now[g]; } if (now[0] != now[1]) d[2] = true; }
  if (P("native", 0)) { CHECK_(d[0] & d[1], "every round draws fresh pairs in every group"); CHECK_(d[2], "groups draw pairs of their own"); }
  if (d[0]) __sym_reach("fresh0"); if (d[1]) __sym_reach("fresh1"); if (d[2]) __sym_reach("own");
}
