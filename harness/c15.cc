// LambdaMART: pairs weighted by target difference times discount difference of the ranks by score.
#include "pairs.h"
static double disc(int r, double base) { return log(base) / log(base + r); }
ENTRY c15_lambda() {
  FLAGS_num_threads = P("threads", 1); Subsampling::Reseed(3); __sym_option("exp_exact", 1); int n = P("n", 3), ng = P("groups", 1); static const double F[] = {0.5, -1, 2, 0, 1, -2};
  Config cfg; cfg.set_loss_func("lambdamart"); static const float rates[] = {1.f, 2.f, 4.f}; double rate = rates[P("rate0", 0) + CH("rate", 0, P("rates", 1))]; cfg.set_pair_sampling_rate(rate);
  static const float bases[] = {0.f, 2.f, 1.5f, 10.f, -3.f, 0.5f}; int b = CH("base", 0, P("bases", 3)); cfg.set_lambdamart_dcg_base(bases[b]); double base = bases[b] > 0 ? bases[b] : 2; bool eq = CH("equal", 0, P("equal", 1)); cfg.set_equal_group_weight(eq); cfg.set_pair_weight_by_delta_target(CH("byt", 0, P("byt", 0)));
  auto loss = LossFuncFactory::CreateLossFunc(cfg);
  std::vector<float> y, w; std::vector<double> f; std::vector<int> gr; std::vector<std::string> gs; static const char* gn[] = {"q7", "", "a", "b", "q", "q70", "c", "d"};
  for (int i = 0; i < n; ++i) { y.push_back(i < P("ys", n) ? (float)__sym_num("y", 0, P("ymax", 4), 2) : (float)(i & 1)); w.push_back(i < P("ws", 1) ? 1.f + CH("w", 0, 1) : 1.f); int k = ng > 1 ? P("gfix", 0) == 2 ? i * ng / n : (i * i + i) / 2 % ng : 0; gr.push_back(k); gs.push_back(gn[k]); }
  auto col = Column::CreateStringColumn("g", gs);
  CHECK_(loss->Init(n, [w](int i) { return w[i]; }, [y](int i) { return y[i]; }, static_cast<const StringColumn*>(col.get())).ok(), "accepted");
  std::vector<long> np(ng, 0); long total = 0, most = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (gr[i] == gr[j] && y[i] > y[j]) { ++np[gr[i]]; ++total; } for (long k : np) most = std::max(most, k);
  std::vector<GradientData> gd; double c;
  for (int round = 0; round < P("rounds", 2); ++round) {   // the order of the scores changes from round to round
    f.clear(); for (int i = 0; i < n; ++i) { f.push_back(P("symf", 0) && i < 2 ? __sym_num("f", -2, 2, 1) : F[(round * 2 + CH("f", 0, P("fvar", 2))) % 6] + i * 0.125); for (int j = 0; j < i; ++j) ASSUME_(f[i] != f[j]); }
    std::string prog; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, P("prog", 1) ? &prog : nullptr); CHECK_(c == 0 && (int)gd.size() == n, "no constant, one gradient per row");
    for (int k = 0; k < ng; ++k) {
      std::vector<int> mine; std::vector<Contr> cs; double G = 0; std::vector<int> rk(n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (gr[i] == gr[j] && f[j] > f[i]) ++rk[i];
      for (int i = 0; i < n; ++i) if (gr[i] == k) { mine.push_back(i); G += gd[i].g; CHECK_(gd[i].h >= -1e-9, "curvatures are not negative");
        for (int j = 0; j < n; ++j) if (gr[j] == k && y[i] > y[j]) { Contr q{i, j, 0, 0, 0, 0}; double dy = (double)y[i] - y[j]; ref_pair(1, dy, f[i] - f[j], &q.l, &q.g, &q.h); q.w = (double)w[i] * w[j] * dy * ab(disc(rk[i], base) - disc(rk[j], base)) * (eq ? (double)most / np[k] : 1); q.g *= q.w; q.h *= q.w; cs.push_back(q); } }
      CHECK_(ne(G, 0, 1e-6), "the gradients of a group add up to zero");
      double x = total ? np[k] * rate * n / total / 2 : 0; int n1 = (int)(x - 1e-6 < 0 ? 0 : x - 1e-6), n2 = (int)(x + 1e-6); if (n1 > 3) continue;
      CHECK_(explained(cs, n1, mine, gd, 1e-5) | (n2 != n1 ? explained(cs, n2, mine, gd, 1e-5) : false), "the gradients are those of pairs weighted by target and discount difference"); if (n1) __sym_reach("lambda"); if (n1 && round) __sym_reach("reranked");
    }
  }
}
ENTRY c15_ties() {   // equal scores: still consistent
  FLAGS_num_threads = 1; Subsampling::Reseed(3); __sym_option("exp_exact", 1); int n = 3; Config cfg; cfg.set_loss_func("lambdamart"); cfg.set_pair_sampling_rate(2); auto loss = LossFuncFactory::CreateLossFunc(cfg);
  std::vector<float> y; std::vector<double> f; for (int i = 0; i < n; ++i) { y.push_back((float)__sym_num("y", 0, 4, 2)); f.push_back(CH("f", 0, 1)); }
  CHECK_(loss->Init(n, [](int) { return 1.f; }, [y](int i) { return y[i]; }, nullptr).ok(), "accepted"); std::vector<GradientData> gd; double c; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, nullptr);
  double G = 0; for (int i = 0; i < n; ++i) { G += gd[i].g; CHECK_(gd[i].h >= -1e-9 && gd[i].h < 100, "curvatures are finite and not negative"); } CHECK_(ne(G, 0, 1e-6), "the gradients of a group add up to zero"); __sym_reach("ties");
}
ENTRY c15_far() {   // ranks beyond the precomputed discounts
  FLAGS_num_threads = 1; Subsampling::Reseed(3); __sym_option("exp_exact", 1); int n = P("n", 104), h = P("heads", 2); Config cfg; cfg.set_loss_func("lambdamart"); cfg.set_pair_sampling_rate(2.f / n); static const float bases[] = {0.f, 3.f}; int bi = CH("base", 0, P("bases", 1)); cfg.set_lambdamart_dcg_base(bases[bi]); double base = bi ? bases[bi] : 2;
  auto loss = LossFuncFactory::CreateLossFunc(cfg); std::vector<double> f(n); int turn = CH("turn", 0, 1); for (int i = 0; i < n; ++i) f[i] = (turn ? i : -i) * 0.015625; auto y = [h](int i) { return i < h ? 1.f : 0.f; };
  CHECK_(loss->Init(n, [](int) { return 1.f; }, y, nullptr).ok(), "accepted"); std::vector<GradientData> gd; double c; loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, nullptr);
  int p = -1, q = -1; for (int i = 0; i < n; ++i) if (gd[i].g != 0) (i < h ? p : q) = i;
  CHECK_(p >= 0 && q >= 0, "one pair is sampled"); int rp = turn ? n - 1 - p : p, rq = turn ? n - 1 - q : q; double l, g, hh; ref_pair(1, 1, f[p] - f[q], &l, &g, &hh); double w = ab(disc(rp, base) - disc(rq, base));
  CHECK_(ne(gd[p].g, w * g, 1e-5) && ne(gd[q].g, -w * g, 1e-5) && ne(gd[p].h, 2 * w * hh, 1e-5), "discounts beyond the precomputed ranks continue the same function"); __sym_reach("far"); if (rq >= 100 || rp >= 100) __sym_reach("beyond");
}
