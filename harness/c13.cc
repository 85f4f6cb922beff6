// Groups: order, number of pairs, pair sampling, ranks.
#include <random>
#include "h.h"
#include "src/loss_func/group.h"
using namespace gbdt;
typedef unsigned int U;
static std::vector<float> targets(int n) { std::vector<float> y; for (int i = 0; i < n; ++i) y.push_back((float)__sym_num("y", -P("ymax", 2), P("ymax", 2), P("yden", 2))); return y; }
static std::vector<U> rows(int n, int total) { std::vector<U> r; for (int i = 0; i < n; ++i) r.push_back(P("rev", 1) ? total - 1 - i : i); return r; }
static void structure(const Group& g, const std::vector<U>& in, const std::vector<float>& y, int total, uint64_t* np) {
  int n = in.size(); CHECK_((int)g.size() == n, "a group keeps its rows"); std::vector<int> seen(total, 0);
  for (int i = 0; i < n; ++i) { CHECK_(g[i] < (U)total, "a group holds its rows only"); ++seen[g[i]]; }
  for (U r : in) CHECK_(seen[r] == 1, "a group keeps every row once");
  *np = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (y[in[i]] > y[in[j]]) ++*np;
  CHECK_(g.num_pairs() == *np, "the number of pairs is the number of row pairs of different targets");
  for (int i = 0; i < n; ++i) { CHECK_(g.y(i) == y[g[i]], "the target of position i is that of its row"); CHECK_((int)g.rank(i) == i, "the initial rank is the position"); if (i) CHECK_(g.y(i - 1) >= g.y(i), "rows are held by descending target"); }
}
ENTRY c13_pairs() {
  int n = P("n", 4), total = n + P("more", 2); std::vector<float> y = targets(n); for (int i = n; i < total; ++i) y.push_back(9);
  std::vector<U> in; for (int i = 0; i < n; ++i) in.push_back(P("rev", 1) ? n - 1 - i : i);
  std::vector<U> in2 = in; Group g(std::move(in2), [&y](int i) { return y[i]; }); uint64_t np; structure(g, in, y, total, &np);
  if (np == 0) { __sym_reach("nopair"); return; }
  std::mt19937 a(1), b(2); auto p = g.SamplePair(&a), q = g.SamplePair(&b);
  U P0 = __sym_concretize(p.first), P1 = __sym_concretize(p.second);
  CHECK_(P0 < (U)n && P1 < (U)n, "a sampled pair lies in the group"); CHECK_(g.y(P0) > g.y(P1), "a sampled pair has the larger target first");
  uint64_t d1 = __sym_draw_int(1, 0, 0, np - 1), d2 = __sym_draw_int(2, 0, 0, np - 1);   // the draws the two samples used
  if (a == b) { } bool same = (q.first == P0) & (q.second == P1);
  CHECK_((!same) | (d1 == d2), "every pair is drawn by one draw only: all pairs are equally likely");
  CHECK_(same | (d1 != d2), "a pair is a function of the draw");
  __sym_reach("pairs"); if (np > 3) __sym_reach("many");
}
ENTRY c13_sequence() {   // draws of one generator are independent
  int n = P("n", 3); std::vector<float> y = targets(n); std::vector<U> in = rows(n, n); Group g(std::vector<U>(in), [&y](int i) { return y[i]; }); if (g.num_pairs() < 2) return;
  std::mt19937 a(1); auto p = g.SamplePair(&a), q = g.SamplePair(&a); bool same = (p.first == q.first) & (p.second == q.second);
  uint64_t d1 = __sym_draw_int(1, 0, 0, g.num_pairs() - 1), d2 = __sym_draw_int(1, 1, 0, g.num_pairs() - 1);
  CHECK_(same == (d1 == d2), "consecutive samples are independent"); __sym_reach("sequence");
}
ENTRY c13_rank() {
  int n = P("n", 4); std::vector<float> y; for (int i = 0; i < n; ++i) y.push_back(CH("ord", 0, 1) ? i : -i);
  std::vector<double> f; for (int i = 0; i < n + 1; ++i) f.push_back(__sym_num("f", -2, 2, P("fden", 2)));
  std::vector<U> in; for (int i = 0; i < n; ++i) in.push_back(i + 1); y.insert(y.begin(), 77.f);
  Group g(std::vector<U>(in), [&y](int i) { return y[i]; });
  for (int round = 0; round < 2; ++round) {
    if (round) for (auto& v : f) v = -v;
    g.Rerank(f); int seen = 0;
    for (int i = 0; i < n; ++i) { CHECK_(g.rank(i) < (U)n && !(seen >> g.rank(i) & 1), "ranks are a permutation"); seen |= 1 << g.rank(i); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK_((!(f[g[i]] > f[g[j]])) | (g.rank(i) < g.rank(j)), "a higher score has a smaller rank");
    for (int i = 1; i < n; ++i) CHECK_(g.y(i - 1) >= g.y(i), "ranking does not reorder the group");
  }
  __sym_reach("rank");
}
ENTRY c13_many() {   // many equal targets and scores (sorting takes another way above 16 elements)
  int n = P("n", 20), k = P("sym", 2); std::vector<float> y(n, 1.f); std::vector<double> f(n, 0.5); static const int at[] = {0, 19, 7, 12};
  for (int i = 0; i < k; ++i) { y[at[i]] = (float)__sym_num("y", 0, 4, 2); f[at[(i + 1) % 4]] = __sym_num("f", -1, 2, 2); }
  if (P("other", 0)) for (int i = 1; i < n; i += 3) y[i] = 2;
  std::vector<U> in = rows(n, n); Group g(std::vector<U>(in), [&y](int i) { return y[i]; }); uint64_t np; structure(g, in, y, n, &np);
  if (np) { std::mt19937 a(1), b(2); auto p = g.SamplePair(&a), q = g.SamplePair(&b); U P0 = __sym_concretize(p.first), P1 = __sym_concretize(p.second); CHECK_(P0 < (U)n && P1 < (U)n && g.y(P0) > g.y(P1), "a sampled pair lies in the group, the larger target first");
    uint64_t d1 = __sym_draw_int(1, 0, 0, np - 1), d2 = __sym_draw_int(2, 0, 0, np - 1); bool same = (q.first == P0) & (q.second == P1); CHECK_(same == (d1 == d2), "every pair is drawn by one draw only: all pairs are equally likely"); }
  for (int round = 0; round < 2; ++round) { if (round) for (auto& v : f) v = -v; g.Rerank(f); std::vector<char> seen(n, 0);
    for (int i = 0; i < n; ++i) { CHECK_(g.rank(i) < (U)n && !seen[g.rank(i)], "ranks are a permutation"); seen[g.rank(i)] = 1; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK_((!(f[g[i]] > f[g[j]])) | (g.rank(i) < g.rank(j)), "a higher score has a smaller rank"); }
  __sym_reach("many");
}
ENTRY c13_big() {   // more pairs than 32 bits count
  __sym_option("max_instr", 2000000000); int k = P("k", 70000), n = 2 * k + 1; std::vector<float> y(n); for (int i = 0; i < n; ++i) y[i] = i < k ? 2.f : i < 2 * k ? 1.f : 0.f;
  std::vector<U> in(n); for (int i = 0; i < n; ++i) in[i] = i; Group g(std::move(in), [&y](int i) { return y[i]; });
  uint64_t np = (uint64_t)k * (k + 1) + k; CHECK_(g.num_pairs() == np, "pairs are counted in 64 bits");
  std::mt19937 a(1); auto p = g.SamplePair(&a); CHECK_((p.first < (U)n) & (p.second < (U)n) & (p.first < p.second), "a sampled pair lies in the group, in order");
  CHECK_(((p.first < (U)k) & (p.second >= (U)k)) | ((p.first >= (U)k) & (p.first < 2 * (U)k) & (p.second == 2 * (U)k)), "a sampled pair has different targets");
  __sym_reach("big");
}
