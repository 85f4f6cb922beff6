// Subsampling, division of samples into slices, slices, and trees fitted on a sample of rows and features.
#include "treegrow.h"
#include "src/utils/subsampling.h"
#include "src/utils/vector_slice.h"
typedef unsigned int U;
ENTRY c18_divide() {   // ranges: every size, also close to the largest
  int g = CH("groups", P("gmin", 1), P("groups", 8)); int w = P("window", 4095); static const int base[] = {0, 1 << 16, 1 << 24, 2147483647}; int b = base[CH("base", 0, 3)]; int n = b == 2147483647 ? I("n", b - w, b) : I("n", b, b + w); auto s = Subsampling::DivideSamples(n, g);
  CHECK_((int)s.size() == g, "as many slices as asked for"); uint64_t pos = 0, lo = ~0ull, hi = 0;
  for (auto& r : s) { CHECK_(r.first == pos, "the slices follow each other without gap or overlap"); CHECK_(r.second >= r.first, "a slice is not negative"); uint64_t len = (uint64_t)r.second - r.first; lo = len < lo ? len : lo; hi = len > hi ? len : hi; pos = r.second; }
  CHECK_(pos == (uint64_t)n, "the slices cover every sample"); CHECK_(hi - lo <= 1, "the sizes differ by one at most"); __sym_reach("divide");
}
ENTRY c18_slices() {
  int n = CH("n", 0, P("n", 6)), a = CH("a", 0, n), b = CH("b", a, n), g = CH("groups", 1, P("groups", 8)); std::vector<U> v, o; for (int i = 0; i < n; ++i) v.push_back(I("v", 0, 1000)); o = v;
  VectorSlice<U> in(v.begin() + a, v.begin() + b); auto s = Subsampling::DivideSamples(in, g); CHECK_((int)s.size() == g, "as many slices as asked for"); auto it = v.begin() + a; int lo = 1 << 30, hi = 0;
  for (auto& r : s) { CHECK_(r.begin() == it && r.end() >= r.begin(), "the slices follow each other"); CHECK_(r.size() == r.end() - r.begin(), "size"); for (int i = 0; i < r.size(); ++i) CHECK_(&r[i] == &*(it + i), "a slice refers to the samples themselves"); it = r.end(); lo = std::min(lo, r.size()); hi = std::max(hi, r.size()); }
  CHECK_(it == v.begin() + b, "the slices cover the samples"); CHECK_(hi - lo <= 1, "the sizes differ by one at most"); for (int i = 0; i < n; ++i) CHECK_(v[i] == o[i], "nothing is moved"); __sym_reach("slices");
}
ENTRY c18_slice() {   // slices of vectors and of slices
  int n = CH("n", 0, P("n", 5)), a = CH("a", 0, n), l = CH("l", 0, n - a); std::vector<U> v; for (int i = 0; i < n; ++i) v.push_back(I("v", 0, 1000)); std::vector<U> o = v;
  VectorSlice<U> all(v), s(v, a, l); CHECK_(all.size() == n && s.size() == l, "sizes"); for (int i = 0; i < l; ++i) CHECK_(s[i] == o[a + i], "elements"); int k = 0; for (U x : s) { CHECK_(x == o[a + k], "iteration"); ++k; } CHECK_(k == l, "iteration visits every element");
  int c = CH("c", 0, l), m = CH("m", 0, l - c); VectorSlice<U> t(s, c, m); CHECK_(t.size() == m, "size of a slice of a slice"); for (int i = 0; i < m; ++i) CHECK_(t[i] == o[a + c + i], "elements of a slice of a slice");
  if (m) { t[0] = 5000; CHECK_(v[a + c] == 5000 && s[c] == 5000, "a slice does not own its elements"); } const VectorSlice<U> ct = t; k = 0; for (auto i = ct.begin(); i != ct.end(); ++i) ++k; CHECK_(k == m, "constant iteration"); __sym_reach("slice");
}
ENTRY c18_uniform() {
  int n = CH("n", 0, P("n", 4)); static const double rates[] = {1, 0.5, 0.25, 0.75, 1e-9, 0.1, 0.9, 0.9999, 0.9999999, 0.001}; double rate = P("symrate", 0) ? __sym_num("rate", 0, 1, P("symrate", 0)) : rates[CH("rate", 0, 9)]; ASSUME_(rate > 0); __sym_option("draw_bits", P("draw_bits", 40)); int seed = CH("seed", 3, 4);
  Subsampling::Reseed(seed); auto a = Subsampling::UniformSubsample(n, rate), b = Subsampling::UniformSubsample(n, rate);
  for (int k = 0; k < 2; ++k) { auto& s = k ? b : a; std::vector<int> in(n, 0); U last = 0; bool first = true; for (U i : s) { CHECK_(i < (U)n, "a subsample holds samples only"); CHECK_(first || i > last, "in order, each once"); first = false; last = i; in[i] = 1; }
    for (int i = 0; i < n; ++i) { double u = __sym_draw_unit(seed, k * n + i); if (in[i]) CHECK_(u <= rate, "a sample is kept with its probability"); else CHECK_(u >= rate, "a sample is dropped with its probability"); } if (rate == 1) CHECK_((int)s.size() == n, "rate 1 keeps everything"); }
  Subsampling::Reseed(seed); auto c = Subsampling::UniformSubsample(n, rate); CHECK_(c.size() == a.size(), "the same seed gives the same sample"); for (size_t i = 0; i < c.size(); ++i) CHECK_(c[i] == a[i], "the same seed gives the same sample");
  auto all = Subsampling::CreateAllSamples(n); CHECK_((int)all.size() == n, "all samples"); for (int i = 0; i < n; ++i) CHECK_(all[i] == (U)i, "all samples"); __sym_reach("uniform"); if (a.empty() && n > 1) __sym_reach("empty");
}
ENTRY c18_tree() { sampled_tree(); }
