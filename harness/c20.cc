// What a configuration means: validation, test points, features, weights, targets, groups.
#include <list>
#include "h.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/utils.h"
#include "src/proto/config.pb.h"
using namespace gbdt;
static bool rate_ok(float r) { return (r > 0) & (r <= 1); }
ENTRY c20_check() {
  Config c; int nt = (int)__sym_bits("trees", 32), nl = (int)__sym_bits("leaves", 32); float er = bits_f("examples"), fr = bits_f("features"); c.set_num_trees(nt); c.set_num_leaves(nl); c.set_example_sampling_rate(er); c.set_feature_sampling_rate(fr);
  bool ok = (nt > 0) & (nl > 0) & rate_ok(er) & rate_ok(fr); auto st = CheckConfig(c); CHECK_(st.ok() == ok, "a config is accepted exactly when trees and leaves are positive and the rates in (0,1]");
  if (!st.ok()) CHECK_(st.error_code() == error::INVALID_ARGUMENT, "an invalid config is an invalid argument"); __sym_reach(st.ok() ? "accepted" : "refused");
}
ENTRY c20_points() {
  int n = CH("trees", 0, P("n", 8)), iv = (int)__sym_bits("interval", 32); Config c; c.set_eval_interval(iv); auto l = GetTestPoints(c, n); std::vector<int> v(l.begin(), l.end());
  if (iv <= 0) { CHECK_(v.size() == 1 && v[0] == n, "without an interval only the whole forest is tested"); __sym_reach("whole"); return; }
  if (n == 0) { CHECK_(v.empty(), "an empty forest has no test points"); return; }
  CHECK_(!v.empty() && v.back() == n, "the whole forest is tested last"); for (size_t i = 0; i < v.size(); ++i) { CHECK_(v[i] >= 1 && v[i] <= n, "test points lie in the forest"); if (i) CHECK_((int64_t)v[i] - v[i - 1] == iv, "test points are an interval apart"); }
  CHECK_((int64_t)v[0] - iv <= 0, "no test point is left out"); __sym_reach("points"); if (v.size() > 3) __sym_reach("many");
}
ENTRY c20_features() {
  static const char* names[] = {"a", "b", "", "c"}; Config c; int k = CH("floats", 0, 2), m = CH("cats", 0, 2); std::vector<std::string> want; for (int i = 0; i < k; ++i) { std::string s = names[CH("f", 0, 3)]; c.add_float_feature(s); want.push_back(s); } for (int i = 0; i < m; ++i) { std::string s = names[CH("c", 0, 3)]; c.add_categorical_feature(s); want.push_back(s); }
  c.add_additional_float_column("t"); c.add_additional_string_column("u"); c.set_target_column("y"); c.set_weight_column("w"); c.set_group_column("g");
  auto s = GetFeaturesSetFromConfig(c); for (auto& x : want) CHECK_(s.count(x), "every configured feature is a feature"); for (auto& x : s) { bool in = false; for (auto& y : want) if (y == x) in = true; CHECK_(in, "other columns are no features"); } __sym_reach("features");
}
static bool eqb(float a, float b) { return nanb(a) ? nanb(b) : a == b; }
ENTRY c20_columns() {   // weights, targets, groups: the configured column, or nothing
  int n = P("n", 2); std::vector<float> w, y; for (int i = 0; i < n; ++i) { w.push_back(bits_f("w")); y.push_back(bits_f("y")); } DataStore d; d.Add(Column::CreateRawFloatColumn("w", std::vector<float>(w))); d.Add(Column::CreateRawFloatColumn("y", std::vector<float>(y))); d.Add(Column::CreateBucketizedFloatColumn("b", {1, 2})); d.Add(Column::CreateStringColumn("g", {"p", "q"}));
  static const char* names[] = {"", "w", "y", "b", "g", "absent"}; Config c; int what = CH("what", 0, 2), k = CH("name", 0, 5); bool bin = CH("binarize", 0, 1); c.set_binarize_target(bin);
  if (what == 0) { c.set_weight_column(names[k]); bool bad = k > 2; __sym_option("allow_fatal", bad); auto f = GetSampleWeightsOrDie(c, &d); __sym_option("allow_fatal", 0); CHECK_(!bad, "an unusable weight column is fatal"); for (int i = 0; i < n; ++i) CHECK_(eqb(f(i), k == 0 ? 1.f : k == 1 ? w[i] : y[i]), "weights are those of the configured column, 1 without one"); __sym_reach("weights"); }
  else if (what == 1) { c.set_target_column(names[k]); bool bad = k == 0 || k > 2; __sym_option("allow_fatal", bad); auto f = GetTargetsOrDie(c, &d); __sym_option("allow_fatal", 0); CHECK_(!bad, "an unusable target column is fatal"); for (int i = 0; i < n; ++i) { float v = k == 1 ? w[i] : y[i]; CHECK_(eqb(f(i), bin ? (v > 0 ? 1.f : -1.f) : v), "targets are those of the configured column, binarized on request"); } __sym_reach("targets"); }
  else { c.set_group_column(names[k]); bool bad = k != 0 && k != 4; __sym_option("allow_fatal", bad); auto* g = GetGroupOrDie(c, &d); __sym_option("allow_fatal", 0); CHECK_(!bad, "an unusable group column is fatal"); CHECK_(g == (k == 0 ? nullptr : d.GetStringColumn("g")), "the group is the configured column"); __sym_reach("group"); }
}
