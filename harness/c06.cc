// Routing of samples by a split.
#include "h.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
using namespace gbdt;
// An arbitrary sequence of distinct rows.
static std::vector<unsigned> some_samples(int n) {
  std::vector<unsigned> s; std::vector<char> used(n, 0); int k = CH("picked", 0, n);
  for (int i = 0; i < k; ++i) { int x = CH("pick", 0, n - 1); ASSUME_(!used[x]); used[x] = 1; s.push_back(x); }
  return s;
}
static void verify(const Column* c, const Split& sp, std::vector<unsigned> samples, const std::vector<char>& left, const std::vector<unsigned>& before, int off, int len) {
  VectorSlice<unsigned> sl(samples, off, len);
  auto r = Partition(c, sp, sl);
  CHECK_(r.first.size() + r.second.size() == len, "the two sides together have every sample of the slice");
  CHECK_(r.first.begin() == samples.begin() + off && r.second.begin() == samples.begin() + off + r.first.size(), "the sides are the two parts of the slice");
  std::vector<int> cnt(left.size(), 0); for (int i = 0; i < len; ++i) ++cnt[before[off + i]];
  for (int i = 0; i < r.first.size(); ++i) { CHECK_(left[r.first[i]], "a sample on the left belongs there"); --cnt[r.first[i]]; }
  for (int i = 0; i < r.second.size(); ++i) { CHECK_(!left[r.second[i]], "a sample on the right belongs there"); --cnt[r.second[i]]; }
  for (int x : cnt) CHECK_(x == 0, "each sample of the slice is on exactly one side once");
  for (int i = 0; i < (int)samples.size(); ++i) if (i < off || i >= off + len) CHECK_(samples[i] == before[i], "samples outside the slice are not touched");
  __sym_observe_i("left", r.first.size());
}
ENTRY c06_float() {
  int n = CH("n", 0, P("n", 3)); std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(bits_f("v"));
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v);
  Split sp; sp.set_feature("f"); float t = bits_f("threshold"); bool mr = CH("missing_right", 0, 1);
  sp.mutable_float_split()->set_threshold(t); sp.mutable_float_split()->set_missing_to_right_child(mr);
  std::vector<char> left; for (float x : v) left.push_back(nanb(x) ? !mr : !nanb(t) && x < t);
  std::vector<unsigned> s(n); for (int i = 0; i < n; ++i) s[i] = n - 1 - i;
  int off = CH("off", 0, n), len = CH("len", 0, n - off);
  verify(c.get(), sp, s, left, s, off, len);
  __sym_reach("float");
}
ENTRY c06_bucket() {   // buckets of several values: a model applied to a column whose buckets its threshold may cut
  int n = P("n", 4); std::vector<float> v; for (int i = 0; i < n; ++i) { if (i == 0 && CH("miss", 0, 1)) v.push_back(NAN); else v.push_back((float)__sym_num("v", -4, 4, 1)); }
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v, CH("buckets", 2, 3)); auto* b = static_cast<const BucketizedFloatColumn*>(c.get());
  Split sp; float t = (float)__sym_num("threshold", -9, 9, 2); bool mr = CH("missing_right", 0, 1);
  sp.mutable_float_split()->set_threshold(t); sp.mutable_float_split()->set_missing_to_right_child(mr);
  std::vector<char> left; for (int i = 0; i < n; ++i) { bool l = nanb(v[i]) ? !mr : b->get_row_max(i) < t; left.push_back(l); if (!nanb(v[i]) && v[i] < t && !l) __sym_reach("cut"); }
  std::vector<unsigned> s(n); for (int i = 0; i < n; ++i) s[i] = i;
  verify(c.get(), sp, s, left, s, 0, n); __sym_reach("bucket");
}
ENTRY c06_order() {   // every order of the rows
  static const float vals[] = {-1.f, 0.f, 2.f, NAN};
  int n = P("n", 4); std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(vals[CH("v", 0, 3)]);
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v);
  Split sp; float t = (float)__sym_num("threshold", -4, 8, 2); bool mr = CH("missing_right", 0, 1);
  sp.mutable_float_split()->set_threshold(t); sp.mutable_float_split()->set_missing_to_right_child(mr);
  std::vector<char> left; for (float x : v) left.push_back(nanb(x) ? !mr : x < t);
  auto s = some_samples(n);
  verify(c.get(), sp, s, left, s, 0, s.size());
  __sym_reach("order");
}
ENTRY c06_string() {
  int n = CH("n", 0, P("n", 3)); std::vector<std::string> v;
  for (int i = 0; i < n; ++i) v.push_back(CH("miss", 0, 1) ? std::string("__missing__") : std::string(1, (char)I("c", -128, 127)));
  std::unique_ptr<Column> c = Column::CreateStringColumn("s", v); auto* sc = static_cast<const StringColumn*>(c.get());
  Split sp; sp.set_feature("s"); std::vector<std::string> cats; int k = CH("k", 0, 2); bool internal = CH("internal", 0, 1);
  sp.mutable_cat_split();
  for (int i = 0; i < k; ++i) {
    std::string w = CH("cmiss", 0, 1) ? std::string("__missing__") : std::string(1, (char)I("w", -128, 127));
    if (internal) { unsigned x; if (!sc->get_cat_index(w, &x)) { __sym_assume(0); } sp.mutable_cat_split()->add_internal_categorical_index(x); if (CH("both", 0, 1)) sp.mutable_cat_split()->add_category(w); }
    else sp.mutable_cat_split()->add_category(w);
    cats.push_back(w);
  }
  std::vector<char> left; for (auto& x : v) { bool in = false; for (auto& w : cats) in |= w == x; left.push_back(in); }
  std::vector<unsigned> s(n); for (int i = 0; i < n; ++i) s[i] = i;
  verify(c.get(), sp, s, left, s, 0, n);
  __sym_reach("string");
}
ENTRY c06_raw() {   // a column that cannot be split sends everything to the right
  int n = CH("n", 0, 3); std::unique_ptr<Column> c = Column::CreateRawFloatColumn("r", std::vector<float>(n, 1.f));
  Split sp; sp.mutable_float_split()->set_threshold(bits_f("threshold")); std::vector<unsigned> s(n); for (int i = 0; i < n; ++i) s[i] = i;
  verify(c.get(), sp, s, std::vector<char>(n, 0), s, 0, n);
  __sym_reach("raw");
}
ENTRY c06_mismatch() {   // a split of the wrong kind is refused, not misread
  __sym_option("allow_fatal", 1);
  bool str = CH("str", 0, 1); std::unique_ptr<Column> c; if (str) c = Column::CreateStringColumn("s", {"a"}); else c = Column::CreateBucketizedFloatColumn("s", {1.f});
  Split sp; if (CH("set", 0, 1)) { if (str) sp.mutable_float_split()->set_threshold(1.f); else sp.mutable_cat_split()->add_category("a"); }
  std::vector<unsigned> s(1, 0); Partition(c.get(), sp, VectorSlice<unsigned>(s));
  __sym_fail("a split of the wrong kind is accepted");
}
ENTRY c06_many() {   // many rows, buckets and categories
  int n = P("n", 24), m = P("values", 9); bool str = CH("string", 0, 1); std::vector<unsigned> s(n); int rot = CH("rot", 0, 1) ? 7 : 0; for (int i = 0; i < n; ++i) s[i] = (i * 5 + rot) % n; int off = 2 * CH("off", 0, 1), len = n - off - 3 * CH("cut", 0, 1);
  Split sp; sp.set_feature("f"); std::vector<char> left;
  if (str) {
    std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(i % m == 4 ? std::string("__missing__") : "category " + std::to_string(i % m)); int k = CH("k", 0, m - 1); char c = (char)I("c", -128, 127); v[k] = std::string("category x"); v[k].back() = c;
    auto* cs = sp.mutable_cat_split(); for (int i = 0; i < m; ++i) if ((P("mask", 0xb5) + 64 * CH("mask", 0, i == 0)) >> i & 1) cs->add_category(i == 4 ? std::string("__missing__") : "category " + std::to_string(i)); if (CH("own", 0, 1)) cs->add_category(v[k]); cs->add_category("unseen"); if (CH("twice", 0, 1)) cs->add_category("unseen"), cs->add_category(cs->category(0));
    std::unique_ptr<Column> col = Column::CreateStringColumn("f", v); for (auto& x : v) { bool l = false; for (auto& y : cs->category()) l |= x == y; left.push_back(l); }
    verify(col.get(), sp, s, left, s, off, len); __sym_reach("many categories");
  } else {
    std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(i % 11 == 6 ? NAN : (float)(i * 3 % m) - 2); int k = CH("k", 0, n - 1); v[k] = (float)__sym_num("v", -6, 20, 2); float t = (float)__sym_num("threshold", -6, 20, 2); bool mr = CH("missing_right", 0, 1); sp.mutable_float_split()->set_threshold(t); sp.mutable_float_split()->set_missing_to_right_child(mr);
    std::unique_ptr<Column> col = Column::CreateBucketizedFloatColumn("f", v); for (float x : v) left.push_back(nanb(x) ? !mr : x < t);
    verify(col.get(), sp, s, left, s, off, len); __sym_reach("many values");
  }
}
ENTRY c06_wide() {   // more rows, buckets and categories than a byte counts
  int n = P("n", 300), off = CH("off", 0, 1) * 3, len = n - 2 * off; std::vector<unsigned> s(n); for (int i = 0; i < n; ++i) s[i] = (i * 7 + 5) % n; Split sp; sp.set_feature("f"); std::vector<char> left;
  if (CH("string", 0, 1)) {
    std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back("c" + std::to_string(i)); auto* cs = sp.mutable_cat_split(); static const int pick[] = {0, 3, 254, 255, 256, 259, 299}; cs->add_category(v[pick[CH("a", 0, 6)]]); std::string o = "c2?5"; o[2] = (char)I("c", '0', '9'); cs->add_category(o); if (CH("many", 0, 1)) for (int i = 0; i < n; i += 3) cs->add_category(v[i]);
    for (auto& x : v) { bool l = false; for (auto& y : cs->category()) l |= x == y; left.push_back(l); }
    auto col = Column::CreateStringColumn("f", v); verify(col.get(), sp, s, left, s, off, len); __sym_reach("wide categories");
  } else {
    std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(i % 50 == 49 ? NAN : (float)i); bool mr = CH("missing_right", 0, 1); static const int base[] = {-2, 126, 252, 295}; float t = (float)__sym_num("threshold", 0, 6, 2) + base[CH("base", 0, 3)]; sp.mutable_float_split()->set_threshold(t); sp.mutable_float_split()->set_missing_to_right_child(mr);
    for (float x : v) left.push_back(nanb(x) ? !mr : x < t); auto col = Column::CreateBucketizedFloatColumn("f", v, CH("buckets", 0, 1) ? 100000 : 5000); verify(col.get(), sp, s, left, s, off, len); __sym_reach("wide values");
  }
}
