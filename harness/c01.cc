// Bucketised float columns.
#include "h.h"
#include "src/data_store/column.h"
using namespace gbdt;
static void verify(const BucketizedFloatColumn& c, const std::vector<float>& v, int buckets, bool at_once = false) {
  CHECK_(c.status().ok(), "a valid build reports OK");
  CHECK_(c.size() == v.size(), "the column has one row per added value");
  const auto& col = c.col();
  std::vector<unsigned> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    b[i] = col[i];
    bool miss = nanb(v[i]);
    CHECK_(b[i] < c.max_int(), "bucket index below max_int");
    CHECK_((b[i] == 0) == miss, "a row is missing (bucket 0) exactly when its value is NaN");
    CHECK_(col.missing(i) == miss, "missing() agrees");
    __sym_observe_i("bucket", b[i]);
    if (!miss) { CHECK_(v[i] <= c.get_row_max(i) || infb(v[i]), "value at most the bucket maximum"); CHECK_(v[i] >= c.get_row_min(i), "value at least the bucket minimum"); }
  }
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (i != j && b[i] && b[j]) {
    if (v[i] < v[j]) CHECK_(b[i] <= b[j], "buckets preserve order");
    if (v[i] == v[j]) CHECK_(b[i] == b[j], "equal values share a bucket");
    if (b[i] < b[j]) CHECK_(c.get_row_max(i) < c.get_row_min(j), "buckets are disjoint and ordered");
    if ((int)v.size() <= buckets && v[i] != v[j]) CHECK_(b[i] != b[j], "distinct values are kept apart when buckets suffice");
  }
  for (size_t i = 0; i < v.size(); ++i) if (b[i]) {   // the bounds enclose exactly the rows
    bool lo = infb(v[i]), hi = lo;
    for (size_t j = 0; j < v.size(); ++j) if (b[j] == b[i]) { lo |= v[j] == c.get_row_min(i) || infb(v[j]); hi |= v[j] == c.get_row_max(i); }
    CHECK_(lo, "the minimum of a bucket is the smallest value of its rows");
    bool inf = false; for (auto x : v) inf |= infb(x);   // an infinite value splits the top bucket at the largest finite float
    if (at_once) CHECK_(hi | inf, "the maximum of a bucket built from all rows is the largest value of its rows");
  }
  if (at_once) { unsigned used = 0; for (unsigned k = 1; k < c.max_int(); ++k) { bool u = false; for (auto x : b) u |= x == k; used += u; } CHECK_((int)used <= 2 * buckets, "at most twice the buckets asked for are used"); }
  for (unsigned k = 1; k + 1 < c.max_int(); ++k) CHECK_(c.get_bucket_max(k) <= c.get_bucket_max(k + 1), "bucket maxima never decrease");
  for (unsigned k = 1; k < c.max_int(); ++k) CHECK_(c.get_bucket_min(k) <= c.get_bucket_max(k), "bucket minimum at most maximum");
  CHECK_(nanb(c.get_bucket_max(0)), "bucket 0 stands for missing");
}
static float value(const char* n) { return bits_f(n); }
ENTRY c01_one() {   // single Add then Finalize
  int n = CH("n", 0, P("n", 4)), nb = CH("buckets", 1, P("nb", 5));
  std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(value("v"));
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v, nb);
  CHECK_(c->type() == Column::kBucketizedFloatColumn && c->name() == "f", "type and name");
  verify(static_cast<const BucketizedFloatColumn&>(*c), v, nb, true);
  __sym_reach("one");
}
ENTRY c01_multi() {  // buckets are built part way; later values are only mapped
  int n = CH("n", 0, P("n1", 2)), m = CH("m", 0, P("n2", 2)), nb = CH("buckets", 1, 3); bool early = CH("early", 0, 1);
  std::vector<float> a, b, all; for (int i = 0; i < n; ++i) a.push_back(value("v")); for (int i = 0; i < m; ++i) b.push_back(value("w"));
  BucketizedFloatColumn c("f", nb);
  c.Add(&a); if (early) c.BuildBuckets(); c.Add(&b);
  c.Finalize();
  all = a; all.insert(all.end(), b.begin(), b.end());
  verify(c, all, 0);
  // after Finalize nothing changes
  unsigned size = c.size(); std::vector<float> x(1, 1.0f);
  c.Add(&x);
  CHECK_(!c.status().ok(), "Add after Finalize is reported");
  CHECK_(c.size() == size, "Add after Finalize leaves the column unchanged");
  __sym_reach("multi");
}
ENTRY c01_wide() {   // many buckets: the storage width changes
  int base = P("base", 254), k = CH("k", 0, 4);
  std::vector<float> v; for (int i = 0; i < base + k; ++i) v.push_back((float)(i * 2));
  v.push_back(value("x")); ASSUME_(nanb(v.back()) || (v.back() >= 2 * base - 8));
  BucketizedFloatColumn c("f", P("nb", 30000));
  c.Add(&v); c.Finalize();
  CHECK_(c.status().ok() && c.size() == v.size(), "status and size");
  for (size_t i = 0; i < v.size(); ++i) {
    unsigned b = c.col()[i]; bool miss = nanb(v[i]);
    CHECK_((b == 0) == miss, "a row is missing exactly when NaN (wide)");
    CHECK_(b < c.max_int(), "bucket index in range (wide)");
    if (!miss) { CHECK_(c.get_row_max(i) == v[i] && c.get_row_min(i) == v[i], "exact bucket per distinct value (wide)"); }
    if (i && i + 1 < v.size()) CHECK_(c.col()[i - 1] < b, "order kept (wide)");
  }
  __sym_reach("wide");
}
ENTRY c01_auto() {   // about 100 x buckets rows, in one or two chunks: buckets are built during Add
  int nb = CH("buckets", 1, 3), more = CH("more", 0, 4), cut = CH("cut", 0, 2), extra = P("extra", 1); static const int kMore[] = {-1, 0, 1, 2, 60}; std::vector<float> v;
  for (int i = 0; i < 100 * nb + kMore[more]; ++i) v.push_back((float)(i % 7));
  if (more == 4) v.back() = v[50] = v[100] = NAN;
  BucketizedFloatColumn c("f", nb); size_t at = cut == 0 ? v.size() : cut == 1 ? std::min<size_t>(100, v.size()) : v.size() - 1; std::vector<float> a(v.begin(), v.begin() + at), b(v.begin() + at, v.end()); c.Add(&a); if (cut) c.Add(&b);
  std::vector<float> w; for (int i = 0; i < extra; ++i) w.push_back(value("w"));
  c.Add(&w); c.Finalize();
  CHECK_(c.status().ok() && c.size() == v.size() + w.size(), "status and size (auto)");
  for (size_t i = 0; i < v.size(); ++i) { unsigned k = c.col()[i]; CHECK_((k == 0) == nanb(v[i]), "missing exactly when NaN (auto)"); if (k) CHECK_(c.get_bucket_min(k) <= v[i] && v[i] <= c.get_bucket_max(k) && k == c.col()[(int)v[i]], "every row in the bucket of its value (auto)"); }
  for (int i = 0; i < extra; ++i) {
    unsigned b = c.col()[v.size() + i]; CHECK_((b == 0) == nanb(w[i]), "missing exactly when NaN (auto)");
    if (b) { CHECK_((w[i] <= c.get_bucket_max(b) || infb(w[i])) && w[i] >= c.get_bucket_min(b), "value within its bucket (auto)");
      for (int k = 0; k < 7; ++k) { if (v[k] < w[i]) CHECK_(c.col()[k] <= b, "order (auto)"); if (v[k] > w[i]) CHECK_(c.col()[k] >= b, "order (auto)"); if (v[k] == w[i]) CHECK_(c.col()[k] == b, "equal (auto)"); } }
  }
  __sym_reach("auto");
}
ENTRY c01_counts() {   // values of any multiplicity, next to one arbitrary value
  int k = P("k", 5), nb = CH("buckets", 1, P("nb", 6)); std::vector<float> v;
  for (int i = 0; i < k; ++i) for (int c = CH("count", 0, P("max", 3)); c > 0; --c) v.push_back((float)(2 * i));
  v.push_back(value("x"));
  std::unique_ptr<Column> c = Column::CreateBucketizedFloatColumn("f", v, nb);
  verify(static_cast<const BucketizedFloatColumn&>(*c), v, nb, true);
  __sym_reach("counts");
}
