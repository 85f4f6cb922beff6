// String columns.
#include "h.h"
#include "src/data_store/column.h"
using namespace gbdt;
static std::string word(const char* n, int maxlen) {
  int k = CH("kind", 0, maxlen + 1);
  if (k == maxlen + 1) return "__missing__";
  std::string s; for (int i = 0; i < k; ++i) s.push_back((char)I(n, -128, 127));
  return s;
}
static void verify(const StringColumn& c, const std::vector<std::string>& v) {
  CHECK_(c.status().ok(), "a valid build reports OK");
  CHECK_(c.size() == v.size(), "the column has one row per added string");
  std::vector<unsigned> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    b[i] = c.col()[i];
    CHECK_(b[i] < c.max_int(), "category index below max_int");
    CHECK_(c.get_row_string(i) == v[i], "a row reads back the string that was added");
    CHECK_(c.get_cat_string(b[i]) == v[i], "the category of a row is its string");
    unsigned x = 12345; bool ok = c.get_cat_index(v[i], &x);
    CHECK_(ok && x == b[i], "looking up a row's string gives the row's category");
    CHECK_((b[i] == 0) == (v[i] == "__missing__"), "category 0 is exactly the missing marker");
    CHECK_(c.col().missing(i) == (v[i] == "__missing__"), "missing() agrees");
    __sym_observe_i("cat", b[i]);
  }
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK_((b[i] == b[j]) == (v[i] == v[j]), "rows share a category exactly when their strings are equal");
  for (unsigned i = 0; i < c.max_int(); ++i) { unsigned x = 0; CHECK_(c.get_cat_index(c.get_cat_string(i), &x) && x == i, "categories and strings are in bijection");
    bool used = i == 0; for (auto y : b) used |= y == i; CHECK_(used, "every category occurs"); }
}
ENTRY c02_small() {
  int n = CH("n", 0, P("n", 3)), cut = CH("cut", 0, n); std::vector<std::string> v, a, b;
  for (int i = 0; i < n; ++i) v.push_back(word("c", P("len", 2)));
  StringColumn c("s"); a.assign(v.begin(), v.begin() + cut); b.assign(v.begin() + cut, v.end());
  c.Add(&a); c.Add(&b); c.Finalize();
  CHECK_(c.type() == Column::kStringColumn && c.name() == "s", "type and name");
  verify(c, v);
  std::string probe = word("p", 1); unsigned x; bool in = probe == "__missing__"; for (auto& s : v) in |= s == probe;
  CHECK_(c.get_cat_index(probe, &x) == in, "a string that was never added has no category");
  __sym_reach("small");
}
ENTRY c02_final() {   // a finalised column is immutable, and says so
  int n = CH("n", 0, 2); std::vector<std::string> v, w; for (int i = 0; i < n; ++i) v.push_back(word("c", 1));
  std::unique_ptr<Column> u = Column::CreateStringColumn("s", v); StringColumn& c = static_cast<StringColumn&>(*u);
  verify(c, v); unsigned size = c.size(), mx = c.max_int();
  w.push_back(word("d", 1));
  bool add = CH("op", 0, 1);
  if (add) c.Add(&w); else c.Finalize();
  CHECK_(!c.status().ok(), add ? "Add after Finalize is reported" : "a second Finalize is reported");
  CHECK_(c.size() == size, "a refused operation leaves the rows unchanged");
  CHECK_(c.max_int() == mx, "a refused operation leaves the categories unchanged");
  for (int i = 0; i < n; ++i) CHECK_(c.get_row_string(i) == v[i], "a refused operation leaves the values unchanged");
  __sym_reach("final");
}
ENTRY c02_wide() {    // around the points where the storage width changes
  int base = P("base", 253), k = CH("k", 0, 4), n = base + k; std::vector<std::string> v; v.reserve(n + 3);
  for (int i = 0; i < n; ++i) { char t[4] = {(char)('0' + i % 64), (char)('0' + i / 64 % 64), (char)('0' + i / 4096), 0}; v.push_back(t); }
  int m = CH("m", 0, 1), dup = -1, extra = 0;
  if (m) v.push_back("__missing__");
  else { char a = (char)I("a", '0', '3'), b = (char)CH("b", '3', '5'); std::string s("000"); s[0] = a; s[1] = b; v.push_back(s); for (int i = 0; i < n; ++i) if (s == v[i]) dup = i; extra = dup < 0; }
  StringColumn c("s"); c.Add(&v); c.Finalize();
  CHECK_(c.status().ok() && c.size() == v.size(), "status and size (wide)");
  CHECK_((int)c.max_int() == n + 1 + extra, "one category per distinct string and one for missing (wide)");
  for (int i = 0; i <= n; ++i) {
    unsigned b = c.col()[i];
    CHECK_(b < c.max_int(), "category index in range (wide)");
    CHECK_(b == (i < n ? i + 1u : m ? 0u : extra ? n + 1u : dup + 1u), "every row keeps a category of its own (wide)");
    if (i % 50 == 0 || i > n - 5) CHECK_(c.get_row_string(i) == v[i], "a row reads back the string that was added (wide)");
  }
  __sym_reach("wide");
}

ENTRY c02_near() {    // strings that almost are the missing marker, and strings with a long common part
  static const std::string base = "__missing__"; std::vector<std::string> v; int n = P("n", 2);
  for (int i = 0; i < n; ++i) { std::string s = base; int at = CH("at", 0, 13); char c = (char)I("c", -128, 127); if (at < 11) s[at] = c; else if (at == 11) s += c; else if (at == 12) s.insert(s.begin(), c); else { s.pop_back(); if (c == 0) s.clear(); } v.push_back(s); }
  if (CH("missing", 0, 1)) v.push_back(base);
  StringColumn c("s"); c.Add(&v); c.Finalize(); verify(c, v); __sym_reach("near");
}
ENTRY c02_long() {    // long strings that differ in one place, added in several parts
  int n = P("n", 12), len = P("len", 40); std::string base; for (int i = 0; i < len; ++i) base.push_back((char)('a' + i % 7)); std::vector<std::string> v;
  static const int at[] = {0, 7, 8, 15, 16, 23, 31, 32, 39, 63, 64, 127, 128, 255, 256, 299}; int p = at[CH("at", 0, len > 100 ? 15 : 8)]; if (p >= len) p = len - 1; char c = (char)I("c", -128, 127);
  for (int i = 0; i < n; ++i) { std::string s = base; if (i % 3 == 1) s[p] = c; if (i % 4 == 2) s.pop_back(); if (i % 5 == 3) s.insert(i, 1, 'z'); if (i == n - 1) s = "__missing__"; v.push_back(s); }
  StringColumn col("s"); int cut = CH("cut", 0, 2) * (n / 2); std::vector<std::string> a(v.begin(), v.begin() + cut), b(v.begin() + cut, v.end()), e; col.Add(&a); col.Add(&e); col.Add(&b); col.Finalize(); verify(col, v);
  std::string q = base; q[len / 2] = '!'; unsigned x; bool in = false; for (auto& s : v) in |= s == q; CHECK_(col.get_cat_index(q, &x) == in, "a string that was never added has no category"); __sym_reach("long");
}
