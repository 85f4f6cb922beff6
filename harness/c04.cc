// A data store against a reference map, for histories of Add / Remove / lookups.
#include "h.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
using namespace gbdt;
static std::string word(const char* n) { std::string s(1, (char)I(n, -128, 127)); return s; }
struct Ref { std::string name; int type; unsigned rows; const Column* p; };
ENTRY c04_history() {
  DataStore d; std::vector<Ref> ref; 
  int steps = P("steps", 4);
  for (int s = 0; s < steps; ++s) {
    int op = CH("op", 0, 2);
    if (op == 0) {   // add
      std::string w = word("name"); int type = CH("type", 0, 2); unsigned rows = CH("rows", 0, 2);
      std::unique_ptr<Column> c; std::vector<float> f(rows, 1.5f); std::vector<std::string> t(rows, "t");
      if (type == 0) c = Column::CreateStringColumn(w, t); else if (type == 1) c = Column::CreateBucketizedFloatColumn(w, f); else c = Column::CreateRawFloatColumn(w, std::move(f));
      const Column* p = c.get(); bool dup = false; for (auto& r : ref) dup |= r.name == w;
      bool fits = ref.empty() || ref[0].rows == rows;
      Status st = d.Add(std::move(c));
      CHECK_(st.ok() == (!dup && fits), "Add succeeds exactly for a new name with the common number of rows");
      if (dup) CHECK_(st.error_code() == error::ALREADY_EXISTS, "a duplicate name is reported as such");
      else if (!fits) CHECK_(st.error_code() == error::OUT_OF_RANGE, "a different number of rows is reported as such");
      if (st.ok()) ref.push_back({w, type, rows, p});
    } else if (op == 1) {
      std::string w = word("name"); d.RemoveColumnIfExists(w);
      for (size_t i = 0; i < ref.size(); ++i) if (ref[i].name == w) { ref.erase(ref.begin() + i); break; }
    }
    // every observation agrees with the reference
    CHECK_(d.num_cols() == ref.size(), "number of columns");
    CHECK_(d.num_rows() == (ref.empty() ? 0 : ref[0].rows), "number of rows is that of every column");
    size_t n[3] = {0, 0, 0}; for (auto& r : ref) ++n[r.type];
    auto S = d.GetStringColumns(); auto B = d.GetBucketizedFloatColumns(); auto R = d.GetRawFloatColumns();
    CHECK_(S.size() == n[0] && B.size() == n[1] && R.size() == n[2], "every column is listed once under its kind");
    for (auto& r : ref) {
      bool in = false; for (auto* x : S) in |= x == r.p; for (auto* x : B) in |= x == r.p; for (auto* x : R) in |= x == r.p;
      CHECK_(in, "a column that was added is listed");
    }
    if (op == 2 || s + 1 == steps) for (size_t q = 0; q <= ref.size(); ++q) { std::string w = q < ref.size() ? ref[q].name : word("probe");
      const Ref* r = nullptr; for (auto& x : ref) if (x.name == w) r = &x;
      CHECK_(d.GetColumn(w) == (r ? r->p : nullptr), "lookup gives the column that was added, or nothing");
      CHECK_((const Column*)d.GetStringColumn(w) == (r && r->type == 0 ? r->p : nullptr), "typed lookup of strings");
      CHECK_((const Column*)d.GetBucketizedFloatColumn(w) == (r && r->type == 1 ? r->p : nullptr), "typed lookup of bucketized floats");
      CHECK_((const Column*)d.GetRawFloatColumn(w) == (r && r->type == 2 ? r->p : nullptr), "typed lookup of raw floats");
      if (r) CHECK_(d.GetColumn(w)->size() == r->rows && d.GetColumn(w)->name() == w, "the column kept its rows and name");
    }
  }
  __sym_reach("history");
}
ENTRY c04_raw() {   // raw float columns keep every bit
  int n = CH("n", 0, P("n", 3)), cut = CH("cut", 0, n); std::vector<float> v, a, b;
  for (int i = 0; i < n; ++i) v.push_back(bits_f("v"));
  a.assign(v.begin(), v.begin() + cut); b.assign(v.begin() + cut, v.end());
  RawFloatColumn c("r"); c.Add(&a); c.Add(&b); c.Finalize();
  auto w = v; std::unique_ptr<Column> u = Column::CreateRawFloatColumn("r", std::move(w));
  const RawFloatColumn& e = static_cast<const RawFloatColumn&>(*u);
  CHECK_(c.status().ok() && e.status().ok() && c.type() == Column::kRawFloatColumn && (int)c.size() == n && (int)e.size() == n, "status, kind and rows");
  for (int i = 0; i < n; ++i) { float x = c[i], y = e[i], z = c.raw_floats()[i]; CHECK_(!memcmp(&x, &v[i], 4) && !memcmp(&y, &v[i], 4) && !memcmp(&z, &v[i], 4), "a raw value is stored unchanged"); }
  __sym_reach("raw");
}
ENTRY c04_many() {   // many columns: additions, removals and look-ups around one symbolic name
  DataStore d; std::vector<Ref> ref; int n = P("n", 20), rows = CH("rows", 1, 2); auto name = [](int i) { return "the name of column " + std::to_string(i % 7) + std::string(i / 7, '_'); };
  auto mk = [&](const std::string& w, int type, int rows) -> std::unique_ptr<Column> { std::vector<float> f(rows, 1.5f); std::vector<std::string> t(rows, "t"); if (type == 0) return Column::CreateStringColumn(w, t); if (type == 1) return Column::CreateBucketizedFloatColumn(w, f); return Column::CreateRawFloatColumn(w, std::move(f)); };
  std::string sym = name(3); sym[CH("at", 0, 2) * 8 + 3] = (char)I("c", -128, 127); int when = CH("when", 0, 2), what = CH("what", 0, 1), from = CH("from", 0, 4), drop = CH("drop", 0, 3) * 5;
  auto check = [&] { size_t k[3] = {0, 0, 0}; for (auto& r : ref) ++k[r.type]; CHECK_(d.num_cols() == ref.size() && d.num_rows() == (ref.empty() ? 0u : (unsigned)rows), "counts"); CHECK_(d.GetStringColumns().size() == k[0] && d.GetBucketizedFloatColumns().size() == k[1] && d.GetRawFloatColumns().size() == k[2], "every column is listed once under its kind");
    for (auto& r : ref) { CHECK_(d.GetColumn(r.name) == r.p && r.p->name() == r.name && (int)r.p->size() == rows, "a column stays what it is"); CHECK_((const Column*)d.GetStringColumn(r.name) == (r.type == 0 ? r.p : nullptr) && (const Column*)d.GetBucketizedFloatColumn(r.name) == (r.type == 1 ? r.p : nullptr) && (const Column*)d.GetRawFloatColumn(r.name) == (r.type == 2 ? r.p : nullptr), "under its kind only"); } };
  auto act = [&] { if (what) { d.RemoveColumnIfExists(sym); for (size_t i = 0; i < ref.size(); ++i) if (ref[i].name == sym) { ref.erase(ref.begin() + i); break; } } else { bool dup = false; for (auto& r : ref) dup |= r.name == sym; auto c = mk(sym, 2, rows); const Column* p = c.get(); auto st = d.Add(std::move(c)); CHECK_(st.ok() == !dup, "a name is taken once"); if (st.ok()) ref.push_back({sym, 2, (unsigned)rows, p}); } check(); };
  for (int i = 0; i < n; ++i) { if (i == 5 && when == 0) act(); bool dup = false; for (auto& r : ref) dup |= r.name == name(i); auto c = mk(name(i), (i + from) % 3, rows); const Column* p = c.get(); auto st = d.Add(std::move(c)); CHECK_(st.ok() == !dup, "a new name is accepted, a known one is not"); if (st.ok()) ref.push_back({name(i), (i + from) % 3, (unsigned)rows, p});
    if (i % 6 == 4) { CHECK_(!d.Add(mk("more rows", i % 3, rows + 1)).ok(), "another number of rows is refused"); CHECK_(d.GetColumn("more rows") == nullptr, "and not added"); } }
  check(); if (when == 1) act();
  for (int i = from; i < from + drop; ++i) { std::string w = name(i % n); d.RemoveColumnIfExists(w); for (size_t j = 0; j < ref.size(); ++j) if (ref[j].name == w) { ref.erase(ref.begin() + j); break; } CHECK_(d.GetColumn(w) == nullptr, "a removed column is gone"); }
  check(); if (when == 2) act(); __sym_reach("many");
}
