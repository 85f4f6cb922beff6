// The functions behind the Python module: columns, data store, forest, train.
#include <fstream>
#include <ios>
#include <list>
#include <stdexcept>
#include <unordered_set>
#include "external/cppformat/format.h"
#include "h.h"
#include "model.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/python/column_py.h"
#include "src/python/datastore_py.h"
#include "src/python/forest_py.h"
#include "src/python/gbdt_py_base.h"
#include "src/utils/subsampling.h"
#include "jsonstub.h"
DECLARE_int32(num_threads);
using namespace gbdt;
#include "same.h"
namespace gbdt { ForestPy TrainPy(DataStorePy*, const std::vector<float>&, const std::vector<float>&, const std::string&, ForestPy*, int, int); }
enum { NONE, INVALID, RANGE, IO, LOGIC, RUNTIME, OTHER };
template <class F> static int thrown(F f) {
  try { f(); } catch (const std::invalid_argument&) { return INVALID; } catch (const std::out_of_range&) { return RANGE; } catch (const std::ios_base::failure&) { return IO; } catch (const std::logic_error&) { return LOGIC; } catch (const std::runtime_error&) { return RUNTIME; } catch (...) { return OTHER; }
  return NONE;
}
static std::string json(const google::protobuf::Message& m) { std::string s; CHECK_(JsonUtils::ToJson(m, &s).ok(), "a message has a text form"); return s; }
static bool eqf(float a, float b) { return nanb(a) ? nanb(b) : a == b; }
ENTRY c22_throw() {   // an error becomes an exception of its kind, success does not
  static const struct { decltype(Status().error_code()) c; int k; } t[] = {{error::OK, NONE}, {error::INVALID_ARGUMENT, INVALID}, {error::OUT_OF_RANGE, RANGE}, {error::NOT_FOUND, IO}, {error::FAILED_PRECONDITION, LOGIC}, {error::INTERNAL, LOGIC}, {error::ALREADY_EXISTS, RUNTIME}, {error::UNKNOWN, RUNTIME}};
  int i = CH("code", 0, 7); Status s = i ? Status(t[i].c, "text") : Status::OK; int k = thrown([&] { ThrowException(s); }); CHECK_((k != NONE) == (i != 0), "every error is raised and success is not");
  CHECK_((k == RANGE) == (t[i].k == RANGE) && (k == INVALID) == (t[i].k == INVALID), "only index errors end an iteration, only bad arguments are value errors"); __sym_reach("throw");
}
ENTRY c22_column() {   // len(), [] and str() of a column
  int kind = CH("kind", 0, 2), n = CH("n", 0, P("n", 3)), i = (int)__sym_bits("i", 32); bool in = (i >= 0) & (i < n); std::vector<float> v;
  if (kind == 0) {
    std::vector<std::string> s; for (int k = 0; k < n; ++k) { std::string x; int l = CH("len", 0, 2); if (l == 2) x = "__missing__"; else if (l) x.push_back((char)I("c", -128, 127)); s.push_back(x); }
    auto c = Column::CreateStringColumn("col", s); StringColumnPy p(static_cast<StringColumn*>(c.get())); CHECK_(p.size() == n && p.name() == "col", "length and name");
    std::string got; int k = thrown([&] { got = p.get(i); }); CHECK_(k == (in ? NONE : RANGE), "an index outside the column is an index error"); if (in) CHECK_(got == s[i], "an element is the value of its row");
    StringColumnPy e(nullptr); CHECK_(e.size() == 0 && thrown([&] { e.get(i); }) != NONE, "a column that is not there has no elements");
  } else if (kind == 1) {
    for (int k = 0; k < n; ++k) v.push_back(bits_f("v"));
    auto c = Column::CreateRawFloatColumn("col", std::vector<float>(v)); RawFloatColumnPy p(static_cast<RawFloatColumn*>(c.get())); CHECK_(p.size() == n && p.name() == "col", "length and name");
    float got = 0; int k = thrown([&] { got = p.get(i); }); CHECK_(k == (in ? NONE : RANGE), "an index outside the column is an index error"); if (in) CHECK_(eqf(got, v[i]), "an element is the value of its row");
    RawFloatColumnPy e(nullptr); CHECK_(e.size() == 0 && thrown([&] { e.get(i); }) != NONE, "a column that is not there has no elements");
  } else {
    static const float vs[] = {NAN, -2.f, 0.5f, 7.f}; for (int k = 0; k < n; ++k) v.push_back(vs[CH("v", 0, 3)]);
    auto c = Column::CreateBucketizedFloatColumn("col", v); BucketizedFloatColumnPy p(static_cast<BucketizedFloatColumn*>(c.get())); CHECK_(p.size() == n && p.name() == "col", "length and name");
    float got = 0; int k = thrown([&] { got = p.get(i); }); CHECK_(k == (in ? NONE : RANGE), "an index outside the column is an index error"); if (in) CHECK_(eqf(got, v[i]), "an element is the value of its row");
    auto b = p.GetBuckets(); for (int r = 0; r < n; ++r) { if (nanb(v[r])) continue; int hit = 0; for (auto& x : b) if (x.first <= v[r] && v[r] <= x.second) ++hit; CHECK_(hit == 1, "every value lies in exactly one bucket"); }
    BucketizedFloatColumnPy e(nullptr); CHECK_(e.size() == 0 && thrown([&] { e.get(i); }) != NONE && thrown([&] { e.GetBuckets(); }) != NONE, "a column that is not there has no elements");
  }
  __sym_reach(in ? "element" : "outside");
}
struct Ref { std::string name; int type, rows; };
static bool has(const std::vector<std::string>& v, const std::string& s) { int k = 0; for (auto& x : v) if (x == s) ++k; return k == 1; }
ENTRY c22_describe() {   // the text forms of columns and data stores
  static const int ns[] = {0, 1, 3, 9, 10, 11, 12, 25}; int kind = CH("kind", 0, 3), n = ns[CH("n", 0, P("ns", 7))]; std::vector<std::string> shown; std::string d; std::vector<float> v(n);
  if (kind == 3) {
    DataStorePy e; int b = CH("b", 0, 3), r = CH("r", 0, 3), t = CH("t", 0, 3); for (int k = 0; k < b; ++k) e.AddBucketizedFloatColumn("b" + std::to_string(k), v); for (int k = 0; k < r; ++k) e.AddRawFloatColumn("r" + std::to_string(k), v); for (int k = 0; k < t; ++k) e.AddStringColumn("t" + std::to_string(k), std::vector<std::string>(n, "x"));
    std::vector<long> num; std::string text = e.Description(); for (size_t i = 0; i < text.size(); ++i) if (text[i] >= '0' && text[i] <= '9') { long x = 0; for (; i < text.size() && text[i] >= '0' && text[i] <= '9'; ++i) x = 10 * x + (text[i] - '0'); num.push_back(x); }
    if (b + r + t) CHECK_(num.size() == 4 && num[0] == b && num[1] == r && num[2] == t && num[3] == n, "the text of a data store counts its columns of each type and its rows"); else CHECK_(num.empty(), "an empty data store counts nothing");
    __sym_reach("counted"); return;
  }
  if (kind == 0) {
    std::vector<std::string> s; int pos = n ? CH("pos", 0, n - 1) : 0; for (int k = 0; k < n; ++k) { std::string x = "w" + std::to_string(k + 100); if (k == pos) x[0] = (char)('a' + CH("c", 0, 2)); s.push_back(x); }
    auto c = Column::CreateStringColumn("col", s); StringColumnPy p(static_cast<StringColumn*>(c.get())); d = p.Description(); shown = s;
  } else {
    static const float vs[] = {-2.f, 0.5f, 7.f, 1024.f}; int pos = n ? CH("pos", 0, n - 1) : 0; for (int k = 0; k < n; ++k) v[k] = 16.f + k; if (n) v[pos] = vs[CH("v", 0, 3)];
    std::unique_ptr<Column> c = kind == 1 ? Column::CreateRawFloatColumn("col", std::vector<float>(v)) : Column::CreateBucketizedFloatColumn("col", v);
    if (kind == 1) { RawFloatColumnPy p(static_cast<RawFloatColumn*>(c.get())); d = p.Description(); } else { BucketizedFloatColumnPy p(static_cast<BucketizedFloatColumn*>(c.get())); d = p.Description(); }
    for (float x : v) shown.push_back(fmt::format("{0}", x));
  }
  size_t at = 0; for (int k = 0; k < n && k < 10; ++k) { size_t f = d.find(shown[k], at); CHECK_(f != std::string::npos, "the first ten elements are shown in order"); at = f + shown[k].size(); }
  if (n > 10) CHECK_(d.find(shown[10], at) == std::string::npos || kind, "the elements after the tenth are not shown");
  CHECK_((d.find("...") != std::string::npos) == (n > 10), "an ellipsis tells that there are more elements");
  int quotes = 0; for (char c : d) quotes += c == ','; if (kind == 0) CHECK_(quotes == (n > 10 ? 9 : n ? n - 1 : 0), "as many elements as there are, at most ten");
  if (kind == 0) CHECK_(StringColumnPy(nullptr).Description().find(',') == std::string::npos, "a column that is not there shows no elements");
  __sym_reach("described");
}
ENTRY c22_store() {   // a history of calls on a data store
  static const char* tn[] = {"string", "bucketized_float", "raw_float"}; static const char* names[] = {"a", "b"}; DataStorePy d; std::vector<Ref> ref; int steps = P("steps", 3);
  for (int s = 0; s < steps; ++s) {
    int op = CH("op", 0, 2); std::string w = names[CH("name", 0, 1)];
    if (op == 0) {
      int type = CH("type", 0, 2), rows = CH("rows", 0, 2); std::vector<float> f(rows, 1.5f); std::vector<std::string> t(rows, "t"); bool dup = false; for (auto& r : ref) dup |= r.name == w; bool fits = ref.empty() || ref[0].rows == rows;
      int k = thrown([&] { if (type == 0) d.AddStringColumn(w, t); else if (type == 1) d.AddBucketizedFloatColumn(w, f); else d.AddRawFloatColumn(w, f); });
      CHECK_((k == NONE) == (!dup && fits), "a column is added, or the reason it cannot be is raised"); if (k == NONE) ref.push_back({w, type, rows});
    } else if (op == 1) { CHECK_(thrown([&] { d.RemoveColumnIfExists(w); }) == NONE, "removing never fails"); for (size_t i = 0; i < ref.size(); ++i) if (ref[i].name == w) { ref.erase(ref.begin() + i); break; } }
    else { d.Clear(); ref.clear(); }
    CHECK_(d.num_rows() == (ref.empty() ? 0 : ref[0].rows) && d.num_cols() == (int)ref.size(), "rows and columns");
    auto all = d.AllColumnNames(), S = d.StringColumnNames(), B = d.BucketizedFloatColumnNames(), R = d.RawFloatColumnNames(); CHECK_(all.size() == ref.size() && S.size() + B.size() + R.size() == ref.size(), "every column is listed once");
    for (auto& x : names) { const Ref* r = nullptr; for (auto& y : ref) if (y.name == x) r = &y;
      CHECK_(d.Exists(x) == (r != nullptr), "in tells whether a column is there"); std::string ty; int k = thrown([&] { ty = d.GetColumnType(x); }); CHECK_((k == NONE) == (r != nullptr), "the type of an absent column is an error");
      int g[3] = {thrown([&] { CHECK_(d.GetStringColumn(x).size() == (r ? r->rows : -1), "the rows of the column"); }), thrown([&] { CHECK_(d.GetBucketizedFloatColumn(x).size() == (r ? r->rows : -1), "the rows of the column"); }), thrown([&] { CHECK_(d.GetRawFloatColumn(x).size() == (r ? r->rows : -1), "the rows of the column"); })};
      for (int t = 0; t < 3; ++t) CHECK_((g[t] == NONE) == (r && r->type == t), "a column is found under its own type only");
      if (r) { CHECK_(ty == tn[r->type] && has(all, x) && has(r->type == 0 ? S : r->type == 1 ? B : R, x), "name and type of a column"); } }
  }
  __sym_reach("store");
}
ENTRY c22_tsv() {   // loading replaces the content, or raises and leaves it
  { std::ofstream f("t.tsv"); f << "x\ty\ts\n1\t2\tp\n0.5\t" << (CH("bad", 0, 1) ? "-3\tq\textra\n" : "-3\tq\n"); }
  { std::ofstream f("u.tsv"); f << "x\ty\ts\n4\t5\tp\n"; }
  DataStorePy d; bool old = CH("old", 0, 1); if (old) d.AddRawFloatColumn("z", {1, 2, 3}); static const char* names[] = {"x", "y", "s", "none"}; std::vector<std::string> files, b, r, s;
  bool f1 = CH("first", 0, 1), f2 = CH("second", 0, 1); if (f1) files.push_back("t.tsv"); if (f2) files.push_back("u.tsv"); if (CH("absent", 0, 1)) files.push_back("absent.tsv"); int cb = CH("b", 0, 3), cr = CH("r", 0, 3), cs = CH("s", 2, 3); if (CH("useb", 0, 1)) b.push_back(names[cb]); r.push_back(names[cr]); s.push_back(names[cs]);
  int k = thrown([&] { d.LoadTSV(files, b, r, s); });
  if (k != NONE) { CHECK_(d.num_rows() == (old ? 3 : 0) && d.Exists("z") == old && d.num_cols() == (old ? 1 : 0), "a failed load leaves the data store as it was"); __sym_reach("failed"); return; }
  int rows = (f1 ? 2 : 0) + (f2 ? 1 : 0); CHECK_(d.num_rows() == rows && !d.Exists("z"), "the rows of all files, instead of what was there");
  for (auto& x : b) CHECK_(d.GetColumnType(x) == "bucketized_float" && d.GetBucketizedFloatColumn(x).size() == rows, "the bucketized columns");
  for (auto& x : r) if (b.empty() || b[0] != x) CHECK_(d.GetColumnType(x) == "raw_float" && d.GetRawFloatColumn(x).size() == rows, "the raw columns");
  for (auto& x : s) CHECK_(d.GetColumnType(x) == "string" && d.GetStringColumn(x).size() == rows, "the string columns");
  if (r[0] == "y" && f1) { auto c = d.GetRawFloatColumn("y"); CHECK_(c.get(0) == 2 && c.get(1) == -3, "the values of the file"); } if (s[0] == "s" && f1) { auto c = d.GetStringColumn("s"); CHECK_(c.get(0) == "p" && c.get(1) == "q", "the values of the file"); }
  __sym_reach("loaded");
}
static void fill(DataStorePy* p, DataStore* d, const std::vector<float>& y, const std::vector<float>& w) {
  std::vector<float> x = {1, 2, 3, NAN}; std::vector<std::string> s = {"a", "b", "a", "c"}, g = {"p", "p", "p", "p"}; x.resize(y.size()); s.resize(y.size()); g.resize(y.size());
  if (p) { p->AddBucketizedFloatColumn("x", x); p->AddStringColumn("s", s); p->AddStringColumn("g", g); p->AddRawFloatColumn("y", y); p->AddRawFloatColumn("w", w); }
  if (d) { d->Add(Column::CreateBucketizedFloatColumn("x", x)); d->Add(Column::CreateStringColumn("s", s)); d->Add(Column::CreateStringColumn("g", g)); d->Add(Column::CreateRawFloatColumn("y", std::vector<float>(y))); d->Add(Column::CreateRawFloatColumn("w", std::vector<float>(w))); }
}
static int s_of(int i) { return i == 1; }
static Config config() { Config c; c.set_num_trees(P("trees", 1)); c.set_num_leaves(2); c.set_shrinkage(0.5f); c.set_example_sampling_rate(1); c.set_feature_sampling_rate(1); c.set_loss_func("mse"); c.add_float_feature("x"); return c; }
ENTRY c22_train() {   // train() is TrainGBDT with the given or configured targets and weights
  int n = P("n", 3), fix = P("fix", 0); std::vector<float> y, w, y2, w2; for (int i = 0; i < n; ++i) { y.push_back(i < P("ys", 2) ? (float)__sym_num("y", -2, 2, 1) : fix ? 2.f - 3 * i : 1.f); w.push_back(i == 0 ? 2.f : 1.f); y2.push_back(i == 1 ? 3.f : -2.f); w2.push_back(i == 1 ? 3.f : 1.f); }
  Config c = config(); int ty = CH("target", 0, fix ? 0 : 2), tw = CH("weight", 0, fix ? 0 : 3); bool bin = CH("binarize", 0, !fix); int cat = CH("cat", 0, P("cats", 2)); if (cat) c.add_categorical_feature("s"); if (cat == 1) c.clear_float_feature(); if (cat == 2) for (int i = 0; i < n; ++i) y[i] = s_of(i) ? -1 : 1; c.set_binarize_target(bin); if (P("rate", 0)) c.set_example_sampling_rate(0.5f);
  // target: a list, a column, a list although a column is configured; weights likewise, or none
  if (ty) c.set_target_column("y"); if (tw == 1 || tw == 2) c.set_weight_column("w");
  DataStorePy d; DataStore e; fill(&d, nullptr, ty == 2 ? y2 : y, tw == 2 ? w2 : w); fill(nullptr, &e, ty == 2 ? y2 : y, tw == 2 ? w2 : w);
  std::vector<float> yl, wl; if (ty != 1) yl = y; if (tw >= 2) wl = w; if (tw == 3) wl = w2;
  Forest base; bool usebase = CH("base", 0, !fix); if (usebase) { base.add_tree()->set_score(0.5f); auto* t = base.add_tree(); t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(1.5f); t->mutable_left_child()->set_score(1); t->mutable_right_child()->set_score(-1); }
  ForestPy bp{Forest(base)}; int seed = P("seed", 7) < 0 ? (int)__sym_bits("seed", 32) : P("seed", 7), threads = CH("threads", 1, fix ? 1 : 2); std::string js = json(c);
  std::unique_ptr<ForestPy> got; FLAGS_num_threads = 1; int k = thrown([&] { got.reset(new ForestPy(TrainPy(&d, yl, wl, js, usebase ? &bp : nullptr, seed, threads))); }); CHECK_(k == NONE, "a valid training succeeds"); CHECK_(FLAGS_num_threads == threads, "the requested number of threads is used");
  CHECK_(d.num_rows() == n && d.num_cols() == 5 && same(bp.forest(), base), "the training changes neither the data nor the base forest");
  Forest want; Subsampling::Reseed(seed); auto loss = LossFuncFactory::CreateLossFunc(c); std::unordered_set<std::string> fs; if (cat != 1) fs.insert("x"); if (c.categorical_feature_size()) fs.insert("s");
  std::vector<float> W = tw == 0 ? std::vector<float>(n, 1.f) : tw == 3 ? w2 : w, Y = y; if (ty == 1 && bin) for (auto& v : Y) v = v > 0 ? 1.f : -1.f;
  auto st = TrainGBDT(&e, fs, [W](int i) { return W[i]; }, [Y](int i) { return Y[i]; }, loss.get(), c, usebase ? &base : nullptr, &want); CHECK_(st.ok(), "the reference training succeeds");
  CHECK_(same(got->forest(), want), "the forest is that of the library for the same data, configuration and seed");
  if (P("twice", 0)) { std::unique_ptr<ForestPy> again; thrown([&] { again.reset(new ForestPy(TrainPy(&d, yl, wl, js, usebase ? &bp : nullptr, seed, threads))); }); CHECK_(again && same(again->forest(), got->forest()), "the same call gives the same forest"); }
  __sym_reach("train"); if (want.tree_size() > 1 && want.tree(want.tree_size() - 1).has_split()) __sym_reach("split");
}
ENTRY c22_refused() {   // what cannot be trained is raised, the process goes on
  int n = 3; std::vector<float> y = {1, 0, 1}, w = {1, 2, 1}, yl = y, wl; DataStorePy d, empty; fill(&d, nullptr, y, w); Config c = config(); int fault = CH("fault", 0, 17), sub = 0, threads = 1; DataStorePy* dp = &d; std::string js; Forest base; bool usebase = false;
  static const char* bad[] = {"absent", "x", "s"};
  if (fault == 0) { threads = (int)__sym_bits("threads", 32); ASSUME_(threads <= 0); } else if (fault == 1) js = "{no json"; else if (fault == 2) dp = nullptr; else if (fault == 3) dp = &empty;
  else if (fault == 4) { sub = CH("len", 1, 5); ASSUME_(sub != n); yl.resize(sub); } else if (fault == 5) { sub = CH("len", 1, 5); ASSUME_(sub != n); wl.resize(sub, 1.f); }
  else if (fault == 6) c.set_weight_column(bad[CH("col", 0, 2)]); else if (fault == 7) yl.clear(); else if (fault == 8) { yl.clear(); c.set_target_column(bad[CH("col", 0, 2)]); }
  else if (fault == 9) { static const char* ls[] = {"", "nope", "MSE"}; c.set_loss_func(ls[CH("loss", 0, 2)]); } else if (fault == 10) c.clear_float_feature(); else if (fault == 11) { int f = CH("feature", 0, 2); if (f == 0) c.add_float_feature("absent"); else if (f == 1) c.add_categorical_feature("absent"); else c.add_float_feature(""); }
  else if (fault == 12) { int f = CH("what", 0, 5); if (f == 0) c.set_num_trees(0); else if (f == 1) c.set_num_leaves(-1); else if (f == 2) c.set_example_sampling_rate(0); else if (f == 3) c.set_feature_sampling_rate(1.5f); else if (f == 4) c.set_num_trees(-3); else c.set_num_leaves(0); }
  else if (fault == 13) c.set_group_column(bad[CH("col", 0, 1)]); else if (fault == 14) { usebase = true; auto* t = base.add_tree(); t->mutable_split()->set_feature("absent"); t->mutable_split()->mutable_float_split(); t->mutable_left_child(); t->mutable_right_child(); }
  else if (fault == 17) { usebase = true; auto* t = base.add_tree(); int how = CH("how", 0, 2); t->mutable_split()->set_feature(how == 0 ? "s" : how == 1 ? "y" : "x"); if (how == 2) t->mutable_split()->mutable_cat_split()->add_category("a"); else t->mutable_split()->mutable_float_split(); t->mutable_left_child(); t->mutable_right_child(); }
  else if (fault == 15) { c.set_loss_func(CH("loss", 0, 1) ? "logloss" : "huberized_hinge"); }   // targets are not +1/-1
  else { c.set_loss_func(CH("loss", 0, 1) ? "pairwise_logloss" : "lambdamart"); c.set_pair_sampling_rate(CH("rate", 0, 1) ? -1.f : INFINITY); c.set_lambdamart_dcg_base(2); c.set_group_column("g"); if (CH("nogroup", 0, 1)) c.set_group_column("absent"); }
  if (js.empty()) js = json(c); ForestPy bp{Forest(base)}; int k = thrown([&] { TrainPy(dp, yl, wl, js, usebase ? &bp : nullptr, 1, threads); }); CHECK_(k != NONE, "what cannot be trained is raised");
  CHECK_(d.num_rows() == n && d.num_cols() == 5 && d.Exists("x") && d.Exists("g"), "a refused training leaves the data as it was"); __sym_observe_i("kind", k);
  int k2 = thrown([&] { TrainPy(&d, y, {}, json(config()), nullptr, 1, 1); }); CHECK_(k2 == NONE, "the next training succeeds"); __sym_reach("refused");
}
ENTRY c22_forest() {   // predict(), feature_importance(), as_json()
  DataStorePy d, empty; int n = 4; fill(&d, nullptr, std::vector<float>(n, 1.f), std::vector<float>(n, 1.f)); FLAGS_num_threads = P("threads", 1); static const float xs[] = {1, 2, 3, NAN}; static const char* ss[] = {"a", "b", "a", "c"};
  Forest f; int kt = CH("trees", 0, 2); bool absent = false; for (int t = 0; t < kt; ++t) { auto* r = f.add_tree(); r->set_score(__sym_num("score", -8, 8, 4)); int k = CH("split", 0, t ? 3 : 6); if (!k) continue; auto* sp = r->mutable_split(); sp->set_gain(1 + t); if (k == 1) { sp->set_feature("x"); sp->mutable_float_split()->set_threshold(__sym_num("thr", -1, 7, 2)); sp->mutable_float_split()->set_missing_to_right_child(CH("mr", 0, 1)); } else if (k == 2) { sp->set_feature("s"); sp->mutable_cat_split()->add_category("b"); } else if (k == 4) { sp->set_feature("x"); sp->mutable_cat_split()->add_category("b"); absent = true; } else { sp->set_feature(k == 3 ? "absent" : k == 5 ? "s" : "y"); sp->mutable_float_split(); absent = true; } r->mutable_left_child()->set_score(__sym_num("left", -8, 8, 4)); r->mutable_right_child()->set_score(-0.5f); }
  ForestPy p{Forest(f)}; std::vector<double> v; int who = CH("store", 0, 2); int k = thrown([&] { v = p.Predict(who == 0 ? nullptr : who == 1 ? &empty : &d); });
  if (who < 2) { CHECK_(k != NONE, "predicting without data is an error"); CHECK_(thrown([&] { p.PredictAndOutput(who ? &empty : nullptr, {1}, "out"); }) != NONE, "predicting without data is an error"); __sym_reach("nodata"); return; }
  CHECK_((k == NONE) == !absent, "a forest is evaluated exactly when the data has its features"); auto im = p.FeatureImportance(); auto want = ComputeFeatureImportance(f); CHECK_(im == want, "the importance is that of the library");
  if (absent) { CHECK_(thrown([&] { p.PredictAndOutput(&d, {1}, "out"); }) != NONE, "an absent feature is an error"); __sym_reach("absent"); return; }
  CHECK_((int)v.size() == n, "one prediction per row"); for (int i = 0; i < n; ++i) { double e = 0; for (auto& t : f.tree()) e += m_tree(t, Row{xs[i], ss[i]}); CHECK_(near_(v[i], e, 1e-6), "a prediction is the sum of the leaves the row reaches"); }
  std::string js = p.ToJson(); std::unique_ptr<ForestPy> q; CHECK_(thrown([&] { q.reset(new ForestPy(js)); }) == NONE && same(q->forest(), f), "a forest survives its text form"); std::unique_ptr<ForestPy> z; CHECK_(thrown([&] { z.reset(new ForestPy(std::string("{no json"))); }) != NONE, "an invalid text is an error"); 
  CHECK_(d.num_cols() == 5 && d.num_rows() == n, "predicting leaves the data as it was"); __sym_reach("predicted");
}
ENTRY c22_alive() {   // a column of a data store that is gone
  static pybind11::module m; InitDataStorePy(m); int which = CH("kind", 0, 2), n = CH("n", 1, 3); std::vector<float> v; std::vector<std::string> s; for (int i = 0; i < n; ++i) { v.push_back((float)__sym_num("v", -8, 8, 2)); s.push_back("a text of more than sixteen characters " + std::to_string(i)); }
  DataStorePy* d = new DataStorePy; d->AddStringColumn("s", s); d->AddBucketizedFloatColumn("b", v); d->AddRawFloatColumn("r", v); int i = CH("i", 0, n - 1);
  auto S = pybind11::getter<StringColumnPy, DataStorePy>::of("get_string_col"); auto B = pybind11::getter<BucketizedFloatColumnPy, DataStorePy>::of("get_bucketized_float_col"); auto R = pybind11::getter<RawFloatColumnPy, DataStorePy>::of("get_raw_float_col");
  if (which == 0 && S.fn) { auto c = (d->*S.fn)("s"); if (!S.keep) delete d; CHECK_(c.size() == n && c.get(i) == s[i], "a column outlives the last use of its data store"); __sym_reach("alive"); if (S.keep) delete d; }
  else if (which == 1 && B.fn) { auto c = (d->*B.fn)("b"); if (!B.keep) delete d; CHECK_(c.size() == n && c.get(i) == v[i], "a column outlives the last use of its data store"); if (B.keep) delete d; }
  else if (which == 2 && R.fn) { auto c = (d->*R.fn)("r"); if (!R.keep) delete d; CHECK_(c.size() == n && c.get(i) == v[i], "a column outlives the last use of its data store"); if (R.keep) delete d; }
  else { delete d; __sym_reach("alive"); }
}
