// The command line: train and test.
#include <fstream>
#include <list>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include "h.h"
#include "model.h"
#include "jsonstub.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/subsampling.h"
DECLARE_string(config_file); DECLARE_string(mode); DECLARE_string(tsvs); DECLARE_string(flatfiles_dirs); DECLARE_string(testing_model_file); DECLARE_string(base_model_file); DECLARE_string(output_dir); DECLARE_string(output_model_name); DECLARE_int32(seed); DECLARE_int32(num_threads);
int gbdt_main(int argc, char** argv);
using namespace gbdt;
#include "same.h"
static void put(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; o.close(); }
static bool get(const std::string& f, std::string* s) { std::ifstream i(f); if (!i.is_open()) return false; std::stringstream b; b << i.rdbuf(); *s = b.str(); return true; }
static std::string json(const google::protobuf::Message& m) { std::string s; CHECK_(JsonUtils::ToJson(m, &s).ok(), "a message has a text form"); return s; }
static int run(const char* mode) { static char name[] = "gbdt"; static char* argv[] = {name, nullptr}; FLAGS_mode = mode; return gbdt_main(1, argv); }
static bool number(const std::string& t, size_t* p, double* v) {   // a number as the (stub of the) formatter writes it
  if (*p < t.size() && t[*p] == 1) { if (*p + 9 > t.size()) return false; memcpy(v, t.data() + *p + 1, 8); *p += 9; return true; }
  char* e; *v = strtod(t.c_str() + *p, &e); if (e == t.c_str() + *p) return false; *p = e - t.c_str(); return true;
}
struct Data { std::vector<float> x, y, w; std::vector<std::string> s; std::string text[2], col[4]; };
static Data data(int n, int cut) {
  static const char* xt[] = {"1", "2.5", "-3", "_"}; static const float xv[] = {1, 2.5f, -3, NAN}; static const char* st[] = {"a", "b", "a", "c"}; static const char* yt[] = {"1", "-1", "0.5"}; static const float yv[] = {1, -1, 0.5f};
  Data d; d.text[0] = d.text[1] = "x\ty\tw\ts\tg\n";
  for (int i = 0; i < n; ++i) { int k = i < P("xs", 0) ? CH("x", 0, 3) : i, j = i < P("ys", 2) ? CH("y", 0, 2) : i % 3; d.x.push_back(xv[k]); d.y.push_back(yv[j]); d.w.push_back(i ? 1.f : 2.f); d.s.push_back(st[i]); d.col[0] += std::string(xt[k]) + "\n"; d.col[1] += std::string(yt[j]) + "\n"; d.col[2] += i ? "1\n" : "2\n"; d.col[3] += std::string(st[i]) + "\n"; d.text[i >= cut] += std::string(xt[k]) + "\t" + yt[j] + (i ? "\t1\t" : "\t2\t") + st[i] + "\tq\n"; }
  if (cut < n) d.text[1] = d.text[1].substr(10);   // only the first file has a header
  return d;
}
static void store(const Data& d, int kind, int n) {   // one file, two files, or a directory of columns
  if (kind == 2) { mkdir("d1", 0755); mkdir("d2", 0755); put("d1/x", "# dtype=bucketized_floats\n" + d.col[0]); put("d2/y", "# dtype=raw_floats\n" + d.col[1]); put("d2/w", "# dtype=raw_floats\n" + d.col[2]); put("d1/s", "# dtype=strings\n" + d.col[3]); FLAGS_flatfiles_dirs = "d1,d2"; FLAGS_tsvs = ""; return; }
  FLAGS_flatfiles_dirs = ""; put("a.tsv", d.text[0]); FLAGS_tsvs = "a.tsv"; if (kind) { put("b.tsv", d.text[1]); FLAGS_tsvs = "a.tsv,b.tsv"; }
}
static Config config() { Config c; c.set_num_trees(P("trees", 1)); c.set_num_leaves(2); c.set_shrinkage(0.5f); c.set_example_sampling_rate(P("rate", 0) ? 0.5f : 1.f); c.set_feature_sampling_rate(1); c.set_loss_func("mse"); c.add_float_feature("x"); c.set_target_column("y"); c.add_additional_float_column("y"); c.add_additional_float_column("w"); return c; }
static void fill(DataStore* e, const Data& d) { e->Add(Column::CreateBucketizedFloatColumn("x", d.x)); e->Add(Column::CreateStringColumn("s", d.s)); e->Add(Column::CreateRawFloatColumn("y", std::vector<float>(d.y))); e->Add(Column::CreateRawFloatColumn("w", std::vector<float>(d.w))); }
static Forest stump(bool sym = false) { Forest f; f.add_tree()->set_score(sym ? (float)__sym_num("base score", -2, 2, 4) : 0.25f); auto* t = f.add_tree(); t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(1.5f); t->mutable_left_child()->set_score(1); t->mutable_right_child()->set_score(-1); return f; }
ENTRY c25_train() {
  int n = P("n", 3), fix = P("fix", 0), kind = CH("files", 0, fix ? 0 : 2); Data d = data(n, kind == 1 ? 1 : n); store(d, kind, n);
  Config c = config(); bool wt = CH("weights", 0, !fix), bin = CH("binarize", 0, !fix), cat = CH("cat", 0, !fix), base = CH("base", 0, 1); if (wt) c.set_weight_column("w"); c.set_binarize_target(bin); if (cat) { c.clear_float_feature(); c.add_categorical_feature("s"); if (base) c.add_float_feature("x"); }
  if (base && cat) for (int i = 0; i < n; ++i) ASSUME_(d.y[i] == (i == 1 ? -1.f : 1.f));   // no two features that split alike
  if (P("sym", 1)) c.set_shrinkage((float)__sym_num("shrinkage", 0.125, 1, 8));
  put("cfg.json", json(c)); FLAGS_config_file = "cfg.json"; FLAGS_output_dir = "out"; FLAGS_num_threads = CH("threads", 1, fix ? 1 : 2); int seed = P("seed", 5) < 0 ? (int)__sym_bits("seed", 32) : P("seed", 5); FLAGS_seed = seed; bool named = CH("named", 0, !fix); FLAGS_output_model_name = named ? "m" : "forest"; Forest b = stump(base && !cat && P("sym", 1)); if (base) { put("base.json", json(b)); FLAGS_base_model_file = "base.json"; }
  CHECK_(run("train") == 0, "the training succeeds");
  Forest want; DataStore e; fill(&e, d); Subsampling::Reseed(seed); auto loss = LossFuncFactory::CreateLossFunc(c); std::unordered_set<std::string> fs; if (!cat || base) fs.insert("x"); if (cat) fs.insert("s");
  auto st = TrainGBDT(&e, fs, [&](int i) { return wt ? d.w[i] : 1.f; }, [&](int i) { return bin ? (d.y[i] > 0 ? 1.f : -1.f) : d.y[i]; }, loss.get(), c, base ? &b : nullptr, &want); CHECK_(st.ok(), "the reference training succeeds");
  std::string text, im; Forest got; CHECK_(get(std::string("out/") + (named ? "m" : "forest") + ".json", &text) && JsonUtils::FromJson(text, &got).ok(), "the model is written under its name"); CHECK_(same(got, want), "the model is that of the library for the same data, configuration, base model and seed");
  CHECK_(get(std::string("out/") + (named ? "m" : "forest") + ".fimps", &im), "the importance is written beside the model"); auto fi = ComputeFeatureImportance(want); size_t p = 0;
  for (size_t i = 0; i < fi.size(); ++i) { CHECK_(im.compare(p, fi[i].first.size() + 1, fi[i].first + "\t") == 0, "one line per feature"); p += fi[i].first.size() + 1; double v = -1; CHECK_(number(im, &p, &v) && near_(v, fi[i].second, 1e-4), "with its importance"); if (i + 1 < fi.size()) { CHECK_(p < im.size() && im[p] == '\n', "on a line of its own"); ++p; } }
  CHECK_(p == im.size(), "nothing else is written"); __sym_reach("train"); if (!fi.empty()) __sym_reach("importance");
}
ENTRY c25_test() {
  int n = P("n", 3), kind = CH("files", 0, 2); Data d = data(n, kind == 1 ? 1 : n); store(d, kind, n);
  Config c = config(); c.add_categorical_feature("s"); int iv = CH("interval", -1, 4); c.set_eval_interval(iv); put("cfg.json", json(c)); FLAGS_config_file = "cfg.json"; FLAGS_output_dir = "out"; FLAGS_num_threads = CH("threads", 1, 2);
  int kt = CH("trees", kind == 2 ? 2 : 1, P("tmax", 3));   /* flat files are only read for the features of the model */ Forest f; for (int i = 0; i < kt; ++i) { auto* t = f.add_tree(); if (i == 1) { t->mutable_split()->set_feature("x"); t->mutable_split()->mutable_float_split()->set_threshold(__sym_num("thr", -8, 8, 2)); t->mutable_split()->mutable_float_split()->set_missing_to_right_child(CH("mr", 0, 1)); t->mutable_left_child()->set_score(__sym_num("left", -8, 8, 4)); t->mutable_right_child()->set_score(-0.5f); } else if (i == 2) { t->mutable_split()->set_feature("s"); t->mutable_split()->mutable_cat_split()->add_category("b"); t->mutable_left_child()->set_score(2); t->mutable_right_child()->set_score(__sym_num("right", -8, 8, 4)); } else t->set_score(__sym_num("score", -8, 8, 4)); }
  put("model.json", json(f)); FLAGS_testing_model_file = "model.json"; CHECK_(run("test") == 0, "the test succeeds");
  std::vector<double> sc(n, 0); bool any = false;
  for (int k = 0; k <= kt + 1; ++k) {
    if (k > 0 && k <= kt) for (int i = 0; i < n; ++i) sc[i] += m_tree(f.tree(k - 1), Row{d.x[i], d.s[i]});
    bool want = k == kt || (iv > 0 && k > 0 && k < kt && (kt - k) % iv == 0); std::string t; bool is = get("out/forest." + std::to_string(k) + ".score", &t); CHECK_(is == want, "scores are written exactly at the test points"); if (!is) continue; any = true; size_t p = 0;
    for (int i = 0; i < n; ++i) { double v = 0; CHECK_(number(t, &p, &v) && near_(v, sc[i], 2e-5), "a line is the score of its row after that many trees"); if (i + 1 < n) CHECK_(p < t.size(), "one line per row"); if (p < t.size()) { CHECK_(t[p] == '\n', "one line per row"); ++p; } }
    CHECK_(p == t.size(), "no other lines");
  }
  CHECK_(any, "the whole forest is tested"); __sym_reach("test"); if (iv > 0 && iv < kt) __sym_reach("points");
}
ENTRY c25_fails() {   // what cannot be done ends the program instead of passing for done
  Data d = data(2, 2); ASSUME_(d.y[0] != d.y[1]); put("a.tsv", d.text[0]); Config c = config(); FLAGS_tsvs = "a.tsv"; FLAGS_config_file = "cfg.json"; FLAGS_output_dir = "out"; FLAGS_num_threads = 1; FLAGS_output_model_name = "m"; Forest f = stump(); std::string js, model = json(f); const char* mode = "train"; static const char* names[] = {"absent", "x", "s"};
  bool test = CH("test", 0, 1); int k = CH("fault", 0, test ? 17 : 24); c.set_eval_interval(0);
  switch (k) {
    case 0: FLAGS_config_file = ""; break; case 1: FLAGS_config_file = "absent.json"; break; case 2: js = "{no json"; break; case 3: FLAGS_tsvs = ""; break; case 4: { static const char* l[] = {"a.tsv,absent.tsv", "absent.tsv", "a.tsv,out", "out,a.tsv"}; mkdir("out", 0755); FLAGS_tsvs = l[CH("list", 0, 3)]; break; } case 5: put("a.tsv", d.text[0] + "1\t2\n"); break;
    case 6: c.add_float_feature("absent"); break; case 7: c.add_categorical_feature("absent"); break; case 8: mode = CH("mode", 0, 1) ? "" : "Train"; break; case 9: FLAGS_output_dir = ""; break;
    case 10: if (test) { mode = "testing"; } else c.set_loss_func("nope"); break;
    case 11: if (test) FLAGS_testing_model_file = ""; else c.set_target_column(CH("none", 0, 1) ? "" : "absent"); break; case 12: if (test) FLAGS_testing_model_file = "absent.json"; else c.set_weight_column("absent"); break; case 13: if (test) model = "{no json"; else c.set_group_column("absent"); break;
    case 14: if (test) { Forest g = f; g.mutable_tree(1)->mutable_split()->set_feature("absent"); model = json(g); } else FLAGS_base_model_file = "absent.json"; break;
    case 15: if (test) { mkdir("out", 0755); ASSUME_(symlink("/dev/full", "out/forest.2.score") == 0); } else { put("base.json", "{no json"); FLAGS_base_model_file = "base.json"; } break;
    case 16: case 23: if (k == (test ? 16 : 23)) { FLAGS_tsvs = ""; FLAGS_flatfiles_dirs = "nodir"; } else c.set_num_trees(0); break; case 17: case 24: if (k == (test ? 17 : 24)) { Forest g = f; auto* sp = g.mutable_tree(1)->mutable_split(); if (CH("how", 0, 1)) { sp->set_feature("x"); sp->clear_float_split(); sp->mutable_cat_split()->add_category("a"); } else { sp->set_feature("s"); sp->mutable_float_split()->set_threshold(1); } if (test) model = json(g); else { put("base.json", json(g)); FLAGS_base_model_file = "base.json"; } } else c.set_example_sampling_rate(0); break; case 18: mkdir("out", 0755); ASSUME_(symlink("/dev/full", "out/m.json") == 0); break; case 19: mkdir("out", 0755); ASSUME_(symlink("/dev/full", "out/m.fimps") == 0); break;
    case 20: { Forest g = f; g.mutable_tree(1)->mutable_split()->set_feature("absent"); put("base.json", json(g)); FLAGS_base_model_file = "base.json"; } break; case 21: c.set_loss_func("logloss"); d = Data(); break; case 22: c.clear_float_feature(); c.set_target_column("x"); c.add_float_feature("x"); break;
  }
  if (k == 21) put("a.tsv", "x\ty\tw\ts\tg\n1\t0.5\t1\ta\tq\n");
  if (k == 22) { }   // the target is not a raw column
  put("cfg.json", js.empty() ? json(c) : js); put("model.json", model); if (test) { if (FLAGS_testing_model_file.empty() && k != 11) FLAGS_testing_model_file = "model.json"; if (!strcmp(mode, "train")) mode = "test"; }
  __sym_reach(test ? "test fault" : "train fault"); __sym_option("allow_fatal", 1); run(mode); __sym_option("allow_fatal", 0); CHECK_(false, test ? "a test that cannot be done ends with an error" : "a training that cannot be done ends with an error");
}
