// Loading of tab-separated files.
#include <fstream>
#include <sys/stat.h>
#include "h.h"
#include <gflags/gflags.h>
#include "src/data_store/column.h"
#include "src/data_store/tsv_data_store.h"
#include "src/proto/config.pb.h"
DECLARE_int32(num_threads);
using namespace gbdt;
typedef std::vector<std::string> Row;
static void put(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; o.close(); }
// An independent reading of the format: lines end in \n, trailing \r are not part of a line, empty lines do not count.
static std::vector<Row> lines(const std::string& s, bool header) {
  std::vector<Row> r; size_t p = 0; bool first = true;
  while (p <= s.size()) {
    size_t e = p; while (e < s.size() && s[e] != '\n') ++e;
    size_t q = e; while (q > p && s[q - 1] == '\r') --q;
    bool skip = (first && header) || q == p; first = false;
    if (!skip) { Row row; std::string cell; for (size_t i = p; i < q; ++i) { if (s[i] == '\t') { row.push_back(cell); cell.clear(); } else cell.push_back(s[i]); } row.push_back(cell); r.push_back(row); }
    p = e + 1;
  }
  return r;
}
static void empty_and_bad(DataStore& d) {
  CHECK_(!d.status().ok(), "a load that cannot succeed reports an error");
  CHECK_(d.num_cols() == 0 && d.num_rows() == 0, "a failed load leaves no columns behind");
  CHECK_(d.GetColumn("a") == nullptr && d.GetColumn("b") == nullptr, "a failed load leaves no column to be read");
}
ENTRY c03_text() {   // any bytes, string columns, one or two files
  FLAGS_num_threads = CH("threads", 1, 2);
  int n = CH("len", 0, P("len", 4)); std::string body; for (int i = 0; i < n; ++i) body.push_back((char)I("c", -128, 127));
  int cut = CH("cut", -1, n);   // start of the second file, -1: none
  std::string f1 = "a\tb\n" + (cut < 0 ? body : body.substr(0, cut)), f2 = cut < 0 ? "" : body.substr(cut);
  put("t1.tsv", f1); std::vector<std::string> files = {"t1.tsv"};
  std::vector<Row> rows = lines(f1, true);
  if (cut >= 0 ) { put("t2.tsv", f2); files.push_back("t2.tsv"); auto m = lines(f2, false); rows.insert(rows.end(), m.begin(), m.end()); }
  Config c; bool swap = CH("swap", 0, 1); c.add_categorical_feature(swap ? "b" : "a"); c.add_categorical_feature(swap ? "a" : "b");
  bool ok = true; for (auto& r : rows) ok &= r.size() >= 2;
  TSVDataStore d(files, c);
  if (!ok) { empty_and_bad(d); __sym_reach("text_short"); return; }
  CHECK_(d.status().ok(), "a well-formed file loads");
  CHECK_(d.num_cols() == 2 && d.num_rows() == rows.size(), "one row per non-empty line, one column per requested column");
  auto* a = d.GetStringColumn("a"); auto* b = d.GetStringColumn("b");
  CHECK_(a && b && a->size() == rows.size() && b->size() == rows.size(), "both columns are there with all rows");
  for (size_t i = 0; i < rows.size(); ++i) {
    CHECK_(a->get_row_string(i) == rows[i][0], "a row of the first column holds the text of its cell");
    CHECK_(b->get_row_string(i) == rows[i][1], "a row of the second column holds the text of its cell");
  }
  __sym_reach("text_ok");
}
struct Tok { const char* t; int ok; float v; };   // ok: 1 number, 2 missing, 0 invalid
static const Tok kTok[] = {{"1", 1, 1}, {"-2.5", 1, -2.5f}, {"nan", 2, 0}, {"?", 2, 0}, {"x", 0, 0}, {"", 0, 0}, {"NAN", 2, 0}, {"NaN", 2, 0}, {"_", 2, 0}, {"-", 2, 0}, {"*", 2, 0}, {"1x", 0, 0}, {"1e3", 1, 1000}, {"0x10", 1, 16}, {"1 ", 0, 0}, {"--", 0, 0}, {"+3", 1, 3}, {"na", 0, 0}, {"-inf", 1, -INFINITY}, {"1e39", 1, INFINITY}};
ENTRY c03_cells() {  // numeric cells of both float kinds next to a string column, rows spread over two files
  FLAGS_num_threads = 2;
  int nt = P("tokens", 20), n = CH("rows", 1, P("rows", 2)), cut = CH("cut", 0, n); bool crlf = CH("crlf", 0, 1), eol = CH("eol", 0, 1), blank = CH("blank", 0, 1);
  std::vector<int> x(n), y(n); std::vector<std::string> z(n); bool bad = false;
  std::string f1 = std::string("x\ts\ty") + (crlf ? "\r\n" : "\n"), f2; std::string nl = crlf ? "\r\n" : "\n";
  for (int i = 0; i < n; ++i) {
    x[i] = CH("x", 0, i == 0 ? nt - 1 : 4); y[i] = CH("y", 0, i == 0 ? (n == 1 ? nt - 1 : 6) : 3); z[i] = std::string(1, (char)I("s", 33, 126)); bad |= !kTok[x[i]].ok || !kTok[y[i]].ok;
    std::string l = std::string(kTok[x[i]].t) + "\t" + z[i] + "\t" + kTok[y[i]].t;
    std::string& f = i < cut ? f1 : f2;
    f += l; if (i + 1 < n || eol) f += nl; if (blank) f += nl;
  }
  put("t1.tsv", f1); put("t2.tsv", f2);
  Config c; c.add_float_feature("x"); c.set_target_column("y"); c.set_group_column("s");
  TSVDataStore d({"t1.tsv", "t2.tsv"}, c);
  if (bad) { empty_and_bad(d); __sym_reach("cells_bad"); return; }
  CHECK_(d.status().ok(), "numbers and the missing markers are accepted");
  auto* bx = d.GetBucketizedFloatColumn("x"); auto* ry = d.GetRawFloatColumn("y"); auto* s = d.GetStringColumn("s");
  CHECK_(bx && ry && s && (int)bx->size() == n && (int)ry->size() == n && (int)s->size() == n && (int)d.num_rows() == n && d.num_cols() == 3, "every requested column has its kind and all rows");
  for (int i = 0; i < n; ++i) {
    const Tok &tx = kTok[x[i]], &ty = kTok[y[i]];
    if (tx.ok == 2) CHECK_(bx->col().missing(i), "a missing marker is a missing value"); else CHECK_(!bx->col().missing(i) && bx->get_row_max(i) == tx.v && bx->get_row_min(i) == tx.v, "a feature cell holds its number");
    if (ty.ok == 2) CHECK_(nanb((*ry)[i]), "a missing marker is NaN in a raw column"); else CHECK_((*ry)[i] == ty.v, "a raw cell holds its number");
    CHECK_(s->get_row_string(i) == z[i], "a string cell holds its text");
  }
  __sym_reach("cells_ok");
}
ENTRY c03_ragged() {   // lines with any number of cells, any selection of the columns
  FLAGS_num_threads = 1; int n = CH("rows", 1, P("rows", 2)), need = 0; Config c; bool fx = CH("fx", 0, 1), ss = CH("ss", 0, 1), ry = CH("ry", 0, 1), sz = CH("sz", 0, 1);
  if (sz) { c.add_additional_string_column("z"); need = 4; } if (ry) { c.add_additional_float_column("y"); need = std::max(need, 3); } if (ss) { c.add_categorical_feature("s"); need = std::max(need, 2); } if (fx) { c.add_float_feature("x"); need = std::max(need, 1); }
  std::string t = "x\ts\ty\tz\n"; static const char* cell[] = {"1", "ab", "-2", "q", "9"}; bool bad = false; int count = 0;
  for (int i = 0; i < n; ++i) { int k = CH("cells", 0, 5); for (int j = 0; j < k; ++j) { if (j) t += "\t"; t += cell[j]; } t += "\n"; if (k) { bad |= k < need; ++count; } }
  put("t1.tsv", t); TSVDataStore d({"t1.tsv"}, c);
  if (bad) { CHECK_(!d.status().ok(), "a line with too few cells makes the load fail"); CHECK_(d.num_cols() == 0, "a failed load leaves no columns behind"); __sym_reach("ragged_bad"); return; }
  CHECK_(d.status().ok() && d.num_cols() == (unsigned)(fx + ss + ry + sz), "lines with all needed cells load");
  if (fx) { auto* x = d.GetBucketizedFloatColumn("x"); CHECK_(x && (int)x->size() == count, "rows"); for (int i = 0; i < count; ++i) CHECK_(x->get_row_max(i) == 1, "feature"); }
  if (ss) { auto* x = d.GetStringColumn("s"); CHECK_(x && (int)x->size() == count, "rows"); for (int i = 0; i < count; ++i) CHECK_(x->get_row_string(i) == "ab", "text"); }
  if (ry) { auto* x = d.GetRawFloatColumn("y"); CHECK_(x && (int)x->size() == count, "rows"); for (int i = 0; i < count; ++i) CHECK_((*x)[i] == -2, "raw"); }
  if (sz) { auto* x = d.GetStringColumn("z"); CHECK_(x && (int)x->size() == count, "rows"); for (int i = 0; i < count; ++i) CHECK_(x->get_row_string(i) == "q", "text"); }
  __sym_reach("ragged_ok");
}
ENTRY c03_setup() {  // which columns are loaded, and how, follows the config and the header
  FLAGS_num_threads = 1;
  static const char* cols[] = {"a", "b", "c", "q"};   // q is not in the header
  int kind[5]; int which[5]; Config c; bool bad = false; int want[4] = {-1, -1, -1, -1};   // type per column
  for (int i = 0; i < P("n", 3); ++i) {
    int k = CH("slot", 0, 7), w = CH("col", 0, k ? 3 : 0); kind[i] = k; which[i] = w; if (!k) continue;
    int t = k == 1 ? 1 : k <= 4 ? 2 : 0;
    std::string n = cols[w];
    if (k == 1) c.add_float_feature(n); else if (k == 2) c.add_additional_float_column(n); else if (k == 3) { if (!c.target_column().empty()) return; c.set_target_column(n); } else if (k == 4) { if (!c.weight_column().empty()) return; c.set_weight_column(n); } else if (k == 5) c.add_categorical_feature(n); else if (k == 6) { if (!c.group_column().empty()) return; c.set_group_column(n); } else c.add_additional_string_column(n);
    if (w == 3) bad = true; else if (want[w] >= 0 && want[w] != t) bad = true; else want[w] = t;
  }
  int file = CH("file", 0, 5);   // 0 fine 1 first missing 2 second missing 3 none 4 first a directory 5 second a directory
  int ws = CH("ws", 0, 1);
  put("t1.tsv", ws ? "a \t b\tc\r\n1\t2\t3\n" : "a\tb\tc\n1\t2\t3\n"); put("t2.tsv", "4\t5\t6");
  std::vector<std::string> f; if (file != 3) { if (file >= 4) mkdir("dir", 0755); f.push_back(file == 1 ? "none.tsv" : file == 4 ? "dir" : "t1.tsv"); f.push_back(file == 2 ? "none.tsv" : file == 5 ? "dir" : "t2.tsv"); }
  TSVDataStore d(f, c);
  if (bad || file) { empty_and_bad(d); __sym_reach("setup_bad"); return; }
  CHECK_(d.status().ok(), "a config whose columns exist loads");
  unsigned m = 0;
  for (int w = 0; w < 3; ++w) {
    const Column* col = d.GetColumn(cols[w]);
    CHECK_((col != nullptr) == (want[w] >= 0), "exactly the listed columns are loaded");
    if (!col) continue; ++m;
    CHECK_((int)col->type() == (want[w] == 1 ? Column::kBucketizedFloatColumn : want[w] == 2 ? Column::kRawFloatColumn : Column::kStringColumn), "a column has the kind its listing asks for");
    CHECK_(col->name() == cols[w] && col->size() == 2, "name and rows");
    for (int i = 0; i < 2; ++i) { float v = 1 + w + 3 * i;
      if (want[w] == 1) CHECK_(d.GetBucketizedFloatColumn(cols[w])->get_row_max(i) == v, "feature value from the right column");
      else if (want[w] == 2) CHECK_((*d.GetRawFloatColumn(cols[w]))[i] == v, "raw value from the right column");
      else CHECK_(d.GetStringColumn(cols[w])->get_row_string(i) == std::string(1, (char)('0' + (int)v)), "text from the right column"); }
  }
  CHECK_(d.num_cols() == m, "no other column");
  __sym_reach("setup_ok");
}
ENTRY c03_many() {   // many columns, long cells, three files, many rows
  int cols = P("cols", 12), n = P("n", 14), threads = CH("threads", 1, 3), rot = CH("rot", 0, 3), eol = CH("eol", 0, 1); FLAGS_num_threads = threads;
  std::vector<std::vector<std::string>> cell(n, std::vector<std::string>(cols)); std::vector<int> kind(cols); std::vector<std::string> name(cols); Config c; bool rev = CH("reverse", 0, 1); int loaded = 0;
  for (int j = 0; j < cols; ++j) { name[j] = "column " + std::to_string(j); kind[j] = (j + rot) % 4; }   // 3: not asked for
  for (int i = 0; i < n; ++i) for (int j = 0; j < cols; ++j) cell[i][j] = kind[j] == 0 || kind[j] == 3 ? "text of a cell, " + std::to_string(i * (j % 3) % 5) + std::string(i % 2 * 20, 'x') : (i + j) % 9 == 5 ? std::string("?") : std::to_string((i * 7 + j) % 10) + (kind[j] == 1 ? ".5" : "");
  int r = CH("row", 0, n - 1), k = (12 - rot) % cols; if (k + 4 < cols && CH("other", 0, 1)) k += 4; char ch = (char)I("c", -128, 127); ASSUME_(ch != '\t' && ch != '\n' && ch != '\r'); cell[r][k] += ch;
  int b = (r + 3) % n, kb = (13 - rot) % cols; static const char* tok[] = {"1e3", "-2.25", "nan", "x", "1x", ""}; int t = CH("token", 0, 5); cell[b][kb] = tok[t]; bool ok = t < 3;
  for (int w = 0; w < cols; ++w) { int j = rev ? cols - 1 - w : w; if (kind[j] == 0) { ++loaded; if (j % 2) c.add_categorical_feature(name[j]); else c.add_additional_string_column(name[j]); } else if (kind[j] == 1) { ++loaded; c.add_float_feature(name[j]); } else if (kind[j] == 2) { ++loaded; c.add_additional_float_column(name[j]); } }
  std::string f[3]; for (int j = 0; j < cols; ++j) f[0] += (j ? "\t" : "") + name[j]; f[0] += "\n"; int c1 = CH("cut", 0, 2) * (n / 2), c2 = c1 + (n - c1) / 2;
  for (int i = 0; i < n; ++i) { int w = i < c1 ? 0 : i < c2 ? 1 : 2; for (int j = 0; j < cols; ++j) f[w] += (j ? "\t" : "") + cell[i][j]; if (eol || (i + 1 != c1 && i + 1 != c2 && i + 1 != n)) f[w] += "\n"; if (i % 5 == 2) f[w] += "\n"; }
  put("t1.tsv", f[0]); put("t2.tsv", f[1]); put("t3.tsv", f[2]); TSVDataStore d({"t1.tsv", "t2.tsv", "t3.tsv"}, c);
  if (!ok) { empty_and_bad(d); __sym_reach("many_bad"); return; }
  CHECK_(d.status().ok() && (int)d.num_cols() == loaded && (int)d.num_rows() == n, "every asked column and every row is loaded");
  for (int j = 0; j < cols; ++j) { const Column* x = d.GetColumn(name[j]); CHECK_((x != nullptr) == (kind[j] != 3), "exactly the listed columns are loaded"); if (!x) continue; CHECK_((int)x->size() == n && x->name() == name[j], "rows and name");
    for (int i = 0; i < n; ++i) { float v = NAN; const std::string& s = cell[i][j]; bool num = kind[j] != 0 && s != "?" && s != "nan"; if (num) v = strtof(s.c_str(), nullptr);
      if (kind[j] == 0) CHECK_(d.GetStringColumn(name[j])->get_row_string(i) == s, "text of the cell");
      else if (kind[j] == 1) { auto* q = d.GetBucketizedFloatColumn(name[j]); if (num) CHECK_(!q->col().missing(i) && q->get_row_max(i) == v, "number of the cell"); else CHECK_(q->col().missing(i), "a missing marker"); }
      else { float g = (*d.GetRawFloatColumn(name[j]))[i]; if (num) CHECK_(g == v, "number of the cell"); else CHECK_(nanb(g), "a missing marker"); } } }
  __sym_reach("many");
}
ENTRY c03_files() {   // any number of files: all their rows, in order; a bad line in any of them fails the load
  int n = CH("files", 1, P("files", 7)); FLAGS_num_threads = CH("threads", 1, 2) * 2 - 1; int bad = CH("bad", -1, n - 1), empty = CH("empty", -1, n - 1), two = CH("two", 0, 1); std::vector<std::string> f; std::vector<std::string> want;
  for (int i = 0; i < n; ++i) { std::string t = i == 0 ? "x\ts\n" : ""; if (i != empty) for (int k = 0; k < 1 + two * (i % 2); ++k) { std::string s(1, (char)('a' + want.size() % 5)); if (want.size() == 1) s[0] = (char)I("s", 33, 126); want.push_back(s); t += std::to_string(i + 1) + "\t" + s + "\n"; } if (i == bad) t += "7z\tb\n"; std::string name = "t" + std::to_string(i) + ".tsv"; put(name, t); f.push_back(name); }
  Config c; c.add_float_feature("x"); c.add_categorical_feature("s"); TSVDataStore d(f, c);
  if (bad >= 0) { empty_and_bad(d); __sym_reach("files_bad"); return; }
  CHECK_(d.status().ok() && d.num_cols() == 2 && d.num_rows() == want.size(), "all files are loaded"); auto* x = d.GetBucketizedFloatColumn("x"); auto* s = d.GetStringColumn("s"); CHECK_(x && s && x->size() == want.size() && s->size() == want.size(), "all rows of all files");
  size_t r = 0; for (int i = 0; i < n; ++i) if (i != empty) for (int k = 0; k < 1 + two * (i % 2); ++k, ++r) { CHECK_(x->get_row_max(r) == i + 1, "rows are in the order of the files"); CHECK_(s->get_row_string(r) == want[r], "rows of all columns belong together"); }
  __sym_reach("files");
}
