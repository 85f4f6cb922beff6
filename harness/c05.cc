// Flat files: one column per file, loaded on first use.
#include <fstream>
#include <sys/stat.h>
#include <thread>
#include "h.h"
#include "src/data_store/column.h"
#include "src/data_store/flatfiles_data_store.h"
using namespace gbdt;
static void put(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; o.close(); }
static std::vector<std::string> rows_of(const std::string& s) {   // one row per line, '#' starts a comment line, no row after the last newline
  std::vector<std::string> r; size_t p = 0;
  while (p < s.size()) { size_t e = p; while (e < s.size() && s[e] != '\n') ++e; size_t q = e; while (q > p && s[q - 1] == '\r') --q;
    if (e == s.size()) ASSUME_(q > p);   // a last line of carriage returns only is not specified
    if (!(q > p && s[p] == '#')) r.push_back(s.substr(p, q - p)); p = e + 1; }
  return r;
}
ENTRY c05_text() {   // any bytes in a string column
  int n = CH("len", 0, P("len", 4)); std::string body; for (int i = 0; i < n; ++i) body.push_back((char)I("c", -128, 127));
  mkdir("d1", 0755); put("d1/s", "# dtype=strings\n" + body);
  std::vector<std::string> r = rows_of(body);
  FlatfilesDataStore d("d1"); auto* c = d.GetStringColumn("s");
  CHECK_(c && c->status().ok() && c->size() == r.size(), "one row per line");
  for (size_t i = 0; i < r.size(); ++i) CHECK_(c->get_row_string(i) == r[i], "a row holds the text of its line");
  CHECK_(d.GetStringColumn("s") == c && d.num_cols() == 1 && d.num_rows() == r.size(), "a second request gives the same column");
  CHECK_(d.GetRawFloatColumn("s") == nullptr, "a column is not given out under another kind");
  __sym_reach("text");
}
struct Tok { const char* t; int ok; float v; };
static const Tok kTok[] = {{"1", 1, 1}, {"-2.5", 1, -2.5f}, {"nan", 0, 0}, {"", 0, 0}, {"x", 0, 0}, {"1e3", 1, 1000}, {"?", 0, 0}, {"1x", 0, 0}, {"_", 0, 0}, {"+3", 1, 3}, {"0", 1, 0}, {"-inf", 1, -INFINITY}, {"1e39", 1, INFINITY}, {"0x10", 1, 16}, {"1 ", 0, 0}};
ENTRY c05_floats() {
  int n = CH("rows", 0, P("rows", 3)); bool raw = CH("raw", 0, 1), crlf = CH("crlf", 0, 1), eol = CH("eol", 0, 1), comment = CH("comment", 0, 1);
  std::string s = raw ? "# dtype=raw_floats\n" : "# dtype=bucketized_floats\n"; std::vector<int> t(n);
  if (comment) s += "# a comment\n";
  for (int i = 0; i < n; ++i) { t[i] = CH("tok", 0, i < 1 ? 14 : i < 2 ? 12 : 4); s += kTok[t[i]].t; if (i + 1 < n || eol || !*kTok[t[i]].t) s += crlf ? "\r\n" : "\n"; }
  mkdir("d1", 0755); put("d1/x", s);
  FlatfilesDataStore d(std::vector<std::string>{"none", "d1"});
  if (raw) { auto* c = d.GetRawFloatColumn("x"); CHECK_(c && (int)c->size() == n, "one row per line (raw)");
    for (int i = 0; i < n; ++i) if (kTok[t[i]].ok) CHECK_((*c)[i] == kTok[t[i]].v, "a raw row holds its number"); else CHECK_(nanb((*c)[i]), "a line that is no number is missing (raw)"); }
  else { auto* c = d.GetBucketizedFloatColumn("x"); CHECK_(c && (int)c->size() == n && c->status().ok(), "one row per line");
    for (int i = 0; i < n; ++i) if (kTok[t[i]].ok) CHECK_(c->get_row_max(i) == kTok[t[i]].v && c->get_row_min(i) == kTok[t[i]].v && !c->col().missing(i), "a row holds its number"); else CHECK_(c->col().missing(i), "a line that is no number is missing"); }
  __sym_reach("floats");
}
ENTRY c05_dirs() {   // search order, missing and malformed files, row counts
  static const char* kHead[] = {"# dtype=strings\n", "# dtype=raw_floats\n", "# dtype=bucketized_floats\n", "# dtype=other\n", "1\n", ""};
  mkdir("d1", 0755); mkdir("d2", 0755);
  struct F { int head, rows; } f[2][2];   // [dir][column]
  for (int w = 0; w < 2; ++w) for (int c = 0; c < 2; ++c) {
    f[w][c].head = CH("head", -1, c ? 3 : 6); f[w][c].rows = f[w][c].head < 0 || f[w][c].head == 6 ? 0 : CH("rows", 0, 2); if (f[w][c].head < 0) continue;
    if (f[w][c].head == 6) { mkdir((std::string(w ? "d2/" : "d1/") + "a").c_str(), 0755); continue; }   // a directory of that name
    std::string s = kHead[f[w][c].head]; for (int i = 0; i < f[w][c].rows; ++i) s += std::string(1, (char)('1' + 2 * w + c)) + "\n";
    put(std::string(w ? "d2/" : "d1/") + (c ? "b" : "a"), s);
  }
  FlatfilesDataStore d(std::vector<std::string>{"d1", "d2"});
  int have = -1; unsigned cols = 0;
  for (int k = 0; k < 2; ++k) {
    int w = f[0][k].head >= 0 ? 0 : 1; const F& x = f[w][k]; bool good = x.head >= 0 && x.head <= 2;
    const Column* c = d.GetColumn(k ? "b" : "a");
    bool fits = have < 0 || have == x.rows;
    CHECK_((c != nullptr) == (good && fits), "a column is given out exactly when its file is found, well formed and has the common number of rows");
    if (!c) { CHECK_(d.GetColumn(k ? "b" : "a") == nullptr, "asking again gives nothing again"); CHECK_(d.num_cols() == cols, "a failed load adds no column"); continue; }
    ++cols; have = x.rows; float v = 1 + 2 * w + k;
    CHECK_((int)c->type() == (x.head == 0 ? Column::kStringColumn : x.head == 1 ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn), "the first line decides the kind");
    CHECK_((int)c->size() == x.rows && d.num_cols() == cols && (int)d.num_rows() == x.rows, "rows");
    for (int i = 0; i < x.rows; ++i) CHECK_(x.head == 0 ? static_cast<const StringColumn*>(c)->get_row_string(i) == std::string(1, (char)('0' + (int)v)) : x.head == 1 ? (*static_cast<const RawFloatColumn*>(c))[i] == v : static_cast<const BucketizedFloatColumn*>(c)->get_row_max(i) == v, "the first directory that has the file is used");
  }
  __sym_reach("dirs");
}
ENTRY c05_three() {   // any order and kinds of three columns
  static const char* kHead[] = {"# dtype=strings\n", "# dtype=raw_floats\n", "# dtype=bucketized_floats\n"}; static const char* kName[] = {"a", "b", "c"};
  int rows[3]; mkdir("d1", 0755);
  for (int c = 0; c < 3; ++c) { rows[c] = CH("rows", 0, 2); std::string s = kHead[CH("head", 0, 2)]; for (int i = 0; i < rows[c]; ++i) s += std::string(1, (char)('1' + c)) + "\n"; put(std::string("d1/") + kName[c], s); }
  FlatfilesDataStore d("d1"); int have = -1, cols = 0, first = CH("first", 0, 2), back = CH("back", 0, 1);
  for (int k = 0; k < 3; ++k) { int c = (first + (back ? 3 - k : k)) % 3; const Column* x = d.GetColumn(kName[c]); bool fits = have < 0 || have == rows[c];
    CHECK_((x != nullptr) == fits, "a column is given out exactly when it has as many rows as the columns before"); if (x) { have = rows[c]; ++cols; CHECK_((int)x->size() == have && x->name() == kName[c], "its own rows and name"); }
    CHECK_((int)d.num_cols() == cols && (int)d.num_rows() == have, "counts"); }
  __sym_reach("three");
}
ENTRY c05_threads() {   // concurrent first uses, all schedules within the preemption bound
  mkdir("d1", 0755); put("d1/a", "# dtype=strings\nx\n"); put("d1/b", "# dtype=raw_floats\n2\n");
  bool same = CH("same", 0, 1), ra = CH("raw", 0, 1);
  FlatfilesDataStore d("d1");
  const Column *c1 = nullptr, *c2 = nullptr, *c3 = nullptr;
  __sym_option("race", 1); __sym_option("sched", 1); __sym_option("preempt", P("preempt", 2));
  { std::thread t([&] { c1 = ra ? d.GetColumn("a") : (const Column*)d.GetStringColumn("a"); if (c1) { const std::string& s = static_cast<const StringColumn*>(c1)->get_row_string(0); CHECK_(s == "x", "the column is complete when it is handed out"); } });
    c2 = d.GetColumn(same ? "a" : "b"); if (c2) CHECK_(c2->size() == 1, "the other column is complete when it is handed out");
    c3 = d.GetColumn("a");
    t.join(); }
  __sym_option("sched", 0);
  CHECK_(c1 && c2 && c3, "every thread gets its column");
  CHECK_(c1 == c3 && (!same || c2 == c1), "all threads get one and the same column");
  CHECK_(d.GetColumn("a") == c1 && d.num_cols() == (same ? 1u : 2u), "the column is loaded once");
  CHECK_(static_cast<const StringColumn*>(c1)->get_row_string(0) == "x", "a handed out column stays alive");
  __sym_reach("threads");
}
ENTRY c05_many() {   // longer files: comments and empty lines anywhere, one line with any characters
  int n = P("n", 20), kind = CH("kind", 0, 2), at = CH("at", 0, n - 1); bool crlf = CH("crlf", 0, 1), eol = CH("eol", 0, 1); static const char* kHead[] = {"# dtype=strings", "# dtype=raw_floats", "# dtype=bucketized_floats"}; std::string nl = crlf ? "\r\n" : "\n", s = kHead[kind] + nl; std::vector<std::string> line;
  for (int i = 0; i < n; ++i) { std::string l = kind == 0 ? (i % 6 == 3 ? "" : "the text of line " + std::to_string(i % 4)) : i % 7 == 4 ? std::string("") : i % 7 == 5 ? std::string("no number") : std::to_string(i % 5) + ".25";
    if (i == at) { if (kind == 0) { char a = (char)I("a", -128, 127), b = (char)I("b", -128, 127); ASSUME_(a != '\n' && b != '\n' && a != '\r' && b != '\r' && a != '#'); l = std::string(1, a) + " in a line" + b; } else l = kTok[CH("tok", 0, 14)].t; }
    if (i == n - 1 && !eol && l.empty()) l = kind ? "?" : "end"; line.push_back(l); s += l; if (i + 1 < n || eol) s += nl; if (i % 8 == 2) s += "# a comment" + nl; if (i == 9) s += "#" + nl; }
  mkdir("d1", 0755); put("d1/f", s); FlatfilesDataStore d("d1"); const Column* c = d.GetColumn("f"); CHECK_(c && (int)c->size() == n && (int)c->type() == (kind == 0 ? Column::kStringColumn : kind == 1 ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn), "one row per line that is no comment");
  for (int i = 0; i < n; ++i) { const std::string& l = line[i]; if (kind == 0) { CHECK_(static_cast<const StringColumn*>(c)->get_row_string(i) == l, "a row holds the text of its line"); continue; }
    bool num = false; float v = 0; for (auto& k : kTok) if (l == k.t && k.ok) { num = true; v = k.v; } if (l.size() == 4 && l[1] == '.' && l[2] == '2') { num = true; v = l[0] - '0' + 0.25f; }
    if (kind == 1) { float g = (*static_cast<const RawFloatColumn*>(c))[i]; if (num) CHECK_(g == v, "a raw row holds its number"); else CHECK_(nanb(g), "a line that is no number is missing"); }
    else { auto* q = static_cast<const BucketizedFloatColumn*>(c); if (num) CHECK_(!q->col().missing(i) && q->get_row_max(i) == v && q->get_row_min(i) == v, "a row holds its number"); else CHECK_(q->col().missing(i), "a line that is no number is missing"); } }
  __sym_reach(kind ? "many numbers" : "many texts");
}
ENTRY c05_names() {   // the file of a column is the one of exactly its name
  static const char* kTail[] = {" ", ".", "-", "\t", "#", "A", "1", "\xc3\xa9", "_", "a"}; std::string base = "col"; int where = CH("where", 0, 2), t = CH("tail", 0, 9); bool lng = CH("long", 0, 1);
  std::string other = where == 0 ? base + kTail[t] : where == 1 ? kTail[t] + base : "co" + std::string(kTail[t]) + "l"; if (lng) { base += std::string(120, 'n'); other += std::string(120, 'n'); if (base == other) return; }
  bool hasb = CH("hasb", 0, 1), haso = CH("haso", 0, 1), first = CH("first", 0, 1); mkdir("d1", 0755);
  if (hasb) put("d1/" + base, "# dtype=strings\nbase\n"); if (haso) put("d1/" + other, "# dtype=strings\nother\n");
  FlatfilesDataStore d("d1");
  for (int k = 0; k < 2; ++k) { bool b = (k == 0) == first; const Column* c = d.GetColumn(b ? base : other); CHECK_((c != nullptr) == (b ? hasb : haso), "a column is given out exactly when a file of its name is there");
    if (c) { CHECK_(c->name() == (b ? base : other), "the column has the name it was asked for by"); CHECK_(c->size() == 1 && static_cast<const StringColumn*>(c)->get_row_string(0) == (b ? "base" : "other"), "the column comes from the file of exactly its name"); } }
  __sym_reach("names");
}
