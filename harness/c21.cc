// Strings, lines, files, time.
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "h.h"
#include "src/base/base.h"
#include "src/utils/stopwatch.h"
#include "src/utils/utils.h"
static std::string bytes(int lo, int hi);
static std::string text(const char* alphabet, int lo, int hi) { std::string s; if (P("bytes", 0)) return bytes(lo, hi); int n = CH("len", lo, hi), k = strlen(alphabet); for (int i = 0; i < n; ++i) { int c = CH("char", 0, k); s += c < k ? alphabet[c] : '\0'; } return s; }
static std::string bytes(int lo, int hi) { std::string s; int n = CH("len", lo, hi); for (int i = 0; i < n; ++i) s += (char)__sym_bits("byte", 8); return s; }
ENTRY c21_split() {
  static const char* delims[] = {",", "\t", ",,", "a,"}; std::string d = delims[CH("delim", 0, 3)], s = text("a,\t", 0, P("len", 5)); auto v = strings::split(s, d);
  if (s.empty()) { CHECK_(v.empty(), "nothing to split"); __sym_reach("empty"); return; }
  std::vector<std::string> want; std::string cur; for (size_t i = 0; i < s.size();) { if (s.compare(i, d.size(), d) == 0) { want.push_back(cur); cur = ""; i += d.size(); } else cur += s[i++]; } want.push_back(cur);
  CHECK_(v.size() == want.size(), "one part between delimiters"); for (size_t i = 0; i < v.size(); ++i) CHECK_(v[i] == want[i], "the parts are the text between delimiters"); CHECK_(strings::JoinStrings(v, d) == s, "joining the parts gives the text back"); __sym_reach("split"); if (v.size() > 2) __sym_reach("many");
}
ENTRY c21_affix() {
  std::string s = bytes(0, P("len", 3)), p = bytes(0, P("len", 3)); bool pre = p.size() <= s.size(), suf = pre; if (pre) for (size_t i = 0; i < p.size(); ++i) { pre = pre & (s[i] == p[i]); suf = suf & (s[s.size() - p.size() + i] == p[i]); }
  CHECK_(strings::HasPrefix(s, p) == pre, "prefix"); CHECK_(strings::HasSuffix(s, p) == suf, "suffix"); __sym_reach(pre ? "prefix" : "other");
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
ENTRY c21_trim() {
  std::string s = text("a \t\n\r\v\f", 0, P("len", 4)), l = s, r = s, b = s; strings::LTrimWhiteSpace(&l); strings::RTrimWhiteSpace(&r); strings::TrimWhiteSpace(&b);
  size_t i = 0, j = s.size(); while (i < s.size() && sp(s[i])) ++i; CHECK_(l == s.substr(i), "leading white space is removed, nothing else"); while (j > 0 && sp(s[j - 1])) --j; CHECK_(r == s.substr(0, j), "trailing white space is removed, nothing else"); CHECK_(b == (i < j ? s.substr(i, j - i) : ""), "white space of both ends is removed, nothing else"); __sym_reach("trim");
}
ENTRY c21_lines() {
  std::string s = text("a\n\r", 0, P("len", 5)); std::istringstream in(s); size_t pos = 0; int k = 0;
  while (pos < s.size()) { size_t e = s.find('\n', pos); std::string line = e == std::string::npos ? s.substr(pos) : s.substr(pos, e - pos); bool last = e == std::string::npos; pos = last ? s.size() : e + 1; size_t q = line.size(); while (q > 0 && line[q - 1] == '\r') --q; CHECK_(in.good(), "there are lines left"); CHECK_(ReadLine(in) == line.substr(0, q), "a line without its end"); ++k; }
  if (k) { CHECK_(ReadLine(in).empty() && !in.good(), "no more lines"); __sym_reach("lines"); } else CHECK_(ReadLine(in).empty(), "no line");
}
ENTRY c21_long() {   // long lines, texts and files
  static const int len[] = {127, 255, 256, 1023, 4095, 4096, 8192, 65535, 65536, 70000}; int n = len[CH("len", P("lmin", 0), P("lmax", 9))]; std::string s(n, 'x'); int at[] = {0, n / 2, n - 2, n - 1}; size_t p = at[CH("at", 0, 3)]; s[p] = (char)__sym_bits("byte", 8);
  std::string two = s + "\r\nnext"; std::istringstream in(two); bool nl = s[p] == '\n'; size_t e = nl ? p : s.size(); std::string first = s.substr(0, e); while (!first.empty() && first.back() == '\r') first.pop_back();
  CHECK_(ReadLine(in) == first, "a long line is read whole");
  auto v = strings::split(s, ","); if (s[p] == ',') CHECK_(v.size() == 2 && v[0].size() == p && v[1].size() == n - 1 - p, "a long text is split at its delimiter"); else CHECK_(v.size() == 1 && v[0] == s, "a long text is split at its delimiter"); CHECK_(strings::JoinStrings(v, ",") == s, "joining the parts gives the text back");
  std::string t = s; strings::TrimWhiteSpace(&t); bool end = (p == 0 || p + 1 == s.size()) && sp(s[p]); CHECK_(t.size() == s.size() - end && t == (end ? s.substr(p == 0, n - 1) : s), "white space of both ends is removed, nothing else");
  WriteStringToFile(s, "long"); CHECK_(ReadFileToStringOrDie("long") == s, "a long file reads back as it was written"); CHECK_(strings::HasPrefix(s + "y", s) && strings::HasSuffix("y" + s, s) && !strings::HasPrefix(s, s + "y"), "a long prefix or suffix"); __sym_reach("long");
}
ENTRY c21_cast() {   // a number is accepted when the whole text is one
  std::string s = text("17.e-+x", 0, P("len", 4)); float v = -99; bool ok = strings::StringCast(s, &v); size_t i = 0; auto dig = [&](double* d, double* scale) { int n = 0; while (i < s.size() && (s[i] >= '0' && s[i] <= '9')) { *d = *d * 10 + (s[i] - '0'); if (scale) *scale *= 10; ++i; ++n; } return n; };
  bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; double m = 0, sc = 1, e = 0; int n = dig(&m, nullptr); if (i < s.size() && s[i] == '.') { ++i; n += dig(&m, &sc); } bool good = n > 0;
  if (good && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; bool en = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-'; if (!dig(&e, nullptr)) good = false; if (en) e = -e; }
  good = good && i == s.size(); CHECK_(ok == good, "a text is a number exactly when all of it is"); if (!good) { __sym_reach("text"); return; }
  double x = (neg ? -m : m) / sc; for (int k = 0; k < e; ++k) x *= 10; for (int k = 0; k > e; --k) x /= 10; if (x < 1e38 && x > -1e38) CHECK_(fabs(v - x) <= fabs(x) * 1e-6, "its value"); __sym_reach("number");
}
ENTRY c21_files() {
  std::string s = bytes(1, P("len", 3)), t = bytes(0, 2); CHECK_(!FileExists("f1"), "no file yet"); WriteStringToFile(s, "f1"); CHECK_(FileExists("f1"), "a written file exists"); CHECK_(ReadFileToStringOrDie("f1") == s, "a file reads back as it was written");
  WriteStringToFile(t, "f1"); bool empty = t.empty(); __sym_option("allow_fatal", empty); std::string r = ReadFileToStringOrDie("f1"); __sym_option("allow_fatal", 0); CHECK_(!empty && r == t, "writing replaces the contents; an empty file cannot be read"); CHECK_(!FileExists("f2"), "other files do not exist"); __sym_reach("files");
}
ENTRY c21_fail() {   // a file that cannot be read or written is reported, not ignored
  int k = CH("kind", 0, 1); __sym_option("allow_fatal", 1); if (k == 0) ReadFileToStringOrDie("absent"); else { symlink("/dev/full", "full"); std::string s = bytes(1, 3); WriteStringToFile(s, "full"); } __sym_option("allow_fatal", 0); CHECK_(false, k == 0 ? "an absent file is fatal" : "a write that fails is fatal");
}
ENTRY c21_time() {
  static const long base[] = {0, 500, 1000, 59000, 60000, 61000, 3599000, 3600000, 3661000, 86399000, 86400000, 90061000, 864000000}; double ms = base[CH("base", 0, 12)] + __sym_num("ms", 0, P("window", 999), 1); std::string s = StopWatch::MSecsToFormattedString(ms);
  size_t i = 0; double total = 0; int last = 5, fields = 0; bool tok = false;
  while (i < s.size()) { double v; if (s[i] == 1) { memcpy(&v, s.data() + i + 1, 8); i += 9; tok = true; } else { size_t j = i; while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == '.')) ++j; CHECK_(j > i, "a number before its unit"); v = strtod(s.substr(i, j - i).c_str(), nullptr); i = j; }
    int u; if (s.compare(i, 2, "ms") == 0) { u = 0; i += 2; } else { CHECK_(i < s.size(), "a unit"); char c = s[i++]; u = c == 's' ? 1 : c == 'm' ? 2 : c == 'h' ? 3 : c == 'd' ? 4 : -1; } CHECK_(u >= 0 && u < last, "units from large to small"); last = u; ++fields; static const double f[] = {1, 1000, 60000, 3600000, 86400000}; total += v * f[u]; if (u == 3) CHECK_(v < 24, "less than a day of hours"); if (u == 2) CHECK_(v < 60, "less than an hour of minutes"); if (u == 1) CHECK_(v <= 60, "less than a minute of seconds"); }
  CHECK_(fields > 0, "a duration has text"); CHECK_((total - ms <= 51) & (ms - total <= 51), "the formatted duration is the duration"); __sym_reach("time");
}
ENTRY c21_vector() {
  int n = CH("n", 0, 4); std::vector<uint> v; for (int i = 0; i < n; ++i) v.push_back((uint)__sym_bits("v", 32)); int a = CH("a", 0, n), b = CH("b", a, n); auto w = VectorSliceToVector(VectorSlice<uint>(v.begin() + a, v.begin() + b)); CHECK_((int)w.size() == b - a, "a slice as a vector"); for (int i = a; i < b; ++i) CHECK_(w[i - a] == v[i], "a slice as a vector"); w.push_back(7); if (a < b) { w[0] = 1; } __sym_reach("vector");
}
