// Native implementation of symx.h: inputs come from a file, so that a counterexample (or a sampled
// path) found symbolically is executed by the real code with the real libraries.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <unistd.h>
#include "symx.h"
static std::map<std::string, std::string>& in() { static std::map<std::string, std::string> m; return m; }
static std::map<std::string, long>& params() { static std::map<std::string, long> m; return m; }
static std::map<std::string, int>& names() { static std::map<std::string, int> m; return m; }
static FILE* out;
static bool allow_fatal = false;
static std::string uniq(const char* n) { int& c = names()[n]; std::string r = c ? std::string(n) + "#" + std::to_string(c) : n; ++c; return r; }
static void done(const char* what, const char* msg, int code) { fprintf(out, "%s\t%s\n", what, msg); fflush(out); _exit(code); }
static void onabort(int) { if (allow_fatal) { fprintf(out, "end\tfatal\n"); fflush(out); _exit(0); } fprintf(out, "crash\tabort\n"); fflush(out); _exit(76); }
extern "C" {
int64_t __sym_int(const char* n, int64_t lo, int64_t hi) { std::string k = uniq(n); if (hi < lo) done("end", "infeasible", 78); auto it = in().find(k); return it == in().end() ? lo : atoll(it->second.c_str()); }
int64_t __sym_choice(const char* n, int64_t lo, int64_t hi) { return __sym_int(n, lo, hi); }
double __sym_num(const char* n, int64_t lo, int64_t hi, int64_t den) { return (double)__sym_int(n, lo, hi) / (double)den; }
double __sym_real(const char* n, double lo, double) { std::string k = uniq(n); auto it = in().find(k); return it == in().end() ? lo : atof(it->second.c_str()); }
uint64_t __sym_bits(const char* n, int) { std::string k = uniq(n); auto it = in().find(k); return it == in().end() ? 0 : strtoull(it->second.c_str(), nullptr, 10); }
void __sym_assume(int c) { if (!c) done("end", "infeasible", 78); }
void __sym_check(int c, const char* m) { if (!c) done("check", m, 77); }
void __sym_fail(const char* m) { done("check", m, 77); }
void __sym_reach(const char*) {}
void __sym_observe_i(const char* n, int64_t v) { fprintf(out, "obs\t%s\t%lld\n", n, (long long)v); }
void __sym_observe_d(const char* n, double v) { fprintf(out, "obs\t%s\t%.17g\n", n, v); }
int __sym_is_symbolic(const void*, size_t) { return 0; }
uint64_t __sym_concretize(uint64_t v) { return v; }
uint64_t __sym_pick(uint64_t v) { return v; }
void __sym_fatal(const char* m) { if (allow_fatal) done("end", "fatal", 0); done("check", m, 77); }
void __sym_option(const char* n, int64_t v) { if (!strcmp(n, "allow_fatal")) allow_fatal = v; }
void __sym_note(const char*) {}
int64_t __sym_param(const char* n, int64_t d) { auto it = params().find(n); return it == params().end() ? d : it->second; }
int __sym_native(void) { return 1; }
static uint64_t mix(uint64_t seed, uint64_t ctr) { uint64_t z = (seed + 0x9e3779b97f4a7c15ull) * (2 * ctr + 0x2545f4914f6cdd1dull); z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return z ^ z >> 32; }
uint64_t __sym_draw_int(uint64_t seed, uint64_t ctr, uint64_t lo, uint64_t hi) {
  if (lo == hi) return lo;
  if (hi - lo == 0xffffffffu || hi - lo == ~0ull) return lo + (mix(seed, ctr) & (hi - lo));
  if (params().count("native")) return lo + mix(seed, ctr) % (hi - lo + 1);   // replay of "no draw reaches": any draws will do
  char b[100]; snprintf(b, sizeof b, "draw_%llu_%llu_%llu", (unsigned long long)seed, (unsigned long long)ctr, (unsigned long long)(hi - lo));
  auto it = in().find(b); return lo + (it == in().end() ? 0 : strtoull(it->second.c_str(), nullptr, 10));
}
double __sym_draw_unit(uint64_t seed, uint64_t ctr) {
  char b[100]; snprintf(b, sizeof b, "unit_%llu_%llu", (unsigned long long)seed, (unsigned long long)ctr);
  auto it = in().find(b); int bits = 6; auto p = params().find("draw_bits"); if (p != params().end()) bits = p->second;
  if (params().count("native")) return (mix(seed, ctr) >> 11) / 9007199254740992.0;
  return it == in().end() ? 0 : atof(it->second.c_str()) / (double)(1ll << bits);
}
}
int main(int argc, char** argv) {   // entry inputs out [k=v...]
  if (argc < 4) return 75;
  out = fopen(argv[3], "w"); if (!out) return 75;
  FILE* f = fopen(argv[2], "r"); if (!f) return 75;
  static char l[1 << 16];
  while (fgets(l, sizeof l, f)) { char* t = strchr(l, '\t'); if (!t) continue; *t = 0; std::string v = t + 1; while (!v.empty() && v.back() == '\n') v.pop_back(); in()[l] = v; }
  fclose(f);
  for (int i = 4; i < argc; ++i) { char* e = strchr(argv[i], '='); if (e) { *e = 0; params()[argv[i]] = atol(e + 1); } }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) return 75;
  signal(SIGABRT, onabort);
  fn();
  fprintf(out, "end\tdone\n"); fclose(out);
  _exit(0);
}
