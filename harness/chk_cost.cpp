// C27: memory and time in proportion to the work.  Memory is counted in operator new and
// delete (replaced here in uninstrumented builds); time is this thread's CPU time, the
// least of several runs, against bounds with a wide margin.
#include "ref.h"
#include <malloc.h>
#include <new>
#include <time.h>

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
static bool g_on = false;
static thread_local long g_live = 0, g_peak = 0;
static inline void* counted(size_t n) {
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  if (g_on) { g_live += malloc_usable_size(p); if (g_live > g_peak) g_peak = g_live; }
  return p;
}
static inline void uncounted(void* p) { if (p && g_on) g_live -= malloc_usable_size(p); free(p); }
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, size_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t) noexcept { uncounted(p); }
static void count_on() { g_on = true; }
#else
static long g_live = 0, g_peak = 0;
static void count_on() {}
#endif

namespace {
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }     // ms
struct Peak { long base = g_live; Peak() { g_peak = g_live; } long up() const { return g_peak - base; } long kept() const { return g_live - base; } };
void count_hit(void* ud, const LG_SearchHit*) { ++*(u64*)ud; }
struct Cost { double ms; long peak; u64 hits; };
Cost run(const Prog& g, const string& d, size_t block) {
  Peak pk; u64 n = 0; double t = cpu();
  { Ctx c(g); for (size_t i = 0; i < d.size(); i += block) lg_search(c.h, d.data() + i, d.data() + std::min(d.size(), i + block), i, &n, count_hit); lg_closeout_search(c.h, &n, count_hit); }
  return Cost{cpu() - t, pk.up(), n};
}
string kb(long n) { return std::to_string(n / 1024) + " KiB"; }

// Threads of one state and start are one thread: however ambiguous the pattern is, there are at
// most (states x live starts) of them.
void c_search(Rng& r) {
  count_on();
  int alpha = r.range(1, 3), k = r.chance(2, 3) ? 1 : r.range(2, 6); vector<GPat> v;
  for (int i = 0; i < k; ++i) { GOpt o; o.encs = r.chance(1, 3); o.ci = o.fixed = false; if (r.chance(1, 3)) o.budget = r.range(8, 16); v.push_back(gen_pat(r, o, alpha)); }
  if (r.chance(1, 3)) {       // ambiguous on purpose
    GOpt o; o.encs = o.ci = o.fixed = false; GPat x = gen_pat(r, o, alpha); NodeP n = x.n; int m = r.range(2, 4); vector<NodeP> alts;
    for (int i = 0; i < m; ++i) alts.push_back(r.chance(1, 2) ? n : gen_pat(r, o, alpha).n);
    n = mk_rep(mk_alt(alts), r.range(0, 2), -1, r.chance(1, 4)); if (r.chance(1, 2)) n = mk_rep(n, 1, r.range(2, 3), false);
    v[0] = x; v[0].n = mk_cat({n, mk_set(CpSet::one('z'), "z")}); v[0].p.text = render(v[0].n);
  }
  u32 depth = r.range(0, 3); R.current(show(pats(v)) + " depth " + std::to_string(depth));
  Prog g = build(pats(v), depth); if (!g) { R.add("sets refused"); return; }
  long states = lg_program_size(g.h) / 4;            // instruction words: no fewer than states
  for (int t = 0; t < 3; ++t) {
    bool same = r.chance(1, 3); string d, whole = same ? string(4096, 'a') : gen_text(r, v, alpha, 3000);
    for (size_t n = 8; n <= 512; n *= 2) {
      d = whole.substr(0, n); R.current(show(pats(v)) + " depth " + std::to_string(depth) + " on " + std::to_string(n) + " of " + esc(whole.substr(0, 60)));
      Cost c = run(g, d, d.size());
      long limit = 65536 + 128 * states + 128 * states * (long)(d.size() + 2);
      double most = 50 + 200e-6 * states * (d.size() + 2) * d.size();
      R.add("searches"); R.mx("memory in % of the bound", 100 * c.peak / limit); R.mx("time in % of the bound", 100 * c.ms / most); R.mx("peak memory in KiB", c.peak / 1024); R.mx("peak time in us", c.ms * 1000);
      if (c.peak > limit) { R.violation("memory:" + show(pats(v)), show(pats(v)) + " depth " + std::to_string(depth) + ": searching " + std::to_string(d.size()) + " bytes (" + esc(d.substr(0, 80)) + ") takes " + kb(c.peak) + " with a program of " + std::to_string(states * 4) + " bytes"); return; }
      if (c.ms > most) {
        for (int i = 0; i < 3; ++i) c.ms = std::min(c.ms, run(g, d, d.size()).ms);
        if (c.ms > most) { R.violation("time:" + show(pats(v)), show(pats(v)) + " depth " + std::to_string(depth) + ": searching " + std::to_string(d.size()) + " bytes (" + esc(d.substr(0, 80)) + ") takes " + std::to_string(c.ms) + " ms with a program of " + std::to_string(states * 4) + " bytes"); return; }
      }
      if (c.peak > 2000) R.see("nontrivial", show(pats(v)) + d);
    }
  }
  R.sample(show(pats(v)));
}
Reg reg_a("costsearch", c_search);

// Patterns of bounded length: the memory of a context does not depend on how much was searched,
// and time grows with it linearly; a context used again and again does not grow.
void c_stream(Rng& r) {
  count_on();
  int alpha = r.range(2, 4), k = r.range(1, 8); vector<GPat> v;
  for (int i = 0; i < k; ++i) { GOpt o; o.encs = r.chance(1, 3); o.ci = r.chance(1, 4); GPat g; do g = gen_pat(r, o, alpha); while (max_len(g.n, 4) > 200); v.push_back(g); }
  u32 depth = r.range(0, 3); R.current(show(pats(v)) + " depth " + std::to_string(depth));
  Prog g = build(pats(v), depth); if (!g) { R.add("sets refused"); return; }
  string unit = gen_text(r, v, alpha, 4000); unit.resize(4000); size_t n = 16000, f = 16;
  string small, big; while (small.size() < n) small += unit; while (big.size() < n * f) big += unit;
  size_t block = r.chance(1, 2) ? 4096 : r.range(1000, 200000); string what = show(pats(v)) + " depth " + std::to_string(depth) + " on repetitions of " + esc(unit.substr(0, 60)) + " in blocks of " + std::to_string(block);
  R.current(what);
  Cost a = run(g, small, block), b = run(g, big, block); R.add("searches", 2); R.add("bytes searched", small.size() + big.size()); R.add("hits", a.hits + b.hits);
  R.mx("time ratio x100 for 16 times the text", 100 * b.ms / (a.ms + 1)); R.mx("memory ratio x100 for 16 times the text", 100 * b.peak / (a.peak + 1));
  if (b.peak > 2 * a.peak + 8192) { R.violation("memory:" + show(pats(v)), what + ": " + kb(a.peak) + " for " + std::to_string(small.size()) + " bytes, " + kb(b.peak) + " for " + std::to_string(big.size())); return; }
  for (int i = 0; i < 4 && b.ms > 5 * f * a.ms + 60; ++i) { a.ms = std::max(a.ms, run(g, small, block).ms); b.ms = std::min(b.ms, run(g, big, block).ms); R.add("times taken again"); }
  if (b.ms > 5 * f * a.ms + 60) { R.violation("time:" + show(pats(v)), what + ": " + std::to_string(a.ms) + " ms for " + std::to_string(small.size()) + " bytes, " + std::to_string(b.ms) + " ms for " + std::to_string(big.size())); return; }
  Ctx c(g); u64 h = 0; long at = 0, worst = 0;
  for (int i = 0; i < 60; ++i) {
    size_t o = r.below(3000), m = r.range(1, 900);
    if (r.chance(1, 5)) lg_starts_with(c.h, unit.data() + o, unit.data() + o + m, 0, &h, count_hit);
    else { lg_search(c.h, unit.data() + o, unit.data() + o + m, 0, &h, count_hit); if (r.chance(1, 2)) lg_closeout_search(c.h, &h, count_hit); }
    lg_reset_context(c.h);
    if (i == 19) at = g_live; else if (i > 19) worst = std::max(worst, g_live - at);
  }
  R.mx("growth of a context used again in bytes", worst);
  if (worst > 2 * a.peak + 8192) { R.violation("reuse:" + show(pats(v)), what + ": a context used again has grown by " + kb(worst)); return; }
  if (b.hits) R.see("nontrivial", show(pats(v)) + unit);
  R.sample(what);
}
Reg reg_b("coststream", c_stream);

// Compiling: families of pattern sets with a size n; 4n takes no more than its share.
struct Fam { const char* name; size_t n; int power; std::function<vector<Pat>(Rng&, size_t)> f; };
string word(Rng& r, int lo, int hi, int alpha) { string s; int k = r.range(lo, hi); for (int i = 0; i < k; ++i) s += (char)('a' + r.below(alpha)); return s; }
Pat P(const string& t, const string& enc = "UTF-8") { Pat p; p.text = t; p.enc = enc; return p; }
const vector<Fam>& fams() {
  static const vector<Fam> v{
    {"words", 3000, 1, [](Rng& r, size_t n) { vector<Pat> v; int al = r.range(2, 26); string e = r.chance(1, 2) ? "UTF-8" : "UTF-16LE"; for (size_t i = 0; i < n; ++i) v.push_back(P(word(r, 3, 12, al), e)); return v; }},
    {"patterns", 400, 1, [](Rng& r, size_t n) { vector<Pat> v; for (size_t i = 0; i < n; ++i) { GOpt o; o.encs = false; v.push_back(gen_pat(r, o, 4).p); v.back().text = word(r, 2, 4, 26) + v.back().text; v.back().opts.FixedString = 0; } return v; }},
    {"alternatives", 1000, 2, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) s += (i ? "|" : "") + word(r, 2, 8, 26); return vector<Pat>{P(s)}; }},
    {"literal", 250, 2, [](Rng& r, size_t n) { return vector<Pat>{P(word(r, n, n, 26))}; }},
    {"class", 300, 2, [](Rng& r, size_t n) { string s = r.chance(1, 2) ? "[" : "[^"; char b[64]; for (size_t i = 0; i < n; ++i) { u32 a = 0x3400 + r.below(0x4000); snprintf(b, sizeof b, "\\x{%X}-\\x{%X}", a, a + 1 + (u32)r.below(40)); s += b; } return vector<Pat>{P(s + "]x")}; }},
    {"repetition", 300, 2, [](Rng& r, size_t n) { return vector<Pat>{P((r.chance(1, 2) ? "(ab|c)" : "[^a]") + string("{") + std::to_string(n) + "}x", "US-ASCII")}; }},
    {"optional repetition", 100, 3, [](Rng& r, size_t n) { return vector<Pat>{P(string(r.chance(1, 2) ? "x(ab|c)" : "x.") + "{1," + std::to_string(n) + "}y", "US-ASCII")}; }},
    {"groups", 700, 2, [](Rng& r, size_t n) { return vector<Pat>{P(string(n, '(') + "ab" + string(n, ')'))}; }},
    {"bounded words", 6, 3, [](Rng& r, size_t n) { Pat p = P("a(\\w+?){2," + std::to_string(n) + "}|\xc3\xa9"); p.opts.UnicodeMode = r.chance(1, 2); return vector<Pat>{p}; }},
    {"same prefix", 3000, 1, [](Rng& r, size_t n) { vector<Pat> v; for (size_t i = 0; i < n; ++i) v.push_back(P("prefix" + word(r, 1, 6, 10))); return v; }},
    {"duplicates", 1500, 2, [](Rng& r, size_t n) { vector<Pat> v; string w = word(r, 3, 6, 3); for (size_t i = 0; i < n; ++i) v.push_back(P(r.chance(1, 2) ? w : word(r, 1, 3, 2))); return v; }},
  };
  return v;
}
void c_compile(Rng& r) {
  count_on();
  const Fam& f = fams()[R.caseno % fams().size()]; u32 depth = f.power == 1 && string(f.name) != "patterns" ? r.range(0, 6) : r.range(0, 1);
  Rng r2 = r; vector<Pat> a = f.f(r, f.n), b = f.f(r2, 4 * f.n);          // the same choices for both R.current(string("family ") + f.name + " depth " + std::to_string(depth));
  auto once = [&](const vector<Pat>& ps, double& ms, long& peak) {
    Peak pk; double t = cpu(); { Fsm f(0, 0); Pattern p; LG_Error* e = nullptr; for (auto& x : ps) { if (lg_parse_pattern(p.h, x.text.c_str(), &x.opts, &e) > 0) lg_add_pattern(f.h, p.h, x.enc.c_str(), x.user, &e); if (e) { lg_free_error(e); e = nullptr; R.add("patterns refused"); } }
      LG_ProgramOptions o{depth}; Prog g(lg_create_program(f.h, &o)); R.add("compilations"); if (!g) R.add("empty programs"); }
    ms = cpu() - t; peak = pk.up();
  };
  double ta, tb; long ma, mb; once(a, ta, ma); once(b, tb, mb);
  double share = f.power == 1 ? 4 : f.power == 2 ? 16 : 64;
  R.mx(string("time of ") + f.name + " in % of the bound", 100 * tb / (6 * share * ta + 60)); R.mx(string("memory of ") + f.name + " in % of the bound", 100 * mb / (3 * share * ma + 65536)); R.mx(string("ms of ") + f.name, tb);
  for (int i = 0; i < 4 && tb > 6 * share * ta + 60; ++i) { double x, y; long m; once(a, x, m); once(b, y, m); ta = std::max(ta, x); tb = std::min(tb, y); R.add("times taken again"); }
  string what = string("compiling the family \"") + f.name + "\" (like " + show(a).substr(0, 200) + ") depth " + std::to_string(depth) + " at sizes " + std::to_string(f.n) + " and " + std::to_string(4 * f.n) + " takes ";
  if (tb > 6 * share * ta + 60) R.violation(string("compile time:") + f.name, what + std::to_string(ta) + " and " + std::to_string(tb) + " ms");
  if (mb > 3 * share * ma + 65536) R.violation(string("compile memory:") + f.name, what + kb(ma) + " and " + kb(mb));
  R.see("nontrivial", show(a) + std::to_string(depth));
}
Reg reg_c("costcompile", c_compile);

// Decoding a window: 16 times the window takes no more than 16 times the time (times a margin).
void c_decode(Rng& r) {
  count_on();
  static const vector<string> encs{"UTF-8", "UTF-16LE", "UTF-32BE", "windows-1252", "US-ASCII", "Shift_JIS", "EUC-JP", "GB18030", "Big5", "KOI8-R", "ISO-2022-JP", "UTF-7", "SCSU", "UTF-8|OCE", "windows-1252|OCE", "BOCU-1", "HZ", "EUC-KR"};
  string enc = encs[R.caseno % encs.size()]; size_t n = 2000, f = 16; int kind = r.below(4);
  auto text = [&](size_t m) { string s; for (size_t i = 0; i < m; ++i) s += kind == 0 ? 'a' : kind == 1 ? (char)r.below(256) : kind == 2 ? (char)(0x80 + r.below(0x80)) : (char)(r.chance(1, 3) ? r.below(256) : 'a' + r.below(20)); return s; };
  string a = text(n), b = text(n * f); int where = r.below(3); LG_HDECODER d = lg_create_decoder();
  auto once = [&](const string& t, double& ms, long& peak) {
    size_t at = where == 0 ? 0 : where == 1 ? t.size() / 2 : t.size() - 2; LG_Window in{at, at + 2}, outer, hit; const char* u = nullptr; LG_Error* e = nullptr; Peak pk; double c = cpu();
    lg_hit_context(d, t.data(), t.data() + t.size(), 0, &in, enc.c_str(), t.size(), 0xFFFD, &u, &outer, &hit, &e); ms = cpu() - c; peak = pk.up(); if (e) lg_free_error(e); if (u) lg_free_hit_context_string(u); R.add("windows decoded");
  };
  R.current("decoding " + enc + " kind " + std::to_string(kind) + " hit " + std::to_string(where)); double ta, tb, x; long ma, mb; once(a, ta, ma); once(a, x, ma); ta = std::max(ta, x); once(b, tb, mb);
  R.mx("time in % of the bound", 100 * tb / (5 * f * ta + 60)); R.mx("memory in % of the bound", 100 * mb / (3 * f * ma + 65536)); R.mx("ms", tb);
  for (int i = 0; i < 4 && tb > 5 * f * ta + 60; ++i) { once(a, x, ma); ta = std::max(ta, x); once(b, x, mb); tb = std::min(tb, x); R.add("times taken again"); }
  string what = "decoding a window of " + enc + " (bytes of kind " + std::to_string(kind) + ", hit at place " + std::to_string(where) + ") of " + std::to_string(n) + " and " + std::to_string(n * f) + " bytes takes ";
  if (tb > 5 * f * ta + 60) R.violation("decode time:" + enc, what + std::to_string(ta) + " and " + std::to_string(tb) + " ms");
  if (mb > 3 * (long)f * ma + 65536) R.violation("decode memory:" + enc, what + kb(ma) + " and " + kb(mb));
  lg_destroy_decoder(d); R.see("nontrivial", enc + std::to_string(kind) + std::to_string(where) + a.substr(0, 8));
}
Reg reg_d("costdecode", c_decode);
}
