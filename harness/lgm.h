// Shared core of the monitors: RNG, case bookkeeping, API wrappers, hit recorder.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <array>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <lightgrep/api.h>
#include <lightgrep/util.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
using std::string; using std::vector; using std::pair;

struct Rng {
  u64 s;
  explicit Rng(u64 seed): s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }  // inclusive
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

inline u64 hash_str(const string& s, u64 h = 1469598103934665603ull) { for (u8 c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Hit {
  u64 s, e; u32 k;
  bool operator<(const Hit& o) const { return std::tie(k, s, e) < std::tie(o.k, o.s, o.e); }
  bool operator==(const Hit& o) const { return s == o.s && e == o.e && k == o.k; }
};
string show(const vector<Hit>& h, size_t lim = 24);
string show_diff(const vector<Hit>& want, const vector<Hit>& got);
string esc(const string& s);            // printable, C-escaped
string json_str(const string& s);
string hexs(const string& s);
string unhexs(const string& s);

// ---- run-wide state
struct Run {
  string sub;              // sub-command
  u64 seed = 1;
  u64 from = 0, count = 0; // case indices
  u64 stride = 1;
  double budget = 1e9;     // seconds, soft
  bool thorough = false;
  bool one = false;        // replaying one case
  string out, cur;         // result file, current-case file
  std::map<string, u64> stat;
  std::map<string, std::unordered_set<u64>> distinct;
  u64 done = 0, violations = 0;
  FILE* outf = nullptr; int curfd = -1;
  u64 caseno = 0;
  std::chrono::steady_clock::time_point t0;
  vector<string> samples;

  void add(const string& k, u64 n = 1) { stat[k] += n; }
  void mx(const string& k, u64 n) { u64& v = stat["max:" + k]; if (n > v) v = n; }
  void see(const string& k, u64 h) { auto& d = distinct[k]; if (d.size() < 200000) d.insert(h); }
  void see(const string& k, const string& h) { see(k, hash_str(h)); }
  void current(const string& desc);     // what is about to run (survives a crash)
  void violation(const string& key, const string& desc);
  void sample(const string& s) { if (samples.size() < 12) samples.push_back(s); }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
extern Run R;
typedef void (*CaseFn)(Rng&);
struct Sub { const char* name; CaseFn fn; };
struct Reg { Reg(const char* n, CaseFn f); };
// a whole-run sub-command: does its own loop
struct RegMain { RegMain(const char* n, int (*f)(int, char**)); };

// ---- API wrappers
struct Pat {
  string text;
  LG_KeyOptions opts{0, 0, 0};
  string enc = "US-ASCII";
  u64 user = 0;
};
string show(const Pat& p);
string show(const vector<Pat>& p);

struct Fsm {
  LG_HFSM h;
  explicit Fsm(u32 a = 0, u32 b = 0): h(lg_create_fsm(a, b)) {}
  ~Fsm() { lg_destroy_fsm(h); }
  Fsm(const Fsm&) = delete;
};
struct Pattern {
  LG_HPATTERN h;
  Pattern(): h(lg_create_pattern()) {}
  ~Pattern() { lg_destroy_pattern(h); }
  Pattern(const Pattern&) = delete;
};
struct Prog {
  LG_HPROGRAM h;
  explicit Prog(LG_HPROGRAM p = nullptr): h(p) {}
  ~Prog() { if (h) lg_destroy_program(h); }
  Prog(const Prog&) = delete;
  Prog(Prog&& o): h(o.h) { o.h = nullptr; }
  Prog& operator=(Prog&& o) { if (h) lg_destroy_program(h); h = o.h; o.h = nullptr; return *this; }
  explicit operator bool() const { return h != nullptr; }
};
struct Ctx {
  LG_HCONTEXT h;
  explicit Ctx(const Prog& p) { LG_ContextOptions o{~0ull, ~0ull}; h = lg_create_context(p.h, &o); }
  explicit Ctx(LG_HPROGRAM p) { LG_ContextOptions o{~0ull, ~0ull}; h = lg_create_context(p, &o); }
  ~Ctx() { lg_destroy_context(h); }
  Ctx(const Ctx&) = delete;
};
// takes ownership of the error list and returns its first message ("" = none)
string take(LG_Error* e);

// returns label index or -1 (msg set)
int add(Fsm& f, const Pat& p, string* msg = nullptr);
// builds a program of all patterns; returns null program if any is refused and all==true
Prog build(const vector<Pat>& ps, u32 depth, vector<int>* labels = nullptr, string* msg = nullptr, u32 hint = 0, bool careful = true);

void collect(void* ud, const LG_SearchHit* h);    // ud = vector<Hit>*

// A trace of one stream search, with the online monitors of well-formedness
// (hits in bounds, non-empty, per-keyword ordering/non-overlap, returned offsets).
struct Trace {
  vector<Hit> hits;          // in callback order
  vector<u64> rets;          // per lg_search call
  string bad;                // first ill-formed hit, "" if none
  string badret;             // first wrong returned offset
};
struct SearchOpts {
  u64 offset = 0;
  bool resolve_last = false; // use lg_search_resolve for the tail buffer
};
// chunks are copied to exact-size heap blocks that are freed right after the call
Trace search(LG_HCONTEXT ctx, u32 npat, const vector<string>& chunks, const SearchOpts& o = SearchOpts(), bool reset = true, bool closeout = true);
vector<Hit> sorted(vector<Hit> h);
vector<Hit> starts_with(LG_HCONTEXT ctx, const string& data, u64 off);
vector<string> split(const string& data, Rng& r, int mode);
// heap copy with exact size so ASan sees any overread
struct Exact {
  char* p; size_t n;
  explicit Exact(const string& s): p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  char* end() const { return p + n; }
};
