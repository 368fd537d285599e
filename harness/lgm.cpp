#include "lgm.h"
#include <fcntl.h>
#include <unistd.h>
#include <sstream>

Run R;
static std::map<string, CaseFn>& subs() { static std::map<string, CaseFn> m; return m; }
static std::map<string, int (*)(int, char**)>& mains() { static std::map<string, int (*)(int, char**)> m; return m; }
Reg::Reg(const char* n, CaseFn f) { subs()[n] = f; }
RegMain::RegMain(const char* n, int (*f)(int, char**)) { mains()[n] = f; }

string esc(const string& s) {
  string o; char b[8];
  for (u8 c : s) {
    if (c == '\\') o += "\\\\";
    else if (c >= 0x20 && c < 0x7f) o += (char)c;
    else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
string json_str(const string& s) {
  string o = "\""; char b[8];
  for (u8 c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c >= 0x20 && c < 0x7f) o += (char)c;
    else { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
  }
  return o + "\"";
}
string hexs(const string& s) { string o; char b[4]; for (u8 c : s) { snprintf(b, 4, "%02x", c); o += b; } return o; }
string unhexs(const string& s) { string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }
string show(const vector<Hit>& h, size_t lim) {
  string o; char b[96];
  for (size_t i = 0; i < h.size() && i < lim; ++i) { snprintf(b, sizeof b, "%s(%llu,%llu,k%u)", i ? " " : "", (unsigned long long)h[i].s, (unsigned long long)h[i].e, h[i].k); o += b; }
  if (h.size() > lim) o += " ... " + std::to_string(h.size()) + " in all";
  return "[" + o + "]";
}
string show_diff(const vector<Hit>& want, const vector<Hit>& got) {
  vector<Hit> miss, extra;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
  return "missing " + show(miss, 8) + " unexpected " + show(extra, 8);
}
string show(const Pat& p) {
  return "/" + esc(p.text) + "/ " + (p.opts.FixedString ? "F" : "-") + (p.opts.CaseInsensitive ? "i" : "-") + (p.opts.UnicodeMode ? "u" : "-") + " " + esc(p.enc);
}
string show(const vector<Pat>& ps) { string o; for (auto& p : ps) { if (!o.empty()) o += " ; "; o += show(p); } return o; }

void Run::current(const string& d) {
  if (curfd >= 0) {
    string s = std::to_string(caseno) + "\n" + d + "\n";
    if (s.size() > 8000) s.resize(8000);
    (void)!ftruncate(curfd, 0);
    (void)!pwrite(curfd, s.data(), s.size(), 0);
  }
}
void Run::violation(const string& key, const string& d) {
  ++violations;
  if (violations <= 20 || one) {
    fprintf(outf, "{\"kind\":\"violation\",\"case\":%llu,\"key\":%s,\"desc\":%s}\n", (unsigned long long)caseno, json_str(key).c_str(), json_str(d).c_str());
    fflush(outf);
  }
}

string take(LG_Error* e) {
  if (!e) return "";
  string m = e->Message ? e->Message : "(null message)";
  lg_free_error(e);
  return m;
}
int add(Fsm& f, const Pat& p, string* msg) {
  Pattern hp; LG_Error* err = nullptr;
  if (lg_parse_pattern(hp.h, p.text.c_str(), &p.opts, &err) <= 0) { string m = take(err); if (msg) *msg = "parse: " + m; return -1; }
  if (err) { take(err); }
  int l = lg_add_pattern(f.h, hp.h, p.enc.c_str(), p.user, &err);
  if (l < 0) { string m = take(err); if (msg) *msg = "add: " + m; return -1; }
  if (err) { take(err); }
  return l;
}
static Prog build_at(const vector<Pat>& ps, u32 depth, vector<int>* labels, string* msg, u32 hint) {
  Fsm f(hint, hint);
  for (auto& p : ps) {
    int l = add(f, p, msg);
    if (labels) labels->push_back(l);
    if (l < 0 && !labels) return Prog();
  }
  LG_ProgramOptions po{depth};
  return Prog(lg_create_program(f.h, &po));
}
// Determinizing is exponential by design: a great depth is approached in steps, and left alone
// when the programs are still growing.
Prog build(const vector<Pat>& ps, u32 depth, vector<int>* labels, string* msg, u32 hint, bool careful) {
  if (careful && depth > 10) {
    u32 last = 0; bool grows = false;
    for (u32 d : {10u, 13u, 16u, 20u, 24u, 32u, 48u}) {
      if (d >= depth) break;
      vector<int> l; Prog p = build_at(ps, d, labels ? &l : nullptr, nullptr, hint); if (!p) break;
      u32 n = lg_program_size(p.h); grows = last && n > last;
      if (grows && (n > 3 * last || n > 1000000)) { depth = d; break; }
      last = n;
    }
    if (grows) { R.add("depths_limited"); depth = std::min(depth, 48u); }
  }
  return build_at(ps, depth, labels, msg, hint);
}
void collect(void* ud, const LG_SearchHit* h) { ((vector<Hit>*)ud)->push_back(Hit{h->Start, h->End, h->KeywordIndex}); }
vector<Hit> sorted(vector<Hit> h) { std::sort(h.begin(), h.end()); return h; }

Trace search(LG_HCONTEXT ctx, u32 npat, const vector<string>& chunks, const SearchOpts& o, bool reset, bool closeout) {
  Trace t;
  if (reset) lg_reset_context(ctx);
  u64 off = o.offset;
  std::unordered_map<u32, Hit> last;
  u64 floor = o.offset; bool havefloor = false;
  size_t seen = 0;
  auto check = [&](u64 limit, const char* where) {
    for (; seen < t.hits.size(); ++seen) {
      const Hit& h = t.hits[seen];
      R.add("hits_monitored");
      string why;
      if (h.k >= npat) why = "keyword index out of range";
      else if (h.s >= h.e) why = "empty or inverted hit";
      else if (h.s < o.offset || h.e > limit) why = "hit outside the data seen so far";
      else {
        if (havefloor && h.s < floor && t.badret.empty()) t.badret = "hit " + show(vector<Hit>{h}) + " starts before the offset lg_search returned (" + std::to_string(floor) + ")";
        auto it = last.find(h.k);
        if (it != last.end()) {
          if (h.s <= it->second.s) why = "hits of one keyword out of order";
          else if (h.s < it->second.e) why = "overlapping hits of one keyword";
        }
        last[h.k] = h;
      }
      if (!why.empty() && t.bad.empty()) t.bad = why + " at " + show(vector<Hit>{h}) + " during " + where;
    }
  };
  for (size_t i = 0; i < chunks.size(); ++i) {
    Exact b(chunks[i]);
    u64 ret = lg_search(ctx, b.p, b.end(), off, &t.hits, collect);
    off += b.n;
    check(off, "lg_search");
    if (ret > off && t.badret.empty()) t.badret = "lg_search returned " + std::to_string(ret) + " past the data end " + std::to_string(off);
    if (havefloor && ret < floor && t.badret.empty()) t.badret = "lg_search's returned offset went back from " + std::to_string(floor) + " to " + std::to_string(ret);
    floor = ret; havefloor = true;
    t.rets.push_back(ret);
    R.add("search_calls");
    R.add("bytes_searched", b.n);
  }
  if (closeout) {
    lg_closeout_search(ctx, &t.hits, collect);
    check(off, "lg_closeout_search");
  }
  return t;
}
vector<Hit> starts_with(LG_HCONTEXT ctx, const string& data, u64 off) {
  vector<Hit> h; Exact b(data);
  lg_starts_with(ctx, b.p, b.end(), off, &h, collect);
  return h;
}
vector<string> split(const string& d, Rng& r, int mode) {
  vector<string> v;
  if (mode == 0) { v.push_back(d); return v; }
  if (mode == 1) { for (char c : d) v.push_back(string(1, c)); if (v.empty()) v.push_back(""); return v; }
  size_t i = 0;
  while (i < d.size()) {
    size_t n;
    if (mode == 2) n = 1 + r.below(3);
    else if (mode == 3) n = r.below(6);               // includes empty buffers
    else n = 1 + r.below(d.size());
    if (n > d.size() - i) n = d.size() - i;
    v.push_back(d.substr(i, n)); i += n;
  }
  if (mode == 3 && r.chance(1, 2)) v.push_back("");
  if (v.empty()) v.push_back("");
  return v;
}

#ifndef LGM_NO_MAIN
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=202:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
extern "C" int __lsan_do_recoverable_leak_check(void);
#endif
static double cpu_limit_s = 0;
int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: lgmon SUB [opts]\n"); return 2; }
  R.sub = argv[1]; R.t0 = std::chrono::steady_clock::now();
  if (mains().count(R.sub)) return mains()[R.sub](argc - 1, argv + 1);
  for (int i = 2; i < argc; ++i) {
    string a = argv[i]; auto v = [&] { return string(argv[++i]); };
    if (a == "--seed") R.seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--from") R.from = strtoull(v().c_str(), 0, 10);
    else if (a == "--count") R.count = strtoull(v().c_str(), 0, 10);
    else if (a == "--stride") R.stride = strtoull(v().c_str(), 0, 10);
    else if (a == "--budget") R.budget = atof(v().c_str());
    else if (a == "--thorough") R.thorough = true;
    else if (a == "--case") { R.one = true; R.from = strtoull(v().c_str(), 0, 10); R.count = 1; }
    else if (a == "--out") R.out = v();
    else if (a == "--cur") R.cur = v();
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  if (!subs().count(R.sub)) { fprintf(stderr, "no such sub-command %s\n", R.sub.c_str()); return 2; }
  R.outf = R.out.empty() ? stdout : fopen(R.out.c_str(), "w");
  if (!R.outf) { perror("out"); return 2; }
  if (!R.cur.empty()) R.curfd = open(R.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  CaseFn fn = subs()[R.sub];
  u64 leak_every = 64;
  for (u64 i = 0; i < R.count; ++i) {
    R.caseno = R.from + i * R.stride;
    Rng rng(R.seed * 1000003ull + R.caseno * 7919ull + hash_str(R.sub));
    R.current("(starting)");
    fn(rng);
    ++R.done;
#if defined(__SANITIZE_ADDRESS__)
    if ((i % leak_every == leak_every - 1 || R.one) && __lsan_do_recoverable_leak_check()) {
      R.violation("leak", "LeakSanitizer found memory leaked by one of the last " + std::to_string(leak_every) + " cases of " + R.sub);
      break;
    }
#endif
    if (R.elapsed() > R.budget) { R.add("stopped_by_budget"); break; }
    if (R.violations >= 20) break;
  }
  R.current("(finished)");
  std::ostringstream os;
  os << "{\"kind\":\"summary\",\"done\":" << R.done << ",\"violations\":" << R.violations << ",\"elapsed\":" << R.elapsed() << ",\"stat\":{";
  bool first = true;
  for (auto& s : R.stat) { os << (first ? "" : ",") << json_str(s.first) << ":" << s.second; first = false; }
  os << "},\"distinct\":{"; first = true;
  for (auto& s : R.distinct) { os << (first ? "" : ",") << json_str(s.first) << ":["; first = false; bool f2 = true; for (u64 h : s.second) { os << (f2 ? "" : ",") << (h & 0xffffffffffffull); f2 = false; } os << "]"; }
  os << "},\"samples\":["; first = true;
  for (auto& s : R.samples) { os << (first ? "" : ",") << json_str(s); first = false; }
  os << "]}\n";
  fputs(os.str().c_str(), R.outf); fflush(R.outf);
  return R.violations ? 1 : 0;
}
#endif
