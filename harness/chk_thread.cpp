// C19: programs shared by threads, and everything else used by one thread each, give what one thread alone gets.
#include "ref.h"
#include <atomic>
#include <thread>
#include <time.h>

namespace {
struct Op { int kind; vector<Pat> ps; vector<string> chunks; u64 off; u32 depth; int prog; string text; u64 pause; size_t pre; };
struct Shared { vector<LG_HPROGRAM> progs; vector<vector<Pat>> sets; };
struct Local { vector<LG_HCONTEXT> ctx; LG_HDECODER dec = nullptr; };

string hits_str(const vector<Hit>& h) { string s; for (auto& x : h) s += std::to_string(x.s) + "-" + std::to_string(x.e) + "k" + std::to_string(x.k) + " "; return s; }
vector<Hit> stream(LG_HCONTEXT c, const Op& o) {
  vector<Hit> h; u64 off = o.off; lg_reset_context(c);
  for (auto& s : o.chunks) { Exact b(s); lg_search(c, b.p, b.end(), off, &h, collect); off += b.n; }
  lg_closeout_search(c, &h, collect); return h;
}
LG_HCONTEXT ctx_of(Local& l, const Shared& sh, int i) {
  if (!l.ctx[i]) { LG_ContextOptions o{~0ull, ~0ull}; l.ctx[i] = lg_create_context(sh.progs[i], &o); }
  return l.ctx[i];
}
string err_str(LG_Error* e) { string s; for (LG_Error* x = e; x; x = x->Next) s += string(x->Message ? x->Message : "(none)") + "@" + std::to_string(x->Index) + ";"; if (e) lg_free_error(e); return s; }

string run_op(const Op& o, const Shared& sh, Local& l) {
  string out;
  if (o.pause & 1) { timespec t{0, (long)(o.pause % 60000)}; nanosleep(&t, nullptr); } else if (o.pause & 2) std::this_thread::yield();
  switch (o.kind) {
  case 0: case 1: out = hits_str(stream(ctx_of(l, sh, o.prog), o)); break;
  case 2: {                     // a context of its own, destroyed at once
    LG_ContextOptions co{~0ull, ~0ull}; LG_HCONTEXT c = lg_create_context(sh.progs[o.prog], &co); out = hits_str(stream(c, o)); lg_destroy_context(c); break;
  }
  case 3: { vector<Hit> h; Exact b(o.text); lg_starts_with(ctx_of(l, sh, o.prog), b.p, b.end(), o.off, &h, collect); std::sort(h.begin(), h.end()); out = hits_str(h); break; }
  case 4: case 5: {             // compile from scratch and search
    LG_HFSM f = lg_create_fsm(0, 0); LG_HPATTERN p = lg_create_pattern();
    for (auto& x : o.ps) {
      LG_Error* e = nullptr; int a = lg_parse_pattern(p, x.text.c_str(), &x.opts, &e), n = a > 0 ? lg_add_pattern(f, p, x.enc.c_str(), x.user, &e) : -9;
      out += std::to_string(a) + "," + std::to_string(n) + "," + err_str(e);
    }
    lg_destroy_pattern(p);
    LG_ProgramOptions po{o.depth}; LG_HPROGRAM g = lg_create_program(f, &po); lg_destroy_fsm(f);
    if (g) {
      string buf(lg_program_size(g), 0); lg_write_program(g, &buf[0]); out += "size " + std::to_string(buf.size()) + " ";
      LG_ContextOptions co{~0ull, ~0ull}; LG_HCONTEXT c = lg_create_context(g, &co); vector<Hit> h = stream(c, o); out += hits_str(h); lg_destroy_context(c);
      LG_HPROGRAM g2 = lg_read_program(&buf[0], buf.size()); LG_HCONTEXT c2 = lg_create_context(g2, &co); if (hits_str(stream(c2, o)) != hits_str(h)) out += "; read back differs"; lg_destroy_context(c2); lg_destroy_program(g2);
      lg_destroy_program(g);
    }
    break;
  }
  case 6: {                     // decode every hit
    vector<Hit> h = stream(ctx_of(l, sh, o.prog), o); string all; for (auto& s : o.chunks) all += s;
    if (!l.dec) l.dec = lg_create_decoder();
    Exact b(all);
    for (size_t i = 0; i < h.size() && i < 8; ++i) {
      LG_PatternInfo* pi = lg_prog_pattern_info(sh.progs[o.prog], h[i].k); LG_Window in{h[i].s, h[i].e}, outer, dh; const char* u = nullptr; LG_Error* e = nullptr;
      unsigned bad = lg_hit_context(l.dec, b.p, b.end(), o.off, &in, pi->EncodingChain, o.pre, 0xFFFD, &u, &outer, &dh, &e);
      out += string(pi->Pattern) + "/" + std::to_string(pi->UserIndex) + "/" + std::to_string(bad) + (u ? u : "null") + err_str(e); if (u) lg_free_hit_context_string(u);
    }
    break;
  }
  case 7: {                     // the shared program's description and serialization
    LG_HPROGRAM g = sh.progs[o.prog]; out = std::to_string(lg_prog_pattern_count(g)) + " ";
    for (int i = 0, n = lg_prog_pattern_count(g); i < n; ++i) { LG_PatternInfo* pi = lg_prog_pattern_info(g, i); out += string(pi->Pattern) + pi->EncodingChain + std::to_string(pi->UserIndex); }
    string buf(lg_program_size(g), 0); lg_write_program(g, &buf[0]); out += std::to_string(buf.size());
    break;
  }
  case 8: {                     // a pattern list with refusals in it
    LG_HFSM f = lg_create_fsm(0, 0); const char* encs[] = {"UTF-8", "UTF-16LE"}; LG_KeyOptions ko{0, 0, 1}; LG_Error* e = nullptr;
    int n = lg_add_pattern_list(f, o.text.c_str(), "list", encs, 2, &ko, &e); out = std::to_string(n) + err_str(e) + std::to_string(lg_fsm_pattern_count(f)); lg_destroy_fsm(f); break;
  }
  default: out = std::to_string(lg_get_encoding_id(o.text.c_str()));
  }
  return out;
}

string run_script(const vector<Op>& s, const Shared& sh, vector<string>& out, std::atomic<u32>* tick, vector<u32>* ticks) {
  Local l; l.ctx.resize(sh.progs.size());
  for (auto& o : s) { out.push_back(run_op(o, sh, l)); if (tick) ticks->push_back(tick->fetch_add(1, std::memory_order_relaxed)); }
  for (auto c : l.ctx) if (c) lg_destroy_context(c);
  lg_destroy_decoder(l.dec);
  return "";
}

void c_threads(Rng& r) {
  int alpha = r.range(2, 3); Shared sh; vector<string> bufs; vector<vector<GPat>> gens;
  static const char* special[] = {"\\p{L}+\\d", "(?i)k\\x{df}?", "[\\p{Greek}--\\p{Lu}]+", "\\N{LATIN SMALL LETTER A}b", "[^\\x{0}-\\x{60}]b?", "a\\w+?b", "\\p{Script=Han}"};
  static const char* encs[] = {"UTF-8", "UTF-16LE", "ISO-8859-1", "windows-1252", "Shift_JIS", "Big5", "UTF-32BE", "EUC-KR", "UTF-8|OCE", "KOI8-R", "ibm-37_P100-1995", "nosuch", "UTF-16BE"};
  auto special_pat = [&] {
    Pat p; p.text = special[r.below(7)]; p.enc = encs[r.below(13)]; p.opts.UnicodeMode = 1; p.opts.CaseInsensitive = r.chance(1, 2);
    bool utf = p.enc.compare(0, 4, "UTF-") == 0 && p.enc.find("OCE") == string::npos, oce = p.enc.find("OCE") != string::npos;   // wide sets are slow there
    if (oce || !r.chance(1, utf ? 3 : 12)) { p.text = r.pick(vector<string>{"a\\x{e9}?b", "[a-f\\x{e0}-\\x{ff}]b", "\\N{LATIN SMALL LETTER A}b", "k\\x{2126}?", "[[a-z]--[k-m]]+x"}); }
    return p;
  };
  int np = r.range(1, 3);
  R.current("building");
  for (int i = 0; i < np; ++i) {
    GOpt go; go.budget = 6; vector<GPat> g; for (int k = r.range(1, 4); k > 0; --k) g.push_back(gen_pat(r, go, alpha));
    vector<Pat> ps = pats(g); for (auto& p : ps) p.user = r.below(100);
    if (r.chance(1, 3)) { Pat p; do p = special_pat(); while (p.enc == "nosuch"); ps.push_back(p); }
    Fsm f; vector<Pat> ok; for (auto& p : ps) if (add(f, p) >= 0) ok.push_back(p);
    LG_ProgramOptions po{(u32)r.range(0, 4)}; LG_HPROGRAM p = ok.empty() ? nullptr : lg_create_program(f.h, &po); if (!p) continue;
    if (r.chance(1, 3)) { bufs.push_back(string(lg_program_size(p), 0)); lg_write_program(p, &bufs.back()[0]); lg_destroy_program(p); bufs.reserve(8); p = lg_read_program(&bufs.back()[0], bufs.back().size()); }
    sh.progs.push_back(p); sh.sets.push_back(ok); gens.push_back(g);
  }
  if (sh.progs.empty()) return;
  int T = r.range(3, 6); vector<vector<Op>> scripts(T); string what;
  for (auto& s : sh.sets) what += show(s) + " | ";
  for (auto& s : scripts) for (int k = r.range(3, 8); k > 0; --k) {
    Op o; o.kind = r.below(10); o.prog = r.below(sh.progs.size()); o.off = r.chance(1, 3) ? r.below(1 << 20) : 0; o.depth = r.range(0, 3); o.pause = r.next() >> 8; if (r.chance(1, 2)) o.pause &= ~3ull; o.pre = r.below(9);
    string t = gen_text(r, gens[o.prog], alpha, r.range(1, 120));
    o.chunks = split(t, r, r.chance(1, 2) ? 0 : 4); o.text = t;
    if (o.kind == 4 || o.kind == 5) { for (int j = r.range(1, 3); j > 0; --j) o.ps.push_back(r.chance(1, 2) ? special_pat() : r.pick(sh.sets[o.prog])); }
    if (o.kind == 8) { o.text.clear(); for (int j = r.range(1, 4); j > 0; --j) o.text += r.pick(vector<string>{"abc", "a(", "\\p{Lu}b\tUTF-16BE", "x\tnosuch", "k\tUTF-8\t0\t1\t1", "b*", "foo\tKOI8-R,UTF-8|OCE"}) + "\n"; }
    if (o.kind == 9) o.text = encs[r.below(13)];
    s.push_back(o); what += std::to_string(o.kind);
  }
  R.current("threads: " + what);
  vector<vector<string>> want(T), got(T); vector<vector<u32>> ticks(T);
  bool alone_first = r.chance(1, 2);
  auto alone = [&] { for (int i = 0; i < T; ++i) run_script(scripts[i], sh, want[i], nullptr, nullptr); };
  if (alone_first) alone();
  std::atomic<int> ready{0}; std::atomic<bool> go{false}; std::atomic<u32> tick{0}; vector<std::thread> th;
  for (int i = 0; i < T; ++i) th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (!go.load(std::memory_order_relaxed)) std::this_thread::yield(); run_script(scripts[i], sh, got[i], &tick, &ticks[i]); });
  while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : th) t.join();
  if (!alone_first) { R.current("alone: " + what); alone(); R.add("threads_before_the_single_thread"); }
  size_t ops = 0; vector<pair<u32, int>> order;
  for (int i = 0; i < T; ++i) {
    ops += scripts[i].size(); for (u32 t : ticks[i]) order.push_back({t, i});
    for (size_t k = 0; k < scripts[i].size(); ++k) if (got[i][k] != want[i][k]) {
      R.violation("threads:" + what, "thread " + std::to_string(i) + " operation " + std::to_string(k) + " (kind " + std::to_string(scripts[i][k].kind) + ") gave \"" + esc(got[i][k]) + "\", alone \"" + esc(want[i][k]) + "\": " + what); goto out;
    }
  }
  {
    std::sort(order.begin(), order.end()); string s; int sw = 0; for (size_t i = 0; i < order.size(); ++i) { s += (char)('0' + order[i].second); if (i && order[i].second != order[i - 1].second) ++sw; }
    R.see("interleavings", s); if (sw >= T) { R.see("nontrivial", s + what); R.add("thread_switches_between_operations", sw); }
    R.add("operations", ops); R.add("threads", T); for (auto& s2 : scripts) for (auto& o : s2) R.add("operation:" + std::string(o.kind < 2 ? "search" : o.kind == 2 ? "create context and search" : o.kind == 3 ? "starts with" : o.kind < 6 ? "compile" : o.kind == 6 ? "decode" : o.kind == 7 ? "describe" : o.kind == 8 ? "list" : "encoding name"));
    R.sample(what.substr(0, 300));
  }
out:
  for (auto p : sh.progs) lg_destroy_program(p);
}
Reg reg("threads", c_threads);
}
