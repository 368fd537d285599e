// Monitors over searches: C01-C09 and the incremental-FSM part of C17/C18.
#include "ref.h"
#include <limits>

static const u32 DEPTHS[] = {0, 1, 2, 3, 5, 10, 0xffffffffu};
static u32 pick_depth(Rng& r) { return DEPTHS[r.below(7)]; }
static string depth_str(u32 d) { return d == 0xffffffffu ? "max" : std::to_string(d); }

// C01: one pattern, against the reference
static void c01(Rng& r) {
  int alpha = r.range(2, 4);
  GOpt o; o.lazy = false; o.ci = r.chance(1, 3); o.fixed = false; o.encs = r.chance(1, 2);
  if (r.chance(1, 4)) o.budget = 16;
  GPat g = gen_pat(r, o, alpha);
  u32 depth = pick_depth(r);
  R.current(show(g.p) + " depth " + depth_str(depth));
  string msg;
  Prog prog = build({g.p}, depth, nullptr, &msg);
  if (!prog) { R.violation("refused:" + g.p.text, "pattern " + show(g.p) + ", which cannot match empty, is refused: " + msg); return; }
  Ctx ctx(prog);
  R.see("patterns", g.p.text + g.p.enc); R.add("patterns_tested"); R.add("enc:" + g.p.enc); R.add("depth:" + depth_str(depth));
  for (int t = 0; t < 5; ++t) {
    size_t len = r.chance(1, 10) ? r.range(60, 200) : r.range(1, 40);
    string d = gen_text(r, {g}, alpha, len);
    R.current(show(g.p) + " depth " + depth_str(depth) + " on " + esc(d));
    SearchOpts so; so.offset = r.chance(1, 5) ? r.below(1ull << 40) : 0;
    Trace tr = search(ctx.h, 1, split(d, r, r.chance(2, 3) ? 0 : 4), so);
    vector<Hit> want = ref_hits(g, d, 0, so.offset), got = sorted(tr.hits);
    R.add("searches"); R.add("expected_hits", want.size());
    if (!want.empty()) R.see("nontrivial", g.p.text + show(want));
    if (want != got) { R.violation("mismatch:" + g.p.text + ":" + hexs(d), show(g.p) + " depth " + depth_str(depth) + " on \"" + esc(d) + "\" expected " + show(want) + " got " + show(got)); return; }
  }
  R.sample(show(g.p));
}
static Reg reg_c01("single", c01);

// a set of patterns that all build; labels are their positions
static vector<GPat> gen_set(Rng& r, int& alpha, int lo, int hi, GOpt o = GOpt()) {
  alpha = r.range(2, 4);
  if (r.chance(1, 2)) o.encs = false;
  int k = r.range(lo, hi); vector<GPat> v;
  for (int i = 0; i < k; ++i) {
    GPat g;
    if (!v.empty() && r.chance(1, 5)) {          // same pattern again, an extension or a prefix of another
      g = r.pick(v);
      if (!g.p.opts.FixedString && !g.p.opts.CaseInsensitive && r.chance(2, 3)) {
        GOpt q = o; q.encs = q.ci = q.fixed = false; GPat x = gen_pat(r, q, alpha);
        g.n = r.chance(1, 2) ? mk_cat({g.n, x.n}) : mk_cat({x.n, g.n}); g.p.text = render(g.n); g.ref = !lazy_empty(g.n);
      }
    }
    else g = gen_pat(r, o, alpha);
    v.push_back(g);
  }
  return v;
}
static int set_weight(const vector<GPat>& v) { int w = 0; for (auto& g : v) w += weight(g.n); return w; }
static u32 safe_depth(Rng& r, const vector<GPat>& v) { u32 d = pick_depth(r); if (d > 10 && set_weight(v) > 60) d = 10; if (d > 3 && set_weight(v) > 160) d = 3; return d; }

// C02: every keyword's hits in a set are its hits alone
static void c02(Rng& r) {
  int alpha; GOpt o; o.lazy = r.chance(1, 3);
  vector<GPat> v = gen_set(r, alpha, 2, r.chance(1, 5) ? 14 : 6, o);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  string msg; Prog prog = build(pats(v), depth, nullptr, &msg, r.chance(1, 2) ? 0 : 50);
  if (!prog) { R.violation("refused:" + what, "set refused: " + msg + ": " + what); return; }
  vector<Prog> alone; for (auto& g : v) alone.push_back(build({g.p}, r.chance(1, 2) ? 0 : 10));
  Ctx ctx(prog);
  R.add("sets"); R.add("keywords", v.size()); R.see("sets", what);
  for (int t = 0; t < 4; ++t) {
    string d = gen_text(r, v, alpha, r.chance(1, 8) ? r.range(60, 250) : r.range(4, 50));
    R.current(what + " on " + esc(d));
    vector<Hit> got = sorted(search(ctx.h, v.size(), split(d, r, r.chance(2, 3) ? 0 : 4)).hits), want, refw;
    int kw = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      Ctx c1(alone[i]);
      auto h = sorted(search(c1.h, 1, {d}).hits); for (auto& x : h) x.k = i;
      if (!h.empty()) ++kw;
      want.insert(want.end(), h.begin(), h.end());
    }
    R.add("searches"); R.add("expected_hits", want.size());
    if (kw >= 2) R.see("nontrivial", what + show(want));
    if (want != got) { R.violation("set:" + hash_str(what + d) % 1000000 ? "set:" + what + ":" + hexs(d) : "", what + " on \"" + esc(d) + "\": hits in the set differ from the hits alone: " + show_diff(want, got)); return; }
  }
  R.sample(what);
}
static Reg reg_c02("multi", c02);

// C03: the way a stream is cut into buffers is invisible
static void c03(Rng& r) {
  int alpha; vector<GPat> v = gen_set(r, alpha, 1, 4);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog prog = build(pats(v), depth);
  if (!prog) { R.add("refused"); return; }
  Ctx ctx(prog);
  for (int t = 0; t < 2; ++t) {
    string d = gen_text(r, v, alpha, r.chance(1, 8) ? r.range(80, 300) : r.range(2, 50));
    SearchOpts so; so.offset = r.chance(1, 3) ? (r.chance(1, 2) ? (1ull << 32) - r.below(40) : r.below(1ull << 50)) : 0;
    R.current(what + " on " + esc(d));
    vector<Hit> want = sorted(search(ctx.h, v.size(), {d}, so).hits);
    R.add("expected_hits", want.size());
    vector<vector<string>> cuts;
    for (int m = 1; m <= 4; ++m) cuts.push_back(split(d, r, m));
    // every two-way cut of a short text
    if (d.size() <= 24) for (size_t i = 0; i <= d.size(); ++i) cuts.push_back({d.substr(0, i), d.substr(i)});
    else for (int i = 0; i < 6; ++i) { size_t k = r.below(d.size() + 1); cuts.push_back({d.substr(0, k), d.substr(k)}); }
    for (auto& c : cuts) {
      vector<Hit> got = sorted(search(ctx.h, v.size(), c, so).hits);
      R.add("searches"); R.add("buffers", c.size());
      if (!want.empty()) R.see("nontrivial", what + d + std::to_string(c.size()) + "/" + std::to_string(c[0].size()));
      if (got != want) {
        string cs; for (auto& x : c) cs += std::to_string(x.size()) + " ";
        R.violation("chunk:" + what + ":" + hexs(d), what + " on \"" + esc(d) + "\" at offset " + std::to_string(so.offset) + " cut into buffers of " + cs + ": " + show_diff(want, got)); return;
      }
    }
  }
  R.sample(what);
}
static Reg reg_c03("chunk", c03);

// C04: the determinization depth is invisible
static void c04(Rng& r) {
  int alpha; vector<GPat> v = gen_set(r, alpha, 1, r.chance(1, 3) ? 6 : 3);
  string what = show(pats(v));
  R.current(what);
  Prog p0 = build(pats(v), 0);
  if (!p0) { R.add("refused"); return; }
  vector<string> texts; vector<vector<Hit>> want;
  Ctx c0(p0);
  for (int t = 0; t < 6; ++t) { texts.push_back(gen_text(r, v, alpha, r.chance(1, 8) ? r.range(60, 200) : r.range(2, 50))); want.push_back(sorted(search(c0.h, v.size(), {texts.back()}).hits)); }
  int w = set_weight(v);
  for (u32 d : {1u, 2u, 3u, 4u, 5u, 7u, 10u, 20u, 0xffffffffu}) {
    if ((d > 10 && w > 60) || (d > 3 && w > 160)) continue;
    R.current(what + " depth " + depth_str(d));
    string msg; Prog p = build(pats(v), d, nullptr, &msg);
    if (!p) { R.violation("depthbuild:" + what, what + " builds at depth 0 but not at depth " + depth_str(d)); return; }
    R.add("programs");
    Ctx c(p);
    for (size_t t = 0; t < texts.size(); ++t) {
      R.current(what + " depth " + depth_str(d) + " on " + esc(texts[t]));
      auto got = sorted(search(c.h, v.size(), {texts[t]}).hits);
      R.add("searches"); R.add("expected_hits", want[t].size());
      if (!want[t].empty()) R.see("nontrivial", what + depth_str(d) + texts[t]);
      if (got != want[t]) { R.violation("depth:" + what + ":" + hexs(texts[t]), what + " on \"" + esc(texts[t]) + "\": depth 0 and depth " + depth_str(d) + " differ: " + show_diff(want[t], got)); return; }
    }
  }
  R.sample(what);
}
static Reg reg_c04("depth", c04);

// C05: a program read back is the program written
static void c05(Rng& r) {
  int alpha; vector<GPat> v = gen_set(r, alpha, 1, r.chance(1, 4) ? 10 : 4);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog p1 = build(pats(v), depth);
  if (!p1) { R.add("refused"); return; }
  u32 n = lg_program_size(p1.h);
  string b(n, '\x5a');
  { Exact e(b); lg_write_program(p1.h, e.p); b.assign(e.p, e.n); }
  auto bad = [&](const string& w) { R.violation("serial:" + what, what + ": " + w); };
  if (n == 0) { bad("program size 0"); return; }
  Exact store(b);
  Prog p2(lg_read_program(store.p, n));
  if (!p2) { bad("lg_read_program refuses what lg_write_program wrote"); return; }
  if (lg_program_size(p2.h) != n) { bad("size " + std::to_string(n) + " becomes " + std::to_string(lg_program_size(p2.h))); return; }
  { string b2(n, '\x33'); Exact e(b2); lg_write_program(p2.h, e.p); if (memcmp(e.p, b.data(), n)) { bad("writing it again gives other bytes"); return; } }
  R.add("programs"); R.add("program_bytes", n);
  if (lg_prog_pattern_count(p2.h) != v.size()) { bad("pattern count"); return; }
  for (size_t i = 0; i < v.size(); ++i) {
    LG_PatternInfo *a = lg_prog_pattern_info(p1.h, i), *c = lg_prog_pattern_info(p2.h, i);
    if (string(a->Pattern) != c->Pattern || string(a->EncodingChain) != c->EncodingChain || a->UserIndex != c->UserIndex) { bad("pattern info " + std::to_string(i)); return; }
    if (v[i].p.text != c->Pattern || v[i].p.enc != c->EncodingChain || v[i].p.user != c->UserIndex) { bad("pattern info " + std::to_string(i) + " is not what was added"); return; }
  }
  { Ctx c1(p1), c2(p2);
    for (int t = 0; t < 4; ++t) {
      string d = gen_text(r, v, alpha, r.range(2, 80));
      R.current(what + " on " + esc(d));
      auto cut = split(d, r, r.below(5));
      Trace t1 = search(c1.h, v.size(), cut), t2 = search(c2.h, v.size(), cut);
      R.add("searches"); R.add("expected_hits", t1.hits.size());
      if (!t1.hits.empty()) R.see("nontrivial", what + d);
      if (!(t1.hits == t2.hits) || t1.rets != t2.rets) { bad("on \"" + esc(d) + "\": " + show_diff(sorted(t1.hits), sorted(t2.hits))); return; }
      if (!(starts_with(c1.h, d, 7) == starts_with(c2.h, d, 7))) { bad("starts_with on \"" + esc(d) + "\""); return; }
    } }
  // a cut-off buffer is refused, and not read beyond its end
  for (int i = 0; i < 6; ++i) {
    u32 k = i == 0 ? n - 1 : i == 1 ? r.below(9) : i == 2 ? n - 1 - r.below(std::min<u32>(n - 1, 64)) : r.below(n);
    R.current(what + " truncated to " + std::to_string(k));
    Exact e(b.substr(0, k)); Prog p3(lg_read_program(e.p, k));
    R.add("truncated");
    if (p3) { bad("a buffer cut to " + std::to_string(k) + " of " + std::to_string(n) + " bytes is accepted"); return; }
  }
  // the program outlives its FSM, and the copy outlives the original
  { p1 = Prog(); Ctx c2(p2); string d = gen_text(r, v, alpha, 30); search(c2.h, v.size(), {d}); }
  R.sample(what);
}
static Reg reg_c05("serial", c05);

// C06: hits are well formed and ordered, whatever the workload
static vector<Pat> wild_set(Rng& r, vector<GPat>& v, int& alpha);
static void c06(Rng& r) {
  int alpha; vector<GPat> v = gen_set(r, alpha, 1, r.chance(1, 4) ? 12 : 5);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog prog = build(pats(v), depth);
  if (!prog) { R.add("refused"); return; }
  Ctx ctx(prog);
  for (int t = 0; t < 3; ++t) {
    string d = gen_text(r, v, alpha, r.chance(1, 4) ? r.range(200, 2000) : r.range(2, 60));
    SearchOpts so; so.offset = r.chance(1, 3) ? r.below(1ull << 60) : 0;
    R.current(what + " on " + esc(d));
    Trace tr = search(ctx.h, v.size(), split(d, r, r.below(5)), so);
    R.add("traces"); if (tr.hits.size() > 1) R.see("nontrivial", what + show(tr.hits));
    if (!tr.bad.empty()) { R.violation("trace:" + what + ":" + hexs(d), what + " on \"" + esc(d) + "\": " + tr.bad + " in " + show(tr.hits)); return; }
  }
  R.sample(what);
}
static Reg reg_c06("trace", c06);

// C07: what lg_search and lg_search_resolve return
static void c07(Rng& r) {
  int alpha; GOpt o; vector<GPat> v = gen_set(r, alpha, 1, r.chance(1, 4) ? 8 : 3, o);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog prog = build(pats(v), depth);
  if (!prog) { R.add("refused"); return; }
  Ctx ctx(prog);
  size_t L = 0; for (auto& g : v) { size_t x = max_len(g.n, g.c == codec_ascii() || g.c == codec_latin1() ? 1 : 4); L = x == string::npos || L == string::npos ? string::npos : std::max(L, x); }
  vector<Ref> refs; for (auto& g : v) refs.emplace_back(g.n, g.c);
  for (int t = 0; t < 4; ++t) {
    string d = gen_text(r, v, alpha, r.range(2, 60));
    u64 off = r.chance(1, 3) ? r.below(1ull << 40) : 0;
    R.current(what + " on " + esc(d));
    auto cut = split(d, r, 1 + r.below(4));
    SearchOpts so; so.offset = off;
    Trace tr = search(ctx.h, v.size(), cut, so);
    auto bad = [&](const string& w) { R.violation("ret:" + what + ":" + hexs(d), what + " on \"" + esc(d) + "\" offset " + std::to_string(off) + ": " + w); };
    if (!tr.badret.empty()) { bad(tr.badret); return; }
    R.add("returns", tr.rets.size());
    u64 end = off;
    for (size_t i = 0; i < cut.size(); ++i) {
      end += cut[i].size();
      if (tr.rets[i] < end) R.see("nontrivial", what + d + std::to_string(end));
      // with matches of at most L bytes, starts older than that are settled
      if (L != string::npos && tr.rets[i] + L < end) { bad("returned " + std::to_string(tr.rets[i]) + " at " + std::to_string(end) + " although no match is longer than " + std::to_string(L)); return; }
      // nor may it be older than the oldest place where a match can still be under way
      if (i < 8 || i + 1 == cut.size()) {
        string pre = d.substr(0, end - off); size_t p = 0;
        for (; p < pre.size(); ++p) { bool live = false; for (auto& rf : refs) live = live || rf.alive(pre, p); if (live) break; }
        R.add("staleness_checks"); if (p > 0) R.add("staleness_checks_nonzero"); if (tr.rets[i] == off + p) R.add("returns_exactly_the_oldest_open_start");
        if (tr.rets[i] < off + p) { bad("returned " + std::to_string(tr.rets[i]) + " at " + std::to_string(end) + " although no match beginning before " + std::to_string(off + p) + " can still be under way"); return; }
      }
    }
    // lg_search_resolve(head, tail): exactly the hits of the whole that begin in the head
    vector<Hit> all = sorted(search(ctx.h, v.size(), {d}, so).hits);
    for (int q = 0; q < 4; ++q) {
      size_t k = r.below(d.size() + 1);
      string head = d.substr(0, k), tail = d.substr(k);
      vector<Hit> got, want; for (auto& h : all) if (h.s < off + k) want.push_back(h);
      lg_reset_context(ctx.h);
      { Exact b(head); lg_search(ctx.h, b.p, b.end(), off, &got, collect); }
      size_t n1 = got.size();
      u64 rr;
      if (r.chance(1, 2)) { Exact b(tail); rr = lg_search_resolve(ctx.h, b.p, b.end(), off + k, &got, collect); }
      else { rr = off + k; u64 o2 = off + k; for (auto& c : split(tail, r, 4)) { Exact b(c); rr = lg_search_resolve(ctx.h, b.p, b.end(), o2, &got, collect); o2 += c.size(); } }
      size_t n2 = got.size();
      lg_closeout_search(ctx.h, &got, collect);
      for (size_t i = n2; i < got.size(); ++i) if (got[i].s < rr) R.add("closeout_after_resolve");
      R.add("resolves"); R.add("resolved_hits", got.size() - n1);
      if (got.size() > n1) R.see("nontrivial", what + d + "r" + std::to_string(k));
      got = sorted(got);
      if (got != want) { bad("search of " + std::to_string(k) + " bytes then resolve of the rest: " + show_diff(want, got)); return; }
    }
  }
  R.sample(what);
}
static Reg reg_c07("ret", c07);

// C08: lg_starts_with = the matches beginning at the first byte
static void c08(Rng& r) {
  int alpha; GOpt o; o.lazy = r.chance(1, 3); vector<GPat> v = gen_set(r, alpha, 1, r.chance(1, 3) ? 8 : 3, o);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog prog = build(pats(v), depth);
  if (!prog) { R.add("refused"); return; }
  vector<Prog> alone; for (auto& g : v) alone.push_back(build({g.p}, 0));
  Ctx ctx(prog);
  for (int t = 0; t < 6; ++t) {
    string d = gen_text(r, v, alpha, r.range(1, 30));
    if (r.chance(1, 4)) d.resize(std::min<size_t>(d.size(), r.range(1, 4)));
    u64 off = r.chance(1, 3) ? r.below(1ull << 40) : 0;
    R.current(what + " on " + esc(d));
    if (r.chance(1, 3)) { vector<Hit> junk; Exact b(d); lg_search(ctx.h, b.p, b.end(), 5, &junk, collect); R.add("after_unfinished_search"); }
    vector<Hit> got = sorted(starts_with(ctx.h, d, off)), want;
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i].ref) { size_t e = Ref(v[i].n, v[i].c).at(d, 0); if (e != string::npos) want.push_back(Hit{off, off + e, (u32)i}); }
      else { Ctx c1(alone[i]); auto h = sorted(search(c1.h, 1, {d}).hits); if (!h.empty() && h[0].s == 0) want.push_back(Hit{off, off + h[0].e, (u32)i}); }
    }
    R.add("calls"); R.add("expected_hits", want.size()); if (want.empty()) R.add("calls_without_match");
    if (!want.empty()) R.see("nontrivial", what + show(want) + std::to_string(d.size()));
    if (want != got) { R.violation("starts:" + what + ":" + hexs(d), what + " starts_with on \"" + esc(d) + "\": expected " + show(want) + " got " + show(got)); return; }
  }
  R.sample(what);
}
static Reg reg_c08("starts", c08);

// C09: contexts are independent, and reset forgets everything
static void c09(Rng& r) {
  int alpha; vector<GPat> v = gen_set(r, alpha, 1, 4);
  u32 depth = safe_depth(r, v);
  string what = show(pats(v)) + " depth " + depth_str(depth);
  R.current(what);
  Prog prog = build(pats(v), depth);
  if (!prog) { R.add("refused"); return; }
  struct S { LG_HCONTEXT h; string log; string d; size_t pos; u64 off; vector<Hit> got; bool open; };
  int n = r.range(1, 3); vector<S> cs;
  for (int i = 0; i < n; ++i) { Ctx c(prog); cs.push_back(S{c.h, "", "", 0, 0, {}, false}); c.h = nullptr; }
  auto fresh = [&](const string& d, u64 off, bool sw) { Ctx c(prog); SearchOpts so; so.offset = off; return sw ? sorted(starts_with(c.h, d, off)) : sorted(search(c.h, v.size(), {d}, so).hits); };
  bool failed = false;
  for (int step = 0; step < 40 && !failed; ++step) {
    S& s = cs[r.below(n)];
    R.current(what + " ops " + s.log);
    if (!s.open) {                       // after a reset, a starts_with, or new
      if (r.chance(1, 3)) {
        string d = gen_text(r, v, alpha, r.range(1, 25)); u64 off = r.below(1000);
        auto got = sorted(starts_with(s.h, d, off)); s.log += " starts_with(" + esc(d) + ")"; R.add("ops:starts_with");
        auto want = fresh(d, off, true);
        if (got != want) { R.violation("reuse:" + what, what + " after" + s.log + ": starts_with gives " + show(got) + " and a fresh context " + show(want)); failed = true; }
        continue;
      }
      s.d = gen_text(r, v, alpha, r.range(1, 40)); s.pos = 0; s.off = r.chance(1, 2) ? 0 : r.below(100000); s.got.clear(); s.open = true;
      s.log += " open(" + esc(s.d) + ")";
    }
    else switch (r.below(10)) {
    case 0: lg_reset_context(s.h); s.open = false; s.log += " reset"; R.add("ops:abandon"); break;
    case 1: { // starts_with on a half-finished context resets it
      string d = gen_text(r, v, alpha, r.range(1, 25));
      auto got = sorted(starts_with(s.h, d, 3)); s.log += " starts_with!(" + esc(d) + ")"; R.add("ops:starts_with_midway");
      auto want = fresh(d, 3, true);
      if (got != want) { R.violation("reuse:" + what, what + " after" + s.log + ": starts_with gives " + show(got) + " and a fresh context " + show(want)); failed = true; }
      s.open = false; break; }
    default: {
      size_t k = std::min<size_t>(s.d.size() - s.pos, r.range(0, 12));
      if (s.pos + k < s.d.size() || r.chance(1, 3)) { Exact b(s.d.substr(s.pos, k)); lg_search(s.h, b.p, b.end(), s.off + s.pos, &s.got, collect); s.pos += k; R.add("ops:search"); break; }
      { Exact b(s.d.substr(s.pos, k)); lg_search(s.h, b.p, b.end(), s.off + s.pos, &s.got, collect); s.pos += k; }
      lg_closeout_search(s.h, &s.got, collect);
      lg_reset_context(s.h); s.open = false; s.log += " close"; R.add("ops:complete");
      auto want = fresh(s.d, s.off, false); auto got = sorted(s.got);
      R.add("expected_hits", want.size());
      if (!want.empty()) R.see("nontrivial", what + s.log);
      if (got != want) { R.violation("reuse:" + what, what + " after" + s.log + ": " + show_diff(want, got) + " compared with a fresh context"); failed = true; }
    } }
  }
  for (auto& s : cs) lg_destroy_context(s.h);
  R.sample(what);
}
static Reg reg_c09("reuse", c09);

// C18: programs compiled from one growing FSM
static const char* BAD[] = {"+a", "(a", "a)", "[a", "a{2", "a*", "(a?)*", "[]", "\\", "a|b*", "a{3,2}", "[b-a]", "\\x{110000}x", "\\p{Nope}", "()", "a**{", "(?<=a*)b", "\\z1", "(b"};
static void c18(Rng& r) {
  int alpha; GOpt o; vector<GPat> pool = gen_set(r, alpha, 2, 7, o);
  Fsm f(r.below(20), r.below(200)); vector<GPat> in; string log;
  struct PS { Prog p; size_t n; u32 depth; };
  vector<PS> progs;
  auto bad = [&](const string& w) { R.violation("fsm:" + log, "FSM history" + log + ": " + w); };
  for (auto& g : pool) {
    R.current(log);
    if (r.chance(1, 3)) {         // a refused pattern leaves no trace
      Pat q; q.text = BAD[r.below(sizeof BAD / sizeof *BAD)]; q.user = 99; if (r.chance(1, 3)) { q.text = "ab"; q.enc = r.chance(1, 2) ? "no-such-encoding" : "XOR"; }
      string m; int l = add(f, q, &m); log += " !" + show(q);
      if (l >= 0) { R.add("unexpectedly_accepted"); R.see("accepted", q.text); bad("invalid pattern " + show(q) + " accepted"); return; }
      if (m.size() < 8) { bad("no message for a refused pattern"); return; }
      R.add("refusals");
    }
    if (r.chance(1, 6)) {         // one character that the encoding lacks
      Pat q; q.text = "a\\x{4e2d}b"; q.enc = "ISO-8859-1"; string m; int l = add(f, q, &m); log += " !" + show(q);
      if (l >= 0) { bad("unencodable pattern accepted"); return; } R.add("refusals");
    }
    string m; int l = add(f, g.p, &m); log += " +" + show(g.p);
    if (l < 0) { bad("refused: " + m); return; }
    if ((size_t)l != in.size()) { bad("label " + std::to_string(l) + " instead of " + std::to_string(in.size())); return; }
    in.push_back(g);
    if (lg_fsm_pattern_count(f.h) != in.size()) { bad("pattern count " + std::to_string(lg_fsm_pattern_count(f.h))); return; }
    LG_PatternInfo* pi = lg_fsm_pattern_info(f.h, l);
    if (g.p.text != pi->Pattern || g.p.enc != pi->EncodingChain || g.p.user != pi->UserIndex) { bad("pattern info"); return; }
    pi->UserIndex = pi->UserIndex;
    if (r.chance(1, 2) || in.size() == pool.size()) {
      u32 d = safe_depth(r, in); if (d > 10 && set_weight(in) > 25) d = 10; LG_ProgramOptions po{d};
      log += " compile@" + depth_str(d); R.current(log);
      Prog p(lg_create_program(f.h, &po)); if (!p) { bad("no program"); return; }
      progs.push_back(PS{std::move(p), in.size(), d});
    }
  }
  for (auto& ps : progs) {
    if (lg_prog_pattern_count(ps.p.h) != ps.n) { bad("program made after " + std::to_string(ps.n) + " patterns has " + std::to_string(lg_prog_pattern_count(ps.p.h))); return; }
    for (size_t i = 0; i < ps.n; ++i) { LG_PatternInfo* pi = lg_prog_pattern_info(ps.p.h, i); if (in[i].p.text != pi->Pattern || in[i].p.enc != pi->EncodingChain || in[i].p.user != pi->UserIndex) { bad("program pattern info " + std::to_string(i)); return; } }
    vector<GPat> sub(in.begin(), in.begin() + ps.n);
    Prog fresh = build(pats(sub), 0); if (!fresh) { bad("fresh build failed"); return; }
    Ctx a(ps.p), b(fresh);
    for (int t = 0; t < 3; ++t) {
      string d = gen_text(r, in, alpha, r.range(2, 60)); R.current(log + " on " + esc(d));
      auto got = sorted(search(a.h, ps.n, {d}).hits), want = sorted(search(b.h, ps.n, {d}).hits);
      R.add("searches"); R.add("expected_hits", want.size()); if (progs.size() > 1 && !want.empty()) R.see("nontrivial", log + d);
      if (got != want) { bad("program made after " + std::to_string(ps.n) + " patterns, on \"" + esc(d) + "\": " + show_diff(want, got)); return; }
    }
    R.add("programs");
  }
  R.sample(log);
}
static Reg reg_c18("incr", c18);
