// The searches again, at sizes where counters, offsets and tables grow past 8, 16 and more bits:
// thousands of patterns, patterns of thousands of characters, matches of hundreds of kilobytes.
// The patterns are of kinds whose hits can be worked out directly from the text.
#include "lgm.h"
#include <functional>

namespace {
typedef vector<pair<u64, u64>> Spans;
struct Big { vector<Pat> ps; vector<std::function<Spans(const string&)>> want; string text, kind; bool dict = false; std::unordered_map<string, vector<u32>> words; std::set<size_t> lens; };

string enc_of(const string& s, int e) { if (!e) return s; string t; for (char c : s) { if (e == 2) t += '\0'; t += c; if (e == 1) t += '\0'; } return t; }

// many words, some with a choice of two or three letters at one place
void words(Rng& r, Big& b, int force = 0) {
  static const int N[] = {30, 255, 256, 257, 300, 700, 1500, 4000};
  int n = N[r.below(R.thorough || r.chance(1, 6) ? 8 : 6)];
  if (R.thorough && r.chance(1, 30)) n = 66000;
  if (force) n = force;
  int k = r.range(3, 26), lo = n > 2000 ? 3 : n > 100 ? 2 : 1, hi = r.chance(1, 5) ? 30 : 9; bool long_ = n <= 30 && r.chance(1, 2);
  b.dict = true; b.kind = "words"; vector<string> some;
  auto word = [&](int len) { string s; for (int i = 0; i < len; ++i) s += (char)('a' + r.below(k)); return s; };
  bool encs = r.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    string w = word(long_ ? r.range(1, 3000) : r.range(lo, hi)); int e = encs ? (int)r.below(3) : 0;
    if (!some.empty() && r.chance(1, 4)) w = r.pick(some).substr(0, r.range(lo, hi)) + word(r.range(0, 3));
    Pat p; p.enc = e == 0 ? (r.chance(1, 2) ? "US-ASCII" : "UTF-8") : e == 1 ? "UTF-16LE" : "UTF-16BE"; p.user = r.chance(1, 2) ? i : r.next();
    vector<string> all{w};
    if (r.chance(1, 4)) { size_t at = r.below(w.size()); string cl; for (int j = r.range(2, 3); j > 0; --j) { char c = 'a' + r.below(k); if (cl.find(c) == string::npos) cl += c; }
      p.text = w.substr(0, at) + "[" + cl + "]" + w.substr(at + 1); all.clear(); for (char c : cl) { string x = w; x[at] = c; all.push_back(x); } }
    else { p.text = w; p.opts.FixedString = r.chance(1, 2); }
    b.ps.push_back(p);
    for (auto& x : all) { string y = enc_of(x, e); b.words[y].push_back(i); b.lens.insert(y.size()); if (some.size() < 3000 || r.chance(1, 20)) some.push_back(x); }
  }
  size_t len = r.range(2000, r.chance(1, 4) ? 60000 : 8000);
  while (b.text.size() < len) { string w = enc_of(r.pick(some), encs ? (int)r.below(3) : 0); if (r.chance(1, 4)) w.resize(r.below(w.size()) + 1); b.text += w; if (r.chance(1, 3)) b.text += (char)('a' + r.below(k)); if (r.chance(1, 20)) b.text += (char)r.below(256); }
}

Spans runs(const string& t, u64 lo, u64 hi, const std::function<bool(u8)>& in) {
  Spans o; for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && j - i < hi && in((u8)t[j])) ++j; if (j - i >= lo && j > i) { o.push_back({i, j}); i = j; } else if (j > i && j - i < hi) i = j + 1; else ++i; } return o;
}
// patterns with long matches
void longs(Rng& r, Big& b) {
  b.kind = "long";
  int n = r.range(1, 5);
  size_t len = r.chance(1, 4) ? r.range(60000, 400000) : r.range(3000, 40000);
  bool heavy = false; vector<int> sizes;
  for (int i = 0; i < n; ++i) {
    Pat p; p.user = i; p.opts = LG_KeyOptions{0, 0, 0};
    char q = "qrs"[r.below(3)], z = "zy"[r.below(2)];
    static const int NS[] = {2, 3, 10, 100, 126, 127, 128, 250, 255, 256, 257, 500, 1000, 4000};
    int m = NS[r.below(14)], m2 = m + (r.chance(1, 2) ? r.range(0, 5) : r.range(0, m));
    std::function<Spans(const string&)> f;
    switch (r.below(8)) {
    case 0: p.text = string(1, q) + "[^" + z + "]*" + z;
      f = [q, z](const string& t) { Spans o; for (size_t i = 0; (i = t.find(q, i)) != string::npos;) { size_t e = t.find(z, i); if (e == string::npos) break; o.push_back({i, e + 1}); i = e + 1; } return o; }; break;
    case 1: p.text = string(1, q) + ".*" + z;
      f = [q, z](const string& t) { Spans o; size_t i = t.find(q), e = t.rfind(z); if (i != string::npos && e != string::npos && e > i) o.push_back({i, e + 1}); return o; }; break;
    case 2: p.text = string(1, q) + ".*?" + z;
      f = [q, z](const string& t) { Spans o; for (size_t i = 0; (i = t.find(q, i)) != string::npos;) { size_t e = t.find(z, i); if (e == string::npos) break; o.push_back({i, e + 1}); i = e + 1; } return o; }; break;
    case 3: p.text = "a{" + std::to_string(m) + "}"; sizes.push_back(m);
      f = [m](const string& t) { return runs(t, m, m, [](u8 c) { return c == 'a'; }); }; break;
    case 4: p.text = "a{" + std::to_string(m) + "," + std::to_string(m2) + "}"; sizes.push_back(m); sizes.push_back(m2);
      f = [m, m2](const string& t) { return runs(t, m, m2, [](u8 c) { return c == 'a'; }); }; break;
    case 5: p.text = "[ab]{" + std::to_string(m) + ",}"; sizes.push_back(m);
      f = [m](const string& t) { return runs(t, m, ~0ull, [](u8 c) { return c == 'a' || c == 'b'; }); }; break;
    case 6: p.text = "[a-p]+";
      f = [](const string& t) { return runs(t, 1, ~0ull, [](u8 c) { return c >= 'a' && c <= 'p'; }); }; break;
    default: if (m > 300) m = 300; if (heavy) m %= 20; heavy |= m > 50; sizes.push_back(m);
      p.text = string(1, q) + ".{" + std::to_string(m) + "}" + z;
      f = [q, z, m](const string& t) { Spans o; for (size_t i = 0; i + m + 1 < t.size();) { if (t[i] == q && t[i + m + 1] == z) { o.push_back({i, i + m + 2}); i += m + 2; } else ++i; } return o; };
    }
    b.ps.push_back(p); b.want.push_back(f);
  }
  if (heavy) len = std::min<size_t>(len, 12000);
  int rare = r.range(1, 3);
  while (b.text.size() < len) {
    u64 w = r.below(12);
    if (w < 3) { int k = sizes.empty() || r.chance(1, 3) ? r.range(1, 400) : std::max(1, r.pick(sizes) * r.range(1, 2) + r.range(-1, 1)); b.text += string(k, 'a'); }
    else if (w < 5) { int k = r.range(1, sizes.empty() ? 500 : std::min(9000, r.pick(sizes) + 3)); for (int i = 0; i < k; ++i) b.text += r.chance(1, 2) ? 'a' : 'b'; }
    else if (w < 7) { int k = r.range(1, 3000); for (int i = 0; i < k; ++i) b.text += (char)('a' + r.below(16)); }
    else if (w < 9) b.text += ' ';
    else if (rare > 1 || r.chance(1, 6)) { if (r.chance(1, 2)) b.text += "qrs"[r.below(3)]; else b.text += "zy"[r.below(2)]; if (r.chance(1, 8)) rare = rare == 1 ? 2 : 1; }
    else if (r.chance(1, 2)) { char q = "qrs"[r.below(3)], z = "zy"[r.below(2)]; int k = sizes.empty() ? r.range(0, 300) : r.pick(sizes) + r.range(-1, 1); b.text += q + string(std::max(0, k), r.chance(1, 2) ? 'a' : 'o') + z; }
  }
}
Big gen(Rng& r, int force) { Big b; if (force) { words(r, b, force); return b; } if (r.chance(1, 2)) words(r, b); else longs(r, b); return b; }

vector<Hit> expected(const Big& b, const string& t, u64 off) {
  vector<Hit> h;
  if (b.dict) {
    vector<u64> done(b.ps.size(), 0);
    for (size_t i = 0; i < t.size(); ++i) for (size_t l : b.lens) {
      if (i + l > t.size()) break;
      auto it = b.words.find(t.substr(i, l)); if (it == b.words.end()) continue;
      for (u32 k : it->second) if (done[k] <= i) { done[k] = i + l; h.push_back(Hit{off + i, off + i + l, k}); }
    }
  } else for (size_t k = 0; k < b.want.size(); ++k) for (auto& s : b.want[k](t)) h.push_back(Hit{off + s.first, off + s.second, (u32)k});
  return sorted(h);
}
string what(const Big& b, u32 depth) { string s = std::to_string(b.ps.size()) + " patterns (" + b.kind + "), first " + show(vector<Pat>(b.ps.begin(), b.ps.begin() + std::min<size_t>(b.ps.size(), 5))).substr(0, 600) + ", depth " + std::to_string(depth) + ", text of " + std::to_string(b.text.size()); return s; }
vector<string> cuts(Rng& r, const string& d) {
  vector<string> v; static const size_t S[] = {1, 7, 255, 256, 4096, 65535, 65536, 65537}; size_t m = S[r.below(8)]; if (m < 8 && d.size() > 20000) m = 255;
  bool fixed = r.chance(1, 2);
  for (size_t i = 0; i < d.size();) { size_t n = fixed ? m : 1 + r.below(2 * m); v.push_back(d.substr(i, n)); i += n; if (r.chance(1, 50)) v.push_back(""); }
  return v;
}
u64 start(Rng& r, u64 len) { static const u64 S[] = {0, 0, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 48}; u64 s = S[r.below(7)]; if (s) s -= r.below(std::min(len, s)); return s; }

// mode 0: against the expected hits; 1: cuttings; 2: read back; 3: other depths
void big(Rng& r, int mode, int force = 0) {
  Big b = gen(r, force); static const u32 D[] = {0, 1, 2, 3, 4};
  u32 depth = D[r.below(b.dict ? 5 : 3)]; if (b.dict && r.chance(1, 3) && b.ps.size() <= 2000) depth = 0xffffffffu;
  string w = what(b, depth); R.current(w);
  vector<int> labels; string msg; Prog p = build(b.ps, depth, &labels, &msg, r.chance(1, 2) ? (u32)r.below(1000) : 0, !b.dict);
  if (!p) { R.violation("big:refused", w + ": no program: " + msg); return; }
  for (size_t i = 0; i < labels.size(); ++i) if (labels[i] != (int)i) { R.violation("big:label", w + ": pattern " + std::to_string(i) + " " + show(b.ps[i]) + " gets the index " + std::to_string(labels[i]) + " " + msg); return; }
  R.add("programs"); R.mx("patterns", b.ps.size()); R.mx("program_bytes", lg_program_size(p.h)); R.mx("text", b.text.size()); R.add("kind:" + b.kind);
  u64 off = start(r, b.text.size()); SearchOpts so; so.offset = off;
  auto judge = [&](const string& name, const vector<Hit>& want, const Trace& t) {
    vector<Hit> got = sorted(t.hits); R.add("expected_hits", want.size()); R.add("searches");
    for (auto& h : want) R.mx("match", h.e - h.s);
    if (!want.empty()) R.see("nontrivial", w + name);
    if (got != want) { R.violation("big:" + name, w + ", " + name + ", start " + std::to_string(off) + ": " + show_diff(want, got)); return false; }
    if (!t.bad.empty() || !t.badret.empty()) { R.violation("big:trace", w + ", " + name + ": " + t.bad + t.badret); return false; }
    return true;
  };
  Ctx c(p);
  if (mode == 0) {
    if (!judge("whole", expected(b, b.text, off), search(c.h, b.ps.size(), {b.text}, so))) return;
    string d = b.text.substr(r.below(b.text.size()), 1 + r.below(5000));           // the same context, another text
    judge("the next text", expected(b, d, off), search(c.h, b.ps.size(), {d}, so));
  } else {
    vector<Hit> want = sorted(search(c.h, b.ps.size(), {b.text}, so).hits);
    if (mode == 1) for (int i = 0; i < 3; ++i) { if (!judge("cut", want, search(c.h, b.ps.size(), cuts(r, b.text), so))) return; }
    else if (mode == 2) {
      u32 n = lg_program_size(p.h); string img(n, 0); lg_write_program(p.h, &img[0]); p = Prog();
      Exact e(img); Prog q(lg_read_program(e.p, n));
      if (!q) { R.violation("big:read", w + ": not read back"); return; }
      if (lg_program_size(q.h) != n || lg_prog_pattern_count(q.h) != b.ps.size()) { R.violation("big:read", w + ": size or count differ"); return; }
      for (size_t i = 0; i < b.ps.size(); ++i) { LG_PatternInfo* pi = lg_prog_pattern_info(q.h, i); if (b.ps[i].text != pi->Pattern || b.ps[i].enc != pi->EncodingChain || b.ps[i].user != pi->UserIndex) { R.violation("big:info", w + ": pattern information " + std::to_string(i) + " differs"); return; } }
      Ctx c2(q); judge("read back", want, search(c2.h, b.ps.size(), {b.text}, so));
    } else for (int i = 0; i < 2; ++i) {
      u32 d2 = D[r.below(b.dict ? 5 : 3)]; Prog q = build(b.ps, d2); if (!q) { R.violation("big:refused", w + ": no program at another depth"); return; }
      Ctx c2(q); if (!judge("depth " + std::to_string(d2), want, search(c2.h, b.ps.size(), {b.text}, so))) return;
    }
  }
  R.sample(w.substr(0, 200));
}
// more patterns than 16 bits can number
void b4(Rng& r) { static const int N[] = {65535, 65536, 65537, 65600, 66000, 70000}; big(r, 0, N[r.below(6)]); }
void b5(Rng& r) { static const int N[] = {65535, 65536, 65537, 65600}; big(r, 2, N[r.below(4)]); }
void b0(Rng& r) { big(r, 0); } void b1(Rng& r) { big(r, 1); } void b2(Rng& r) { big(r, 2); } void b3(Rng& r) { big(r, 3); }
Reg g0("big", b0), g1("bigcut", b1), g2("bigserial", b2), g3("bigdepth", b3), g4("huge", b4), g5("hugeserial", b5);
}
