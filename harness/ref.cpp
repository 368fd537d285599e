#include "ref.h"

NodeP mk_set(const CpSet& c, const string& t) { auto n = std::make_shared<Node>(); n->k = Node::SET; n->cps = c; n->text = t; return n; }
NodeP mk_bytes(const Bytes& b, const string& t) { auto n = std::make_shared<Node>(); n->k = Node::SET; n->bytes = b; n->text = t; return n; }
NodeP mk_cat(vector<NodeP> v) { if (v.size() == 1) return v[0]; auto n = std::make_shared<Node>(); n->k = Node::CAT; n->kid = v; return n; }
NodeP mk_alt(vector<NodeP> v) { if (v.size() == 1) return v[0]; auto n = std::make_shared<Node>(); n->k = Node::ALT; n->kid = v; return n; }
NodeP mk_rep(NodeP c, int mn, int mx, bool ng) { auto n = std::make_shared<Node>(); n->k = Node::REP; n->kid = {c}; n->mn = mn; n->mx = mx; n->ng = ng; return n; }

static string group(const Node& n, const string& s) { return "(" + s + ")"; }
string render(const NodeP& n) {
  switch (n->k) {
  case Node::SET: return n->text;
  case Node::CAT: { string s; for (auto& c : n->kid) s += c->k == Node::ALT ? group(*c, render(c)) : render(c); return s; }
  case Node::ALT: { string s; for (size_t i = 0; i < n->kid.size(); ++i) { if (i) s += '|'; s += render(n->kid[i]); } return s; }
  case Node::REP: {
    const NodeP& c = n->kid[0];
    string s = render(c);
    if (c->k != Node::SET) s = group(*c, s);
    if (n->mn == 0 && n->mx == -1) s += "*";
    else if (n->mn == 1 && n->mx == -1) s += "+";
    else if (n->mn == 0 && n->mx == 1) s += "?";
    else if (n->mx == -1) s += "{" + std::to_string(n->mn) + ",}";
    else if (n->mn == n->mx) s += "{" + std::to_string(n->mn) + "}";
    else s += "{" + std::to_string(n->mn) + "," + std::to_string(n->mx) + "}";
    if (n->ng) s += "?";
    return s;
  }
  }
  return "";
}
bool nullable(const NodeP& n) {
  switch (n->k) {
  case Node::SET: return false;
  case Node::CAT: for (auto& c : n->kid) if (!nullable(c)) return false; return true;
  case Node::ALT: for (auto& c : n->kid) if (nullable(c)) return true; return false;
  case Node::REP: return n->mn == 0 || nullable(n->kid[0]);
  }
  return false;
}
int weight(const NodeP& n) {
  switch (n->k) {
  case Node::SET: return 1;
  case Node::CAT: case Node::ALT: { int w = 0; for (auto& c : n->kid) w += weight(c); return w; }
  case Node::REP: return std::min(100000, weight(n->kid[0]) * std::max(n->mx == -1 ? n->mn + 1 : n->mx, 1));
  }
  return 0;
}
bool empty_trouble(const NodeP& n) {
  for (auto& c : n->kid) if (empty_trouble(c)) return true;
  if (n->k == Node::REP && nullable(n->kid[0])) return true;
  if (n->k == Node::REP && n->mx == 0) return true;
  return false;
}
static bool greedy_only(const NodeP& n) {
  if (n->k == Node::REP && n->ng) return false;
  if (n->k == Node::ALT) for (size_t i = 0; i + 1 < n->kid.size(); ++i) if (nullable(n->kid[i])) return false;
  for (auto& c : n->kid) if (!greedy_only(c)) return false;
  return true;
}
bool lazy_empty(const NodeP& n) {
  for (auto& c : n->kid) if (lazy_empty(c)) return true;
  if (n->k == Node::REP && n->mx == 0) return true;
  return n->k == Node::REP && n->mx == -1 && nullable(n->kid[0]) && !greedy_only(n->kid[0]);
}
string sample(const NodeP& n, Rng& r, const Codec& c) {
  switch (n->k) {
  case Node::SET: {
    if (n->bytes.any() && (n->cps.empty() || r.chance(1, 2))) {
      vector<int> v; for (int i = 0; i < 256; ++i) if (n->bytes[i]) v.push_back(i);
      return string(1, (char)r.pick(v));
    }
    size_t k = n->cps.count();
    for (int i = 0; k && i < 20; ++i) { string s = c.encode(n->cps.nth(r.below(i < 10 ? std::min<size_t>(k, 256) : k))); if (!s.empty()) return s; }
    return "";
  }
  case Node::CAT: { string s; for (auto& x : n->kid) s += sample(x, r, c); return s; }
  case Node::ALT: return sample(r.pick(n->kid), r, c);
  case Node::REP: { int hi = n->mx == -1 ? n->mn + 3 : n->mx; int k = hi > n->mn ? r.range(n->mn, std::min(hi, n->mn + 4)) : n->mn; string s; for (int i = 0; i < k && s.size() < 400; ++i) s += sample(n->kid[0], r, c); return s; }
  }
  return "";
}

// ---- matcher
Ref::Ref(const NodeP& n, const Codec* c): codec(c), root(n) { comp(n.get()); in.push_back({3, 0, 0}); }
void Ref::comp(const Node* n) {
  switch (n->k) {
  case Node::SET: in.push_back({0, (int)sets.size(), 0}); sets.push_back(n); break;
  case Node::CAT: for (auto& c : n->kid) comp(c.get()); break;
  case Node::ALT: {
    vector<size_t> jmps;
    for (size_t i = 0; i < n->kid.size(); ++i) {
      if (i + 1 < n->kid.size()) {
        size_t sp = in.size(); in.push_back({1, (int)sp + 1, 0});
        comp(n->kid[i].get());
        jmps.push_back(in.size()); in.push_back({2, 0, 0});
        in[sp].y = in.size();
      }
      else comp(n->kid[i].get());
    }
    for (size_t j : jmps) in[j].x = in.size();
    break;
  }
  case Node::REP: {
    const Node* c = n->kid[0].get();
    for (int i = 0; i < n->mn; ++i) comp(c);
    if (n->mx == -1) {
      size_t sp = in.size(); in.push_back({1, 0, 0});
      comp(c);
      in.push_back({2, (int)sp, 0});
      int body = sp + 1, out = in.size();
      if (n->ng) { in[sp].x = out; in[sp].y = body; } else { in[sp].x = body; in[sp].y = out; }
    }
    else {
      vector<size_t> sps;
      for (int i = n->mn; i < n->mx; ++i) { sps.push_back(in.size()); in.push_back({1, 0, 0}); comp(c); }
      for (size_t sp : sps) { int body = sp + 1, out = in.size(); if (n->ng) { in[sp].x = out; in[sp].y = body; } else { in[sp].x = body; in[sp].y = out; } }
    }
    break;
  }
  }
}
size_t Ref::leaf(const Node* s, const u8* p, size_t n) const {
  if (n && s->bytes[*p]) return 1;
  if (s->cps.empty()) return 0;
  u32 cp; size_t l = codec->decode(p, n, cp);
  return l && s->cps.has(cp) ? l : 0;
}
size_t Ref::at(const string& d, size_t pos) const {
  const size_t W = d.size() - pos + 1;
  vector<char> seen(in.size() * W, 0);
  vector<pair<int, size_t>> st; st.push_back({0, pos});
  while (!st.empty()) {
    int pc; size_t p; std::tie(pc, p) = st.back(); st.pop_back();
    for (;;) {
      char& sn = seen[(size_t)pc * W + (p - pos)];
      if (sn) break;
      sn = 1;
      const RefInst& i = in[pc];
      if (i.op == 3) return p;
      if (i.op == 2) pc = i.x;
      else if (i.op == 1) { st.push_back({i.y, p}); pc = i.x; }
      else { size_t l = leaf(sets[i.x], (const u8*)d.data() + p, d.size() - p); if (!l) break; p += l; ++pc; }
    }
  }
  return string::npos;
}
bool Ref::alive(const string& d, size_t pos) const {
  const size_t W = d.size() - pos + 1; const bool multi = codec != codec_ascii() && codec != codec_latin1();
  vector<char> seen(in.size() * W, 0);
  vector<pair<int, size_t>> st; st.push_back({0, pos});
  while (!st.empty()) {
    int pc; size_t p; std::tie(pc, p) = st.back(); st.pop_back();
    for (;;) {
      char& sn = seen[(size_t)pc * W + (p - pos)];
      if (sn) break;
      sn = 1;
      const RefInst& i = in[pc];
      if (i.op == 3) break;
      if (i.op == 2) pc = i.x;
      else if (i.op == 1) { st.push_back({i.y, p}); pc = i.x; }
      else {
        if (p == d.size()) return true;
        size_t l = leaf(sets[i.x], (const u8*)d.data() + p, d.size() - p);
        if (!l) { if (multi && d.size() - p < 4) return true; break; }
        p += l; ++pc;
      }
    }
  }
  return false;
}
vector<pair<size_t, size_t>> Ref::all(const string& d) const {
  vector<pair<size_t, size_t>> o;
  size_t p = 0;
  while (p < d.size()) {
    size_t e = at(d, p);
    if (e != string::npos && e > p) { o.push_back({p, e}); p = e; } else ++p;
  }
  return o;
}

// ---- generator
static NodeP leaf(Rng& r, const GenOpt& o) {
  int c = 'a' + r.below(o.alpha);
  if (o.dot && r.chance(1, 14)) return mk_set(CpSet(0, 0x10ffff), ".");
  if (o.bytes && r.chance(1, 8)) {
    Bytes b; char t[40];
    if (r.chance(1, 2)) { int x = r.chance(1, 2) ? c : r.below(256); b.set(x); snprintf(t, sizeof t, r.chance(1, 2) ? "\\z%02x" : "\\z%02X", x); return mk_bytes(b, t); }
    int x = r.below(255), y = r.range(x + 1, 255); for (int i = x; i <= y; ++i) b.set(i);
    snprintf(t, sizeof t, "[\\z%02x-\\z%02x]", x, y); return mk_bytes(b, t);
  }
  if (o.uni && r.chance(1, 5)) {
    static const u32 cps[] = {0xe9, 0xdf, 0x100, 0x7ff, 0x800, 0x4e2d, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x80, 0xff};
    u32 x = cps[r.below(12)]; char t[64];
    if (r.chance(1, 3)) {
      u32 y = cps[r.below(12)]; if (y < x) std::swap(x, y);
      if (x != y) { snprintf(t, sizeof t, "[\\x{%x}-\\x{%X}]", x, y); return mk_set(CpSet(x, y), t); }
    }
    if (r.chance(1, 2)) snprintf(t, sizeof t, "\\x{%04x}", x); else snprintf(t, sizeof t, "%s", codec_utf8()->encode(x).c_str());
    return mk_set(CpSet::one(x), t);
  }
  if (o.cls && r.chance(1, 5)) {
    bool neg = o.neg && r.chance(1, 4);
    CpSet s; string t = neg ? "[^" : "[";
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      int a = 'a' + r.below(o.alpha);
      if (r.chance(1, 3) && a + 1 < 'a' + o.alpha) { int b = r.range(a + 1, 'a' + o.alpha - 1); t += (char)a; t += '-'; t += (char)b; s = s | CpSet(a, b); }
      else { t += (char)a; s = s | CpSet::one(a); }
    }
    t += "]";
    return mk_set(neg ? ~s : s, t);
  }
  string t(1, (char)c);
  if (o.escapes && r.chance(1, 6)) {
    char b[32];
    switch (r.below(4)) {
    case 0: snprintf(b, sizeof b, "\\x%02x", c); break;
    case 1: snprintf(b, sizeof b, "\\x{%x}", c); break;
    case 2: snprintf(b, sizeof b, "\\%03o", c); break;
    default: snprintf(b, sizeof b, "\\N{U+%04X}", c); break;
    }
    t = b;
  }
  return mk_set(CpSet::one(c), t);
}
NodeP gen_any(Rng& r, const GenOpt& o, int& budget, int depth) {
  if (budget <= 1 || depth <= 0) { --budget; return leaf(r, o); }
  NodeP n;
  switch (r.below(10)) {
  case 0: case 1: --budget; n = leaf(r, o); break;
  case 2: case 3: case 4: case 5: {
    int k = r.range(2, 4); vector<NodeP> v;
    for (int i = 0; i < k && budget > 0; ++i) {
      if (!v.empty() && r.chance(1, 6)) {       // the same thing again, repeated another way
        NodeP b = v.back(); if (b->k == Node::REP && r.chance(2, 3)) b = b->kid[0];
        int mn = r.range(0, 2), mx = r.chance(1, 2) ? -1 : r.range(std::max(mn, 1), o.maxrep);
        if (!o.nested_empty && nullable(b)) mn = mx = 1;
        v.push_back(mn == 1 && mx == 1 ? b : mk_rep(b, mn, mx, o.ng && r.chance(1, 2))); --budget;
      }
      else v.push_back(gen_any(r, o, budget, depth - 1));
    }
    n = mk_cat(v); break;
  }
  case 6: case 7: {
    int k = r.range(2, 3); vector<NodeP> v;
    for (int i = 0; i < k && (budget > 0 || i < 2); ++i) {
      if (!v.empty() && r.chance(1, 6)) { NodeP b = gen_any(r, o, budget, depth - 2); v.push_back(r.chance(1, 2) ? mk_cat({v[0], b}) : mk_cat({b, v.back()})); }   // shares a prefix or a suffix
      else v.push_back(gen_any(r, o, budget, depth - 1));
    }
    n = mk_alt(v); break;
  }
  default: {
    if (o.nested_empty && o.ng && r.chance(1, 8)) {     // something skippable, with a priority of its own, made optional again
      vector<NodeP> v; for (int i = r.range(1, 3); i > 0; --i) {
        NodeP x = gen_any(r, o, budget, depth - 2); if (r.chance(1, 2) && !nullable(x)) x = mk_rep(x, 0, r.range(1, 2), r.chance(1, 2));
        if (r.chance(1, 3)) { NodeP y = leaf(r, o); --budget; if (r.chance(1, 2)) y = mk_rep(y, 0, 1, r.chance(1, 2)); x = r.chance(1, 2) ? mk_cat({x, y}) : mk_cat({y, x}); }
        v.push_back(x);
      }
      n = v.size() == 1 ? v[0] : mk_alt(v); n->cap = true;
      n = mk_rep(n, r.chance(3, 4) ? 0 : 1, r.chance(3, 4) ? 1 : r.range(2, 3), r.chance(1, 4));
      if (n->mn == 1 && n->mx == 1) n = n->kid[0];
      break;
    }
    NodeP c = gen_any(r, o, budget, depth - 1);
    int mn, mx;
    switch (r.below(6)) {
    case 0: mn = 0; mx = -1; break;
    case 1: mn = 1; mx = -1; break;
    case 2: mn = 0; mx = 1; break;
    case 3: mn = r.range(0, 2); mx = -1; break;
    case 4: mn = mx = r.range(1, o.maxrep); break;
    default: mn = r.range(0, 2); mx = r.range(std::max(mn, 1), o.maxrep); break;
    }
    if (!o.nested_empty && nullable(c)) { mn = mx = 1; }
    n = mn == 1 && mx == 1 ? c : mk_rep(c, mn, mx, o.ng && r.chance(1, 3));
    break;
  }
  }
  n->cap = r.chance(3, 4);
  return n;
}
NodeP gen(Rng& r, const GenOpt& o) {
  for (;;) {
    int b = r.range(2, o.budget);
    NodeP n = gen_any(r, o, b, o.depth);
    if (weight(n) > o.maxw || wide_leaves(n) > o.wide || nested_loops(n) > 4) continue;
    if (nullable(n)) { if (r.chance(1, 2)) continue; n = r.chance(1, 2) ? mk_cat({n, leaf(r, o)}) : mk_cat({leaf(r, o), n}); }
    return n;
  }
}
string gen_text(Rng& r, const vector<NodeP>& ns, const GenOpt& o, size_t len, const Codec& c) {
  string s;
  while (s.size() < len) {
    switch (r.below(5)) {
    case 0: { int k = r.range(1, 4); for (int i = 0; i < k; ++i) s += c.encode('a' + r.below(o.alpha + (r.chance(1, 8) ? 1 : 0))); break; }
    case 1: { string t = sample(r.pick(ns), r, c); if (t.size() > 1) t.resize(1 + r.below(t.size())); s += t; break; }   // prefix of a match
    case 2: { string t = sample(r.pick(ns), r, c); if (!t.empty()) t[r.below(t.size())] = r.chance(1, 6) ? (char)r.below(256) : (char)('a' + r.below(o.alpha)); s += t; break; }
    case 3: if (r.chance(1, 6)) { s += (char)r.below(256); break; } // fall through
    default: s += sample(r.pick(ns), r, c); break;
    }
  }
  if (s.size() > 2 * len + 4) s.resize(2 * len + 4);
  return s;
}

NodeP close_ci(const NodeP& n) {
  auto m = std::make_shared<Node>(*n);
  for (auto& c : m->kid) c = close_ci(c);
  if (m->k == Node::SET) {
    CpSet add;
    for (int i = 0; i < 26; ++i) {
      if (n->cps.has('a' + i)) add = add | CpSet::one('A' + i);
      if (n->cps.has('A' + i)) add = add | CpSet::one('a' + i);
    }
    m->cps = n->cps | add;
  }
  return m;
}
size_t max_len(const NodeP& n, size_t chr) {
  const size_t inf = string::npos; size_t t = 0;
  switch (n->k) {
  case Node::SET: return n->cps.empty() ? 1 : chr;
  case Node::CAT: for (auto& c : n->kid) { size_t x = max_len(c, chr); if (x == inf) return inf; t += x; } return t;
  case Node::ALT: for (auto& c : n->kid) { size_t x = max_len(c, chr); if (x == inf) return inf; t = std::max(t, x); } return t;
  case Node::REP: { size_t x = max_len(n->kid[0], chr); return n->mx == -1 || x == inf ? inf : x * n->mx; }
  }
  return t;
}
size_t min_len(const NodeP& n, size_t chr) {
  size_t t = 0;
  switch (n->k) {
  case Node::SET: return n->bytes.any() ? 1 : chr;
  case Node::CAT: for (auto& c : n->kid) t += min_len(c, chr); return t;
  case Node::ALT: t = string::npos; for (auto& c : n->kid) t = std::min(t, min_len(c, chr)); return t;
  case Node::REP: return min_len(n->kid[0], chr) * n->mn;
  }
  return t;
}
int wide_leaves(const NodeP& n) {
  if (n->k == Node::SET) return n->cps.count() > 100 || n->bytes.count() > 40;
  int t = 0; for (auto& c : n->kid) t += wide_leaves(c);
  if (n->k == Node::REP) t *= n->mx == -1 ? std::max(1, n->mn) : std::max(1, n->mx);
  return t;
}
int nested_loops(const NodeP& n) {
  int t = 0; for (auto& c : n->kid) t = std::max(t, nested_loops(c));
  return t + (n->k == Node::REP);
}
GPat gen_pat(Rng& r, const GOpt& o, int alpha) {
  GPat g; GenOpt go; go.alpha = alpha;
  go.budget = o.budget ? o.budget : r.chance(1, 5) ? 12 : r.range(2, 7);
  go.depth = r.range(2, 5); go.escapes = r.chance(1, 4); go.bytes = r.chance(1, 6);
  go.maxrep = r.chance(1, 8) ? 8 : 4;
  g.c = codec_ascii();
  if (o.encs && r.chance(1, 2)) {
    const Codec* cs[] = {codec_latin1(), codec_utf8(), codec_utf16le(), codec_utf16be(), codec_utf32le(), codec_utf32be(), codec_utf8(), codec_utf16le()};
    g.c = cs[r.below(8)];
    go.uni = o.uni && g.c != codec_latin1() && r.chance(1, 2);
    if (g.c != codec_latin1()) { go.maxw = 24; go.wide = 1; }
  }
  g.p.enc = g.c->name();
  bool ci = o.ci && r.chance(1, 6);
  if (ci) { go.neg = false; go.bytes = false; go.uni = false; g.p.opts.CaseInsensitive = 1; }
  if (o.fixed && r.chance(1, 10)) {
    g.p.opts.FixedString = 1;
    vector<NodeP> v; string t; int k = r.range(1, 6); static const string meta = ".*+?|()[]{}\\^$-,";
    for (int i = 0; i < k; ++i) { char c = r.chance(1, 4) ? meta[r.below(meta.size())] : (char)('a' + r.below(alpha)); t += c; v.push_back(mk_set(CpSet::one((u8)c), string(1, c))); }
    g.n = mk_cat(v); g.p.text = t;
  }
  else {
    do g.n = gen(r, go); while (!o.lazy && lazy_empty(g.n));
    g.p.text = render(g.n);
  }
  if (ci) g.n = close_ci(g.n);
  g.ref = !lazy_empty(g.n);
  g.p.user = r.next();
  return g;
}
string gen_text(Rng& r, const vector<GPat>& ps, int alpha, size_t len) {
  string s;
  while (s.size() < len) {
    const GPat& g = r.pick(ps);
    string t;
    switch (r.below(7)) {
    case 0: { int k = r.range(1, 4); for (int i = 0; i < k; ++i) t += g.c->encode((r.chance(1, 9) ? 'A' : 'a') + r.below(alpha + (r.chance(1, 8) ? 1 : 0))); break; }
    case 1: t = sample(g.n, r, *g.c); if (t.size() > 1) t.resize(1 + r.below(t.size())); break;
    case 2: t = sample(g.n, r, *g.c); if (!t.empty()) t[r.below(t.size())] = r.chance(1, 4) ? (char)r.below(256) : (char)('a' + r.below(alpha)); break;
    case 3: if (r.chance(1, 6)) { t += (char)r.below(256); break; } // fall through
    default: t = sample(g.n, r, *g.c); break;
    }
    s += t;
  }
  if (s.size() > len * 2 + 8) s.resize(len * 2 + 8);
  return s;
}
vector<Pat> pats(const vector<GPat>& g) { vector<Pat> v; for (auto& x : g) v.push_back(x.p); return v; }
vector<Hit> ref_hits(const GPat& g, const string& d, u32 k, u64 off) {
  Ref ref(g.n, g.c); vector<Hit> h; for (auto& m : ref.all(d)) h.push_back(Hit{off + m.first, off + m.second, k}); return h;
}

// ---- built-in codecs, written from the standards
struct CSingle: Codec {
  u32 lim; string nm;
  CSingle(u32 l, const char* n): lim(l), nm(n) {}
  string name() const override { return nm; }
  size_t decode(const u8* p, size_t n, u32& cp) const override { if (n && *p < lim) { cp = *p; return 1; } return 0; }
  string encode(u32 cp) const override { return cp < lim ? string(1, (char)cp) : ""; }
};
static bool scalar(u32 c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
struct CUtf8: Codec {
  string name() const override { return "UTF-8"; }
  string encode(u32 c) const override {
    string s; if (!scalar(c)) return s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
  }
  size_t decode(const u8* p, size_t n, u32& cp) const override {
    if (!n) return 0;
    size_t l; u32 c;
    if (p[0] < 0x80) { cp = p[0]; return 1; }
    else if (p[0] >= 0xC2 && p[0] < 0xE0) { l = 2; c = p[0] & 31; }
    else if (p[0] >= 0xE0 && p[0] < 0xF0) { l = 3; c = p[0] & 15; }
    else if (p[0] >= 0xF0 && p[0] < 0xF5) { l = 4; c = p[0] & 7; }
    else return 0;
    if (n < l) return 0;
    for (size_t i = 1; i < l; ++i) { if ((p[i] & 0xC0) != 0x80) return 0; c = c << 6 | (p[i] & 63); }
    if (!scalar(c) || (l == 3 && c < 0x800) || (l == 4 && c < 0x10000)) return 0;
    cp = c; return l;
  }
};
struct CUtf16: Codec {
  bool be; CUtf16(bool b): be(b) {}
  string name() const override { return be ? "UTF-16BE" : "UTF-16LE"; }
  void unit(string& s, u32 u) const { if (be) { s += (char)(u >> 8); s += (char)u; } else { s += (char)u; s += (char)(u >> 8); } }
  u32 get(const u8* p) const { return be ? p[0] << 8 | p[1] : p[1] << 8 | p[0]; }
  string encode(u32 c) const override { string s; if (!scalar(c)) return s; if (c < 0x10000) unit(s, c); else { c -= 0x10000; unit(s, 0xD800 | c >> 10); unit(s, 0xDC00 | (c & 0x3ff)); } return s; }
  size_t decode(const u8* p, size_t n, u32& cp) const override {
    if (n < 2) return 0;
    u32 u = get(p);
    if (u < 0xD800 || u >= 0xE000) { cp = u; return 2; }
    if (u >= 0xDC00 || n < 4) return 0;
    u32 v = get(p + 2); if (v < 0xDC00 || v >= 0xE000) return 0;
    cp = 0x10000 + ((u & 0x3ff) << 10 | (v & 0x3ff)); return 4;
  }
};
struct CUtf32: Codec {
  bool be; CUtf32(bool b): be(b) {}
  string name() const override { return be ? "UTF-32BE" : "UTF-32LE"; }
  string encode(u32 c) const override { string s; if (!scalar(c)) return s; for (int i = 0; i < 4; ++i) s += (char)(c >> (be ? 24 - 8 * i : 8 * i)); return s; }
  size_t decode(const u8* p, size_t n, u32& cp) const override {
    if (n < 4) return 0;
    u32 c = be ? (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] : (u32)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
    if (!scalar(c)) return 0;
    cp = c; return 4;
  }
};
const Codec* codec_ascii() { static CSingle c(128, "US-ASCII"); return &c; }
const Codec* codec_latin1() { static CSingle c(256, "ISO-8859-1"); return &c; }
const Codec* codec_utf8() { static CUtf8 c; return &c; }
const Codec* codec_utf16le() { static CUtf16 c(false); return &c; }
const Codec* codec_utf16be() { static CUtf16 c(true); return &c; }
const Codec* codec_utf32le() { static CUtf32 c(false); return &c; }
const Codec* codec_utf32be() { static CUtf32 c(true); return &c; }
const Codec* codec_builtin(const string& n) {
  for (const Codec* c : {codec_ascii(), codec_latin1(), codec_utf8(), codec_utf16le(), codec_utf16be(), codec_utf32le(), codec_utf32be()}) if (c->name() == n) return c;
  return nullptr;
}

bool RefBt::cat(const Node* n, size_t i, const string& d, size_t p, const K& k) {
  if (i == n->kid.size()) return k(p);
  return m(n->kid[i].get(), d, p, [&, i](size_t q) { return cat(n, i + 1, d, q, k); });
}
bool RefBt::rep(const Node* n, int i, size_t last, const string& d, size_t p, const K& k) {
  if (++steps > limit) { ok = false; return true; }
  if (i < n->mn) return m(n->kid[0].get(), d, p, [&, i, p](size_t q) { return rep(n, i + 1, p, d, q, k); });
  bool may = n->mx == -1 || i < n->mx;
  // an empty iteration ends the loop
  bool empty_check = variant == 0 ? i > 0 && (size_t)last == p && i >= n->mn : (n->mx == -1 && i > std::max(n->mn, 0) && last == p);
  if (empty_check) may = false;
  auto body = [&] { return may && m(n->kid[0].get(), d, p, [&, i, p](size_t q) { return rep(n, i + 1, p, d, q, k); }); };
  if (n->ng) return k(p) || body();
  return body() || k(p);
}
bool RefBt::m(const Node* n, const string& d, size_t p, const K& k) {
  if (++steps > limit) { ok = false; return true; }
  switch (n->k) {
  case Node::SET: { size_t l = leafs.leaf(n, (const u8*)d.data() + p, d.size() - p); return l && k(p + l); }
  case Node::CAT: return cat(n, 0, d, p, k);
  case Node::ALT: for (auto& c : n->kid) if (m(c.get(), d, p, k)) return true; return false;
  case Node::REP: return rep(n, 0, string::npos, d, p, k);
  }
  return false;
}
vector<pair<size_t, size_t>> RefBt::all(const string& d) {
  vector<pair<size_t, size_t>> o; ok = true;
  for (size_t p = 0; p < d.size();) {
    size_t e = string::npos; steps = 0;
    bool f = m(root.get(), d, p, [&](size_t q) { e = q; return true; });
    if (!ok) return o;
    if (f && e != string::npos && e > p) { o.push_back({p, e}); p = e; } else ++p;
  }
  return o;
}
