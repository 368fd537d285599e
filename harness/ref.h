// Independent reference semantics: AST -> pattern text, and a backtracking
// (priority-ordered, memoised) matcher over encoded bytes.
#pragma once
#include "lgm.h"
#include <bitset>

// sorted disjoint half-open ranges of code points
struct CpSet {
  vector<pair<u32, u32>> r;
  CpSet() {}
  CpSet(u32 a, u32 b) { if (a <= b) r.push_back({a, b + 1}); }   // inclusive
  static CpSet one(u32 c) { return CpSet(c, c); }
  void norm() {
    std::sort(r.begin(), r.end()); vector<pair<u32, u32>> o;
    for (auto& x : r) { if (x.first >= x.second) continue; if (!o.empty() && x.first <= o.back().second) o.back().second = std::max(o.back().second, x.second); else o.push_back(x); }
    r = o;
  }
  CpSet operator|(const CpSet& o) const { CpSet x = *this; x.r.insert(x.r.end(), o.r.begin(), o.r.end()); x.norm(); return x; }
  CpSet operator~() const { CpSet x; u32 p = 0; for (auto& a : r) { if (a.first > p) x.r.push_back({p, a.first}); p = a.second; } if (p < 0x110000) x.r.push_back({p, 0x110000}); return x; }
  CpSet operator&(const CpSet& o) const { return ~(~*this | ~o); }
  CpSet operator-(const CpSet& o) const { return *this & ~o; }
  CpSet operator^(const CpSet& o) const { return (*this - o) | (o - *this); }
  bool has(u32 c) const { auto i = std::upper_bound(r.begin(), r.end(), pair<u32, u32>(c, 0xffffffff)); return i != r.begin() && c < (--i)->second; }
  size_t count() const { size_t n = 0; for (auto& x : r) n += x.second - x.first; return n; }
  bool empty() const { return r.empty(); }
  u32 nth(size_t k) const { for (auto& x : r) { if (k < x.second - x.first) return x.first + k; k -= x.second - x.first; } return 0; }
};
typedef std::bitset<256> Bytes;

// Oracle for a character encoding: decodes one character at p (0 = no character
// whose encoding is a prefix of p).
struct Codec {
  virtual ~Codec() {}
  virtual string name() const = 0;
  virtual size_t decode(const u8* p, size_t n, u32& cp) const = 0;
  virtual string encode(u32 cp) const = 0;              // "" = not encodable
};
const Codec* codec_ascii();
const Codec* codec_latin1();
const Codec* codec_utf8();
const Codec* codec_utf16le();
const Codec* codec_utf16be();
const Codec* codec_utf32le();
const Codec* codec_utf32be();
const Codec* codec_builtin(const string& name);
const Codec* codec_icu(const string& name);   // tables by way of ICU; null if unsuitable

struct Node {
  enum K { SET, CAT, ALT, REP } k = SET;
  CpSet cps; Bytes bytes; string text;         // SET: text is its rendering
  vector<std::shared_ptr<Node>> kid;
  int mn = 1, mx = 1; bool ng = false;         // REP, mx = -1 unbounded
  bool cap = true;                             // group style when rendering
};
typedef std::shared_ptr<Node> NodeP;
NodeP mk_set(const CpSet& c, const string& text);
NodeP mk_bytes(const Bytes& b, const string& text);
NodeP mk_cat(vector<NodeP> v);
NodeP mk_alt(vector<NodeP> v);
NodeP mk_rep(NodeP n, int mn, int mx, bool ng);
string render(const NodeP& n);
bool nullable(const NodeP& n);
int weight(const NodeP& n);              // states after expansion
// has a repetition whose body can match empty, or an alternation with an empty branch
bool empty_trouble(const NodeP& n);
// a repetition whose body can match empty and may prefer to (lazy parts, empty
// alternatives before others)
bool lazy_empty(const NodeP& n);
string sample(const NodeP& n, Rng& r, const Codec& c);   // a string the node matches

struct RefInst { int op; int x, y; };    // 0 set x; 1 split x,y; 2 jmp x; 3 match
struct Ref {
  const Codec* codec;
  vector<RefInst> in; vector<const Node*> sets; NodeP root;
  // table of the bytes matched by each leaf for single-byte codecs is not needed: decode on the fly
  Ref(const NodeP& n, const Codec* c);
  size_t leaf(const Node* s, const u8* p, size_t n) const;
  // end of the highest-priority match starting at pos, or npos
  size_t at(const string& d, size_t pos) const;
  // could a match beginning at pos still be under way at the end of d?
  bool alive(const string& d, size_t pos) const;
  // leftmost-priority, non-overlapping
  vector<pair<size_t, size_t>> all(const string& d) const;
private:
  void comp(const Node* n);
};

struct GenOpt {
  int alpha = 3;             // size of the letter alphabet
  int budget = 12;           // leaves
  int depth = 4;
  int maxrep = 4;
  bool ng = true, cls = true, neg = true, dot = true, nested_empty = true, escapes = false, bytes = false;
  bool uni = false;          // characters beyond ASCII
  int maxw = 40;             // weight limit
  int wide = 2;              // how many '.'/negated classes may occur under loops (cost control)
};
NodeP close_ci(const NodeP& n);                 // ASCII case closure of every leaf
size_t max_len(const NodeP& n, size_t chr);     // bytes; npos = unbounded
size_t min_len(const NodeP& n, size_t chr);
int wide_leaves(const NodeP& n);
int nested_loops(const NodeP& n);               // depth of nested repetitions

// a pattern with everything needed to predict its hits
struct GPat {
  NodeP n; Pat p; const Codec* c = nullptr; bool ref = true;   // ref: the reference's domain
};
struct GOpt { bool encs = true, ci = true, fixed = true, uni = true, lazy = true; int budget = 0; };
GPat gen_pat(Rng& r, const GOpt& o, int alpha);
string gen_text(Rng& r, const vector<GPat>& ps, int alpha, size_t len);
vector<Pat> pats(const vector<GPat>& g);
vector<Hit> ref_hits(const GPat& g, const string& d, u32 k, u64 off);
NodeP gen(Rng& r, const GenOpt& o);             // non-nullable
NodeP gen_any(Rng& r, const GenOpt& o, int& budget, int depth);
string gen_text(Rng& r, const vector<NodeP>& ns, const GenOpt& o, size_t len, const Codec& c);
string perl_text(const NodeP& n);
// exact backtracking with the empty-iteration rule of Perl (variant 0) / PCRE (variant 1)
struct RefBt {
  const Codec* codec; NodeP root; int variant; u64 steps = 0, limit = 200000;
  Ref leafs;
  RefBt(const NodeP& n, const Codec* c, int v): codec(c), root(n), variant(v), leafs(n, c) {}
  typedef std::function<bool(size_t)> K;
  bool m(const Node* n, const string& d, size_t p, const K& k);
  bool cat(const Node* n, size_t i, const string& d, size_t p, const K& k);
  bool rep(const Node* n, int i, size_t last, const string& d, size_t p, const K& k);
  bool ok = true;
  vector<pair<size_t, size_t>> all(const string& d);
};
