// C10 encodings, C14 decoding of hits and context, C15 round trip through chains.
// Oracle for the ICU encodings: tables made with ucnv_fromUnicode / ucnv_toUnicode,
// one character at a time; for the Unicode encodings the codecs in ref.cpp.
#include "ref.h"
#include <unicode/ucnv.h>
#include <lightgrep/util.h>
#include <lightgrep/encodings.h>
#include <lightgrep/transforms.h>

static const size_t NENC = sizeof LG_CANONICAL_ENCODINGS / sizeof *LG_CANONICAL_ENCODINGS;
static const size_t NALIAS = sizeof LG_ENCODINGS / sizeof *LG_ENCODINGS;

struct CIcu: Codec {
  string nm; UConverter* cv; bool good = true;
  vector<u32> all;                                    // code points that round trip
  std::unordered_map<u32, string> enc; std::unordered_map<string, u32> dec; size_t maxlen = 0;
  std::unordered_map<u32, string> oneway; std::set<string> onewayb;      // encodable, but the bytes decode to something else: not judged
  string name() const override { return nm; }
  explicit CIcu(const string& n): nm(n) {
    UErrorCode e = U_ZERO_ERROR; cv = ucnv_open(n.c_str(), &e);
    if (U_FAILURE(e)) { good = false; cv = nullptr; return; }
    ucnv_setFromUCallBack(cv, UCNV_FROM_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
    ucnv_setToUCallBack(cv, UCNV_TO_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
    for (u32 c = 0; c < 0x110000; ++c) {
      if (c >= 0xD800 && c < 0xE000) continue;
      string b = one(c);
      if (b.empty()) continue;
      u32 d; if (raw(b, d) != b.size() || d != c) { oneway[c] = b; onewayb.insert(b); continue; }
      if (!enc.count(c)) { enc[c] = b; dec[b] = c; all.push_back(c); maxlen = std::max(maxlen, b.size()); }
    }
    if (all.empty()) good = false;
  }
  ~CIcu() { if (cv) ucnv_close(cv); }
  string one(u32 c) const {
    UChar in[2]; int n = 0; U16_APPEND_UNSAFE(in, n, c);
    char out[32]; char* o = out; const UChar* s = in; UErrorCode e = U_ZERO_ERROR;
    ucnv_resetFromUnicode(cv);
    ucnv_fromUnicode(cv, &o, out + sizeof out, &s, in + n, nullptr, true, &e);
    return U_FAILURE(e) ? string() : string(out, o - out);
  }
  // the character whose encoding is all of b
  size_t raw(const string& b, u32& cp) const {
    UChar out[16]; UChar* o = out; const char* s = b.data(); UErrorCode e = U_ZERO_ERROR;
    ucnv_resetToUnicode(cv);
    ucnv_toUnicode(cv, &o, out + 16, &s, b.data() + b.size(), nullptr, true, &e);
    if (U_FAILURE(e) || s != b.data() + b.size() || o == out) return 0;
    int i = 0; int n = (int)(o - out); UChar32 c; U16_NEXT(out, i, n, c);
    if (i != n || (c >= 0xD800 && c < 0xE000)) return 0;
    cp = c; return b.size();
  }
  string encode(u32 c) const override { auto i = enc.find(c); return i == enc.end() ? string() : i->second; }
  size_t decode(const u8* p, size_t n, u32& cp) const override {
    for (size_t l = 1; l <= maxlen && l <= n; ++l) { auto i = dec.find(string((const char*)p, l)); if (i != dec.end()) { cp = i->second; return l; } }
    return 0;
  }
};
// as above, with the mappings that do not round trip
struct CIcuLoose: Codec {
  const CIcu* c; explicit CIcuLoose(const CIcu* x): c(x) {}
  string name() const override { return c->nm; }
  string encode(u32 x) const override { return c->encode(x); }
  size_t decode(const u8* p, size_t n, u32& cp) const override { for (size_t l = 1; l <= c->maxlen && l <= n; ++l) if (c->raw(string((const char*)p, l), cp)) return l; return 0; }
};
const Codec* codec_icu(const string& n) {
  static std::map<string, std::unique_ptr<CIcu>> m; static vector<string> order;
  auto i = m.find(n);
  if (i == m.end()) {
    if (order.size() > 12) { m.erase(order[0]); order.erase(order.begin()); }
    i = m.emplace(n, std::unique_ptr<CIcu>(new CIcu(n))).first; order.push_back(n);
  }
  return i->second->good ? i->second.get() : nullptr;
}
static bool is_utf(const string& n) { return codec_builtin(n) && n != "US-ASCII" && n != "ISO-8859-1"; }
// a codec for a canonical encoding name and the characters it has
struct EncView { const Codec* c; const CIcu* icu; };
static EncView view(const string& canon) { if (is_utf(canon)) return {codec_builtin(canon), nullptr}; const Codec* c = codec_icu(canon); return {c, (const CIcu*)c}; }
// the encodings in turn; a shard stays on one for a while, since its table is costly
static string turn(int len) { u64 i = R.caseno; return LG_CANONICAL_ENCODINGS[((i / 8 / len) * 8 + i % 8) % NENC]; }
static u32 any_scalar(Rng& r) {
  static const u32 tops[] = {0x80, 0x100, 0x800, 0x3000, 0x10000, 0x110000};
  for (;;) {
    u32 c = (u32)r.below(tops[r.below(6)]);
    if (r.chance(1, 6)) { static const u32 low[] = {0x3f, 0x7f, 0xff, 0x3ff, 0xfff, 0xffff}; u32 m = low[r.below(6)]; c = r.chance(1, 2) ? c | m : c & ~m; }
    if (r.chance(1, 6)) { static const u8 by[] = {0, 1, 0x7f, 0x80, 0xbf, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xff}; c = (r.chance(1, 3) ? 0 : (u32)r.below(17) << 16) | by[r.below(12)] << 8 | by[r.below(12)]; }
    if (!(c >= 0xD800 && c < 0xE000) && c && c <= 0x10ffff) return c;
  }
}
static u32 char_of(Rng& r, const EncView& v) {
  for (int k = 0; k < 50; ++k) {
    u32 c = v.icu ? v.icu->all[r.below(v.icu->all.size())] : any_scalar(r);
    if (r.chance(1, 3)) { u32 d = r.range(0x20, 0x7e); if (!v.c->encode(d).empty()) c = d; }
    if (c && !v.c->encode(c).empty()) return c;
  }
  return v.icu ? v.icu->all[0] ? v.icu->all[0] : v.icu->all.back() : 'a';
}
static string u8s(u32 c) { return codec_utf8()->encode(c); }
static string u8s(const vector<u32>& v) { string s; for (u32 c : v) s += u8s(c); return s; }

// ---- byte transformations
static const u8 OCE_TABLE[256] = {
  0x41,0x36,0x13,0x62,0xA8,0x21,0x6E,0xBB,0xF4,0x16,0xCC,0x04,0x7F,0x64,0xE8,0x5D,0x1E,0xF2,0xCB,0x2A,0x74,0xC5,0x5E,0x35,0xD2,0x95,0x47,0x9E,0x96,0x2D,0x9A,0x88,
  0x4C,0x7D,0x84,0x3F,0xDB,0xAC,0x31,0xB6,0x48,0x5F,0xF6,0xC4,0xD8,0x39,0x8B,0xE7,0x23,0x3B,0x38,0x8E,0xC8,0xC1,0xDF,0x25,0xB1,0x20,0xA5,0x46,0x60,0x4E,0x9C,0xFB,
  0xAA,0xD3,0x56,0x51,0x45,0x7C,0x55,0x00,0x07,0xC9,0x2B,0x9D,0x85,0x9B,0x09,0xA0,0x8F,0xAD,0xB3,0x0F,0x63,0xAB,0x89,0x4B,0xD7,0xA7,0x15,0x5A,0x71,0x66,0x42,0xBF,
  0x26,0x4A,0x6B,0x98,0xFA,0xEA,0x77,0x53,0xB2,0x70,0x05,0x2C,0xFD,0x59,0x3A,0x86,0x7E,0xCE,0x06,0xEB,0x82,0x78,0x57,0xC7,0x8D,0x43,0xAF,0xB4,0x1C,0xD4,0x5B,0xCD,
  0xE2,0xE9,0x27,0x4F,0xC3,0x08,0x72,0x80,0xCF,0xB0,0xEF,0xF5,0x28,0x6D,0xBE,0x30,0x4D,0x34,0x92,0xD5,0x0E,0x3C,0x22,0x32,0xE5,0xE4,0xF9,0x9F,0xC2,0xD1,0x0A,0x81,
  0x12,0xE1,0xEE,0x91,0x83,0x76,0xE3,0x97,0xE6,0x61,0x8A,0x17,0x79,0xA4,0xB7,0xDC,0x90,0x7A,0x5C,0x8C,0x02,0xA6,0xCA,0x69,0xDE,0x50,0x1A,0x11,0x93,0xB9,0x52,0x87,
  0x58,0xFC,0xED,0x1D,0x37,0x49,0x1B,0x6A,0xE0,0x29,0x33,0x99,0xBD,0x6C,0xD9,0x94,0xF3,0x40,0x54,0x6F,0xF0,0xC6,0x73,0xB8,0xD6,0x3E,0x65,0x18,0x44,0x1F,0xDD,0x67,
  0x10,0xF1,0x0C,0x19,0xEC,0xAE,0x03,0xA1,0x14,0x7B,0xA9,0x0B,0xFF,0xF8,0xA3,0xC0,0xA2,0x01,0xF7,0x2E,0xBC,0x24,0x68,0x75,0x0D,0xFE,0xBA,0x2F,0xB5,0xD0,0xDA,0x3D };
static string oce(string s) { for (char& c : s) c = (char)OCE_TABLE[(u8)c]; return s; }
static string unoce(string s) { static u8 t[256]; static bool init = false; if (!init) { for (int i = 0; i < 256; ++i) t[OCE_TABLE[i]] = i; init = true; } for (char& c : s) c = (char)t[(u8)c]; return s; }
struct Chain {
  string text, canon; int oces = 0;
  string fwd(string s) const { for (int i = 0; i < oces; ++i) s = oce(s); return s; }
  string back(string s) const { for (int i = 0; i < oces; ++i) s = unoce(s); return s; }
};
static string mixcase(Rng& r, string s) { if (r.chance(1, 2)) for (char& c : s) if (r.chance(1, 3)) c = isupper((u8)c) ? tolower(c) : toupper(c); return s; }
static Chain chain(Rng& r, const string& canon, bool transforms) {
  Chain c; c.canon = canon; string n = canon;
  if (r.chance(1, 3)) {          // by one of its aliases
    vector<const char*> al; for (auto& a : LG_ENCODINGS) if (canon == LG_CANONICAL_ENCODINGS[a.idx]) al.push_back(a.name);
    if (!al.empty()) n = al[r.below(al.size())];
  }
  c.text = mixcase(r, n);
  if (transforms) {
    for (int i = r.chance(1, 4) ? r.range(1, 2) : 0; i > 0; --i) c.text = mixcase(r, "identity") + "|" + c.text;
    for (int i = r.chance(1, 2) ? r.range(1, 3) : 0; i > 0; --i) if (r.chance(2, 3)) { c.text += "|" + mixcase(r, "OCE"); ++c.oces; } else c.text += "|" + mixcase(r, "identity");
  }
  return c;
}

static vector<Hit> find_all(const string& d, const string& s, u32 k) {
  vector<Hit> h; for (size_t p = 0; (p = d.find(s, p)) != string::npos; p += s.size()) h.push_back(Hit{p, p + s.size(), k});
  return h;
}

// ---- C10: an encoding name selects that encoding, in patterns as ICU defines it
static void c_enc(Rng& r) {
  string canon = turn(20); EncView v = view(canon);
  if (!v.c) { R.add("encodings_without_table"); return; }
  R.see("encodings", canon);
  Chain ch = chain(r, canon, true);
  int kind = r.range(0, 24); kind = kind < 21 ? 0 : kind - 16;
  if (r.chance(1, 30)) {            // the encodings under their plain names are encoders kept ready
    static const char* const U[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
    ch = Chain(); ch.canon = ch.text = canon = U[r.below(5)]; v = view(canon); kind = r.range(4, 8);
  }
  R.see("chains", ch.text);
  u32 depth = (u32)r.range(0, 4);
  if (kind <= 4) {                 // literal strings
    int np = r.range(1, 6); vector<Pat> ps; vector<string> bytes; string refused;
    Fsm f; vector<int> lab; string text;
    for (int i = 0; i < np; ++i) {
      vector<u32> w; bool ok = true; string b;
      int n = r.range(1, 5);
      for (int k = 0; k < n; ++k) { u32 c = r.chance(1, 12) ? any_scalar(r) : char_of(r, v); if (v.icu && v.icu->oneway.count(c)) { R.add("one_way_characters_left_out"); c = char_of(r, v); } w.push_back(c); string e = v.c->encode(c); if (e.empty()) ok = false; b += e; }
      Pat p; p.text = u8s(w); p.enc = ch.text; p.opts.FixedString = 1; p.opts.UnicodeMode = 1;
      R.current(show(p));
      string msg; int l = add(f, p, &msg);
      R.add(ok ? "literals_encodable" : "literals_unencodable");
      if (ok != (l >= 0)) {
        R.violation("enc:" + string(ok ? "refused:" : "accepted:") + show(p), show(p) + (ok ? " is encodable in " + canon + " (" + hexs(b) + ") but was refused: " + msg : " is not encodable in " + canon + " but was accepted")); return;
      }
      if (ok) { ps.push_back(p); bytes.push_back(b); lab.push_back(l); }
    }
    if (ps.empty()) return;
    LG_ProgramOptions po{depth}; Prog prog(lg_create_program(f.h, &po));
    if (!prog) { R.violation("enc:noprogram", "no program for " + show(ps)); return; }
    Ctx ctx(prog);
    int len = r.range(1, 30);
    for (int i = 0; i < len; ++i) switch (r.below(4)) { case 0: case 1: text += r.pick(bytes); break; case 2: text += v.c->encode(char_of(r, v)); break; default: text += (char)r.below(256); }
    text = ch.fwd(text); vector<Hit> want;
    for (size_t i = 0; i < ps.size(); ++i) { auto h = find_all(text, ch.fwd(bytes[i]), lab[i]); want.insert(want.end(), h.begin(), h.end()); }
    want = sorted(want);
    vector<Hit> got = sorted(search(ctx.h, ps.size(), {text}).hits);
    R.add("searches"); R.add("expected_hits", want.size());
    if (!want.empty()) R.see("nontrivial", ch.text + ps[0].text);
    if (got != want) R.violation("enc:" + show(ps) + hexs(text), show(ps) + " in " + hexs(text) + ": " + show_diff(want, got));
  } else {                         // a class, judged on every byte and byte pair
    CpSet s; string t; bool neg = false;
    if (kind == 5) {
      s = CpSet(0, 0x10ffff); t = ".";
      if (r.chance(1, 2)) { s = s - CpSet(0xd800, 0xdfff); static const char* const T[] = {"\\P{Cs}", "[^\\p{Cs}]", "[\\x00-\\x{D7FF}\\x{E000}-\\x{10FFFF}]"}; t = T[r.below(3)]; }
    }
    else {
      neg = r.chance(1, 3); t = neg ? "[^" : "[";
      for (int i = r.range(1, 5); i > 0; --i) {
        u32 a = char_of(r, v); char b[64];
        if (r.chance(1, 3)) { u32 z = std::min<u32>(a + r.range(1, r.chance(1, 3) ? 20000 : 60), 0x10ffff); s = s | CpSet(a, z); snprintf(b, sizeof b, "\\x{%X}-\\x{%X}", a, z); }
        else { s = s | CpSet::one(a); snprintf(b, sizeof b, "\\x{%X}", a); }
        t += b;
      }
      t += "]"; if (neg) s = ~s;
    }
    Pat p; p.text = t; p.enc = ch.text; p.opts.UnicodeMode = 1;
    R.current(show(p));
    bool some = false;
    if (v.icu) { for (u32 c : v.icu->all) if (s.has(c)) { some = true; break; } } else some = s.count() > 0;
    string msg; Fsm f; int l = add(f, p, &msg);
    if (l < 0) { if (some) R.violation("enc:class:" + show(p), show(p) + " has members in " + canon + " but was refused: " + msg); else R.add("classes_without_members"); return; }
    if (!some) { R.violation("enc:class:" + show(p), show(p) + " has no members in " + canon + " but was accepted"); return; }
    LG_ProgramOptions po{depth}; Prog prog(lg_create_program(f.h, &po)); Ctx ctx(prog);
    R.add("classes"); R.see("nontrivial", ch.text + p.text);
    auto judge = [&](const string& plain) -> bool {
      if (v.icu && !v.icu->onewayb.empty()) for (size_t l = 1; l <= plain.size(); ++l) if (v.icu->onewayb.count(plain.substr(0, l))) { R.add("one_way_characters_left_out"); return true; }
      string d = ch.fwd(plain); u32 cp = 0; size_t n = v.c->decode((const u8*)plain.data(), plain.size(), cp);
      vector<Hit> want; if (n && s.has(cp)) want.push_back(Hit{0, n, 0});
      vector<Hit> got = starts_with(ctx.h, d, 0);
      R.add("byte_sequences_judged"); if (!want.empty()) R.add("members_seen");
      if (got != want) { R.violation("enc:class:" + show(p) + hexs(d), show(p) + " anchored in " + hexs(d) + " (plain " + hexs(plain) + "): " + show_diff(want, got)); return false; }
      return true;
    };
    for (int a = 0; a < 256; ++a) if (!judge(string(1, (char)a))) return;
    if (!v.icu || v.icu->maxlen > 1) {
      int step = R.thorough || r.chance(1, 20) ? 1 : 37;
      for (int k = (int)r.below(step); k < 65536; k += step) { string q; q += (char)(k >> 8); q += (char)k; if (!judge(q)) return; }
    }
    vector<u32> edges; for (auto& x : s.r) { edges.push_back(x.first); edges.push_back(x.second); }
    for (u32 c : {0x1u, 0x80u, 0x100u, 0x800u, 0xd800u, 0xe000u, 0x10000u, 0x10ff00u, 0x110000u}) edges.push_back(c);
    for (int k = 0; k < 300; ++k) {
      u32 c = char_of(r, v); if (r.chance(1, 2)) c = s.nth(r.below(s.count()));
      if (k < 60 && !edges.empty()) c = edges[r.below(edges.size())] + (u32)r.range(-1, 1);
      string e = v.c->encode(c); if (e.empty()) continue;
      if (r.chance(1, 4)) e[r.below(e.size())] ^= (char)(1 << r.below(8));
      if (r.chance(1, 4)) e += v.c->encode(char_of(r, v));
      if (!judge(e)) return;
    }
  }
}
static Reg g1("enc", c_enc);

// ---- decoding through lg_read_window / lg_hit_context
struct Win { vector<int32_t> cp; vector<size_t> off; LG_Window dh{0, 0}; unsigned bad = 0; string err; };
struct Dec { LG_HDECODER h; Dec(): h(lg_create_decoder()) {} ~Dec() { lg_destroy_decoder(h); } };
static Win read_window(LG_HDECODER h, const Exact& b, u64 doff, size_t hb, size_t he, const string& enc, size_t pre, size_t post) {
  Win w; LG_Window in{doff + hb, doff + he}; int32_t* c = nullptr; size_t* o = nullptr; size_t n = 0; LG_Error* err = nullptr;
  w.bad = lg_read_window(h, b.p, b.end(), doff, &in, enc.c_str(), pre, post, &c, &o, &n, &w.dh, &err);
  w.err = take(err);
  if (w.err.empty()) { w.cp.assign(c, c + n); w.off.assign(o, o + n); }
  lg_free_window_characters(c); lg_free_window_offsets(o);
  return w;
}
// the decoding the window is defined by: valid characters, else single bad bytes
struct El { int32_t cp; size_t off, len; };
static vector<El> dec_seq(const Codec& c, const string& plain, const string& raw, size_t b, size_t e, int oces) {
  vector<El> v;
  for (size_t p = b; p < e;) {
    u32 cp; size_t l = c.decode((const u8*)plain.data() + p, e - p, cp);
    if (l) { v.push_back({(int32_t)cp, p, l}); p += l; } else { v.push_back({-(int32_t)(u8)plain[p] - 1, p, 1}); ++p; }
  }
  (void)raw; (void)oces;
  return v;
}
static string show(const Win& w) { string s; for (size_t i = 0; i < w.cp.size(); ++i) { char b[40]; snprintf(b, sizeof b, "%s%d@%zu", i ? " " : "", w.cp[i], w.off[i]); s += b; } return s + " hit [" + std::to_string(w.dh.begin) + "," + std::to_string(w.dh.end) + ") bad " + std::to_string(w.bad); }

// a unit sequence for any value at all, valid or not: surrogates, overlong forms, values beyond the last
static string edge_bytes(Rng& r, const string& canon) {
  static const u32 E[] = {0xD7FF, 0xD800, 0xD801, 0xDB7F, 0xDBFF, 0xDC00, 0xDC01, 0xDFFE, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x110001, 0x1FFFFF, 0x7F, 0x80, 0x7FF, 0x800, 0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  u32 c = E[r.below(sizeof E / sizeof *E)]; string s; auto put = [&](u32 b) { s += (char)b; };
  if (canon == "UTF-32LE") { put(c); put(c >> 8); put(c >> 16); put(c >> 24); }
  else if (canon == "UTF-32BE") { put(c >> 24); put(c >> 16); put(c >> 8); put(c); }
  else if (canon == "UTF-16LE" || canon == "UTF-16BE") {
    u32 u[2] = {c & 0xffff, 0}; int n = 1; if (c > 0xffff) { c = std::min(c, 0x10ffffu) - 0x10000; u[0] = 0xD800 + (c >> 10); u[1] = 0xDC00 + (c & 0x3ff); n = 2; }
    for (int i = 0; i < n; ++i) if (canon == "UTF-16LE") { put(u[i]); put(u[i] >> 8); } else { put(u[i] >> 8); put(u[i]); }
  }
  else {
    c &= 0x1fffff; int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    if (r.chance(1, 3) && n < 4) ++n;                      // overlong
    if (n == 1) put(c); else { static const u32 L[] = {0, 0, 0xC0, 0xE0, 0xF0}; put(L[n] | c >> 6 * (n - 1)); for (int i = n - 2; i >= 0; --i) put(0x80 | (c >> 6 * i & 0x3f)); }
  }
  if (r.chance(1, 6) && s.size() > 1) s.resize(1 + r.below(s.size() - 1));
  return s;
}

static void c_window(Rng& r) {
  static const char* encs[] = {"US-ASCII", "UTF-8", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ISO-8859-1", "windows-1252", "Shift_JIS", "UTF-8", "UTF-16LE"};
  static const char* multi[] = {"EUC-JP", "Big5", "EUC-KR", "windows-1251", "CESU-8", "gb18030"};
#ifdef __SANITIZE_ADDRESS__
  const int NMULTI = 5;
#else
  const int NMULTI = 6;
#endif
  string name = r.chance(1, 8) ? multi[R.caseno % 8 % 6 % NMULTI] : encs[r.below(12)];
  int id = lg_get_encoding_id(name.c_str()); if (id < 0) { R.violation("window:name:" + name, name + " is not a known encoding"); return; }
  string canon = LG_CANONICAL_ENCODINGS[id];
  const Codec* c = codec_builtin(canon) ? codec_builtin(canon) : codec_icu(canon);
  if (!c) return;
  CIcuLoose loose((const CIcu*)c); if (!codec_builtin(canon)) c = &loose;
  Chain ch; ch.text = mixcase(r, name); ch.canon = canon;
  if (r.chance(1, 6)) { ch.text += "|OCE"; ch.oces = 1; }
  size_t maxc = codec_builtin(canon) ? is_utf(canon) ? 4 : 1 : loose.c->maxlen;
  string plain; int n = r.range(0, is_utf(canon) ? 24 : 14), style = r.range(0, 3);
  bool edges = r.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    if (edges && r.chance(1, 2)) plain += edge_bytes(r, canon);
    else if (style == 3 || (style == 2 && r.chance(1, 3)) || (style == 1 && r.chance(1, 8))) { static const u8 junk[] = {0, 0x80, 0xff, 0xd8, 0xdc, 0xe2, 0xf0, 0x9f, 0xc3, 0xa9, 0x41, 0xed, 0x10, 0x11}; plain += r.chance(2, 3) ? (char)junk[r.below(14)] : (char)r.below(256); }
    else { static const u32 good[] = {'a', 'b', 'Z', 0xE9, 0x3B1, 0x20AC, 0x3042, 0x4E9C, 0xFF71, 0xFFFD, 0x1F4A9, 0x10FFFF, 0xE000, 0xD7FF, '\n', '\r'}; string e = c->encode(good[r.below(16)]); plain += e.empty() ? c->encode('x') : e; }
  }
  if (r.chance(1, 6)) { string e = edges ? edge_bytes(r, canon) : c->encode(r.chance(1, 2) ? 0x1F4A9 : 0x4E9C); if (!e.empty()) { e.resize(1 + r.below(e.size())); plain += e; R.add("cut_off_last_characters"); } }
  string raw = ch.fwd(plain); size_t L = raw.size();
  size_t hb = r.below(L + 1), he = hb + r.below(std::min<size_t>(L - hb, 12) + 1);
  if (r.chance(2, 3)) {         // put the hit on character boundaries of a decoding from the start
    auto v = dec_seq(*c, plain, raw, 0, L, ch.oces);
    if (!v.empty()) { size_t a = r.below(v.size()), b = std::min(v.size(), a + (size_t)r.range(0, 3)); hb = v[a].off; he = b == v.size() ? L : v[b].off; if (he < hb) he = hb; }
  }
  u64 doff = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(1000) : 0xfffffffffff00000ull + r.below(1000);
  size_t pre = r.chance(1, 6) ? 0 : r.range(0, 8), post = r.chance(1, 6) ? 0 : r.range(0, 8);
  Exact b(raw); static Dec dec; Dec own; LG_HDECODER h = r.chance(1, 2) ? dec.h : own.h;
  string what = "window of [" + std::to_string(hb) + "," + std::to_string(he) + ") pre " + std::to_string(pre) + " post " + std::to_string(post) + " in " + hexs(raw) + " as " + ch.text;
  R.current(what); R.see("encodings", canon);
  static const size_t huge[] = {~(size_t)0, ~(size_t)0 / 2, (size_t)1 << 62, ((size_t)1 << 61) + 3, ~(size_t)0 / 4 + 1, (size_t)1 << 32, ~(size_t)0 - 2};
  size_t apre = pre, apost = post;
  if (r.chance(1, 40)) { pre = L + 1; apre = huge[r.below(7)]; R.add("huge_windows"); }
  if (r.chance(1, 40)) { post = L + 1; apost = huge[r.below(7)]; R.add("huge_windows"); }
  Win w = read_window(h, b, doff, hb, he, ch.text, apre, apost);
  auto bad = [&](const string& m) { R.violation("window:" + what, what + ": " + m + "; got " + show(w) + " plain " + hexs(plain)); };
  if (!w.err.empty()) { bad("error " + w.err); return; }
  R.add("windows"); if (L) R.see("nontrivial", what);
  size_t N = w.cp.size();
  if (!N || w.off.size() != N || w.cp[N - 1] != LG_WINDOW_END) { bad("not terminated"); return; }
  --N;
  if (!(w.dh.begin <= w.dh.end && w.dh.end <= N)) { bad("hit range out of bounds"); return; }
  if (w.dh.begin > pre) { bad("more leading context than asked for"); return; }
  // elements tile the bytes and decode them
  size_t nbad = 0;
  for (size_t i = 0; i < N; ++i) {
    if (w.off[i] >= w.off[i + 1] || w.off[i + 1] > L) { bad("offsets do not increase"); return; }
    if (w.cp[i] < 0) { ++nbad; if (w.off[i + 1] != w.off[i] + 1) { bad("a bad element is not one byte"); return; } if (w.cp[i] != -(int32_t)(u8)plain[w.off[i]] - 1 && w.cp[i] != -(int32_t)(u8)raw[w.off[i]] - 1) { bad("a bad element is not its byte"); return; } }
    else { u32 cp; size_t l = w.off[i + 1] - w.off[i]; if (c->decode((const u8*)plain.data() + w.off[i], l, cp) != l || (int32_t)cp != w.cp[i]) { bad("element " + std::to_string(i) + " does not decode its bytes"); return; } }
  }
  if (nbad != w.bad) { bad("reported " + std::to_string(w.bad) + " bad elements, has " + std::to_string(nbad)); return; }
  // the hit begins at its first element, so the leading context ends there
  if (N && w.off[w.dh.begin] != hb && (w.dh.begin < N || he > hb)) { bad("leading context does not end where the hit begins"); return; }
  // leading context: the best one
  size_t lead = w.dh.begin, adj = 0, lbad = 0;
  for (size_t i = 0; i < lead; ++i) lbad += w.cp[i] < 0;
  while (adj < lead && w.cp[lead - 1 - adj] >= 0) ++adj;
  if (lead) R.add("windows_with_leading_context");
  size_t best = 0; long bestbad = 1 << 30;
  auto score = [&](vector<El> v, size_t from) {
    // bytes before the decoded part are bad elements
    vector<int32_t> x; for (auto& e : v) x.push_back(e.cp);
    while (x.size() < pre && from > 0) { --from; x.insert(x.begin(), -(int32_t)(u8)plain[from] - 1); }
    if (x.size() > pre) x.erase(x.begin(), x.end() - pre);
    size_t a = 0; while (a < x.size() && x[x.size() - 1 - a] >= 0) ++a;
    long nb = 0; for (int32_t y : x) nb += y < 0;
    if (a > best || (a == best && nb < bestbad)) { best = a; bestbad = nb; }
  };
  if (pre && hb) {
    for (size_t l = 0; l < hb && l < pre * maxc + 4; ++l) score(dec_seq(*c, plain, raw, hb - 1 - l, hb, ch.oces), hb - 1 - l);
    if (adj != best || (long)lbad != bestbad) { bad("leading context has " + std::to_string(adj) + " good characters before the hit and " + std::to_string(lbad) + " bad ones, but " + std::to_string(best) + " and " + std::to_string(bestbad) + " are possible"); return; }
  } else if (lead) { bad("leading context where there can be none"); return; }
  // hit and trailing context: decoding goes on from the hit's begin
  size_t lim = post ? L : he; auto seq = dec_seq(*c, plain, raw, hb, lim, ch.oces);
  bool straddle = false; vector<El> wanthit, wanttrail;
  for (auto& e : seq) { if (e.off < he) { wanthit.push_back(e); if (e.off + e.len > he) straddle = true; } else if (wanttrail.size() < post) wanttrail.push_back(e); }
  auto same = [&](size_t i, const El& e) { return w.off[i] == e.off && (w.cp[i] == e.cp || (e.cp < 0 && w.cp[i] < 0)); };
  if (w.dh.end - w.dh.begin != wanthit.size()) { bad("hit has " + std::to_string(w.dh.end - w.dh.begin) + " elements, expected " + std::to_string(wanthit.size())); return; }
  for (size_t i = 0; i < wanthit.size(); ++i) if (!same(lead + i, wanthit[i])) { bad("hit element " + std::to_string(i) + " differs"); return; }
  if (straddle) R.add("hits_ending_inside_a_character");
  if (N - w.dh.end != wanttrail.size()) { bad("trailing context has " + std::to_string(N - w.dh.end) + " elements, expected " + std::to_string(wanttrail.size())); return; }
  for (size_t i = 0; i < wanttrail.size(); ++i) if (!same(w.dh.end + i, wanttrail[i])) { bad("trailing element " + std::to_string(i) + " differs"); return; }
  size_t end = wanttrail.empty() ? wanthit.empty() ? hb : wanthit.back().off + wanthit.back().len : wanttrail.back().off + wanttrail.back().len;
  if (w.off[N] != end) { bad("the end offset is " + std::to_string(w.off[N]) + ", expected " + std::to_string(end)); return; }
  // the same as UTF-8
  size_t win = r.range(0, 8); u32 repl = r.chance(1, 2) ? 0xFFFD : r.chance(1, 2) ? ' ' : 0x1F4A9;
  Win w2 = read_window(h, b, doff, hb, he, ch.text, win, win);
  size_t awin = win; if (r.chance(1, 40)) { w2 = read_window(h, b, doff, hb, he, ch.text, L + 1, L + 1); awin = huge[r.below(7)]; }
  LG_Window in{doff + hb, doff + he}, outer{0, 0}, dh{0, 0}; const char* u = nullptr; LG_Error* err = nullptr;
  R.current("context " + what);
  unsigned nb = lg_hit_context(h, b.p, b.end(), doff, &in, ch.text.c_str(), awin, repl, &u, &outer, &dh, &err);
  string e = take(err); string got = u ? u : ""; lg_free_hit_context_string(u);
  R.add("contexts");
  if (!e.empty()) { bad("context error " + e); return; }
  string want; size_t wb = 0, we = 0;
  for (size_t i = 0; i + 1 < w2.cp.size() || i == w2.dh.begin || i == w2.dh.end; ++i) {
    if (i == w2.dh.begin) wb = want.size();
    if (i == w2.dh.end) we = want.size();
    if (i + 1 >= w2.cp.size()) break;
    want += u8s(w2.cp[i] <= 0 ? repl : (u32)w2.cp[i]);
  }
  if (got != want || dh.begin != wb || dh.end != we || nb != w2.bad || outer.begin != doff + w2.off[0] || outer.end != doff + w2.off.back())
    bad("context of " + std::to_string(win) + " is " + esc(got) + " hit [" + std::to_string(dh.begin) + "," + std::to_string(dh.end) + ") outer [" + std::to_string(outer.begin - doff) + "," + std::to_string(outer.end - doff) + ") bad " + std::to_string(nb) + ", expected " + esc(want) + " [" + std::to_string(wb) + "," + std::to_string(we) + ") from " + show(w2));
}
static Reg g2("window", c_window);

// ---- C15: what a pattern finds decodes to the pattern's text
static void c_round(Rng& r) {
  string canon = turn(16); EncView v = view(canon);
  if (!v.c) return;
  Chain ch = chain(r, canon, true); R.see("encodings", canon); R.see("chains", ch.text);
  bool exact_lead = is_utf(canon) || (v.icu && v.icu->maxlen == 1);
  vector<u32> w; for (int i = r.range(1, 5); i > 0; --i) w.push_back(char_of(r, v));
  Pat p; p.text = u8s(w); p.enc = ch.text; p.opts.FixedString = 1; p.opts.UnicodeMode = 1; R.current(show(p));
  Fsm f; string msg; if (add(f, p, &msg) < 0) { R.violation("round:refused:" + show(p), show(p) + " refused: " + msg); return; }
  LG_ProgramOptions po{(u32)r.range(0, 3)}; Prog prog(lg_create_program(f.h, &po)); Ctx ctx(prog);
  vector<u32> chars; vector<size_t> at; string plain;
  for (int i = r.range(1, 24); i > 0; --i) {
    if (r.chance(1, 4)) for (u32 c : w) { at.push_back(plain.size()); chars.push_back(c); plain += v.c->encode(c); }
    else { u32 c = char_of(r, v); at.push_back(plain.size()); chars.push_back(c); plain += v.c->encode(c); }
  }
  at.push_back(plain.size());
  string text = ch.fwd(plain); Exact b(text); Dec dec;
  u64 doff = r.below(3) ? r.below(5000) : 0;
  vector<Hit> got = sorted(search(ctx.h, 1, {text}, SearchOpts{doff}).hits);
  for (const Hit& h : got) {
    size_t win = r.range(0, 10); LG_Window in{h.s, h.e}, outer{0, 0}, dh{0, 0}; const char* u = nullptr; LG_Error* err = nullptr;
    LG_PatternInfo* info = lg_prog_pattern_info(prog.h, h.k);
    R.current("context of a hit of " + show(p) + " in " + hexs(text));
    unsigned nb = lg_hit_context(dec.h, b.p, b.end(), doff, &in, info->EncodingChain, win, 0xFFFD, &u, &outer, &dh, &err);
    string e = take(err); string ctxs = u ? u : ""; lg_free_hit_context_string(u);
    R.add("hits_decoded"); R.see("nontrivial", show(p) + hexs(text) + std::to_string(h.s));
    string what = "hit (" + std::to_string(h.s - doff) + "," + std::to_string(h.e - doff) + ") of " + show(p) + " window " + std::to_string(win) + " in " + hexs(text);
    if (!e.empty()) { R.violation("round:" + what, what + ": " + e); return; }
    if (dh.begin > dh.end || dh.end > ctxs.size() || ctxs.substr(dh.begin, dh.end - dh.begin) != p.text) { R.violation("round:" + what, what + ": decodes to " + esc(ctxs) + " [" + std::to_string(dh.begin) + "," + std::to_string(dh.end) + ") instead of the pattern's text"); return; }
    // on a character boundary of the text the context is the surrounding characters
    size_t i = std::lower_bound(at.begin(), at.end(), h.s - doff) - at.begin(), j = std::lower_bound(at.begin(), at.end(), h.e - doff) - at.begin();
    if (exact_lead && i < at.size() && at[i] == h.s - doff && at[j] == h.e - doff) {
      size_t a = i > win ? i - win : 0, z = std::min(chars.size(), j + win);
      string want = u8s(vector<u32>(chars.begin() + a, chars.begin() + z));
      if (want.find('\0') != string::npos) continue;
      R.add("contexts_compared");
      if (ctxs != want || outer.begin != doff + at[a] || outer.end != doff + at[z] || nb) { R.violation("round:ctx:" + what, what + ": context is " + esc(ctxs) + " of bytes [" + std::to_string(outer.begin - doff) + "," + std::to_string(outer.end - doff) + ") with " + std::to_string(nb) + " bad, expected " + esc(want) + " of [" + std::to_string(at[a]) + "," + std::to_string(at[z]) + ")"); return; }
    }
  }
  if (got.empty()) R.add("texts_without_hits");
}
static Reg g3("round", c_round);

// ---- names of encodings and transformations
static void c_names(Rng& r) {
  UErrorCode e = U_ZERO_ERROR;
  for (int k = 0; k < 50; ++k) {
    const LG_TRANS& t = LG_ENCODINGS[r.below(NALIAS)]; string n = mixcase(r, t.name);
    int id = lg_get_encoding_id(n.c_str()); R.add("names");
    R.see("nontrivial", n);
    if (id < 0 || id >= (int)NENC) { R.violation("name:" + n, "encoding name " + n + " is not found"); return; }
    // the converter ICU opens by that name
    e = U_ZERO_ERROR; UConverter* a = ucnv_open(n.c_str(), &e); if (U_FAILURE(e)) { R.add("names_icu_does_not_know"); continue; }
    string an = ucnv_getName(a, &e); ucnv_close(a);
    if (an != LG_CANONICAL_ENCODINGS[id]) { R.add("aliases_with_another_default"); 
      bool found = false; for (int i = 0, m = ucnv_countAliases(LG_CANONICAL_ENCODINGS[id], &e); i < m; ++i) { const char* al = ucnv_getAlias(LG_CANONICAL_ENCODINGS[id], i, &e); if (al && !ucnv_compareNames(al, n.c_str())) found = true; }
      if (!found) { R.violation("name:" + n, "encoding name " + n + " selects " + LG_CANONICAL_ENCODINGS[id] + ", which does not have that alias; ICU: " + an); return; } }
    string m = n; m += (char)r.range('a', 'z'); bool known = false; for (auto& x : LG_ENCODINGS) if (!strcasecmp(x.name, m.c_str())) known = true;
    if (!known && lg_get_encoding_id(m.c_str()) != -1) { R.violation("name:" + m, "unknown encoding name " + m + " is found"); return; }
  }
}
static Reg g4("names", c_names);
