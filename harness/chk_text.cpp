// C11 character classes, C12 case and modes, C13 literalness.
// Oracle: per-code-point ICU functions (u_charType, u_hasBinaryProperty, uscript_*,
// u_strFoldCase) and our own set algebra; the library builds its sets from ICU
// property patterns and closeOver.
#include "ref.h"
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/ustring.h>

typedef std::function<bool(u32)> Pred;
static CpSet from_pred(const Pred& f) {
  CpSet s; u32 b = 0; bool in = false;
  for (u32 c = 0; c < 0x110000; ++c) { bool x = f(c); if (x != in) { if (x) b = c; else s.r.push_back({b, c}); in = x; } }
  if (in) s.r.push_back({b, 0x110000});
  return s;
}
static const CpSet& cached(const string& key, const Pred& f) {
  static std::map<string, CpSet> m;
  auto i = m.find(key); if (i == m.end()) i = m.emplace(key, from_pred(f)).first;
  return i->second;
}

// ---- properties by name
struct PropDef { const char* name; int kind; int val; };      // 0 category mask, 1 binary, 2 script, 3 script extension, 4 block, 5 other int property
static const PropDef PROPS[] = {
  {"L", 0, (int)U_GC_L_MASK}, {"Lu", 0, (int)U_GC_LU_MASK}, {"Ll", 0, (int)U_GC_LL_MASK}, {"Lt", 0, (int)U_GC_LT_MASK}, {"Lm", 0, (int)U_GC_LM_MASK}, {"Lo", 0, (int)U_GC_LO_MASK}, {"LC", 0, (int)U_GC_LC_MASK},
  {"M", 0, (int)U_GC_M_MASK}, {"Mn", 0, (int)U_GC_MN_MASK}, {"Mc", 0, (int)U_GC_MC_MASK}, {"Me", 0, (int)U_GC_ME_MASK},
  {"N", 0, (int)U_GC_N_MASK}, {"Nd", 0, (int)U_GC_ND_MASK}, {"Nl", 0, (int)U_GC_NL_MASK}, {"No", 0, (int)U_GC_NO_MASK},
  {"P", 0, (int)U_GC_P_MASK}, {"Pc", 0, (int)U_GC_PC_MASK}, {"Pd", 0, (int)U_GC_PD_MASK}, {"Ps", 0, (int)U_GC_PS_MASK}, {"Pe", 0, (int)U_GC_PE_MASK}, {"Pi", 0, (int)U_GC_PI_MASK}, {"Pf", 0, (int)U_GC_PF_MASK}, {"Po", 0, (int)U_GC_PO_MASK},
  {"S", 0, (int)U_GC_S_MASK}, {"Sm", 0, (int)U_GC_SM_MASK}, {"Sc", 0, (int)U_GC_SC_MASK}, {"Sk", 0, (int)U_GC_SK_MASK}, {"So", 0, (int)U_GC_SO_MASK},
  {"Z", 0, (int)U_GC_Z_MASK}, {"Zs", 0, (int)U_GC_ZS_MASK}, {"Zl", 0, (int)U_GC_ZL_MASK}, {"Zp", 0, (int)U_GC_ZP_MASK},
  {"C", 0, (int)U_GC_C_MASK}, {"Cc", 0, (int)U_GC_CC_MASK}, {"Cf", 0, (int)U_GC_CF_MASK}, {"Co", 0, (int)U_GC_CO_MASK}, {"Cn", 0, (int)U_GC_CN_MASK},
  {"Letter", 0, (int)U_GC_L_MASK}, {"Lowercase_Letter", 0, (int)U_GC_LL_MASK}, {"gc=Lu", 0, (int)U_GC_LU_MASK}, {"General_Category=Decimal_Number", 0, (int)U_GC_ND_MASK}, {"uppercase letter", 0, (int)U_GC_LU_MASK},
  {"Alphabetic", 1, UCHAR_ALPHABETIC}, {"Lowercase", 1, UCHAR_LOWERCASE}, {"Uppercase", 1, UCHAR_UPPERCASE}, {"White_Space", 1, UCHAR_WHITE_SPACE}, {"ASCII_Hex_Digit", 1, UCHAR_ASCII_HEX_DIGIT}, {"Hex_Digit", 1, UCHAR_HEX_DIGIT},
  {"Dash", 1, UCHAR_DASH}, {"Ideographic", 1, UCHAR_IDEOGRAPHIC}, {"Diacritic", 1, UCHAR_DIACRITIC}, {"Math", 1, UCHAR_MATH}, {"Quotation_Mark", 1, UCHAR_QUOTATION_MARK}, {"Emoji", 1, UCHAR_EMOJI},
  {"ID_Start", 1, UCHAR_ID_START}, {"XID_Continue", 1, UCHAR_XID_CONTINUE}, {"Default_Ignorable_Code_Point", 1, UCHAR_DEFAULT_IGNORABLE_CODE_POINT}, {"Noncharacter_Code_Point", 1, UCHAR_NONCHARACTER_CODE_POINT}, {"Cased", 1, UCHAR_CASED}, {"Variation_Selector", 1, UCHAR_VARIATION_SELECTOR},
  {"Alphabetic=no", 6, UCHAR_ALPHABETIC}, {"White_Space=yes", 1, UCHAR_WHITE_SPACE},
  {"Greek", 2, USCRIPT_GREEK}, {"Latin", 2, USCRIPT_LATIN}, {"Cyrillic", 2, USCRIPT_CYRILLIC}, {"Han", 2, USCRIPT_HAN}, {"Script=Hebrew", 2, USCRIPT_HEBREW}, {"sc=Arab", 2, USCRIPT_ARABIC}, {"Thai", 2, USCRIPT_THAI}, {"Hiragana", 2, USCRIPT_HIRAGANA}, {"Common", 2, USCRIPT_COMMON}, {"Hangul", 2, USCRIPT_HANGUL}, {"Gothic", 2, USCRIPT_GOTHIC},
  {"scx=Deva", 3, USCRIPT_DEVANAGARI}, {"Script_Extensions=Greek", 3, USCRIPT_GREEK},
  {"Block=Basic_Latin", 4, UBLOCK_BASIC_LATIN}, {"blk=Cyrillic", 4, UBLOCK_CYRILLIC}, {"Block=Emoticons", 4, UBLOCK_EMOTICONS}, {"Block=Braille_Patterns", 4, UBLOCK_BRAILLE_PATTERNS}, {"Block=Dingbats", 4, UBLOCK_DINGBATS},
  {"Any", 7, 0}, {"ASCII", 8, 0}, {"Assigned", 9, 0},
};
static const int NPROPS = sizeof PROPS / sizeof *PROPS;
static const CpSet& prop_set(const PropDef& p) {
  return cached(string("p") + char('0' + p.kind) + std::to_string((unsigned)p.val), [&](u32 c) -> bool {
    switch (p.kind) {
    case 0: return (U_MASK(u_charType(c)) & (u32)p.val) != 0;
    case 1: return u_hasBinaryProperty(c, (UProperty)p.val);
    case 2: { UErrorCode e = U_ZERO_ERROR; return uscript_getScript(c, &e) == p.val; }
    case 3: return uscript_hasScript(c, (UScriptCode)p.val);
    case 4: return ublock_getCode(c) == p.val;
    case 6: return !u_hasBinaryProperty(c, (UProperty)p.val);
    case 7: return true;
    case 8: return c < 0x80;
    case 9: return u_charType(c) != U_UNASSIGNED;
    }
    return false;
  });
}

// ---- shorthand classes, by the definitions in api.h (and PCRE's \h and \v)
static bool hspace(u32 c) { return c == 9 || c == 0x20 || c == 0xA0 || c == 0x1680 || c == 0x180E || (c >= 0x2000 && c <= 0x200A) || c == 0x202F || c == 0x205F || c == 0x3000; }
static bool vspace(u32 c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
static const CpSet& shorthand(char k, bool ascii) {
  string key = string("sh") + k + (ascii ? "a" : "u");
  return cached(key, [&](u32 c) -> bool {
    int t = u_charType(c);
    switch (k) {
    case 'd': return ascii ? c >= '0' && c <= '9' : t == U_DECIMAL_DIGIT_NUMBER;
    case 'w': return c == '_' || (ascii ? (c < 0x80 && isalnum((int)c)) : (U_MASK(t) & (U_GC_L_MASK | U_GC_N_MASK)) != 0);
    case 's': return ascii ? c == ' ' || (c >= 9 && c <= 13) : hspace(c) || vspace(c) || (U_MASK(t) & U_GC_Z_MASK) != 0;
    case 'h': return hspace(c);
    case 'v': return vspace(c);
    }
    return false;
  });
}

// ---- case closure by full case folding
struct Folds {
  std::unordered_map<u32, u32> cls;             // code point -> index of its class (only non-trivial ones)
  vector<vector<u32>> members; CpSet cased;
  Folds() {
    std::map<std::u16string, vector<u32>> m;
    for (u32 c = 0; c < 0x110000; ++c) {
      if (c >= 0xD800 && c < 0xE000) continue;
      UChar in[2]; int n = 0; U16_APPEND_UNSAFE(in, n, c);
      UChar out[8]; UErrorCode e = U_ZERO_ERROR; int l = u_strFoldCase(out, 8, in, n, U_FOLD_CASE_DEFAULT, &e);
      m[std::u16string((const char16_t*)out, l)].push_back(c);
    }
    for (auto& x : m) if (x.second.size() > 1) { for (u32 c : x.second) { cls[c] = members.size(); cased.r.push_back({c, c + 1}); } members.push_back(x.second); }
    cased.norm();
  }
};
static const Folds& folds() { static Folds f; return f; }
static CpSet close_unicode(const CpSet& s) {
  CpSet x = s; const Folds& f = folds();
  for (auto& m : f.members) for (u32 c : m) if (s.has(c)) { for (u32 d : m) x.r.push_back({d, d + 1}); break; }
  x.norm(); return x;
}
// ASCII characters fold among themselves; the others fold as in Unicode
static CpSet close_case(const CpSet& s, bool ascii) {
  if (!ascii) return close_unicode(s);
  CpSet x = s | close_unicode(s - CpSet(0, 0x7f));
  for (int i = 0; i < 26; ++i) { if (s.has('a' + i)) x.r.push_back({(u32)('A' + i), (u32)('B' + i)}); if (s.has('A' + i)) x.r.push_back({(u32)('a' + i), (u32)('b' + i)}); }
  x.norm(); return x;
}

// ---- rendering of characters
static string utf8(u32 c) { return codec_utf8()->encode(c); }
static bool is_meta(u32 c) { return c < 0x80 && strchr("|()?+*.[]^$-{}&~<=!\\", (int)c) && c; }
static bool plain_ok(u32 c) { return c >= 0x80 ? !(c >= 0xD800 && c < 0xE000) : c >= 0x20 && c < 0x7f && !is_meta(c); }
static string spell(Rng& r, u32 c, int style = -1) {
  char b[64];
  for (;;) {
    int k = style >= 0 ? style : r.range(0, 8); style = -1;
    switch (k) {
    case 0: case 1: case 2: if (plain_ok(c)) return utf8(c); break;
    case 3: if (is_meta(c)) return string("\\") + (char)c; break;
    case 4: if (c < 0x100) { snprintf(b, sizeof b, r.chance(1, 2) ? "\\x%02x" : "\\x%02X", c); return b; } break;
    case 5: snprintf(b, sizeof b, r.chance(1, 2) ? "\\x{%x}" : "\\x{%06X}", c); return b;
    case 6: if (c < 0x100) { snprintf(b, sizeof b, "\\%03o", c); return b; } break;
    case 7:
      if (r.chance(1, 2)) { snprintf(b, sizeof b, "\\N{U+%04X}", c); return b; }
      else { char nm[128]; UErrorCode e = U_ZERO_ERROR; int l = u_charName(c, U_UNICODE_CHAR_NAME, nm, sizeof nm, &e); if (U_SUCCESS(e) && l > 0) return string("\\N{") + nm + "}"; }
      break;
    case 8: switch (c) { case 7: return "\\a"; case 0x1b: return "\\e"; case 12: return "\\f"; case 10: return "\\n"; case 13: return "\\r"; case 9: return "\\t"; } break;
    }
  }
}
static u32 pick_cp(Rng& r) {
  static const u32 edge[] = {0x01, 0x09, 0x0a, 0x1f, 0x20, 0x2d, 0x5b, 0x5d, 0x5e, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xb5, 0xc5, 0xdf, 0xe5, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x1c5, 0x345, 0x390, 0x3c2, 0x3c3, 0x3a3, 0x430, 0x5d0, 0x660, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x180e, 0x1e9e, 0x2000, 0x2028, 0x212a, 0x212b, 0x3000, 0x4e00, 0xac00, 0xd7ff, 0xe000, 0xfb05, 0xfb06, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10400, 0x10428, 0x1d7ce, 0x1f600, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff};
  switch (r.below(6)) {
  case 0: case 1: return r.range(0x21, 0x7e);
  case 2: return edge[r.below(sizeof edge / sizeof *edge)];
  case 3: { const Folds& f = folds(); return r.pick(r.pick(f.members)); }
  case 4: return 1 + r.below(0x7ff);
  default: { u32 c = r.chance(1, 2) ? r.below(0x10000) : r.below(0x110000); return c == 0 || (c >= 0xD800 && c < 0xE000) ? 'q' : c; }
  }
}
struct Mode { bool ci, ascii; };

struct ClassExpr { CpSet s; string t; };
static int class_ops;
static ClassExpr gen_class(Rng& r, Mode m, int depth);
static ClassExpr gen_catom(Rng& r, Mode m, int depth, bool op) {
  ClassExpr e;
  switch (r.below(depth > 0 ? 9 : 7)) {
  case 0: case 1: { u32 c = pick_cp(r); e.s = CpSet::one(c); e.t = spell(r, c); break; }
  case 2: case 3: {
    u32 a = pick_cp(r), b = r.chance(1, 2) ? pick_cp(r) : a + 1 + r.below(r.chance(1, 2) ? 40 : 3000);
    if (a > b) std::swap(a, b);
    if (b > 0x10ffff) b = 0x10ffff;
    if (a == b || (b >= 0xd800 && b < 0xe000)) { e.s = CpSet::one(a); e.t = spell(r, a); break; }
    e.s = CpSet(a, b); e.t = spell(r, a) + "-" + spell(r, b); break;
  }
  case 4: {
    static const char K[] = "dwshv"; char k = K[r.below(5)]; bool neg = r.chance(1, 4);
    e.s = shorthand(k, m.ascii); if (neg) e.s = ~e.s;
    e.t = string("\\") + (char)(neg ? toupper(k) : k); break;
  }
  case 5: case 6: {
    if (m.ci && m.ascii) { u32 c = pick_cp(r); e.s = CpSet::one(c); e.t = spell(r, c); break; }
    const PropDef& p = PROPS[r.below(NPROPS)]; bool neg = !m.ci && r.chance(1, 3);
    e.s = prop_set(p); if (m.ci) e.s = close_unicode(e.s);
    if (neg) e.s = ~e.s;
    e.t = string(neg ? "\\P{" : "\\p{") + p.name + "}";
    R.see("properties", p.name);
    break;
  }
  default: return gen_class(r, m, depth - 1);
  }
  return e;
}
static ClassExpr gen_class(Rng& r, Mode m, int depth) {
  for (int tries = 0;; ++tries) {
    ClassExpr e; bool neg = r.chance(1, 3); class_ops = 0;
    int n = tries > 6 ? 1 : r.range(1, depth > 0 ? 4 : 3);
    bool hyphen = false;
    string t = neg ? "[^" : "[";
    if (r.chance(1, 14)) { t += "-"; e.s = CpSet::one('-'); hyphen = true; n = std::max(1, n - 1); }
    else if (!neg && r.chance(1, 14)) { t += "]"; e.s = CpSet::one(']'); hyphen = true; }
    for (int i = 0; i < n; ++i) {
      bool first = i == 0 && !hyphen;
      int op = first || (i == 0 && hyphen) || r.chance(1, 2) ? 0 : r.range(1, 3);
      ClassExpr a = gen_catom(r, m, depth, op != 0);
      if (i == 0 && hyphen && a.t[0] == '-') a.t = "\\-", a.s = CpSet::one('-');
      switch (op) {
      case 0: e.s = e.s | a.s; break;
      case 1: e.s = e.s & a.s; t += "&&"; break;
      case 2: e.s = e.s - a.s; t += "--"; break;
      case 3: e.s = e.s ^ a.s; t += "~~"; break;
      }
      if (op) ++class_ops;
      t += a.t;
    }
    if (r.chance(1, 16)) { t += "-"; e.s = e.s | CpSet::one('-'); }
    t += "]";
    if (m.ci) e.s = close_case(e.s, m.ascii);
    if (neg) e.s = ~e.s;
    if (e.s.empty() && tries < 12) continue;     // refused as empty
    if (e.s.empty()) { e.s = CpSet::one('q'); t = "[q]"; }
    e.t = t; return e;
  }
}

static const string& all_scalars() {
  static string s;
  if (s.empty()) { s.reserve(4400000); for (u32 c = 0; c < 0x110000; ++c) s += utf8(c); }
  return s;
}
static u32 cp_at(const string& s, size_t p) { u32 c = 0; codec_utf8()->decode((const u8*)s.data() + p, s.size() - p, c); return c; }

static string show_cps(const vector<u32>& v) { string o; char b[16]; for (size_t i = 0; i < v.size() && i < 10; ++i) { snprintf(b, sizeof b, " U+%04X", v[i]); o += b; } if (v.size() > 10) o += " ... " + std::to_string(v.size()); return o; }

// C11
static void c11(Rng& r) {
  Mode m{r.chance(1, 5), r.chance(1, 2)};
  ClassExpr e;
  switch (r.below(8)) {
  case 0: { static const char K[] = "dwshv"; char k = K[r.below(5)]; bool neg = r.chance(1, 2); e.s = shorthand(k, m.ascii); if (neg) e.s = ~e.s; e.t = string("\\") + (char)(neg ? toupper(k) : k); break; }
  case 1: { m.ci = false; const PropDef& p = PROPS[r.below(NPROPS)]; bool neg = r.chance(1, 3); e.s = prop_set(p); if (neg) e.s = ~e.s; e.t = string(neg ? "\\P{" : "\\p{") + p.name + "}"; R.see("properties", p.name); break; }
  case 2: if (r.chance(1, 8)) { e.s = CpSet(0, 0x10ffff); e.t = "."; break; }  // fall through
  default: e = gen_class(r, m, r.range(0, 2));
  }
  static const Codec* const CS[] = {codec_utf8(), codec_utf8(), codec_utf8(), codec_utf16le(), codec_utf16be(), codec_utf32le(), codec_utf32be(), codec_ascii(), codec_latin1()};
  bool sweep = r.chance(1, 6);
  const Codec* c = sweep ? codec_utf8() : CS[r.below(9)];
  CpSet want = (e.s & (CpSet(0, 0xd7ff) | CpSet(0xe000, 0x10ffff)));
  if (c == codec_ascii()) want = want & CpSet(0, 0x7f);
  if (c == codec_latin1()) want = want & CpSet(0, 0xff);
  if (want.empty()) { R.add("nothing_encodable"); return; }
  Pat p; p.text = e.t; p.opts.CaseInsensitive = m.ci; p.opts.UnicodeMode = !m.ascii; p.enc = c->name();
  if (r.chance(1, 6)) { p.text = "(" + p.text + ")"; }
  R.current(show(p));
  string msg; Prog prog = build({p}, r.chance(1, 2) ? 0 : r.range(1, 10), nullptr, &msg);
  if (!prog) { R.violation("refused:" + p.text, "class " + show(p) + " is refused: " + msg); return; }
  Ctx ctx(prog);
  R.add("classes"); R.see("classes", p.text);
  vector<u32> extra, miss; string other;
  if (sweep) {
    const string& d = all_scalars();
    vector<Hit> hits; lg_reset_context(ctx.h);
    lg_search(ctx.h, d.data(), d.data() + d.size(), 0, &hits, collect); lg_closeout_search(ctx.h, &hits, collect);
    size_t i = 0;
    for (auto& x : want.r) for (u32 cp = x.first; cp < x.second; ++cp) {
      // position of cp's encoding in the text
      size_t pos = cp < 0x80 ? cp : cp < 0x800 ? 0x80 + (cp - 0x80) * 2ul : cp < 0xd800 ? 0x80 + 0x780 * 2ul + (cp - 0x800) * 3ul : cp < 0x10000 ? 0x80 + 0x780 * 2ul + (cp - 0x800 - 0x800) * 3ul : 0x80 + 0x780 * 2ul + (0xf800 - 0x800) * 3ul + (cp - 0x10000) * 4ul;
      while (i < hits.size() && hits[i].s < pos) extra.push_back(cp_at(d, hits[i++].s));
      if (i < hits.size() && hits[i].s == pos && hits[i].e == pos + (cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4)) ++i; else miss.push_back(cp);
    }
    while (i < hits.size()) extra.push_back(cp_at(d, hits[i++].s));
    R.add("sweeps_of_all_code_points"); R.add("code_points_judged", 0x10f800);
  }
  else {
    vector<u32> probe;
    auto put = [&](u32 x) { for (u32 y = x ? x - 1 : 0; y <= x + 1 && y < 0x110000; ++y) probe.push_back(y); };
    for (size_t i = 0; i < want.r.size() && i < 60; ++i) { auto& x = want.r.size() <= 60 ? want.r[i] : r.pick(want.r); put(x.first); put(x.second - 1); probe.push_back(x.first + r.below(x.second - x.first)); }
    for (int i = 0; i < 200; ++i) probe.push_back(pick_cp(r));
    for (u32 i = 0; i < 128; ++i) probe.push_back(i);
    // a character of two or more bytes is not matched by bytes of other characters
    for (u32 x : probe) {
      string b = c->encode(x);
      if (b.empty()) continue;
      auto h = starts_with(ctx.h, b + (r.chance(1, 2) ? "a" : ""), 0);
      bool got = h.size() == 1 && h[0].e == b.size(), w = want.has(x);
      if (!h.empty() && !got) other = "hit " + show(h) + " on the encoding of" + show_cps({x});
      if (w && !got) miss.push_back(x);
      if (!w && !h.empty()) extra.push_back(x);
      R.add("code_points_judged");
    }
    // byte sequences that encode nothing
    for (int i = 0; i < 60 && (c == codec_utf8() || c == codec_utf16le() || c == codec_utf16be() || c == codec_utf32le() || c == codec_utf32be()); ++i) {
      string b; int n = r.range(1, 5);
      if (r.chance(1, 2)) { b = c->encode(r.chance(1, 2) && !want.empty() ? want.nth(r.below(want.count())) : pick_cp(r)); if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); if (r.chance(1, 3) && b.size() > 1) b.resize(b.size() - 1); }
      else for (int k = 0; k < n; ++k) b += (char)(r.chance(1, 2) ? r.below(256) : 0x80 + r.below(0x80));
      u32 cp; size_t l = c->decode((const u8*)b.data(), b.size(), cp);
      bool w = l && want.has(cp);
      auto h = starts_with(ctx.h, b, 0);
      if (w ? !(h.size() == 1 && h[0].e == l) : !h.empty()) { other = "bytes " + hexs(b) + (w ? " should be matched for " + std::to_string(l) + " bytes" : " should not be matched") + ", got " + show(h); }
      R.add("byte_sequences_judged");
    }
  }
  if (want.count() > 0) R.see("nontrivial", p.text + p.enc);
  if (!miss.empty() || !extra.empty() || !other.empty())
    R.violation("class:" + p.text + ":" + p.enc + (m.ci ? "i" : "") + (m.ascii ? "a" : ""), show(p) + ": not matched although in the class:" + show_cps(miss) + "; matched although not in it:" + show_cps(extra) + (other.empty() ? "" : "; " + other));
  R.sample(show(p));
}
static Reg reg_c11("class", c11);

// C12, part 1: every code point's closure; part 2: switches
static void c12a(Rng& r) {
  bool ascii = r.chance(1, 2);
  const Codec* CS[] = {codec_utf8(), codec_utf8(), codec_utf16le(), codec_utf32be()};
  const Codec* c = CS[r.below(4)];
  const Folds& f = folds();
  vector<u32> cps;
  if (r.chance(2, 3)) { size_t n = f.cased.count(); size_t b = r.below(n); for (size_t i = 0; i < 100; ++i) cps.push_back(f.cased.nth((b + i) % n)); }
  else if (r.chance(1, 4)) for (u32 i = 1; i < 128; ++i) cps.push_back(i);
  else { u32 b = r.below(0x110000 - 128); for (u32 i = 0; i < 100; ++i) { u32 x = b + i; if (x && !(x >= 0xd800 && x < 0xe000)) cps.push_back(x); } }
  if (cps.empty()) return;
  vector<Pat> ps; vector<CpSet> want;
  std::set<u32> probe;
  for (u32 x : cps) {
    Pat p; p.enc = c->name(); p.opts.UnicodeMode = !ascii; bool ci = true;
    switch (r.below(6)) {
    case 0: p.text = utf8(x); p.opts.FixedString = 1; p.opts.CaseInsensitive = 1; break;
    case 1: p.text = "[" + spell(r, x, 5) + "]"; p.opts.CaseInsensitive = 1; break;
    case 2: p.text = "(?i)" + spell(r, x); break;
    case 3: p.text = "(?-i)" + spell(r, x); p.opts.CaseInsensitive = 1; ci = false; break;
    case 4: p.text = (ascii ? "(?ia)" : "(?i-a)") + spell(r, x); p.opts.UnicodeMode = ascii; break;
    default: p.text = spell(r, x); p.opts.CaseInsensitive = 1;
    }
    CpSet w = ci ? close_case(CpSet::one(x), ascii) : CpSet::one(x);
    ps.push_back(p); want.push_back(w);
    for (auto& q : w.r) for (u32 y = q.first; y < q.second; ++y) { probe.insert(y); R.see("nontrivial", ((u64)x << 24 | y) * 2 + ascii); }
    auto i = f.cls.find(x); if (i != f.cls.end()) for (u32 y : f.members[i->second]) probe.insert(y);
    probe.insert(x ^ 0x20); if (x < 0x10ffff) probe.insert(x + 1);
    R.see("code_points_as_patterns", x * 2 + ascii);
  }
  string what = std::string("case patterns from U+") + std::to_string(cps[0]) + " " + show(ps[0]);
  R.current(what);
  Fsm fs; for (auto& p : ps) { string msg; if (add(fs, p, &msg) < 0) { R.violation("refused:" + p.text, show(p) + " is refused: " + msg); return; } }
  LG_ProgramOptions po{(u32)(r.chance(1, 2) ? 0 : 3)}; Prog prog(lg_create_program(fs.h, &po));
  Ctx ctx(prog);
  for (u32 y : probe) {
    string b = c->encode(y); if (b.empty()) continue;
    auto h = starts_with(ctx.h, b, 0);
    std::set<u32> got; for (auto& x : h) if (x.e == b.size()) got.insert(x.k);
    for (size_t k = 0; k < ps.size(); ++k) if (want[k].has(y) != (got.count(k) > 0)) {
      R.violation("case:" + ps[k].text + (ascii ? "a" : "u"), show(ps[k]) + (want[k].has(y) ? " does not match" : " matches") + show_cps({y})); return;
    }
    R.add("code_points_judged", ps.size());
  }
}
static Reg reg_c12a("case", c12a);

// closure of whole sets: ranges of any size, lists and negations, probed at every cased character and every boundary
static void c12c(Rng& r) {
  bool ascii = r.chance(1, 3); Mode m{true, ascii};
  const Codec* CS[] = {codec_utf8(), codec_utf8(), codec_utf16le(), codec_utf16be(), codec_utf32le()};
  const Codec* c = CS[r.below(5)]; const Folds& f = folds();
  CpSet s; string t; int n = r.range(1, 3);
  if (r.chance(1, 3)) { ClassExpr e = gen_class(r, m, 1); s = e.s; t = e.t; }
  else {
    bool neg = r.chance(1, 3); t = neg ? "[^" : "[";
    for (int i = 0; i < n; ++i) {
      u32 a = f.cased.nth(r.below(f.cased.count())), b;
      if (r.chance(1, 3)) a = r.chance(1, 2) ? pick_cp(r) : 1 + r.below(0x300);
      switch (r.below(5)) { case 0: b = 0x10ffff - r.below(3) * r.below(0x8000); break; case 1: b = a + r.below(30); break; case 2: b = a + r.below(0x3000); break; case 3: b = f.cased.nth(r.below(f.cased.count())); break; default: b = a + 0xff00 + r.below(0x300); }
      if (a > b) std::swap(a, b);
      if (b > 0x10ffff) b = 0x10ffff;
      if (b >= 0xd800 && b < 0xe000) b = 0xe000;
      if (a >= 0xd800 && a < 0xe000) a = 0xe000;
      if (a >= b) { s = s | CpSet::one(a); t += spell(r, a, 5); } else { s = s | CpSet(a, b); t += spell(r, a, 5) + "-" + spell(r, b, 5); }
    }
    t += "]"; s = close_case(s, ascii); if (neg) s = ~s;
  }
  s = s & (CpSet(0, 0xd7ff) | CpSet(0xe000, 0x10ffff));
  if (s.empty()) return;
  Pat p; p.text = t; p.enc = c->name(); p.opts.UnicodeMode = !ascii; p.opts.CaseInsensitive = 1;
  if (r.chance(1, 4)) { p.opts.CaseInsensitive = 0; p.text = "(?i)" + t; }
  R.current(show(p)); string msg; Prog prog = build({p}, r.chance(1, 2) ? 0 : 3, nullptr, &msg);
  if (!prog) { R.violation("refused:" + p.text, show(p) + " is refused: " + msg); return; }
  Ctx ctx(prog); vector<u32> probe, bad;
  for (auto& q : f.cased.r) for (u32 y = q.first; y < q.second; ++y) probe.push_back(y);
  for (auto& q : s.r) { if (q.first) probe.push_back(q.first - 1); probe.push_back(q.first); probe.push_back(q.second - 1); if (q.second < 0x110000) probe.push_back(q.second); if (probe.size() > 8000) break; }
  for (u32 y : probe) {
    string b = c->encode(y); if (b.empty()) continue;
    auto h = starts_with(ctx.h, b, 0); bool got = h.size() == 1 && h[0].e == b.size();
    if (got != s.has(y)) bad.push_back(y);
  }
  R.add("code_points_judged", probe.size()); R.add("closed_sets"); R.see("nontrivial", p.text + p.enc);
  if (s.count() > 0x10000) R.add("closed_sets_over_65536");
  if (!bad.empty()) R.violation("case:" + p.text + (ascii ? "a" : "u"), show(p) + " differs from the case closure at" + show_cps(bad));
}
static Reg reg_c12c("caseset", c12c);

static NodeP leaf_with(Rng& r, Mode m, string& t) {
  static const u32 L[] = {'a', 'b', 'A', 'B', 'k', 'K', 's', 'S', 0x212a, 0x17f, 0xe9, 0xc9, 0x3c3, 0x3c2, '1', '_', 0x663, ' '};
  CpSet s;
  switch (r.below(8)) {
  case 0: { static const char K[] = "dwshv"; char k = K[r.below(3)]; bool neg = r.chance(1, 4); s = shorthand(k, m.ascii); if (neg) s = ~s; t = string("\\") + (char)(neg ? toupper(k) : k); break; }
  case 1: case 2: {
    bool neg = r.chance(1, 3); t = neg ? "[^" : "["; int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) { if (r.chance(1, 5)) { static const char K[] = "dws"; char k = K[r.below(3)]; s = s | shorthand(k, m.ascii); t += "\\"; t += k; } else { u32 c = L[r.below(18)]; s = s | CpSet::one(c); t += spell(r, c, 0); } }
    if (m.ci) s = close_case(s, m.ascii);
    if (neg) s = ~s;
    t += "]"; break;
  }
  default: { u32 c = L[r.below(18)]; s = CpSet::one(c); if (m.ci) s = close_case(s, m.ascii); t = spell(r, c, r.chance(3, 4) ? 0 : -1); }
  }
  return mk_set(s, t);
}
static string gen_switch(Rng& r, Mode& m) {
  static const char* SW[] = {"(?i)", "(?-i)", "(?a)", "(?-a)", "(?i-a)", "(?a-i)", "(?ia)", "(?-ia)", "(?ai)", "(?-ai)"};
  int k = r.below(10);
  switch (k) {
  case 0: m.ci = true; break; case 1: m.ci = false; break; case 2: m.ascii = true; break; case 3: m.ascii = false; break;
  case 4: m.ci = true; m.ascii = false; break; case 5: m.ascii = true; m.ci = false; break;
  case 6: case 8: m.ci = m.ascii = true; break; default: m.ci = m.ascii = false;
  }
  R.add("switches");
  return SW[k];
}
// a sequence or alternation; switches hold until the end of the enclosing group, later branches included
static NodeP gen_sw(Rng& r, Mode& m, int depth, int& budget, string& t) {
  vector<NodeP> alts; int na = r.chance(1, 4) ? 2 : 1;
  for (int a = 0; a < na; ++a) {
    if (a) t += "|";
    vector<NodeP> v; int n = r.range(1, 4);
    if (!a && r.chance(1, 4)) t += gen_switch(r, m);       // at the start of a later branch a switch is refused
    for (int i = 0; i < n && (budget > 0 || v.empty()); ++i) {
      NodeP x; string xt;
      if (depth > 0 && r.chance(1, 3)) { Mode g = m; string gt; x = gen_sw(r, g, depth - 1, budget, gt); xt = "(" + gt + ")"; }
      else { x = leaf_with(r, m, xt); --budget; }
      if (r.chance(1, 4) && !nullable(x)) {
        switch (r.below(4)) { case 0: x = mk_rep(x, 1, -1, false); xt += "+"; break; case 1: x = mk_rep(x, 0, 1, false); xt += "?"; break; case 2: x = mk_rep(x, 2, 3, false); xt += "{2,3}"; break; default: x = mk_rep(x, 1, -1, true); xt += "+?"; }
      }
      v.push_back(x); t += xt;
      if (r.chance(1, 5)) t += gen_switch(r, m);
    }
    alts.push_back(mk_cat(v));
  }
  return mk_alt(alts);
}
static void c12b(Rng& r) {
  NodeP n; Pat p; Mode m0;
  do {
    Mode m{r.chance(1, 2), r.chance(1, 2)}; m0 = m; int b = r.range(2, 9); p.text.clear();
    n = gen_sw(r, m, 2, b, p.text);
  } while (nullable(n) || lazy_empty(n) || weight(n) > 30 || wide_leaves(n) > 6);
  p.opts.CaseInsensitive = m0.ci; p.opts.UnicodeMode = !m0.ascii;
  const Codec* CS[] = {codec_utf8(), codec_utf8(), codec_utf16le(), codec_utf32le()};
  const Codec* c = CS[r.below(4)]; p.enc = c->name();
  R.current(show(p));
  int wide = wide_leaves(n);
  string msg; Prog prog = build({p}, wide > 2 ? 0 : wide ? r.range(0, 1) : r.range(0, 4), nullptr, &msg);
  if (!prog) { R.violation("refused:" + p.text, show(p) + " is refused: " + msg); return; }
  Ctx ctx(prog); Ref ref(n, c);
  R.see("patterns", p.text);
  GenOpt go;
  for (int t = 0; t < 4; ++t) {
    string d;
    for (int i = 0, k = r.range(1, 8); i < k; ++i) {
      if (r.chance(2, 3)) { string x; auto flip = [&](u32 cp) { const Folds& f = folds(); auto it = f.cls.find(cp); return it == f.cls.end() || r.chance(1, 2) ? cp : r.pick(f.members[it->second]); };
        string s = sample(n, r, *codec_utf8()); for (size_t q = 0; q < s.size();) { u32 cp; size_t l = codec_utf8()->decode((const u8*)s.data() + q, s.size() - q, cp); if (!l) break; q += l; d += c->encode(flip(cp)); } }
      else { static const u32 L[] = {'a', 'b', 'A', 'k', 'K', 's', 0x212a, 0x17f, 0xe9, 0xc9, 0x3c3, '1', '_', 0x663, ' ', 0xa0}; d += c->encode(L[r.below(16)]); }
    }
    R.current(show(p) + " on " + esc(d));
    vector<Hit> want; for (auto& x : ref.all(d)) want.push_back(Hit{x.first, x.second, 0});
    auto got = sorted(search(ctx.h, 1, split(d, r, r.chance(1, 2) ? 0 : 4)).hits);
    R.add("searches"); R.add("expected_hits", want.size());
    if (!want.empty()) R.see("nontrivial", p.text + d);
    if (got != want) { R.violation("switch:" + p.text + ":" + hexs(d), show(p) + " on \"" + esc(d) + "\" expected " + show(want) + " got " + show(got)); return; }
  }
  R.sample(show(p));
}
static Reg reg_c12b("switches", c12b);

// C13
static vector<pair<size_t, size_t>> find_all(const string& d, const vector<CpSet>& s, const Codec* c) {
  vector<pair<size_t, size_t>> o;
  for (size_t p = 0; p < d.size();) {
    size_t q = p; bool ok = true;
    for (auto& x : s) { u32 cp; size_t l = q < d.size() ? c->decode((const u8*)d.data() + q, d.size() - q, cp) : 0; if (!l || !x.has(cp)) { ok = false; break; } q += l; }
    if (ok) { o.push_back({p, q}); p = q; } else ++p;
  }
  return o;
}
static void c13(Rng& r) {
  const Codec* CS[] = {codec_utf8(), codec_utf8(), codec_ascii(), codec_ascii(), codec_utf16le(), codec_utf16be(), codec_utf32le(), codec_utf32be(), codec_latin1()};
  const Codec* c = CS[r.below(9)];
  u32 lim = c == codec_ascii() ? 0x80 : c == codec_latin1() ? 0x100 : 0x110000;
  int n = r.chance(1, 10) ? r.range(20, 120) : r.range(1, 10);
  static const string metas = "|()?+*.[]^$-{}&~<=!\\,-&~ai09#/:;@_'%\" `xdbAKZzNpP";
  vector<u32> s; bool small = r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    u32 x;
    if (r.chance(1, 2)) x = (u8)metas[r.below(metas.size())];
    else if (small) x = 'a' + r.below(3);
    else x = pick_cp(r);
    if (x >= lim) x = 'z';
    s.push_back(x);
    if (r.chance(1, 5)) s.push_back(x);
  }
  Pat p; p.enc = c->name(); p.opts.UnicodeMode = r.chance(1, 2);
  bool ci = r.chance(1, 4); p.opts.CaseInsensitive = ci;
  int kind = r.below(3);
  NodeP node;
  vector<CpSet> sets; for (u32 x : s) sets.push_back(ci ? close_case(CpSet::one(x), !p.opts.UnicodeMode) : CpSet::one(x));
  if (kind == 0) {          // fixed string: nothing is special
    p.opts.FixedString = 1 + r.below(2); for (u32 x : s) p.text += utf8(x);
    if (p.opts.FixedString == 2) p.opts.FixedString = (char)0x80;   // "non-zero"
    R.add("fixed_strings");
  }
  else if (kind == 1) {     // every spelling of a character means that character
    for (u32 x : s) p.text += spell(r, x);
    R.add("spelled_strings");
  }
  else {                    // characters that need no escape outside a class, with repetitions
    static const string lit = "],-<=!&~#/:;@_'%\" `-&~-&~";
    vector<NodeP> v; int k = r.range(1, 6); string prev; bool any = false;
    s.clear();
    for (int i = 0; i < k; ++i) {
      u32 x = r.chance(3, 4) ? (u8)lit[r.below(lit.size())] : 'a' + r.below(3);
      NodeP l = mk_set(ci ? close_case(CpSet::one(x), !p.opts.UnicodeMode) : CpSet::one(x), string(1, (char)x));
      string t(1, (char)x); s.push_back(x);
      if (r.chance(1, 3)) {
        int mn = r.range(0, 2), mx = r.chance(1, 2) ? -1 : mn + r.range(mn ? 0 : 1, 2); bool ng = r.chance(1, 4);
        if (!(mn == 1 && mx == 1)) { l = mk_rep(l, mn, mx, ng); t = render(l); }
      }
      p.text += t; v.push_back(l);
    }
    if (r.chance(1, 3)) { NodeP a = mk_set(CpSet::one('#'), "#"); v.push_back(a); p.text += "#"; s.push_back('#'); }
    node = mk_cat(v);
    if (nullable(node)) { p.text = "@" + p.text; v.insert(v.begin(), mk_set(CpSet::one('@'), "@")); node = mk_cat(v); s.insert(s.begin(), '@'); }
    R.add("bare_literals");
  }
  R.current(show(p));
  string msg; Prog prog = build({p}, r.range(0, 6), nullptr, &msg);
  if (!prog) { R.violation("refused:" + p.text + (kind ? "" : "F"), show(p) + " is refused: " + msg); return; }
  Ctx ctx(prog); R.see("patterns", p.text);
  std::unique_ptr<Ref> ref; if (node) ref.reset(new Ref(node, c));
  for (int t = 0; t < 3; ++t) {
    string d;
    for (int i = 0, k = r.range(1, 5); i < k; ++i) {
      switch (r.below(5)) {
      case 0: { size_t a = r.below(s.size()), b = a + 1 + r.below(s.size() - a); for (size_t j = a; j < b; ++j) d += c->encode(s[j]); break; }
      case 1: { vector<u32> q = s; q[r.below(q.size())] = r.chance(1, 2) ? r.pick(s) : 'a' + r.below(4); for (u32 x : q) d += c->encode(x); break; }
      case 2: if (r.chance(1, 4)) d += (char)r.below(256); // fall through
      default:
        if (node) d += sample(node, r, *c);
        else for (size_t j = 0; j < s.size(); ++j) { const Folds& f = folds(); auto it = f.cls.find(s[j]); u32 x = s[j]; if (ci && it != f.cls.end() && r.chance(1, 2)) { u32 y = r.pick(f.members[it->second]); if (y < lim) x = y; } d += c->encode(x); }
      }
    }
    R.current(show(p) + " on " + esc(d));
    vector<Hit> want; for (auto& x : ref ? ref->all(d) : find_all(d, sets, c)) want.push_back(Hit{x.first, x.second, 0});
    auto got = sorted(search(ctx.h, 1, split(d, r, r.chance(1, 2) ? 0 : 4)).hits);
    R.add("searches"); R.add("expected_hits", want.size());
    if (!want.empty()) R.see("nontrivial", p.text + p.enc + std::to_string(kind));
    if (got != want) { R.violation("literal:" + show(p) + ":" + hexs(d), show(p) + " on \"" + esc(d) + "\" expected " + show(want) + " got " + show(got)); return; }
  }
  R.sample(show(p));
}
static Reg reg_c13("literal", c13);
