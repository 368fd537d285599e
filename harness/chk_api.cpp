// C17: refusals, error reports and pattern lists.  C16: hostile input.
#include "lgm.h"
#include "ref.h"
#include <lightgrep/encodings.h>

// ---- an independent acceptor of the pattern syntax (patterns without brackets, properties and named characters)
namespace {
struct Acc {
  const string& s; size_t i = 0; bool bad = false, unsure = false, pair = false; int depth = 0;
  explicit Acc(const string& t): s(t) {}
  bool end() const { return i >= s.size(); }
  char c() const { return i < s.size() ? s[i] : 0; }
  struct N { bool nullable, only, prefers; };   // can match empty; can match only empty, going by its first branch
  bool sw() {                                   // an inline switch, consumed if there is one
    if (s.compare(i, 2, "(?")) return false;
    size_t j = i + 2; size_t on = 0, off = 0; bool dash = false;
    for (; j < s.size() && (s[j] == 'a' || s[j] == 'i' || (s[j] == '-' && !dash)); ++j) { if (s[j] == '-') dash = true; else (dash ? off : on)++; }
    if (j >= s.size() || s[j] != ')' || (dash ? off == 0 : on == 0)) { bad = true; return false; }
    i = j + 1; return true;
  }
  N alt() {
    while (!bad && !s.compare(i, 2, "(?")) { if (!sw()) { lookaround(); if (!bad) break; } }
    N n = cat();
    while (!bad && c() == '|') { ++i; N m = cat(); n.nullable |= m.nullable; }
    return n;
  }
  void lookaround() { bad = true; }             // refused, whatever follows
  N cat() {
    N n{true, true, true}; bool any = false;
    while (!bad && !end() && c() != '|' && c() != ')') {
      if (!s.compare(i, 2, "(?")) { if (!any) { bad = true; break; } if (!sw()) bad = true; continue; }
      N m = rep(); any = true; n.nullable &= m.nullable;
    }
    if (!any) bad = true;
    return n;
  }
  N rep() {
    pair = false; N n = atom(); if (bad) return n; bool pr = pair;
    char k = c();
    if (k == '*' || k == '+' || k == '?') { ++i; if (k != '+' && !pr) n.nullable = true; if (c() == '?') ++i; }
    else if (k == '{') {
      ++i; u64 a = 0, b = 0; bool none = true, big = false;
      auto num = [&](u64& v) { bool got = false; while (isdigit((u8)c())) { if (v > 3000000000ull) big = true; v = v * 10 + (c() - '0'); if (v > 2147483647ull) big = true; ++i; got = true; } return got; };
      if (!num(a)) { bad = true; return n; }
      b = a;
      if (c() == ',') { ++i; b = 0; if (!num(b)) b = ~0ull; }
      if (c() != '}') { bad = true; return n; }
      ++i; (void)none;
      if (big || a > b) { bad = true; return n; }
      if (a == 0 && !pr) n.nullable = true;
      if (c() == '?') ++i;
    }
    return n;
  }
  N atom() {
    N n{false, false, false};
    char k = c();
    if (end()) { bad = true; return n; }
    if (k == '[' || (u8)k >= 0x80) unsure = true;
    if (k == '(') {
      ++i; if (++depth > 1500) { bad = true; return n; }
      n = alt(); --depth; pair = false;
      if (bad) return n;
      if (c() != ')') { bad = true; return n; }
      ++i; return n;
    }
    if (k == '*' || k == '+' || k == '?' || k == ')' || k == '|' || k == '^' || k == '$') { bad = true; return n; }
    if (k == '\\') {
      ++i; char e = c(); if (end()) { bad = true; return n; }
      ++i;
      if (e >= '0' && e <= '7') { int v = e - '0', d = 1; while (d < 3 && c() >= '0' && c() <= '7') { v = v * 8 + (c() - '0'); ++d; if (v > 255) { unsure = true; break; } ++i; } if (v > 127) unsure = true; return n; }
      if (strchr("|()?+*.[]^$-{}&~<=!\\aefnrtdDsShHvVwW", e)) return n;
      if (e == 'z' || e == 'x') {
        if (e == 'x' && c() == '{') {
          ++i; u64 v = 0; int d = 0; while (isxdigit((u8)c())) { v = v * 16 + (isdigit((u8)c()) ? c() - '0' : (c() | 32) - 'a' + 10); ++i; ++d; if (d > 6) { bad = true; return n; } }
          if (d < 1 || c() != '}' || v > 0x10ffff) { bad = true; return n; }
          if (v > 127) unsure = true;
          ++i; return n;
        }
        if (i + 1 < s.size() && isxdigit((u8)s[i]) && isxdigit((u8)s[i + 1])) { if (e == 'x' && s[i] > '7') unsure = true; i += 2; return n; }
        bad = true; return n;
      }
      bad = true; return n;                     // lookarounds \b \B \A \Z \K, and no escapes
    }
    if ((k == '-' || k == '&' || k == '~') && i + 1 < s.size() && s[i + 1] == k) { i += 2; if (strchr("*?{", c()) && c()) pair = true; return n; }
    ++i; return n;
  }
  bool accept(bool& nullable) { N n = alt(); nullable = n.nullable; return !bad && end(); }
};

const char* TOK[] = {"a", "b", "ab", "i", "x", "7", "0", "(", "(", ")", ")", "|", "|", "*", "+", "?", "{", "}", "{2}", "{0}", "{1,3}", "{3,1}", "{2,}", "{,2}", "{0,0}", "{2147483647}", "{2147483648}", "{4294967297}", "{1,4294967298}",
  ".", "-", "--", "&&", "~", "~~", ",", "<", "=", "!", "]", "\\", "\\n", "\\z41", "\\zg1", "\\x41", "\\x{41}", "\\x{110000}", "\\x{}", "\\x4", "(?i)", "(?-i)", "(?a)", "(?i-a)", "(?-)", "(?ii)", "(?)", "(?=a)", "(?<!b)", "(?:", "^", "$", "\\b", "\\K", "\\q", "\\(", "\\[", "\\d", "\\W", "*?", "+?", "??", " "};

string soup(Rng& r) {
  string s; int n = r.range(1, r.chance(1, 3) ? 4 : 12);
  for (int i = 0; i < n; ++i) s += TOK[r.below(sizeof TOK / sizeof *TOK)];
  return s;
}
// mostly well formed, then perhaps one change
string wellish(Rng& r) {
  std::function<string(int)> g = [&](int d) -> string {
    string s;
    for (int i = 0, n = r.range(1, 3); i < n; ++i) {
      string a;
      if (d > 0 && r.chance(1, 3)) { a = "(" + (r.chance(1, 6) ? string("(?i)") : string()) + g(d - 1) + (r.chance(1, 3) ? "|" + g(d - 1) : string()) + ")"; }
      else a = r.pick(vector<string>{"a", "b", "c", ".", "\\x41", "\\d", "\\z62", "i", "7", "\\."});
      if (r.chance(1, 3)) a += r.pick(vector<string>{"*", "+", "?", "*?", "+?", "??", "{2}", "{0,2}", "{1,}", "{2}?", "{0}", "{3,5}?", "{0,}"});
      s += a;
    }
    return s;
  };
  string s = g(r.range(0, 3));
  if (r.chance(1, 2)) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(3)) {
      case 0: s.insert(p, TOK[r.below(sizeof TOK / sizeof *TOK)]); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      default: if (p < s.size()) s[p] = r.pick(string("()|*+?{}b\\,.")); break;
    }
  }
  return s;
}
// the engine's cost grows with repetition counts; keep them apart from acceptance questions
const char* goodenc(Rng& r);
bool heavy(const string& s) {
  double w = (double)s.size(); u64 v = 0;
  int wide = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    if (isdigit((u8)s[i])) { v = v > 100000000 ? v : v * 10 + (s[i] - '0'); continue; }
    if (v > 1 && (s[i] == '}' || s[i] == ',')) w *= (double)v;
    v = 0;
    if (s[i] == '.' || (s[i] == '[' && i + 1 < s.size() && s[i + 1] == '^') || (s[i] == '\\' && i + 1 < s.size() && strchr("wWsSdDhHvVpP", s[i + 1]))) ++wide;
  }
  return w > 4000 || (wide > 4 && w > 600);
}

const char* GOODENC[] = {"US-ASCII", "ASCII", "UTF-8", "utf-8", "UTF-16LE", "UTF-32BE", "ISO-8859-1", "windows-1252", "identity|UTF-8", "UTF-8|OCE", "identity|UTF-16BE|identity", "UTF-8|OCE|OCE", "cp1251"};
const char* goodenc(Rng& r) { return GOODENC[r.below(r.chance(3, 4) ? 6 : sizeof GOODENC / sizeof *GOODENC)]; }
const char* BADENC[] = {"", "nope", "UTF-9", "UTF-8|nope", "nope|UTF-8", "UTF-8|UTF-8", "OCE|UTF-8", "identity", " UTF-8", "UTF-8 ", "rot13", "identity|identity"};

bool err_is(LG_Error* e, const char* pat, const char* enc, string& why) {
  if (!e) { why = "no error object"; return false; }
  if (!e->Message || !*e->Message) { why = "no message"; return false; }
  if (!e->Pattern || strcmp(e->Pattern, pat)) { why = string("Pattern is ") + (e->Pattern ? esc(e->Pattern) : "null"); return false; }
  if (enc ? (!e->EncodingChain || strcmp(e->EncodingChain, enc)) : e->EncodingChain != nullptr) { why = string("EncodingChain is ") + (e->EncodingChain ? esc(e->EncodingChain) : "null"); return false; }
  if (e->Next) { why = "more than one error"; return false; }
  return true;
}
vector<Hit> run(LG_HPROGRAM p, const string& t) {
  Ctx c(p); vector<Hit> h; Exact b(t);
  lg_search(c.h, b.p, b.end(), 0, &h, collect); lg_closeout_search(c.h, &h, collect);
  return sorted(h);
}
string textfor(Rng& r) { string t; int n = r.range(10, 60); string al = r.chance(1, 2) ? "abc" : "abAB7i.x-&{}()|"; for (int i = 0; i < n; ++i) t += r.pick(al); return t; }

// ---- parse and add: verdicts and error reports
void c_errors(Rng& r) {
  Fsm f; struct Acc0 { string pat, enc; u64 user; LG_KeyOptions o; };
  vector<Acc0> acc; Pattern reused; bool tree = false; string treepat; LG_KeyOptions treeopt{0, 0, 0};
  bool deep = r.chance(1, 40);
  int steps = r.range(4, 14); string hist;
  for (int k = 0; k < steps; ++k) {
    // parse
    string p = deep && k == 0 ? string() : r.chance(1, 2) ? soup(r) : wellish(r);
    LG_KeyOptions o{(char)r.chance(1, 8), (char)r.chance(1, 5), (char)r.chance(1, 4)};
    if (deep && k == 0) {
      int d = r.range(20, 1400); p = string(d, '(') + "ab" + (r.chance(1, 2) ? "+" : "") + string(d, ')');
      if (r.chance(1, 2)) p.erase(r.below(p.size()), 1);
      o.FixedString = 0;
    }
    Pattern fresh; LG_HPATTERN h = r.chance(1, 2) ? fresh.h : reused.h;
    bool slice = r.chance(1, 2), noerr = r.chance(1, 4);
    R.current("parse " + esc(p.substr(0, 200)) + " opts " + show(Pat{p.substr(0, 200), o, "", 0}));
    LG_Error* sentinel = nullptr; LG_Error** ep = noerr ? nullptr : &sentinel;
    int ret;
    if (slice) { Exact b(p); ret = lg_parse_pattern_slice(h, b.p, (unsigned)b.n, &o, ep); }
    else ret = lg_parse_pattern(h, p.c_str(), &o, ep);
    bool nullable = false, want, unsure = false;
    string q = p;
    if (o.FixedString) { want = !p.empty(); }
    else { Acc a(q); want = a.accept(nullable); unsure = a.unsure; if (unsure) want = ret > 0; }
    R.add("parses"); R.add(want ? "accepted_parses" : "refused_parses");
    if ((ret > 0) != want) { R.violation("accept", "pattern " + show(Pat{p, o, "", 0}) + (want ? " is well formed but was refused: " + string(sentinel ? sentinel->Message : "-") : " is not well formed but was accepted")); if (sentinel) lg_free_error(sentinel); return; }
    R.see("nontrivial", (want ? "+" : "-") + p);
    string why;
    if (ret <= 0 && ret != 0) R.violation("parse ret", "refusal returned " + std::to_string(ret));
    if (ret > 0 && sentinel) { R.violation("err on success", "accepting /" + esc(p) + "/ set an error: " + esc(take(sentinel))); sentinel = nullptr; }
    if (ret == 0 && !noerr && !err_is(sentinel, p.c_str(), nullptr, why)) R.violation("parse error report", "refusing /" + esc(p) + "/: " + why);
    if (sentinel) lg_free_error(sentinel);
    sentinel = nullptr;
    if (h == reused.h) { tree = ret > 0; treepat = p; treeopt = o; }
    // add, possibly with the older handle
    bool usehandle = r.chance(1, 6); LG_HPATTERN hh = h; bool parsed = ret > 0; string pp = p; bool nl = nullable, uns = unsure; LG_KeyOptions oo = o;
    if (usehandle) { hh = reused.h; parsed = tree; pp = treepat; oo = treeopt; nl = false; if (tree && !treeopt.FixedString) { Acc a(pp); a.accept(nl); uns = a.unsure; } else uns = false; }
    if (parsed && heavy(pp) && !oo.FixedString) continue;
    for (int j = 0, m = r.range(1, 2); j < m; ++j) {
      bool ge = r.chance(2, 3);
      string enc = ge ? goodenc(r) : BADENC[r.below(sizeof BADENC / sizeof *BADENC)];
      u64 user = r.chance(1, 4) ? r.next() : r.below(100);
      bool want2 = parsed && ge && !nl;
      R.current("add " + esc(pp.substr(0, 200)) + " in " + enc);
      noerr = r.chance(1, 4); ep = noerr ? nullptr : &sentinel;
      u32 before = lg_fsm_pattern_count(f.h);
      int l = lg_add_pattern(f.h, hh, enc.c_str(), user, ep);
      u32 after = lg_fsm_pattern_count(f.h);
      if (uns && parsed && ge) want2 = l >= 0;
      R.add("adds"); R.add(want2 ? "accepted_adds" : "refused_adds");
      string what = show(Pat{pp, oo, enc, user});
      if ((l >= 0) != want2) { R.violation("add verdict", what + (parsed ? "" : " (not parsed)") + (nl ? " (can match empty)" : "") + ": adding returned " + std::to_string(l) + " " + (sentinel ? sentinel->Message : "")); if (sentinel) lg_free_error(sentinel); return; }
      if (l >= 0) {
        if ((u32)l != before || after != before + 1) R.violation("add index", what + ": index " + std::to_string(l) + ", count " + std::to_string(before) + " -> " + std::to_string(after));
        if (sentinel) { R.violation("err on success", what + ": adding set an error"); lg_free_error(sentinel); sentinel = nullptr; }
        acc.push_back({pp, enc, user, oo});
      }
      else {
        if (after != before) R.violation("count after refusal", what + ": count " + std::to_string(before) + " -> " + std::to_string(after));
        // a handle that never held a pattern has no text to report
        if (!noerr && !err_is(sentinel, pp.c_str(), enc.c_str(), why)) R.violation("add error report", "refusing " + what + ": " + why);
        if (sentinel) lg_free_error(sentinel);
        sentinel = nullptr;
      }
    }
  }
  // what was accepted is what is there
  if (lg_fsm_pattern_count(f.h) != acc.size()) { R.violation("count", "pattern count " + std::to_string(lg_fsm_pattern_count(f.h)) + ", accepted " + std::to_string(acc.size())); return; }
  for (size_t i = 0; i < acc.size(); ++i) {
    LG_PatternInfo* pi = lg_fsm_pattern_info(f.h, (unsigned)i);
    if (acc[i].pat != pi->Pattern || acc[i].enc != pi->EncodingChain || acc[i].user != pi->UserIndex) { R.violation("info", "pattern " + std::to_string(i) + " is recorded as /" + esc(pi->Pattern) + "/ " + pi->EncodingChain + " " + std::to_string(pi->UserIndex) + ", added as /" + esc(acc[i].pat) + "/ " + acc[i].enc + " " + std::to_string(acc[i].user)); return; }
  }
  LG_ProgramOptions po{(u32)r.below(4)};
  R.current("compile");
  Prog p(lg_create_program(f.h, &po));
  if ((bool)p != !acc.empty()) { R.violation("program", "creating a program from " + std::to_string(acc.size()) + " accepted patterns " + (p ? "succeeded" : "failed")); return; }
  if (!p) return;
  vector<Pat> ps; for (auto& a : acc) ps.push_back(Pat{a.pat, a.o, a.enc, a.user});
  Prog q = build(ps, po.DeterminizeDepth);
  if (!q) { R.violation("rebuild", "patterns accepted one way are refused another: " + show(ps)); return; }
  string t = textfor(r);
  R.current("search " + show(ps));
  vector<Hit> a = run(p.h, t), b = run(q.h, t);
  if (a != b) R.violation("history", "after refusals in between, " + show(ps) + " on \"" + esc(t) + "\": " + show_diff(b, a));
  R.add("hits_compared", a.size());
}
Reg reg_e("errors", c_errors);

// ---- pattern lists
void c_list(Rng& r) {
  struct Want { u64 line; string pat, enc; bool add; };       // error lines have add = false
  Fsm f, g; string list; vector<string> defs; int nd = r.range(0, 3);
  auto anenc = [&] { return string(r.chance(4, 5) ? goodenc(r) : BADENC[1 + r.below(3)]); };
  for (int i = 0; i < nd; ++i) defs.push_back(anenc());
  LG_KeyOptions dopt{(char)r.chance(1, 6), (char)r.chance(1, 4), (char)r.chance(1, 4)};
  struct Ev { u64 line; int kind; string pat, enc, msg; };     // kind 0 added, 1 parse error, 2 add error, 3 line error
  vector<Ev> want; u64 line = 0; vector<Pat> added;
  int nl = r.range(0, 9); string sep = r.pick(vector<string>{"\n", "\r\n", "\r", "\n\n", "\r\n\r\n"});
  if (r.chance(1, 5)) list += sep;
  for (int i = 0; i < nl; ++i) {
    string p = r.chance(1, 4) ? soup(r) : wellish(r);
    if (p.empty() || p.find_first_of("\t\r\n") != string::npos || heavy(p)) p = "ab";
    string l = p; vector<string> encs; LG_KeyOptions o = dopt; string lineerr; bool line_error = false;
    bool tabs = r.chance(1, 30);                               // nothing but separators
    if (tabs) { l = string(r.range(1, 3), '\t'); line_error = true; p.clear(); }
    else if (r.chance(1, 2)) {
      int ne = r.range(0, 3); string el; for (int e = 0; e < ne; ++e) { string x = anenc(); if (x.find(',') != string::npos) x = "UTF-8"; encs.push_back(x); el += (e ? "," : "") + x; }
      if (r.chance(1, 5)) el = "," + el;
      if (r.chance(1, 5)) el += ",";
      if (ne == 0 && el.empty()) el = ",";
      l += r.chance(1, 8) ? "\t\t" : "\t"; l += el;
      if (ne == 0) line_error = true;
      int no = r.range(0, 3); char* fl[3] = {&o.FixedString, &o.CaseInsensitive, &o.UnicodeMode};
      bool badopt = false;
      for (int k = 0; k < no; ++k) {
        if (r.chance(1, 12)) { l += "\t" + r.pick(vector<string>{"2", "x", "true", "yes", "-1", "1 ", "0x1"}); badopt = true; }
        else { bool b = r.chance(1, 2); l += b ? "\t1" : "\t0"; if (!badopt) *fl[k] = b; }
      }
      if (no == 3 && r.chance(1, 6)) l += "\tmore";            // further columns are ignored
      if (r.chance(1, 8)) l += "\t";
      if (badopt) line_error = true;
    }
    else { encs = defs; if (r.chance(1, 10)) l += "\t"; }
    if (r.chance(1, 10)) { l = "\t" + l; if (!tabs) {} }
    list += l; if (i + 1 < nl || r.chance(1, 2)) list += sep;
    if (line_error) want.push_back({line, 3, p, "", ""});
    else {
      Pattern ph; LG_Error* e = nullptr;
      R.current("individually " + esc(p));
      if (lg_parse_pattern(ph.h, p.c_str(), &o, &e) <= 0) { want.push_back({line, 1, p, "", take(e)}); }
      else for (auto& en : encs) {
        e = nullptr;
        if (lg_add_pattern(g.h, ph.h, en.c_str(), line, &e) < 0) want.push_back({line, 2, p, en, take(e)});
        else { want.push_back({line, 0, p, en, ""}); added.push_back(Pat{p, o, en, line}); }
      }
    }
    ++line;
  }
  const char* src = r.chance(1, 3) ? nullptr : "words.txt";
  bool noerr = r.chance(1, 4); LG_Error* err = nullptr;
  vector<const char*> dp; for (auto& d : defs) dp.push_back(d.c_str());
  R.current("list " + esc(list));
  Exact b(list + string(1, '\0'));
  int ret = lg_add_pattern_list(f.h, b.p, src, dp.data(), (unsigned)dp.size(), &dopt, noerr ? nullptr : &err);
  vector<Ev> errs; for (auto& w : want) if (w.kind) errs.push_back(w);
  string desc = "list \"" + esc(list) + "\" defaults "; for (auto& d : defs) desc += d + ",";
  desc += string(dopt.FixedString ? "F" : "-") + (dopt.CaseInsensitive ? "i" : "-") + (dopt.UnicodeMode ? "u" : "-") + ": ";
  if (nl && (!errs.empty() || !added.empty())) R.see("nontrivial", desc);
  R.add("list_lines", nl); R.add("list_errors", errs.size()); R.add("list_patterns_added", added.size());
  struct Fr { LG_Error* e; ~Fr() { if (e) lg_free_error(e); } } fr{err};
  if ((ret < 0) != !errs.empty() || (ret >= 0 && ret != 0)) { R.violation("list ret", desc + "returned " + std::to_string(ret) + " with " + std::to_string(errs.size()) + " errors expected"); return; }
  if (!noerr) {
    size_t n = 0;
    for (LG_Error* e = err; e; e = e->Next, ++n) {
      if (n >= errs.size()) { R.violation("list extra error", desc + "unexpected error for line " + std::to_string(e->Index) + ": " + (e->Message ? e->Message : "null")); return; }
      const Ev& w = errs[n]; string bad;
      if (e->Index != (int)w.line) bad = "Index " + std::to_string(e->Index);
      else if (!e->Message || !*e->Message) bad = "no message";
      else if (w.kind != 3 && w.msg != e->Message) bad = string("message \"") + e->Message + "\", individually \"" + w.msg + "\"";
      else if (src ? (!e->Source || strcmp(e->Source, src)) : e->Source != nullptr) bad = "Source";
      else if (w.kind != 3 && (!e->Pattern || w.pat != e->Pattern)) bad = "Pattern";
      else if (w.kind == 2 ? (!e->EncodingChain || w.enc != e->EncodingChain) : w.kind == 1 && e->EncodingChain) bad = "EncodingChain";
      if (!bad.empty()) { R.violation("list error", desc + "error " + std::to_string(n) + " (line " + std::to_string(w.line) + "): " + bad); return; }
    }
    if (n < errs.size()) { R.violation("list missing error", desc + "no error reported for line " + std::to_string(errs[n].line) + " (" + std::to_string(n) + " of " + std::to_string(errs.size()) + ")"); return; }
  }
  if (lg_fsm_pattern_count(f.h) != added.size()) { R.violation("list count", desc + std::to_string(lg_fsm_pattern_count(f.h)) + " patterns, expected " + std::to_string(added.size())); return; }
  for (size_t i = 0; i < added.size(); ++i) {
    LG_PatternInfo* pi = lg_fsm_pattern_info(f.h, (unsigned)i);
    if (added[i].text != pi->Pattern || added[i].enc != pi->EncodingChain || added[i].user != pi->UserIndex) { R.violation("list info", desc + "pattern " + std::to_string(i) + " is /" + esc(pi->Pattern) + "/ " + pi->EncodingChain + " line " + std::to_string(pi->UserIndex) + ", expected " + show(added[i]) + " line " + std::to_string(added[i].user)); return; }
  }
  if (added.empty()) return;
  LG_ProgramOptions po{(u32)r.below(4)};
  R.current("list compile " + esc(list));
  Prog p(lg_create_program(f.h, &po)), q(lg_create_program(g.h, &po));
  if (!p || !q) { R.violation("list program", desc + "program creation failed"); return; }
  string t = textfor(r);
  vector<Hit> a = run(p.h, t), c = run(q.h, t);
  if (a != c) R.violation("list hits", desc + "on \"" + esc(t) + "\": " + show_diff(c, a));
  R.add("hits_compared", a.size());
}
Reg reg_l("list", c_list);

// ---- C16: hostile
string mutate(Rng& r, string s) {
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(7)) {
      case 0: s.insert(p, 1, (char)r.next()); break;
      case 1: if (p < s.size()) s.erase(p, 1 + r.below(3)); break;
      case 2: if (p < s.size()) s[p] ^= (char)(1 << r.below(8)); break;
      case 3: s.insert(p, s.substr(r.below(s.size() + 1), r.below(8))); break;
      case 4: s.insert(p, TOK[r.below(sizeof TOK / sizeof *TOK)]); break;
      case 5: s.insert(p, r.pick(vector<string>{"[", "]", "[^", "[[", "&&", "--", "~~", "\\p{", "\\P{L}", "\\p{Greek}", "\\N{", "\\N{U+41}", "\\N{SPACE}", "\\x{", "\\377", "\\400", "\\0", "\\z", "(?<=", "(?<!", "(?=", "(?!", "\\b", "\\B", "\\K", "\\A", "\\Z", "^", "$", "\xc3", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe2\x84\xaa"})); break;
      default: s.resize(p); break;
    }
  }
  return s;
}
string hostile(Rng& r) {
  string s;
  switch (r.below(7)) {
    case 0: s = soup(r); break;
    case 1: s = mutate(r, wellish(r)); break;
    case 2: { int n = r.range(1, 30); for (int i = 0; i < n; ++i) s += (char)(r.chance(1, 3) ? r.next() : 0x20 + r.below(96)); break; }
    case 3: {                                            // brackets
      string al = "ab-]^[&~\\z"; s = "[";
      for (int i = 0, n = r.range(1, 14); i < n; ++i) { if (r.chance(1, 5)) s += r.pick(vector<string>{"--", "&&", "~~", "\\z41", "\\zff", "a-c", "\\d", "\\W", "[^b]", "\\p{Lu}", "\\x{10ffff}", "\xc3\xa9", "\\b", "\\n", "\\N{U+130}", "z-a", "\\z41-\\z50", "\\z50-\\z41", "a-[b]", "^"}); else s += r.pick(al); }
      s += r.chance(3, 4) ? "]" : ""; if (r.chance(1, 3)) s = "x" + s + r.pick(vector<string>{"*y", "+", "{2}", "|b"});
      break;
    }
    case 4: { int d = r.range(1, 300); for (int i = 0; i < d; ++i) s += r.pick(vector<string>{"(", "(", "(a|", "(b", "[", "(?i)"}); s += "a"; if (r.chance(3, 4)) for (int i = 0; i < d; ++i) s += r.pick(vector<string>{")", ")", ")+", ")?", "|b)"}); break; }
    case 5: { int n = r.range(20, 400); string u = r.pick(vector<string>{"a", "ab", "a?", "(a)", "a|", "|a", "\\n", "a{2}", "[ab]", "\xc3\xa9"}); for (int i = 0; i < n; ++i) s += u; break; }
    default: s = mutate(r, mutate(r, wellish(r))); break;
  }
  return s;
}
string hostile_enc(Rng& r) {
  if (r.chance(3, 5)) return goodenc(r);
  if (r.chance(1, 4)) return LG_CANONICAL_ENCODINGS[r.below(sizeof LG_CANONICAL_ENCODINGS / sizeof *LG_CANONICAL_ENCODINGS)];
  if (r.chance(1, 4)) return string(r.range(1, 40), 'x') + "|" + GOODENC[r.below(5)];
  return mutate(r, r.chance(1, 2) ? goodenc(r) : BADENC[r.below(sizeof BADENC / sizeof *BADENC)]).c_str();
}
void c_hostile(Rng& r) {
  LG_HFSM f = lg_create_fsm((u32)r.below(3) ? 0 : (u32)r.below(2000), r.below(3) ? 0 : (u32)r.below(100000));
  Pattern reused; int n = r.range(1, 6); string all; bool anyheavy = false; double cost = 0;
  for (int i = 0; i < n; ++i) {
    string p = hostile(r); LG_KeyOptions o{(char)r.chance(1, 8), (char)r.chance(1, 3), (char)r.chance(1, 2)};
    Pattern fresh; LG_HPATTERN h = r.chance(1, 2) ? fresh.h : reused.h;
    LG_Error* e = nullptr; bool noerr = r.chance(1, 4);
    R.current("parse " + esc(p) + " " + show(Pat{"", o, "", 0}));
    int ret;
    if (r.chance(2, 3)) { Exact b(p); ret = lg_parse_pattern_slice(h, b.p, (unsigned)b.n, &o, noerr ? nullptr : &e); }
    else { p = p.c_str(); Exact b(p + string(1, '\0')); ret = lg_parse_pattern(h, b.p, &o, noerr ? nullptr : &e); }
    R.add("patterns"); R.add(ret > 0 ? "parsed" : "refused");
    if (!noerr && (ret > 0) != (e == nullptr)) R.violation("err", "parse of /" + esc(p) + "/ returned " + std::to_string(ret) + (e ? " with" : " without") + " an error");
    if (e) { R.add("error_bytes_read", strlen(e->Message) + (e->Pattern ? strlen(e->Pattern) : 0)); lg_free_error(e); e = nullptr; }
    R.see("nontrivial", p);
    if (ret > 0 && (heavy(p) || p.size() > 1200)) continue;
    cost += p.size();
    for (int j = 0, m = r.range(1, 2); j < m; ++j) {
      string enc = hostile_enc(r);
      R.current("add " + esc(p) + " opts " + show(Pat{"", o, "", 0}) + " in " + esc(enc));
      noerr = r.chance(1, 4);
      u32 before = lg_fsm_pattern_count(f);
      int l = lg_add_pattern(f, h, enc.c_str(), r.next(), noerr ? nullptr : &e);
      R.add(l >= 0 ? "added" : "not_added");
      if (lg_fsm_pattern_count(f) != before + (l >= 0)) R.violation("count", "count after adding /" + esc(p) + "/");
      if (e) { lg_free_error(e); e = nullptr; }
      if (l >= 0) all += show(Pat{p, o, enc, 0}) + " ; ";
    }
  }
  if (r.chance(1, 6)) {
    string list; for (int i = 0, m = r.range(1, 5); i < m; ++i) { string q = hostile(r); list += (heavy(q) ? string("ok") : q) + r.pick(vector<string>{"\n", "\r", "\t", "\tUTF-8\n", "\t\t", "\tUTF-8,nope\t1\t0\t1\n"}); }
    list = list.c_str(); const char* d[] = {"UTF-8", "bogus", "UTF-16LE"}; LG_KeyOptions o{0, (char)r.chance(1, 2), (char)r.chance(1, 2)};
    if (!heavy(list)) {
      R.current("list " + esc(list)); LG_Error* e = nullptr; Exact b(list + string(1, '\0'));
      lg_add_pattern_list(f, b.p, r.chance(1, 2) ? "src" : nullptr, d, (unsigned)r.below(4), &o, r.chance(1, 4) ? nullptr : &e);
      if (e) lg_free_error(e);
      all += "list " + esc(list);
    }
  }
  u32 npat = lg_fsm_pattern_count(f);
  LG_ProgramOptions po{cost > 400 ? (u32)r.below(2) : (u32)r.below(4)};
  R.current("compile depth " + std::to_string(po.DeterminizeDepth) + " " + all);
  LG_HPROGRAM p = lg_create_program(f, &po);
  std::unique_ptr<char, void (*)(void*)> backing(nullptr, free);   // a program read from a buffer refers to it
  bool early = r.chance(1, 2);
  if (early) lg_destroy_fsm(f);
  if ((p != nullptr) != (npat > 0)) R.violation("program", "creating a program from " + std::to_string(npat) + " patterns: " + (p ? "made" : "none"));
  if (p) {
    R.add("programs");
    if (r.chance(1, 3)) {
      R.current("serialize " + all);
      int sz = (int)lg_program_size(p); char* b = (char*)malloc(sz); lg_write_program(p, b);
      LG_HPROGRAM q = lg_read_program(b, sz); backing.reset(b);
      if (q) { lg_destroy_program(p); p = q; } else R.violation("read", "reading back failed");
    }
    LG_ContextOptions co{r.next(), r.next()};
    LG_HCONTEXT c = lg_create_context(p, r.chance(1, 2) ? nullptr : &co), c2 = r.chance(1, 4) ? lg_create_context(p, nullptr) : nullptr;
    for (int k = 0, m = r.range(1, 5); k < m; ++k) {
      string t; int kind = (int)r.below(4); size_t len = r.below(r.chance(1, 10) ? 600 : 80);
      for (size_t i = 0; i < len; ++i) t += kind == 0 ? (char)r.next() : kind == 1 ? r.pick(string("ab")) : kind == 2 ? r.pick(string("ab\0\xff(i7A\n", 9)) : (char)(i & 1 ? 0 : 'a' + r.below(3));
      SearchOpts so; so.offset = r.chance(1, 4) ? r.pick(vector<u64>{0, 1, 0xffffffffull, 0x100000000ull, 1ull << 40, (1ull << 62)}) : 0;
      R.current("search \"" + esc(t) + "\" at " + std::to_string(so.offset) + " with " + all);
      Trace tr = search(c, npat, split(t, r, (int)r.below(5)), so, true, r.chance(4, 5));
      if (!tr.bad.empty()) R.violation("trace", all + " on \"" + esc(t) + "\": " + tr.bad);
      if (!tr.badret.empty()) R.violation("trace ret", all + " on \"" + esc(t) + "\": " + tr.badret);
      R.add("hits", tr.hits.size());
      if (c2) { vector<Hit> h = starts_with(c2, t, so.offset); R.add("hits", h.size()); }
      for (size_t i = 0; i < tr.hits.size() && i < 3; ++i) {
        Hit& h = tr.hits[i]; LG_PatternInfo* pi = lg_prog_pattern_info(p, h.k); LG_Error* e = nullptr;
        R.current(string("decode in ") + pi->EncodingChain + " " + all);
        LG_HDECODER d = lg_create_decoder(); LG_Window in{h.s, h.e}, out, dh; const char* u8s = nullptr; Exact b(t);
        unsigned bad = lg_hit_context(d, b.p, b.end(), so.offset, &in, pi->EncodingChain, r.below(20), 0xfffd, &u8s, &out, &dh, r.chance(1, 3) ? nullptr : &e); (void)bad;
        if (u8s) { R.add("error_bytes_read", strlen(u8s)); lg_free_hit_context_string(u8s); }
        if (e) lg_free_error(e);
        lg_destroy_decoder(d);
      }
      if (r.chance(1, 5)) { string e2 = hostile_enc(r); R.current("decode in " + esc(e2)); LG_Error* e = nullptr; LG_HDECODER d = lg_create_decoder(); LG_Window in{0, t.size()}, out, dh; const char* u8s = nullptr; Exact b(t);
        lg_hit_context(d, b.p, b.end(), 0, &in, e2.c_str(), 5, '?', &u8s, &out, &dh, &e); if (u8s) lg_free_hit_context_string(u8s); if (e) lg_free_error(e); lg_destroy_decoder(d); }
    }
    R.current("destroy " + all);
    if (r.chance(1, 2)) { lg_destroy_program(p); p = nullptr; }   // contexts keep what they need
    if (r.chance(1, 2) && c2) { string t = "abab"; starts_with(c2, t, 0); }
    string t = "ababc"; search(c, npat, {t}, SearchOpts());
    lg_destroy_context(c); if (c2) lg_destroy_context(c2); if (p) lg_destroy_program(p);
  }
  if (!early) lg_destroy_fsm(f);
  // documented refusals of null arguments
  if (r.chance(1, 8)) {
    R.current("null arguments"); Pattern h; LG_KeyOptions o{0, 0, 0}; LG_Error* e = nullptr; Fsm f2;
    auto chk = [&](int got, int want, const char* what) { if (got != want || !e || !e->Message) R.violation("null", string(what) + " returned " + std::to_string(got) + (e ? "" : " without an error")); if (e) lg_free_error(e); e = nullptr; };
    chk(lg_parse_pattern(nullptr, "a", &o, &e), 0, "parsing into a null handle"); chk(lg_parse_pattern(h.h, "a", nullptr, &e), 0, "parsing without options");
    lg_parse_pattern(h.h, "a", &o, nullptr);
    chk(lg_add_pattern(nullptr, h.h, "UTF-8", 0, &e), -1, "adding to a null collection"); chk(lg_add_pattern(f2.h, nullptr, "UTF-8", 0, &e), -2, "adding a null pattern"); chk(lg_add_pattern(f2.h, h.h, nullptr, 0, &e), -3, "adding with a null encoding");
    if (lg_parse_pattern(nullptr, "a", &o, nullptr) || lg_add_pattern(nullptr, h.h, "UTF-8", 0, nullptr) >= 0) R.violation("null", "null handle accepted");
    lg_destroy_pattern(nullptr); lg_destroy_fsm(nullptr); lg_destroy_program(nullptr); lg_destroy_context(nullptr); lg_destroy_decoder(nullptr); lg_free_error(nullptr);
    if (lg_fsm_pattern_count(f2.h)) R.violation("null", "count changed");
  }
}
Reg reg_h("hostile", c_hostile);
// the rewriter recurses along the pattern (see known_findings.txt)
void c_long(Rng& r) {
  (void)r; string p(R.caseno % 2 ? 1000000 : 5000, 'a'); LG_KeyOptions o{(char)(R.caseno / 2 % 2), 0, 0};
  R.current("long literal " + std::to_string(p.size()) + (o.FixedString ? " fixed" : ""));
  Fsm f; Pattern h; LG_Error* e = nullptr;
  int ret = lg_parse_pattern(h.h, p.c_str(), &o, &e); if (e) lg_free_error(e);
  if (ret > 0) { R.add("long_patterns"); e = nullptr; lg_add_pattern(f.h, h.h, "UTF-8", 0, &e); if (e) lg_free_error(e); LG_ProgramOptions po{1}; Prog g(lg_create_program(f.h, &po)); vector<Hit> hs = run(g.h, "b" + p + "ab"); if (hs != vector<Hit>{Hit{1, p.size() + 1, 0}}) R.violation("long", "a literal of " + std::to_string(p.size()) + " characters: hits " + show(hs)); }
}
Reg reg_long("long", c_long);
}
