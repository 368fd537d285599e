From f4ad1c6012a05e5f19c42d6f1c5bebb6601a940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/41] fix: jump table bounds when a state has a single
 outgoing byte value

---
 src/lib/compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 8102def..4082c5f 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -38,11 +38,11 @@ uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, cons
 
 std::tuple<uint32_t, uint32_t> minAndMaxValues(const std::vector<std::vector<NFA::VertexDescriptor>>& tbl) {
   uint32_t first = 0,
-           last  = 255;
+           last  = 0;
 
   for (uint32_t i = 0; i < 256; ++i) {
     if (!tbl[i].empty()) {
-      first = i;
+      first = last = i;
       break;
     }
   }
-- 
2.43.0


From 39f4a909a47695559758a0a0a077729f2ba00928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 02/41] fix: keep alternative priority when a match state has
 lower-priority out edges

---
 src/lib/nfabuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 39b4134..c99e200 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -446,6 +446,12 @@ void NFABuilder::finish(const ParseNode& n) {
         NFA::Vertex& final((*Fsm)[v]);
         final.Label = CurLabel;
         final.IsMatch = true;
+
+        // Matching here is preferred to following any edge after the
+        // insertion point, so no match will ever continue along those.
+        while (Fsm->outDegree(v) > i->second) {
+          Fsm->removeEdge(Fsm->outEdge(v, Fsm->outDegree(v) - 1));
+        }
       }
     }
     // std::cout << "final is " << final << std::endl;
-- 
2.43.0


From 6610e2ab9789c49bd9de0701cc4bbb62b331691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 03/41] fix: do not reduce nongreedy repetitions inside a
 repeated subpattern

---
 src/lib/rewriter.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 79a6ab1..7423fbe 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -508,9 +508,15 @@ bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& bra
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
+    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    break;
+
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
-    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    // the subpattern trails itself if it can be repeated
+    if (n->Child.Rep.Max <= 1) {
+      ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    }
     break;
 
   case ParseNode::ALTERNATION:
@@ -615,15 +621,23 @@ bool reduceTrailingNongreedyThenEmpty(ParseNode* n, std::stack<ParseNode*>& bran
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
-  case ParseNode::REPETITION:
     ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
     break;
 
+  case ParseNode::REPETITION:
+    // the subpattern trails itself if it can be repeated
+    if (n->Child.Rep.Max <= 1) {
+      ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
+    break;
+
   case ParseNode::REPETITION_NG:
     // replace S{n,m}? with S{n}
     n->setType(ParseNode::REPETITION);
     n->Child.Rep.Max = n->Child.Rep.Min;
-    reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    if (n->Child.Rep.Max <= 1) {
+      reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
     ret = true;
     break;
 
-- 
2.43.0


From be788b7b1089f821cd5290581e3338929dba36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 04/41] fix: do not use instruction address 0 as a jump table
 landing

---
 src/lib/compiler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 4082c5f..ab212cc 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -27,8 +27,11 @@ uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, cons
   // If the jump is to a state that has only a single out edge, and there's
   // no label on the state, then jump forward directly to the out-edge state.
   // i.e., this eliminates an indirect jump... it causes dead code.
+  // NB: Address 0 in a jump table means "no transition", so a state which
+  // starts there cannot be jumped to from a table directly.
   if (1 == graph.outDegree(v) &&
-      NOLABEL == graph[v].Label && !graph[v].IsMatch) {
+      NOLABEL == graph[v].Label && !graph[v].IsMatch &&
+      0 != cg.Snippets[graph.outVertex(v, 0)].Start) {
     return cg.Snippets[graph.outVertex(v, 0)].Start;
   }
   else {
-- 
2.43.0


From 9e20871b11c078722a2f541109071b89728e476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 05/41] fix: drop duplicate threads so that ambiguous patterns
 do not grow exponentially

---
 include/vm.h   |  5 +++++
 src/lib/vm.cpp | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/vm.h b/include/vm.h
index 26186ad..679d62d 100644
--- a/include/vm.h
+++ b/include/vm.h
@@ -120,6 +120,11 @@ private:
 
   SparseSet CheckLabels;
 
+  // the start of the last thread to pass each check at this offset
+  // without taking its lock
+  SparseSet CheckPassed;
+  std::vector<uint64_t> CheckStarts;
+
   bool LiveNoLabel;
   SparseSet Live;
 
diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..6934430 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -124,6 +124,7 @@ Vm::Vm(ProgramPtr prog):
   ProgEnd(&(*prog)[prog->size() - 2]), // not end, but penultimate, guaranteed to be a halt; threads die just short of the finish
   First(), Active(1, &(*prog)[0]), Next(),
   CheckLabels(prog->MaxCheck+1),
+  CheckPassed(prog->MaxCheck+1), CheckStarts(prog->MaxCheck+1, Thread::NONE),
   LiveNoLabel(false), Live(prog->MaxLabel+1),
   MatchEnds(prog->MaxLabel+1), MatchEndsMax(0),
   CurHitFn(nullptr), UserData(nullptr)
@@ -164,6 +165,7 @@ void Vm::reset() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckPassed.clear();
 
   LiveNoLabel = false;
   Live.clear();
@@ -346,6 +348,20 @@ inline bool Vm::_executeEpsilon(const Instruction* const base, ThreadList::itera
         // nothing blocks us, we take the lock
         CheckLabels.insert(instr.Op.Offset);
       }
+      else if (!CheckPassed.find(instr.Op.Offset)) {
+        CheckPassed.insert(instr.Op.Offset);
+        CheckStarts[instr.Op.Offset] = t->Start;
+      }
+      else if (CheckStarts[instr.Op.Offset] == t->Start) {
+        // a higher-priority thread with the same start is already in this
+        // state, so we can contribute nothing; without this, threads would
+        // multiply exponentially for patterns like (a|a)*b
+        t->PC = 0;
+        return false;
+      }
+      else {
+        CheckStarts[instr.Op.Offset] = t->Start;
+      }
 
       t->advance(InstructionSize<CHECK_HALT_OP>::VAL);
       return true;
@@ -493,6 +509,7 @@ inline void Vm::_cleanup() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckPassed.clear();
 
   LiveNoLabel = false;
   Live.clear();
-- 
2.43.0


From 26d4bca134f1d733882d2cdf11393378fac90dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 06/41] fix: leave the FSM intact when compiling a program from
 it

---
 include/fsmthingy.h         |  3 ++-
 src/lib/fsmthingy.cpp       | 19 +++++++++++++------
 src/lib/lightgrep_c_api.cpp |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/fsmthingy.h b/include/fsmthingy.h
index 8cf92d1..79d002c 100644
--- a/include/fsmthingy.h
+++ b/include/fsmthingy.h
@@ -35,5 +35,6 @@ public:
 
   void addPattern(const ParseTree& tree, const char* chain, uint32_t label);
 
-  void finalizeGraph(uint32_t determinizeDepth);
+  // returns the graph to compile; Fsm itself is unchanged
+  NFAPtr finalizeGraph(uint32_t determinizeDepth);
 };
diff --git a/src/lib/fsmthingy.cpp b/src/lib/fsmthingy.cpp
index fc40f42..a35c99c 100644
--- a/src/lib/fsmthingy.cpp
+++ b/src/lib/fsmthingy.cpp
@@ -45,17 +45,24 @@ void FSMThingy::addPattern(const ParseTree& tree, const char* chain, uint32_t la
   }
 }
 
-void FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
+NFAPtr FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
   if (Fsm->verticesSize() < 2) {
     throw std::runtime_error("No valid patterns were parsed");
   }
 
+  // leave Fsm as it is, because more patterns may be added to it later
+  NFAPtr fsm;
+
   if (determinizeDepth && !Fsm->Deterministic) {
-    NFAPtr dfa(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
-    dfa->TransFac = Fsm->TransFac;
-    Comp.subsetDFA(*dfa, *Fsm, determinizeDepth);
-    Fsm = dfa;
+    fsm.reset(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
+    fsm->TransFac = Fsm->TransFac;
+    Comp.subsetDFA(*fsm, *Fsm, determinizeDepth);
+  }
+  else {
+    fsm.reset(new NFA(*Fsm));
   }
 
-  Comp.labelGuardStates(*Fsm);
+  Comp.labelGuardStates(*fsm);
+
+  return fsm;
 }
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..56454d3 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -365,10 +365,10 @@ namespace {
       lg_destroy_program
     );
 
-    hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
+    const NFAPtr fsm = hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
 
     hProg->PMap = hFsm->PMap;
-    hProg->Prog = Compiler::createProgram(*hFsm->Impl->Fsm);
+    hProg->Prog = Compiler::createProgram(*fsm);
 
     return hProg.release();
   }
-- 
2.43.0


From c8e1ce32ff3e18b8f66d7d976e1ec7d0ca74c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 07/41] fix: do not compute a filter end before the start of a
 short or null buffer

---
 src/lib/vm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 6934430..b35109c 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -595,7 +595,9 @@ uint64_t Vm::search(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
 
   const std::bitset<256*256>& filter = Prog->Filter;
-  const byte* const filterEnd = end - Prog->FilterOff - 1;
+  const byte* const filterEnd =
+    end - beg > static_cast<std::ptrdiff_t>(Prog->FilterOff) + 1 ?
+    end - Prog->FilterOff - 1 : beg;
 
   uint64_t offset = startOffset;
 
-- 
2.43.0


From 2187ee8fe79ce7e47bdbb0eda7f523d75e2422d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 08/41] fix: lg_starts_with missed matches in short buffers and
 mixed in an unfinished search

---
 src/lib/vm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index b35109c..626dd59 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -543,15 +543,16 @@ void Vm::executeFrame(const byte* const cur, uint64_t offset, HitCallback hitFn,
 }
 
 void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t startOffset, HitCallback hitFn, void* userData) {
+  reset();
+
   CurHitFn = hitFn;
   UserData = userData;
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
-
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  // the filter can rule out matches only if the bytes it checks are there
+  if (end - beg < static_cast<std::ptrdiff_t>(Prog->FilterOff) + 2 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(beg + Prog->FilterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
-- 
2.43.0


From cfe58cc8db3bd5c84f4edebcb79fc4c2d3a34da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 09/41] fix: report pattern errors without a null dereference
 or reading past a pattern slice

---
 src/lib/lightgrep_c_api.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 56454d3..ce9b232 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,8 +101,9 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+  if (result == 0 && err) {
+    // pattern might not be null-terminated
+    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
   }
 
   return result;
@@ -186,7 +187,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
-- 
2.43.0


From 3b474f9bf16c2505d9c94adbd1c61d79f1291a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 10/41] fix: lg_add_pattern_list return value, null err, error
 source and bad option columns

---
 src/lib/lightgrep_c_api.cpp | 100 +++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 42 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index ce9b232..b7db011 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -196,28 +196,39 @@ int lg_add_pattern(LG_HFSM hFsm,
 }
 
 namespace {
+  // appends a new error to the chain ending at tail
+  void appendError(LG_Error* e, const char* source, int lnum, LG_Error**& tail) {
+    e->Index = lnum;
+    if (source) {
+      e->Source = clone_c_str(source);
+    }
+    *tail = e;
+    tail = &(e->Next);
+  }
+
   template <class E>
   void addPatternHelper(LG_HFSM hFsm,
                   LG_HPATTERN hPat,
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
+                  const char* source,
                   int lnum,
-                  LG_Error**& err)
+                  LG_Error**& tail)
   {
-    lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
-    if (*err) {
-      (*err)->Index = lnum;
-      err = &((*err)->Next);
+    LG_Error* e = nullptr;
+
+    lg_parse_pattern(hPat, pat.c_str(), keyOpts, &e);
+    if (e) {
+      appendError(e, source, lnum, tail);
       return;
     }
 
     for (const std::string& enc : encodings) {
-      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
-      if (*err) {
-        (*err)->Index = lnum;
-        err = &((*err)->Next);
-        continue;
+      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, &e);
+      if (e) {
+        appendError(e, source, lnum, tail);
+        e = nullptr;
       }
     }
   }
@@ -228,8 +239,10 @@ namespace {
                      const char** defaultEncodings,
                      size_t defaultEncodingsNum,
                      const LG_KeyOptions* defaultOptions,
-                     LG_Error** err)
+                     LG_Error*& errors)
   {
+    LG_Error** tail = &errors;
+
     std::unique_ptr<PatternHandle,void(*)(PatternHandle*)> ph(
       lg_create_pattern(),
       lg_destroy_pattern
@@ -257,10 +270,7 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
-        if (err) {
-          *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
-        }
+        appendError(makeError("no pattern"), source, lnum, tail);
         continue;
       }
 
@@ -275,36 +285,38 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
-          if (err) {
-            *err = makeError(
-              "no encoding list",
-              pat.c_str(), nullptr, source, lnum
-            );
-            err = &((*err)->Next);
-          }
+          appendError(
+            makeError("no encoding list", pat.c_str()), source, lnum, tail
+          );
           continue;
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast& e) {
+          appendError(makeError(e.what(), pat.c_str()), source, lnum, tail);
+          continue;
+        }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, tail);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, tail);
       }
     }
 
-    return err ? -1 : 0;
+    return errors ? -1 : 0;
   }
 }
 
@@ -316,25 +328,29 @@ int lg_add_pattern_list(LG_HFSM hFsm,
                         const LG_KeyOptions* defaultOptions,
                         LG_Error** err)
 {
-  // LG_Error* in_err = nullptr;
+  LG_Error* errors = nullptr;
+  LG_Error* trapped = nullptr;
 
   const int ret = trapWithRetval(
-    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err]() {
-      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err);
+    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &errors]() {
+      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, errors);
     },
     -1,
-    err
+    &trapped
   );
 
-  // if (err) {
-  //   if (in_err) {
-  //     if (*err) {
-  //       // append the error from addPatternList to the chain
-  //       in_err->Next = *err;
-  //     }
-  //     *err = in_err;
-  //   }
-  // }
+  // put anything which stopped us ahead of the errors for single patterns
+  if (trapped) {
+    trapped->Next = errors;
+    errors = trapped;
+  }
+
+  if (err) {
+    *err = errors;
+  }
+  else {
+    lg_free_error(errors);
+  }
 
   return ret;
 }
-- 
2.43.0


From 1df2872af6066a47e081cd54c743eba709685a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 11/41] fix: do not skip a state's check when a jump table
 lands past it

---
 src/lib/compiler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index ab212cc..1f92a4f 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -29,8 +29,10 @@ uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, cons
   // i.e., this eliminates an indirect jump... it causes dead code.
   // NB: Address 0 in a jump table means "no transition", so a state which
   // starts there cannot be jumped to from a table directly.
+  // NB: A check may not be skipped, otherwise threads multiply.
   if (1 == graph.outDegree(v) &&
       NOLABEL == graph[v].Label && !graph[v].IsMatch &&
+      NONE == cg.Snippets[v].CheckIndex &&
       0 != cg.Snippets[graph.outVertex(v, 0)].Start) {
     return cg.Snippets[graph.outVertex(v, 0)].Start;
   }
-- 
2.43.0


From 8ab9c1fefa4e4c83e65152a382c8c9a9afb54063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 12/41] fix: keep edge priority when merging a pattern with
 shared prefixes inside a loop

---
 src/lib/nfaoptimizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/nfaoptimizer.cpp b/src/lib/nfaoptimizer.cpp
index 080e747..9f08fc9 100644
--- a/src/lib/nfaoptimizer.cpp
+++ b/src/lib/nfaoptimizer.cpp
@@ -196,9 +196,18 @@ void NFAOptimizer::mergeIntoFSM(NFA& dst, const NFA& src) {
     const NFA::VertexDescriptor srcTail = s.second;
     const NFA::VertexDescriptor dstTail = s.first;
 
+    // Out edges are pushed once, when the vertex is first seen. Otherwise a
+    // cycle could bring a lower-priority vertex which merges with this one's
+    // head in before the rest of the head's out edges.
+    const bool seen = Src2Dst[srcTail] != NONE;
+
     Src2Dst[srcTail] = dstTail;
     Dst2Src[dstTail].push_back(srcTail);
 
+    if (seen) {
+      continue;
+    }
+
     for (int32_t i = src.outDegree(srcTail) - 1; i >= 0; --i) {
       Edges.push(StatePair(srcTail, i));
     }
-- 
2.43.0


From f930175ef352c486786000fc84323c30b4b6bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 13/41] fix: combine consecutive repetitions only when that
 keeps match priority

---
 src/lib/rewriter.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 7423fbe..08b8ea5 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -337,12 +337,40 @@ bool reduceUselessRepetitions(ParseNode* root) {
   return reduceUselessRepetitions(root, branch);
 }
 
+// Does the node match in at most one way at any given position?
+bool matchesOneWay(const ParseNode* n) {
+  switch (n->Type) {
+  case ParseNode::CONCATENATION:
+    return matchesOneWay(n->Child.Left) && matchesOneWay(n->Child.Right);
+
+  case ParseNode::REPETITION:
+  case ParseNode::REPETITION_NG:
+    return n->Child.Rep.Min == n->Child.Rep.Max && matchesOneWay(n->Child.Left);
+
+  case ParseNode::CHAR_CLASS:
+    return n->Set.CodePoints.none() || n->Set.Breakout.Bytes.none();
+
+  case ParseNode::DOT:
+  case ParseNode::LITERAL:
+  case ParseNode::BYTE:
+    return true;
+
+  default:
+    return false;
+  }
+}
+
 bool combinable(ParseNode* x, ParseNode* y) {
+  // NB: Combining makes mandatory copies of T in the second repetition
+  // optional when the first repetition is not at its minimum. If the number
+  // of copies in the first can vary, this preserves priority only when T
+  // itself leaves no choice as to what it matches.
   return
   (
     (x->Type == ParseNode::REPETITION && y->Type == ParseNode::REPETITION) ||
     (x->Type == ParseNode::REPETITION_NG && y->Type == ParseNode::REPETITION_NG)
-  ) && *x == *y;
+  ) && *x == *y &&
+  (x->Child.Rep.Min == x->Child.Rep.Max || matchesOneWay(x->Child.Left));
 }
 
 bool combineConsecutiveRepetitions(ParseNode* n, std::stack<ParseNode*>& branch) {
-- 
2.43.0


From 47f74e7b2bb59faed66bf4dfea14022131412f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 14/41] fix: a repetition after --, && or ~~ applies to one
 character

---
 src/lib/re_grammar.ypp | 46 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..c4503a2 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -27,6 +27,10 @@ namespace {
     bool LiteralMode;
     std::stack<uint8_t> Opts;
 
+    // the most recent two literals lexed as one token (--, &&, ~~), if they
+    // have not been enclosed in a group since
+    ParseNode* Pair = nullptr;
+
     template <class... Args>
     ParseNode* add(Args&&... args) {
       return Tree->add(std::forward<Args>(args)...);
@@ -78,6 +82,8 @@ namespace {
   static void yyerror(YYLTYPE* yylloc, Context* ctx, const char* msg);
 
   void throwError(ParseError e, Context* ctx);
+
+  ParseNode* repeat(Context* ctx, ParseNode::NodeType type, ParseNode* n, uint32_t min, uint32_t max);
 }
 
 #pragma GCC diagnostic push
@@ -215,23 +221,23 @@ rep:
   atom
 | atom '*' '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION_NG, $1, 0, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, 0, UNBOUNDED);
   }
 | atom '+' '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION_NG, $1, 1, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, 1, UNBOUNDED);
   }
 | atom '?' '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION_NG, $1, 0, 1);
+    $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, 0, 1);
   }
 | atom '{' number '}' '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION_NG, $1, $3->Val, $3->Val);
+    $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, $3->Val, $3->Val);
   }
 | atom '{' number ',' '}' '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION_NG, $1, $3->Val, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, $3->Val, UNBOUNDED);
   }
 | atom '{' number ',' number '}' '?'
   {
@@ -247,28 +253,28 @@ rep:
       );
     }
     else {
-      $$ = ctx->add(ParseNode::REPETITION_NG, $1, $3->Val, $5->Val);
+      $$ = repeat(ctx, ParseNode::REPETITION_NG, $1, $3->Val, $5->Val);
     }
   }
 | atom '*'
   {
-    $$ = ctx->add(ParseNode::REPETITION, $1, 0, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION, $1, 0, UNBOUNDED);
   }
 | atom '+'
   {
-    $$ = ctx->add(ParseNode::REPETITION, $1, 1, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION, $1, 1, UNBOUNDED);
   }
 | atom '?'
   {
-    $$ = ctx->add(ParseNode::REPETITION, $1, 0, 1);
+    $$ = repeat(ctx, ParseNode::REPETITION, $1, 0, 1);
   }
 | atom '{' number '}'
   {
-    $$ = ctx->add(ParseNode::REPETITION, $1, $3->Val, $3->Val);
+    $$ = repeat(ctx, ParseNode::REPETITION, $1, $3->Val, $3->Val);
   }
 | atom '{' number ',' '}'
   {
-    $$ = ctx->add(ParseNode::REPETITION, $1, $3->Val, UNBOUNDED);
+    $$ = repeat(ctx, ParseNode::REPETITION, $1, $3->Val, UNBOUNDED);
   }
 | atom '{' number ',' number '}'
   {
@@ -284,7 +290,7 @@ rep:
       );
     }
     else {
-      $$ = ctx->add(ParseNode::REPETITION, $1, $3->Val, $5->Val);
+      $$ = repeat(ctx, ParseNode::REPETITION, $1, $3->Val, $5->Val);
     }
   }
 ;
@@ -305,6 +311,7 @@ atom:
   '(' { ctx->Opts.push(ctx->Opts.top()); } alt ')'
   {
     ctx->Opts.pop();
+    ctx->Pair = nullptr;
     $$ = $3;
   }
 | '(' error
@@ -455,19 +462,19 @@ literal:
     // from ranges. Here, outside of a char class, -- is just two hyphens.
     ParseNode* l = ctx->add(ParseNode::LITERAL, '-');
     ParseNode* r = ctx->add(ParseNode::LITERAL, '-');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
+    $$ = ctx->Pair = ctx->add(ParseNode::CONCATENATION, l, r);
   }
 | AMP_AMP
   {
     ParseNode* l = ctx->add(ParseNode::LITERAL, '&');
     ParseNode* r = ctx->add(ParseNode::LITERAL, '&');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
+    $$ = ctx->Pair = ctx->add(ParseNode::CONCATENATION, l, r);
   }
 | TILDE_TILDE
   {
     ParseNode* l = ctx->add(ParseNode::LITERAL, '~');
     ParseNode* r = ctx->add(ParseNode::LITERAL, '~');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
+    $$ = ctx->Pair = ctx->add(ParseNode::CONCATENATION, l, r);
   }
 | charclass
 ;
@@ -1094,6 +1101,15 @@ cc_named:
 
 namespace {
 
+  ParseNode* repeat(Context* ctx, ParseNode::NodeType type, ParseNode* n, uint32_t min, uint32_t max) {
+    if (n == ctx->Pair) {
+      // a repetition applies only to the second of two literals
+      n->Child.Right = ctx->add(type, n->Child.Right, min, max);
+      return n;
+    }
+    return ctx->add(type, n, min, max);
+  }
+
   template <typename F>
   int consumeSingleton(F func, yytokentype type, YYSTYPE* yylval, Context* ctx) {
     const int val = func(ctx->Text, ctx->TextEnd);
-- 
2.43.0


From 48d17abcbb13bfabe1725f378797da3110813e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 15/41] fix: refuse repetition bounds that overflow instead of
 wrapping around

---
 src/lib/re_grammar.ypp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index c4503a2..299f27b 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -7,6 +7,7 @@
 #include "encoders/utf8.h"
 
 #include <iomanip>
+#include <limits>
 #include <sstream>
 #include <stack>
 #include <string>
@@ -57,6 +58,7 @@ namespace {
     enum {
       NONATOMIC_REPETITON,
       REVERSED_REPETITION_BOUNDS,
+      REPETITION_BOUND_TOO_LARGE,
       INVALID_ESCAPE,
       UNMATCHED_PARENTHESIS,
       UNMATCHED_BRACKET,
@@ -303,7 +305,18 @@ number:
 | number DIGIT
   {
     $$ = $1;
-    $$->Val = $$->Val*10 + ($2 - 48);
+    if ($$->Val > (std::numeric_limits<int>::max() - ($2 - 48))/10) {
+      throwError(
+        {
+          ParseError::REPETITION_BOUND_TOO_LARGE,
+          @1.first_column, @2.last_column
+        },
+        ctx
+      );
+    }
+    else {
+      $$->Val = $$->Val*10 + ($2 - 48);
+    }
   }
 ;
 
@@ -1476,6 +1489,9 @@ namespace {
     case ParseError::REVERSED_REPETITION_BOUNDS:
       ss << e.First << " > " << e.Second << " in ";
       break;
+    case ParseError::REPETITION_BOUND_TOO_LARGE:
+      ss << "repetition bound too large ";
+      break;
     case ParseError::INVALID_ESCAPE:
       ss << "invalid escape ";
       break;
-- 
2.43.0


From c9a47d51fa0c5d3571d1293dc852b82f644662bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 16/41] fix: remove pruned edges in one pass, so that large
 classes do not compile in quadratic time

---
 include/graph.h          | 33 +++++++++++++++++++++++++++++++++
 src/lib/nfabuilder.cpp   | 13 +++++++++++--
 src/lib/nfaoptimizer.cpp |  6 +++++-
 3 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/include/graph.h b/include/graph.h
index b154faf..b5ecca7 100644
--- a/include/graph.h
+++ b/include/graph.h
@@ -360,6 +360,39 @@ public:
     compact_after_edge(ed);
   }
 
+  // Removes all edges satisfying pred in one pass, keeping the order of the
+  // others.
+  template <class Pred>
+  void removeEdgesIf(Pred pred) {
+    const EdgeDescriptor NONE = std::numeric_limits<EdgeDescriptor>::max();
+
+    std::vector<EdgeDescriptor> moved(Edges.size(), NONE);
+    EList kept;
+    for (EdgeDescriptor e = 0; e < Edges.size(); ++e) {
+      if (!pred(e)) {
+        moved[e] = kept.size();
+        kept.push_back(Edges[e]);
+      }
+    }
+    Edges.swap(kept);
+
+    std::vector<EdgeDescriptor> ids;
+    const auto renumber = [&](typename EdgeDescriptorStorage<EdgeDescriptor>::List& l) {
+      ids.assign(Store.begin(l), Store.end(l));
+      Store.clear(l);
+      for (const EdgeDescriptor e: ids) {
+        if (moved[e] != NONE) {
+          Store.add(l, moved[e]);
+        }
+      }
+    };
+
+    for (VertexData& v: Vertices) {
+      renumber(v.In);
+      renumber(v.Out);
+    }
+  }
+
   //
   // capacity
   //
diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index c99e200..4d938ba 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -435,6 +435,10 @@ void NFABuilder::finish(const ParseNode& n) {
     concatenate(n);
     Fragment& start(Stack.top());
 
+    // edges which no match can ever continue along
+    std::vector<bool> dead(Fsm->edgesSize(), false);
+    bool anyDead = false;
+
     for (OutListT::const_iterator i(start.OutList.begin()); i != start.OutList.end(); ++i) {
       // std::cout << "marking " << *it << " as a match" << std::endl;
       NFA::VertexDescriptor v = i->first;
@@ -449,11 +453,16 @@ void NFABuilder::finish(const ParseNode& n) {
 
         // Matching here is preferred to following any edge after the
         // insertion point, so no match will ever continue along those.
-        while (Fsm->outDegree(v) > i->second) {
-          Fsm->removeEdge(Fsm->outEdge(v, Fsm->outDegree(v) - 1));
+        for (uint32_t e = i->second; e < Fsm->outDegree(v); ++e) {
+          dead[Fsm->outEdge(v, e)] = anyDead = true;
         }
       }
     }
+
+    if (anyDead) {
+      Fsm->removeEdgesIf([&dead](NFA::EdgeDescriptor e) { return dead[e]; });
+    }
+
     // std::cout << "final is " << final << std::endl;
     IsGood = true;
     Stack.pop();
diff --git a/src/lib/nfaoptimizer.cpp b/src/lib/nfaoptimizer.cpp
index 9f08fc9..52ba8e3 100644
--- a/src/lib/nfaoptimizer.cpp
+++ b/src/lib/nfaoptimizer.cpp
@@ -226,6 +226,8 @@ void NFAOptimizer::pruneBranches(NFA& g) {
 //  ByteSet mbs, obs, nbs;
   ByteSet mbs, obs;
 
+  std::vector<bool> dead(g.edgesSize(), false);
+
   // walk the graph
   while (!next.empty()) {
     const NFA::VertexDescriptor head = next.top();
@@ -249,7 +251,7 @@ void NFAOptimizer::pruneBranches(NFA& g) {
 
 //      if (nbs.none()) {
       if (obs.none()) {
-        g.removeEdge(g.outEdge(head, i--));
+        dead[g.outEdge(head, i)] = true;
       }
 /*
       else if (nbs != obs) {
@@ -267,6 +269,8 @@ void NFAOptimizer::pruneBranches(NFA& g) {
       }
     }
   }
+
+  g.removeEdgesIf([&dead](NFA::EdgeDescriptor e) { return dead[e]; });
 }
 
 void NFAOptimizer::labelGuardStates(NFA& g) {
-- 
2.43.0


From 8fa387eda6fc8017ca594622b090866777ab6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 17/41] fix: count bad values without leading context, and do
 not let large windows overflow

lg_read_window and lg_hit_context returned UINT_MAX too many bad values when
there was no leading context, read out of bounds or lost the context when the
window size times the character size overflowed, and cut the last trailing
character when the hit ended inside a character.
---
 src/lib/lightgrep_c_util.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..b66fdba 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -124,10 +124,18 @@ namespace {
     unsigned int max_adj_good = 0, max_inv_bad = 0;
     std::vector<std::pair<int32_t,const byte*>> lctx;
 
+    // no context is longer than the data available for it
+    const size_t max_len = dec.maxByteLength();
+    const size_t lavail = hbeg - bbeg, tavail = bend - hend;
+    const size_t llimit = leading <= lavail / max_len ? leading * max_len : lavail;
+    // (the last character of the hit may end after the hit does)
+    const size_t tlimit = trailing == 0 ? 0 :
+      trailing < tavail / max_len ? (trailing + 1) * max_len : tavail;
+
     // Decode leading sequences of increasing length until we hit the
     // beginning of the buffer or decode more values than we need for
     // leading context.
-    for (const byte* l = hbeg-1; l >= bbeg && hbeg - l <= ssize_t(leading * dec.maxByteLength()); --l) {
+    for (const byte* l = hbeg-1; l >= bbeg && size_t(hbeg - l) <= llimit; --l) {
       dec.reset(l, hbeg);
       lctx.clear();
       bad = 0;
@@ -168,14 +176,17 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
+    bad = std::count_if(
+      cps.cbegin(), cps.cend(),
+      [](const std::pair<int32_t,const byte*>& p) { return p.first < 0; }
+    );
 
     //
     // hit
     //
     dh.begin = cps.size();
 
-    dec.reset(hbeg, std::min(hend + trailing*dec.maxByteLength(), bend));
+    dec.reset(hbeg, hend + tlimit);
 
     while ((cp = dec.next()).second < hend) {
       cps.push_back(cp);
-- 
2.43.0


From 0984d3d9e89fcb528eed1446798b43c4e0d3ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 18/41] fix: decode leading context in linear time

Decoding the context of a hit took quadratic time in the window size, and
cubic time with ICU encodings: printing the context of a hit in a 10 kB line
took more than a minute.
---
 include/decoders/icudecoder.h | 14 +++---
 src/lib/lightgrep_c_util.cpp  | 90 +++++++++++++++++++++--------------
 2 files changed, 59 insertions(+), 45 deletions(-)

diff --git a/include/decoders/icudecoder.h b/include/decoders/icudecoder.h
index b1e84da..b3ee366 100644
--- a/include/decoders/icudecoder.h
+++ b/include/decoders/icudecoder.h
@@ -71,14 +71,12 @@ public:
       }
     );
 
-    if (i == In.cend()) {
-      // no invalid elements yet, pump until we hit one
-      std::pair<int32_t,const byte*> n;
-      do {
-        n = Trans->next();
-        In.push_back(n);
-      } while (0 <= n.first && n.first < 0x100);
-      i = In.cend() - 1;
+    // no invalid elements yet, pump until we hit one or have the most bytes
+    // which a character could take
+    while (i == In.cend() && In.size() < Conv.maxByteLength()) {
+      const std::pair<int32_t,const byte*> n = Trans->next();
+      In.push_back(n);
+      i = In.cend() - (n.first < 0 || 0xFF < n.first);
     }
 
     if (i == In.cbegin()) {
diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index b66fdba..579afd3 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -17,10 +17,8 @@
 
 #include <algorithm>
 #include <cctype>
-#include <limits>
 #include <memory>
 #include <string>
-#include <tuple>
 #include <vector>
 
 #include "lightgrep/util.h"
@@ -121,9 +119,6 @@ namespace {
     //
     // leading context
     //
-    unsigned int max_adj_good = 0, max_inv_bad = 0;
-    std::vector<std::pair<int32_t,const byte*>> lctx;
-
     // no context is longer than the data available for it
     const size_t max_len = dec.maxByteLength();
     const size_t lavail = hbeg - bbeg, tavail = bend - hend;
@@ -134,45 +129,66 @@ namespace {
 
     // Decode leading sequences of increasing length until we hit the
     // beginning of the buffer or decode more values than we need for
-    // leading context.
-    for (const byte* l = hbeg-1; l >= bbeg && size_t(hbeg - l) <= llimit; --l) {
-      dec.reset(l, hbeg);
-      lctx.clear();
-      bad = 0;
-
-      // read the leading context
-      while ((cp = dec.next()).first != LG_WINDOW_END) {
-        lctx.push_back(cp);
-        if (cp.first < 0) {
-          ++bad;
-        }
-      }
+    // leading context. Decoding has no memory, so the sequence from a byte
+    // is the value there followed by the sequence from the end of that value.
+    struct Sequence {
+      int32_t value;         // the first value
+      size_t next,           // how far before the hit the remainder begins
+             size,           // number of values
+             adj_good,       // length of the good sequence adjacent to the hit
+             bad;            // number of bad values
+    };
+
+    std::vector<Sequence> seq{{0, 0, 0, 0, 0}};  // by distance from the hit
+    size_t best = 0, best_adj_good = 0, best_bad = 0;
+
+    for (size_t n = 1; n <= llimit; ++n) {
+      const byte* const l = hbeg - n;
+
+      dec.reset(l, n > max_len ? l + max_len : hbeg);
+      cp = dec.next();
 
-      // pad left with undecoded "bad" bytes
-      for (const byte* b = l - 1; lctx.size() < leading && b >= bbeg; --b) {
-        lctx.emplace(lctx.begin(), -((int32_t) *b)-1, b);
-        ++bad;
-      }
+      const size_t next = hbeg - dec.next().second;
+      const Sequence& rest = seq[next];
+      const bool good = cp.first >= 0;
 
-      // find the start of the good sequence adjacent to the hit
-      auto i = std::find_if(
-        lctx.crbegin(), lctx.crend(),
-        [](const std::pair<int32_t,const byte*>& p) { return p.first < 0; }
-      );
+      const Sequence s{
+        cp.first,
+        next,
+        rest.size + 1,
+        rest.adj_good + (good && rest.bad == 0),
+        rest.bad + !good
+      };
 
-      unsigned int adj_good = i - lctx.crbegin();
-      unsigned int inv_bad = std::numeric_limits<unsigned int>::max() - bad;
+      // the sequence is padded left with undecoded "bad" bytes
+      const size_t pad = s.size < leading ? std::min(leading - s.size, lavail - n) : 0;
+      const size_t sbad = s.bad + pad;
 
       // leading sequences are lexicographically ordered by the length of
       // their hit-adjacent good sequence and their number of bad values
-      if (std::tie(adj_good, inv_bad) >= std::tie(max_adj_good, max_inv_bad)) {
+      if (best == 0 || s.adj_good > best_adj_good ||
+          (s.adj_good == best_adj_good && sbad <= best_bad))
+      {
         // this leading context is not worse than the previous best, keep it
-        max_adj_good = adj_good;
-        max_inv_bad = inv_bad;
-        cps.assign(
-          lctx.size() > leading ? lctx.end() - leading : lctx.begin(),
-          lctx.end()
-        );
+        best = n;
+        best_adj_good = s.adj_good;
+        best_bad = sbad;
+      }
+
+      seq.push_back(s);
+    }
+
+    // pad left with undecoded "bad" bytes
+    if (seq[best].size < leading) {
+      const size_t pad = std::min(leading - seq[best].size, lavail - best);
+      for (const byte* b = hbeg - best - pad; b < hbeg - best; ++b) {
+        cps.emplace_back(-((int32_t) *b)-1, b);
+      }
+    }
+
+    for (size_t n = best; n > 0; n = seq[n].next) {
+      if (seq[n].size <= leading) {
+        cps.emplace_back(seq[n].value, hbeg - n);
       }
     }
 
-- 
2.43.0


From a17f078702e37ee0df9b937dcff40b7732860a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 19/41] fix: refuse to add a pattern which was not parsed
 successfully

lg_add_pattern dereferenced an uninitialised or null tree root when given
a pattern handle which had never been parsed, or whose last parse failed;
where the failed parse had left a partial tree, it added that one under
the text of the refused pattern.
---
 include/parsetree.h         |  2 +-
 src/lib/lightgrep_c_api.cpp | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/parsetree.h b/include/parsetree.h
index 89a0b4d..abbcc5e 100644
--- a/include/parsetree.h
+++ b/include/parsetree.h
@@ -28,7 +28,7 @@ uint32_t nodesUpperBound(const std::string& expr);
 
 class ParseTree {
 public:
-  ParseNode* Root;
+  ParseNode* Root = nullptr;
 
   template <class... Args>
   ParseNode* add(Args&&... args) {
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index b7db011..03759ac 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,9 +101,14 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0 && err) {
-    // pattern might not be null-terminated
-    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+  if (result == 0) {
+    // whatever was built of the tree before the failure is not usable
+    hPattern->Tree.Root = nullptr;
+
+    if (err) {
+      // pattern might not be null-terminated
+      (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+    }
   }
 
   return result;
@@ -148,6 +153,11 @@ void lg_destroy_fsm(LG_HFSM hFsm) {
 
 namespace {
   int addPattern(LG_HFSM hFsm, LG_HPATTERN hPattern, const char* encoding, uint64_t userIndex) {
+    // there is no tree before the first parse, nor after one which failed
+    if (!hPattern->Tree.Root) {
+      THROW_RUNTIME_ERROR_WITH_CLEAN_OUTPUT("Pattern was not parsed successfully");
+    }
+
     const uint32_t label = hFsm->PMap->count();
     hFsm->Impl->addPattern(hPattern->Tree, encoding, label);
 
-- 
2.43.0


From bd75f1d8a2b75ee07cdeccf24d260bd0a3e421f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:16 +0000
Subject: [PATCH 20/41] fix: let the parser's stack grow, so that deeply nested
 patterns parse

Well-formed patterns with more than about 65 nested groups or 50 nested
alternations were refused as a 'repetition of non-atom', because bison's
stack cannot grow unless YYSTYPE is declared trivial, which it is.
---
 src/lib/re_grammar.ypp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index 299f27b..dd37e71 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -94,6 +94,11 @@ namespace {
 #define YYLTYPE_IS_DECLARED 1
 #define YYLTYPE_IS_TRIVIAL 1
 
+// YYSTYPE is trivial, too, so the parser's stack can grow. It must do so
+// using alloca, as we throw through yyparse.
+#define YYSTYPE_IS_TRIVIAL 1
+#define YYSTACK_USE_ALLOCA 1
+
 #define YYDEBUG 0
 
 #if YYDEBUG
-- 
2.43.0


From a728b92ca85cb97c730a7f6dc80819c4bcdb7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 21/41] fix: do not read past a pattern which is empty or ends
 inside a character

The location of the end token was not set for an empty pattern, so that
reporting it copied from a null pointer. A truncated UTF-8 sequence at the
end of a pattern was counted one byte longer than it is, so that decoding
ran on past the end of the pattern.
---
 include/unicode.h      | 2 +-
 src/lib/re_grammar.ypp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index dd37e71..231845d 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1330,7 +1330,7 @@ namespace {
   }
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
-    yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->first_column = yylloc->last_column = ctx->Text - ctx->TextBegin;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0


From 0ded411fd72fe5510b8dac57ddeb5c8f30563f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 22/41] fix: keep the buffer of a program file while its
 program is in use

---
 src/cmd/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 50fa9e1..bc5c3bb 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -155,7 +155,7 @@ void searchRecursively(
 }
 
 std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>
-loadProgram(const std::string& pfile) {
+loadProgram(const std::string& pfile, std::vector<char>& buf) {
   std::ifstream pin(pfile, std::ios::in | std::ios::binary);
   if (!pin) {
     std::cerr << "Could not open program file " << pfile << std::endl;
@@ -169,12 +169,13 @@ loadProgram(const std::string& pfile) {
   const std::streampos end = stream_size(pin);
   std::cerr << "program file is " << end << " bytes long" << std::endl;
 
-  std::vector<char> buf(end);
-  pin.read(&buf[0], end);
+  // the program refers to buf, so buf must outlive it
+  buf.resize(end);
+  pin.read(buf.data(), end);
   pin.close();
 
   return std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>(
-    lg_read_program(&buf[0], end),
+    lg_read_program(buf.data(), end),
     lg_destroy_program
   );
 }
@@ -290,11 +291,12 @@ void searchInputs(
 }
 
 void search(const Options& opts) {
+  std::vector<char> progBuf;
   std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(nullptr, nullptr);
 
   if (!opts.ProgramFile.empty()) {
     // read a program in from file
-    prog = loadProgram(opts.ProgramFile);
+    prog = loadProgram(opts.ProgramFile, progBuf);
   }
   else {
     LgAppCollection col = parsePatterns(opts);
-- 
2.43.0


From 2b1118972a59173ee7c4eb0cc5cf1d9bc0012b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 23/41] fix: let empty files be memory-mapped

---
 src/cmd/reader.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..c5f205f 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <filesystem>
 #include <stdexcept>
 
 #include "reader.h"
@@ -66,11 +67,24 @@ std::future<std::pair<const char*, size_t>> FileReader::read(size_t len){
   );
 }
 
+namespace {
+
+bip::mapped_region mapFile(const bip::file_mapping& m, const std::string& path) {
+  // empty files cannot be mapped
+  std::error_code err;
+  return std::filesystem::file_size(path, err) == 0 ?
+    bip::mapped_region() : bip::mapped_region(m, bip::read_only);
+}
+
+}
+
 MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
-  M(path.c_str(), bip::read_only), R(M, bip::read_only),
+  M(path.c_str(), bip::read_only), R(mapFile(M, path)),
   Buf(static_cast<const char*>(R.get_address())), Bend(Buf + R.get_size())
 {
-  R.advise(bip::mapped_region::advice_sequential);
+  if (R.get_size() > 0) {
+    R.advise(bip::mapped_region::advice_sequential);
+  }
 }
 
 std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t len) {
-- 
2.43.0


From 8ccaabfff36f540870a0d32a2a3c8acdc2b60139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 24/41] fix: keep the text of hits that do not begin in the
 current block

---
 include/reader.h             |  5 +++++
 src/cmd/reader.cpp           |  4 ++++
 src/cmd/searchcontroller.cpp | 39 +++++++++++++++++++++++++++---------
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/include/reader.h b/include/reader.h
index 78d77b8..a95b810 100644
--- a/include/reader.h
+++ b/include/reader.h
@@ -30,6 +30,9 @@ public:
   virtual ~Reader() {}
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) = 0;
+
+  // All of the data, or null if it is not in memory all at once
+  virtual std::pair<const char*, size_t> whole() const { return {nullptr, 0}; }
 };
 
 class FileReader: public Reader {
@@ -53,6 +56,8 @@ public:
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) override;
 
+  virtual std::pair<const char*, size_t> whole() const override;
+
 private:
   bip::file_mapping M;
   bip::mapped_region R;
diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index c5f205f..3ece642 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -94,3 +94,7 @@ std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t
   Buf += len;
   return p.get_future();
 }
+
+std::pair<const char*, size_t> MemoryMappedFileReader::whole() const {
+  return {static_cast<const char*>(R.get_address()), R.get_size()};
+}
diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..56347e3 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <thread>
 #include <utility>
+#include <vector>
 
 void print_cumulative_stats(double seconds, uint64_t offset) {
   uint64_t units = offset >> 20;
@@ -47,18 +48,44 @@ bool SearchController::searchFile(
 
   const char* buf;
 
+  // Hits need not begin in the block in which they are found, so their text
+  // has to be available from where the search says that they could begin.
+  const std::pair<const char*, size_t> whole = reader.whole();
+  const bool keep = !whole.first && (
+    hinfo->HistInfo.HistogramEnabled ||
+    hinfo->OutInfo.BeforeContext > -1 || hinfo->OutInfo.AfterContext > -1
+  );
+  std::vector<char> kept;
+
+  if (whole.first) {
+    hinfo->setBuffer(whole.first, whole.second, 0);
+  }
+
   std::tie(buf, blkSize) = reader.read(BlockSize).get();
   while (blkSize) {
     // start getting next block
     std::future<std::pair<const char*, size_t>> fut = reader.read(BlockSize);
 
     // search cur block
-    hinfo->setBuffer(buf, blkSize, offset);
+    if (keep) {
+      kept.insert(kept.end(), buf, buf + blkSize);
+      hinfo->setBuffer(kept.data(), kept.size(), offset + blkSize - kept.size());
+    }
+    else if (!whole.first) {
+      hinfo->setBuffer(buf, blkSize, offset);
+    }
 
-    lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+    const uint64_t next = lg_search(
+      searcher, buf, buf + blkSize, offset, hinfo, callback
+    );
 
     offset += blkSize;
 
+    if (keep) {
+      kept.erase(kept.begin(), kept.end() - (offset - next));
+      hinfo->setBuffer(kept.data(), kept.size(), next);
+    }
+
     thisTime = searchClock.elapsed();
     if (thisTime - lastTime > 30.0) {
       print_cumulative_stats(searchClock.elapsed(), offset);
@@ -68,14 +95,8 @@ bool SearchController::searchFile(
     std::tie(buf, blkSize) = fut.get(); // block on i/o thread completion
   }
 
-  // assert: all data has been read, offset + blkSize == file size,
-  // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
-
-  lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
-
+  // assert: all data has been read, offset == file size
   lg_closeout_search(searcher, hinfo, callback);
-  offset += blkSize;  // be sure to count the last block
 
   TotalTime += searchClock.elapsed();
   BytesSearched += offset;
-- 
2.43.0


From 6628e5a8735f4d04e3339f5838c4d501f4e48606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 25/41] fix: do not overflow when asked for INT_MAX lines of
 context

---
 src/cmd/hitwriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index 122056f..43e6a57 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -29,7 +29,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
   const auto lend = std::reverse_iterator<const char*>(bbeg);
 
   auto lnl = lbeg - 1;
-  for (int i = lines + 1; i > 0 && lnl != lend; --i) {
+  for (size_t i = lines + 1; i > 0 && lnl != lend; --i) {
     lnl = std::find(lnl + 1, lend, '\n');
   }
   return bbeg + (lend - lnl);
@@ -38,7 +38,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
 const char* find_trailing_context(const char* const hend, const char* const bend, size_t lines) {
   // context right of hit
   auto rnl = hend - 1;
-  for (int i = lines + 1; i > 0 && rnl != bend; --i) {
+  for (size_t i = lines + 1; i > 0 && rnl != bend; --i) {
     rnl = std::find(rnl + 1, bend, '\n');
   }
 
-- 
2.43.0


From fd1e5c666b9ca6424b7c05ae1ac3f30ca2dcee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 26/41] fix: backtrack to the previous vertex once while
 generating samples

---
 src/lib/matchgen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index bb3afbc..2ada02d 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -148,7 +148,15 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
       if (scount == 0) {
         // backtrack if all successors exhausted
         path.pop_back();
+        if (path.empty()) {
+          // there is no match within maxLoops
+          break;
+        }
+
+        // v is going to be visited again
         v = path.back();
+        path.pop_back();
+        --seen[v];
       }
       else {
         // otherwise move on to s
-- 
2.43.0


From 86cb0e9f3db923de1cdbc7a11f4a1757caed825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 27/41] fix: show and sample the graph from which the program
 is made

---
 src/cmd/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index bc5c3bb..ba73858 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -421,7 +421,8 @@ void writeGraphviz(const Options& opts) {
   prog.reset();
 
   // break on through the C API to print the graph
-  writeGraphviz(opts.openOutput(), *fsm->Impl->Fsm);
+  const NFAPtr g(fsm->Impl->finalizeGraph(opts.DeterminizeDepth));
+  writeGraphviz(opts.openOutput(), *g);
 }
 
 void validate(const Options& opts) {
@@ -458,7 +459,7 @@ void writeSampleMatches(const Options& opts) {
   }
   else {
     // break on through the C API to get the graph
-    NFAPtr g(fsm->Impl->Fsm);
+    const NFAPtr g(fsm->Impl->finalizeGraph(opts.DeterminizeDepth));
 
     std::set<std::string> matches;
     matchgen(*g, matches, opts.SampleLimit, opts.LoopLimit);
-- 
2.43.0


From 0c4c7fb2d668ef59d617d226dadfe5ec41d4e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 28/41] fix: exit nonzero from validate if a pattern is refused

---
 src/cmd/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index ba73858..4dd6ccd 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -425,11 +425,13 @@ void writeGraphviz(const Options& opts) {
   writeGraphviz(opts.openOutput(), *g);
 }
 
-void validate(const Options& opts) {
+bool validate(const Options& opts) {
   LgAppCollection col = parsePatterns(opts);
 
   const bool printFilename = opts.CmdLinePatterns.empty() && opts.KeyFiles.size() > 1;
   col.errors->outputErrors(std::cerr, printFilename);
+
+  return !col.getError();
 }
 
 void writeSampleMatches(const Options& opts) {
@@ -499,7 +501,9 @@ int main(int argc, char** argv) {
       writeSampleMatches(opts);
       break;
     case Options::VALIDATE:
-      validate(opts);
+      if (!validate(opts)) {
+        return 1;
+      }
       break;
     case Options::SHOW_VERSION:
       printVersion(std::cout);
-- 
2.43.0


From 09c620b27efc7b8bed3d3817e7ab1a6c8b68124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 29/41] fix: python: a program read from a buffer keeps the
 buffer alive

---
 pylightgrep/lightgrep/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 8bdc9af..e2bbdde 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -360,6 +360,9 @@ class Program(Handle):
             raise RuntimeError('Failed to create program')
 
         super().__init__(handle)
+        # a program which was read from a buffer refers to the buffer's memory,
+        # so the buffer must neither go away nor be resized while we use it
+        self.buf = memoryview(args[0]) if len(args) == 1 else None
 
     @staticmethod
     def from_buffer(buf):
@@ -380,6 +383,7 @@ class Program(Handle):
     def close(self) -> None:
         _LG.lg_destroy_program(self.handle)
         super().close()
+        self.buf = None
 
     def count(self) -> int:
         return _LG.lg_prog_pattern_count(self.get())
-- 
2.43.0


From 3b13da24d440c9e5cd5a6ae2b600312de02951f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 30/41] fix: python: user indices have 64 bits

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index e2bbdde..40e0a83 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -542,7 +542,7 @@ _LG.lg_create_fsm.restype = c_void_p
 _LG.lg_destroy_fsm.argtypes = [c_void_p]
 _LG.lg_destroy_fsm.restype = None
 
-_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_int, POINTER(POINTER(Err))]
+_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_uint64, POINTER(POINTER(Err))]
 _LG.lg_add_pattern.restype = c_int
 
 _LG.lg_add_pattern_list.argtypes = [c_void_p, c_char_p, c_char_p, POINTER(c_char_p), c_uint, POINTER(KeyOpts), POINTER(POINTER(Err))]
-- 
2.43.0


From 5b4ebd9fe6cd685b4acbf36493a14252a0598091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 31/41] fix: python: search() returns offset 0 as 0, not None

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 40e0a83..baa70f0 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -588,7 +588,7 @@ _LG.lg_reset_context.argtypes = [c_void_p]
 _LG.lg_reset_context.restype = None
 
 _LG.lg_search.argtypes = [c_void_p, POINTER(c_char), POINTER(c_char), c_uint64, py_object, _CBType]
-_LG.lg_search.restype = c_void_p
+_LG.lg_search.restype = c_uint64
 
 _LG.lg_closeout_search.argtypes = [c_void_p, py_object, _CBType]
 _LG.lg_closeout_search.restype = None
-- 
2.43.0


From 32e183bead195f6d8b9820f3ce54acd4f721f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 32/41] fix: python: refuse strings containing nulls instead of
 truncating them

---
 pylightgrep/lightgrep/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index baa70f0..b30d5dc 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -129,6 +129,13 @@ def bool_cast_char(charValue) -> bool:
     return charValue != b'\x00'
 
 
+def c_str(s: str) -> bytes:
+    # C strings end at the first null, so the rest would be silently lost
+    if '\0' in s:
+        raise ValueError(f"embedded null character in {s!r}")
+    return s.encode('utf-8')
+
+
 class Err(Structure):
     def __str__(self):
         s = []
@@ -303,7 +310,7 @@ class Pattern(Handle):
 
     def parse(self, pat: str, opts: KeyOpts) -> None:
         with Error() as err:
-            if _LG.lg_parse_pattern(self.get(), pat.encode("utf-8"), byref(opts), byref(err.get())) <= 0:
+            if _LG.lg_parse_pattern(self.get(), c_str(pat), byref(opts), byref(err.get())) <= 0:
                 raise RuntimeError(f"Error parsing pattern: {err}")
 
 
@@ -322,7 +329,7 @@ class Fsm(Handle):
 
     def add_pattern(self, pat: Pattern, enc: str, userIdx: int) -> int:
         with Error() as err:
-            idx = _LG.lg_add_pattern(self.get(), pat.get(), enc.encode("utf-8"), userIdx, byref(err.get()))
+            idx = _LG.lg_add_pattern(self.get(), pat.get(), c_str(enc), userIdx, byref(err.get()))
             if idx < 0:
                 raise RuntimeError(f"Error adding pattern: {err}")
             return idx
@@ -473,7 +480,7 @@ class HitDecoder(Handle):
                     end,
                     offset,
                     byref(hit_window),
-                    hit['encChain'].encode('utf-8'),
+                    c_str(hit['encChain']),
                     window_size,
                     ord(' '),
                     byref(out),
-- 
2.43.0


From ee89ad6f179339ce0fb4eecd95ceb492ed65f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 33/41] fix: python: measure buffers in bytes, not items

---
 pylightgrep/lightgrep/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index b30d5dc..b9c3585 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -107,9 +107,15 @@ def buf_beg(buf, ptype):
         pythonapi.PyBuffer_Release(byref(pybuf))
 
 
+def buf_size(buf):
+    # size in bytes, which len() is not for buffers of larger items
+    with memoryview(buf) as view:
+        return view.nbytes
+
+
 def buf_range(buf, ptype):
     beg = buf_beg(buf, ptype)
-    end = cast(beg, POINTER(ptype * 1))[len(buf)]
+    end = cast(beg, POINTER(ptype * 1))[buf_size(buf)]
     return beg, end
 
 
@@ -375,7 +381,7 @@ class Program(Handle):
     def from_buffer(buf):
         # unserialize program from a buffer
         c_buf = buf_beg(buf, c_char)
-        return _LG.lg_read_program(c_buf, len(buf))
+        return _LG.lg_read_program(c_buf, buf_size(buf))
 
     @staticmethod
     def from_fsm(fsm, progOpts):
-- 
2.43.0


From 2c46c79053025488694894744da9ab8caf88e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 34/41] fix: java: a program read from an array keeps its own
 copy of it

---
 src/java/jni/jlightgrep.cpp                   | 20 +++++++-----------
 .../lightgrep/ContextHandle.java              |  3 +++
 .../lightgrep/ProgramHandle.java              | 21 ++++++++++++++++---
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2487c1c..808a839 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -593,21 +593,15 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
   lg_write_program(ptr, buf);
 }
 
-JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
+JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jobject buffer, jint size) {
   try {
-    LG_HPROGRAM hProg = nullptr;
-
-    {
-      // convert all of the Java objects to C
-      std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
-
-      char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    // convert all of the Java objects to C
+    const void* buf = env->GetDirectBufferAddress(buffer);
 
-      // finally actually do something
-      hProg = lg_read_program(buf, (uint32_t) size);
-      if (!hProg) {
-        throwException(env, programExceptionClassName, "Bad program");
-      }
+    // finally actually do something
+    LG_HPROGRAM hProg = buf ? lg_read_program(buf, size) : nullptr;
+    if (!hProg) {
+      throwException(env, programExceptionClassName, "Bad program");
     }
 
     return makeProgramHandle(env, hProg);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 2f98b68..9af5473 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -11,6 +11,9 @@ public class ContextHandle extends Handle {
 
   static native void init();
 
+  // what the program was read from, if it was read
+  ByteBuffer Memory;
+
   private ContextHandle(long ptr) {
     super(ptr);
   }
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 3898e58..910bcee 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -1,5 +1,7 @@
 package com.lightboxtechnologies.lightgrep;
 
+import java.nio.ByteBuffer;
+
 import static com.lightboxtechnologies.lightgrep.Throws.*;
 
 public class ProgramHandle extends Handle {
@@ -7,6 +9,9 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  // what the program was read from, if it was read
+  private ByteBuffer Memory;
+
   /**
    * @throws IndexOutOfBoundsException
    */
@@ -75,10 +80,18 @@ public class ProgramHandle extends Handle {
     throwIfNegative("offset", offset);
     throwIfNegative("size", size);
     throwIfByteArrayTooSmall("buffer", buffer, "offset", offset, "size", size);
-    return readImpl(buffer, offset, size);
+
+    // The native program refers to the memory it is read from, so that has to
+    // stay put, and live as long as the program and its contexts do.
+    final ByteBuffer copy = ByteBuffer.allocateDirect(size);
+    copy.put(buffer, offset, size);
+
+    final ProgramHandle hProg = readImpl(copy, size);
+    hProg.Memory = copy;
+    return hProg;
   }
 
-  private static native ProgramHandle readImpl(byte[] buffer, int offset, int size);
+  private static native ProgramHandle readImpl(ByteBuffer buffer, int size);
 
   /**
    * @throws IllegalStateException
@@ -139,7 +152,9 @@ public class ProgramHandle extends Handle {
   public ContextHandle createContext(ContextOptions options) {
     throwIfNull("options", options);
     throwIfDestroyed(this);
-    return createContextImpl(options);
+    final ContextHandle hCtx = createContextImpl(options);
+    hCtx.Memory = Memory;
+    return hCtx;
   }
 
   private native ContextHandle createContextImpl(ContextOptions options);
-- 
2.43.0


From e59de75f1207e83c2e11d506151bed707e514e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 35/41] fix: java: release each hit after its callback

---
 src/java/jni/jlightgrep.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 808a839..00216ad 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -690,6 +690,8 @@ static void callbackShim(void* userData, const LG_SearchHit* const hit) {
   throwIfException(env);
 
   env->CallVoidMethod(cb, hitCallbackCallback, hobj);
+  // there may be any number of hits before we return to Java
+  env->DeleteLocalRef(hobj);
   throwIfException(env);
 }
 
-- 
2.43.0


From e98adfbdf999870c3e50544999b59940c3db2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 36/41] fix: java: convert strings from and to proper UTF-8

---
 src/java/jni/jlightgrep.cpp | 95 ++++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 23 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 00216ad..7da6ca0 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -19,12 +19,16 @@
 #include <lightgrep/util.h>
 
 #include "jlightgrep.h"
+#include "unicode.h"
 
+#include <cstring>
 #include <functional>
 #include <limits>
 #include <memory>
 #include <sstream>
+#include <string>
 #include <tuple>
+#include <vector>
 
 static const char ALL_IS_LOST[] = "Fuck it, Dude. Let's go bowling.";
 
@@ -230,20 +234,69 @@ template <typename T> T unwrap(JNIEnv* env, jobject handle) {
 }
 */
 
-static std::unique_ptr<const char,std::function<void(const char*)>> unwrap(JNIEnv* env, jstring str) {
-  using namespace std::placeholders;
+// NB: The UTF-8 which JNI's own string functions use is a modified one, in
+// which a character outside the BMP is a pair of three-byte surrogates, so we
+// convert from and to Java's UTF-16.
 
-  std::unique_ptr<const char,std::function<void(const char*)>> ptr(
-    env->GetStringUTFChars(str, nullptr),
-    std::bind(&JNIEnv::ReleaseStringUTFChars, env, str, _1)
-  );
+static std::string unwrap(JNIEnv* env, jstring str) {
+  const jsize len = env->GetStringLength(str);
+  std::vector<jchar> u16(len);
+  env->GetStringRegion(str, 0, len, u16.data());
+  throwIfException(env);
 
-  if (!ptr) {
-    // OutOfMemoryError already thrown
-    throw PendingJavaException();
+  std::string u8;
+  for (jsize i = 0; i < len; ++i) {
+    uint32_t cp = u16[i];
+    if (0xD800 <= cp && cp < 0xDC00 && i + 1 < len &&
+        0xDC00 <= u16[i+1] && u16[i+1] < 0xE000) {
+      cp = 0x10000 + ((cp - 0xD800) << 10) + (u16[++i] - 0xDC00);
+    }
+
+    if (cp != 0 && cp < 0x80) {
+      u8 += static_cast<char>(cp);
+    }
+    else if (cp < 0x800) {
+      // null is two bytes here too, and hence refused instead of being
+      // mistaken for the end of the string
+      u8 += static_cast<char>(0xC0 | (cp >> 6));
+      u8 += static_cast<char>(0x80 | (cp & 0x3F));
+    }
+    else if (cp < 0x10000) {
+      u8 += static_cast<char>(0xE0 | (cp >> 12));
+      u8 += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
+      u8 += static_cast<char>(0x80 | (cp & 0x3F));
+    }
+    else {
+      u8 += static_cast<char>(0xF0 | (cp >> 18));
+      u8 += static_cast<char>(0x80 | ((cp >> 12) & 0x3F));
+      u8 += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
+      u8 += static_cast<char>(0x80 | (cp & 0x3F));
+    }
   }
+  return u8;
+}
 
-  return ptr;
+static jstring wrap(JNIEnv* env, const char* u8) {
+  std::vector<jchar> u16;
+  const char* const end = u8 + std::strlen(u8);
+  while (u8 < end) {
+    int cp;
+    u8 += utf8_to_unicode(cp, u8, end);
+    if (cp < 0) {
+      u16.push_back(0xFFFD);
+    }
+    else if (cp < 0x10000) {
+      u16.push_back(cp);
+    }
+    else {
+      u16.push_back(0xD800 + ((cp - 0x10000) >> 10));
+      u16.push_back(0xDC00 + ((cp - 0x10000) & 0x3FF));
+    }
+  }
+
+  jstring str = env->NewString(u16.data(), u16.size());
+  throwIfException(env);
+  return str;
 }
 
 static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env, jbyteArray buffer) {
@@ -310,7 +363,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
 
 // TODO: C++11 stuff.
 
-    std::unique_ptr<const char,std::function<void(const char*)>> pat(unwrap(env, pattern));
+    const std::string pat(unwrap(env, pattern));
 
     LG_KeyOptions opts{
       env->GetBooleanField(options, keyOptionsFixedStringField) != 0,
@@ -321,7 +374,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
     // finally actually do something
     const int ret = lg_parse_pattern(
       ptr,
-      pat.get(),
+      pat.c_str(),
       &opts,
       &err
     );
@@ -366,11 +419,8 @@ static jobject makePatternInfo(JNIEnv* env, LG_PatternInfo* pinfo) {
   jclass cl = env->FindClass(patternInfoClassName);
   throwIfException(env);
 
-  jstring pat = env->NewStringUTF(pinfo->Pattern);
-  throwIfException(env);
-
-  jstring enc = env->NewStringUTF(pinfo->EncodingChain);
-  throwIfException(env);
+  jstring pat = wrap(env, pinfo->Pattern);
+  jstring enc = wrap(env, pinfo->EncodingChain);
 
   jint idx = pinfo->UserIndex;
 
@@ -514,13 +564,13 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_FSMHandle_addPatt
       env->GetLongField(hPattern, handlePointerField)
     );
 
-    std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+    const std::string enc(unwrap(env, encoding));
 
     // finally actually do something
     const int ret = lg_add_pattern(
       fsmptr,
       patptr,
-      enc.get(),
+      enc.c_str(),
       idx,
       &err
     );
@@ -811,8 +861,7 @@ static jobject makeHitContext(JNIEnv* env, const LG_Window& outer, const LG_Wind
   jclass cl = env->FindClass(hitContextClassName);
   throwIfException(env);
 
-  jstring decoded = env->NewStringUTF(utf8);
-  throwIfException(env);
+  jstring decoded = wrap(env, utf8);
 
   jobject hc = env->NewObject(
     cl, hitContextCtor, outer.begin, outer.end,
@@ -833,7 +882,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
 
   const LG_Window inner{ (uint64_t) ibegin, (uint64_t) iend };
 
-  std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+  const std::string enc(unwrap(env, encoding));
 
   LG_Window outer, decodedHit;
   const char* utf8;
@@ -847,7 +896,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
     buf + size,
     (uint64_t) startOffset,
     &inner,
-    enc.get(),
+    enc.c_str(),
     windowSize,
     replacement,
     &utf8,
-- 
2.43.0


From 2bbe9e308a22d1caa8f7262340f39b5528c42b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 37/41] fix: java: leave the position of read-only buffers
 alone

---
 .../com/lightboxtechnologies/lightgrep/ContextHandle.java     | 4 ++--
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 9af5473..5b2feab 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -58,7 +58,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       startsWithImpl(array, position, size, startOffset, callback);
@@ -114,7 +114,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return searchImpl(array, position, size, startOffset, callback);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 81166ea..6c664e5 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -65,7 +65,7 @@ public class LGUtil {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return getHitContextImpl(hDec, array, position, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
-- 
2.43.0


From 75223938d088b75a91c8d71b8ff9ee5017b1fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 38/41] fix: java: refuse to decode with a destroyed handle

---
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 6c664e5..2cf80d7 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -14,6 +14,7 @@ public class LGUtil {
 
   public static HitContext getHitContext(DecoderHandle hDec, byte[] buffer, int offset, int size, long startOffset, long ibegin, long iend, String encoding, int windowSize, int replacement) throws UnsupportedEncodingException {
     throwIfNull("hDec", hDec);
+    throwIfDestroyed(hDec);
     throwIfNull("buffer", buffer);
     throwIfNegative("offset", offset);
     throwIfNegative("size", size);
@@ -35,6 +36,7 @@ public class LGUtil {
 
   public static HitContext getHitContext(DecoderHandle hDec, ByteBuffer buffer, int size, long startOffset, long ibegin, long iend, String encoding, int windowSize, int replacement) throws UnsupportedEncodingException {
     throwIfNull("hDec", hDec);
+    throwIfDestroyed(hDec);
     throwIfNull("buffer", buffer);
     throwIfNegative("size", size);
     throwIfByteBufferTooSmall("buffer", buffer, "size", size);
-- 
2.43.0


From e047dcfa833853e34b234eed7810023244922b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 39/41] fix: java: free the error of a failed decoding

---
 src/java/jni/jlightgrep.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 7da6ca0..8797d13 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -906,7 +906,9 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
   );
 
   if (err) {
-    throwException(env, unsupportedEncodingExceptionClassName, err->Message);
+    const std::string message(err->Message);
+    lg_free_error(err);
+    throwException(env, unsupportedEncodingExceptionClassName, message.c_str());
   }
 
   std::unique_ptr<const char[],void(*)(const char*)> pchars(
-- 
2.43.0


From 209e3cdae33dfdb9e706f16ee8a5aa43fb909c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 40/41] fix: java: give ProgramHandle the constructor and
 init() that read() needs

---
 .../com/lightboxtechnologies/lightgrep/ProgramHandle.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 910bcee..854f111 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -9,9 +9,15 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  static native void init();
+
   // what the program was read from, if it was read
   private ByteBuffer Memory;
 
+  private ProgramHandle(long ptr) {
+    super(ptr);
+  }
+
   /**
    * @throws IndexOutOfBoundsException
    */
-- 
2.43.0


From f685dc6a9a16b6afb5e49bc1692308838a08dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 41/41] fix: java: convert exception messages from proper UTF-8

---
 src/java/jni/jlightgrep.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 8797d13..e6758a5 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -54,12 +54,20 @@ static void throwIfException(JNIEnv* env) {
   }
 }
 
+static jstring wrap(JNIEnv* env, const char* u8);
+
 static void throwException(JNIEnv* env, const char* exClassName, const char* message) {
   jclass ex = env->FindClass(exClassName);
-  if (!env->ExceptionCheck()) {
-    if (env->ThrowNew(ex, message)) {
-      env->FatalError(ALL_IS_LOST);
-    }
+  throwIfException(env);
+
+  jmethodID ctor = env->GetMethodID(ex, "<init>", "(Ljava/lang/String;)V");
+  throwIfException(env);
+
+  jobject obj = env->NewObject(ex, ctor, wrap(env, message));
+  throwIfException(env);
+
+  if (env->Throw(reinterpret_cast<jthrowable>(obj))) {
+    env->FatalError(ALL_IS_LOST);
   }
 
   throw PendingJavaException();
-- 
2.43.0

