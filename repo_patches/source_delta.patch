From 1fb59e653ae760fb156f227d31f75faef20929c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 01/45] hooks: guarded (FBLE_SIM) simulation hooks for the
 value heap

---
 lib/sim-hooks.h | 58 +++++++++++++++++++++++++++++++++++++++++++++++++
 lib/value.c     | 35 +++++++++++++++++++++++++++++
 2 files changed, 93 insertions(+)
 create mode 100644 lib/sim-hooks.h

diff --git a/lib/sim-hooks.h b/lib/sim-hooks.h
new file mode 100644
index 0000000..2a45839
--- /dev/null
+++ b/lib/sim-hooks.h
@@ -0,0 +1,58 @@
+/**
+ * @file sim-hooks.h
+ *  Hooks for deterministic simulation of the value heap.
+ *
+ *  These are only used when compiled with FBLE_SIM defined, in which case the
+ *  simulator is expected to provide definitions for them.
+ */
+
+#ifndef FBLE_INTERNAL_SIM_HOOKS_H_
+#define FBLE_INTERNAL_SIM_HOOKS_H_
+
+#include <stdbool.h>      // for bool
+#include <sys/types.h>    // for size_t
+
+/**
+ * @value[FbleSimChunkSize] Size in bytes of stack chunks to use.
+ *  Must not be changed while there are any value heaps allocated.
+ *
+ *  @type[size_t]
+ */
+extern size_t FbleSimChunkSize;
+
+/**
+ * @func[FbleSimExtraGcSteps] Schedules additional incremental GC work.
+ *  @returns[size_t] The number of extra steps of GC to do.
+ *  @sideeffects
+ *   None.
+ */
+size_t FbleSimExtraGcSteps();
+
+/**
+ * @func[FbleSimMergeFrame] Overrides frame merging decisions.
+ *  @arg[bool][merge] True if a frame would by default be merged.
+ *  @returns[bool] True if the frame should be merged.
+ *  @sideeffects
+ *   None.
+ */
+bool FbleSimMergeFrame(bool merge);
+
+/**
+ * @func[FbleSimStackAlloc] Notifies of memory allocated to the stack.
+ *  @arg[void*][ptr] The start of memory being allocated.
+ *  @arg[size_t][size] The size of memory being allocated.
+ *  @sideeffects
+ *   None.
+ */
+void FbleSimStackAlloc(void* ptr, size_t size);
+
+/**
+ * @func[FbleSimStackFree] Notifies of stack memory no longer in use.
+ *  @arg[void*][lo] The start of the memory region, inclusive.
+ *  @arg[void*][hi] The end of the memory region, exclusive.
+ *  @sideeffects
+ *   None.
+ */
+void FbleSimStackFree(void* lo, void* hi);
+
+#endif // FBLE_INTERNAL_SIM_HOOKS_H_
diff --git a/lib/value.c b/lib/value.c
index 0c64381..c362630 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -25,6 +25,10 @@
 
 #include "unreachable.h"    // for FbleUnreachable
 
+#ifdef FBLE_SIM
+#include "sim-hooks.h"      // for FbleSim*
+#endif
+
 // Notes on Memory Management
 // ==========================
 //
@@ -356,7 +360,11 @@ static size_t PackedValueLength(intptr_t data);
 static FbleValue* StrictValue(FbleValue* value);
 
 // We allocate memory for the stack in 1MB chunks.
+#ifdef FBLE_SIM
+#define CHUNK_SIZE FbleSimChunkSize
+#else
 #define CHUNK_SIZE (1024 * 1024)
+#endif
 
 /**
  * @struct[Chunk] A chunk of allocated stack space.
@@ -625,6 +633,9 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
 
   void* result = (void*)frame->top;
   frame->top += size;
+#ifdef FBLE_SIM
+  FbleSimStackAlloc(result, size);
+#endif
   return result;
 }
 
@@ -660,6 +671,11 @@ static FbleValue* NewValueRaw(FbleValueHeap* heap, ValueTag tag, size_t size)
 static FbleValue* NewGcValueRaw(FbleValueHeap* heap, Frame* frame, ValueTag tag, size_t size)
 {
   IncrGc(heap);
+#ifdef FBLE_SIM
+  for (size_t i = FbleSimExtraGcSteps(); i > 0; --i) {
+    IncrGc(heap);
+  }
+#endif
 
   FbleValue* value = (FbleValue*)FbleAllocRaw(size);
   value->tag = tag;
@@ -1050,6 +1066,9 @@ void FbleFreeValueHeap(FbleValueHeap* heap)
 // If merge is true, reuse the same allocation space as the caller frame.
 static void PushFrame(FbleValueHeap* heap, bool merge)
 {
+#ifdef FBLE_SIM
+  merge = FbleSimMergeFrame(merge);
+#endif
   if (merge) {
     heap->top->merges++;
     return;
@@ -1128,12 +1147,19 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
     top->chunks = chunk->next;
     chunk->next = heap->chunks;
     heap->chunks = chunk;
+#ifdef FBLE_SIM
+    FbleSimStackFree(chunk + 1, CHUNK_SIZE + (char*)chunk);
+#endif
   }
 
   if (heap->gc.next == NULL || heap->gc.next == top) {
     heap->gc.next = heap->top;
   }
 
+#ifdef FBLE_SIM
+  FbleSimStackFree((void*)heap->top->top, (void*)heap->top->max);
+#endif
+
   return value;
 }
 
@@ -1154,6 +1180,9 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
  */
 static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue** save)
 {
+#ifdef FBLE_SIM
+  merge = FbleSimMergeFrame(merge);
+#endif
   if (merge) {
     return;
   }
@@ -1185,7 +1214,13 @@ static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue**
     heap->top->chunks = chunk->next;
     chunk->next = heap->chunks;
     heap->chunks = chunk;
+#ifdef FBLE_SIM
+    FbleSimStackFree(chunk + 1, CHUNK_SIZE + (char*)chunk);
+#endif
   }
+#ifdef FBLE_SIM
+  FbleSimStackFree((void*)heap->top->top, (void*)heap->top->max);
+#endif
 
   MoveAllTo(&heap->top->unmarked, &heap->top->marked);
   MoveAllTo(&heap->top->unmarked, &heap->top->alloced);
-- 
2.43.0


From cd62ef54a30c2b153aeaddef08fb8ed255f3da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 02/45] fix: initialize the top frame's chunk list of a new
 value heap

FbleNewValueHeap cleared heap->chunks twice and never heap->top->chunks,
so a heap allocated from reused (non-zero) memory started with a wild
chunk list: FbleFreeValueHeap and returns to the top frame crashed.
---
 lib/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index c362630..efaf4c5 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1010,7 +1010,7 @@ FbleValueHeap* FbleNewValueHeap()
   Clear(&heap->top->alloced);
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = CHUNK_SIZE + (intptr_t)heap->stack;
-  heap->chunks = NULL;
+  heap->top->chunks = NULL;
 
   heap->gc.min_gen = heap->top->min_gen;
   heap->gc.gen = heap->top->gen;
-- 
2.43.0


From 185ecc2abc5fd66f70f96b77489939fb665b22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 03/45] fix: complete the last cycle in FbleValueFullGc

The loop ended as soon as the collection of the last pending frame had
been set up: the values being traversed and the garbage waiting to be
freed were not looked at, so unreachable objects stayed on the heap.
---
 lib/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/value.c b/lib/value.c
index efaf4c5..c058daa 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1862,6 +1862,9 @@ void* FbleNativeValueData(FbleValue* value)
 void FbleValueFullGc(FbleValueHeap* heap)
 {
   while (!(heap->gc.next == NULL
+      && IsEmpty(&heap->gc.marked)
+      && IsEmpty(&heap->gc.unmarked)
+      && IsEmpty(&heap->gc.free)
       && IsEmpty(&heap->gc.frame->marked)
       && IsEmpty(&heap->gc.frame->unmarked))) {
     IncrGc(heap);
-- 
2.43.0


From 83e8d608e223434ce00124cb964c5bfb86f00cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 04/45] fix: never reuse GC generations of a popped frame

FblePopFrame updated the caller's max_gen only when the returned value was
allocated by the popped frame. Otherwise the generations of its garbage
were used again for later objects. If GC was still working on that garbage
the new objects were taken to be undergoing GC and given its generation,
which can lie past the max_gen of the frame they end up on: a callee then
took such an object to be its own and freed it with its frame while the
caller still used it.
---
 lib/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index c058daa..23b172d 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1118,8 +1118,12 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
   MoveAllTo(&heap->top->unmarked, &top->marked);
   MoveAllTo(&heap->top->unmarked, &top->alloced);
 
+  // The popped frame's objects now belong to the caller. Always cover their
+  // generations, even if they are all garbage: GC could still be working on
+  // them, and must not confuse them with objects allocated later.
+  heap->top->max_gen = top->max_gen;
+
   if (IsAlloced(value) && value->h.gc.gen >= top->min_gen) {
-    heap->top->max_gen = top->max_gen;
     MoveTo(&heap->top->marked, value);
   }
 
-- 
2.43.0


From ba2e4b8bb9234dee78eb8caa04f4c09c5941d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 05/45] fix: skip empty entries of FBLE_PACKAGE_PATH

An empty entry, including an empty FBLE_PACKAGE_PATH, made the lookup search
for the package in the root directory of the file system.
---
 lib/load.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/load.c b/lib/load.c
index a2584d0..a02019f 100644
--- a/lib/load.c
+++ b/lib/load.c
@@ -124,13 +124,16 @@ FbleString* FbleFindPackage(const char* package)
         e = end;
       }
 
+      // Skip empty entries. They don't name any directory to search in.
       size_t n = e - s;
-      char dir[n+1];
-      strncpy(dir, s, n);
-      dir[n] = '\0';
-      FbleString* found = FindPackageAt(package, dir);
-      if (found) {
-        return found;
+      if (n > 0) {
+        char dir[n+1];
+        strncpy(dir, s, n);
+        dir[n] = '\0';
+        FbleString* found = FindPackageAt(package, dir);
+        if (found) {
+          return found;
+        }
       }
 
       s = e+1;
-- 
2.43.0


From 046e8d8d4fe46706059ed74c36938ace6fd643eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 06/45] fix: fail to load modules whose file cannot be read to
 its end

A read error was taken for the end of the file, so a module could be loaded
from only the first part of its file.
---
 lib/parse.y | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/parse.y b/lib/parse.y
index 247419c..4a80a41 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -934,6 +934,14 @@ FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps)
   };
   FbleExpr* result = NULL;
   yyparse(&lex, &result, deps);
+
+  // A read error looks like the end of the file to the lexer. Don't treat
+  // whatever was read before the error as if it was the complete module.
+  if (ferror(fin)) {
+    fprintf(stderr, "Error reading file %s.\n", filename->str);
+    FbleFreeExpr(result);
+    result = NULL;
+  }
   fclose(fin);
   return result;
 }
-- 
2.43.0


From e2c256239b550ddf50eb9441d0ae78c6a18a56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 07/45] fix: escape special characters in depfiles

File paths with spaces, '#' or '$' were written to depfiles as is, which
build tools read as other files.
---
 lib/load.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/lib/load.c b/lib/load.c
index a02019f..bb5d97f 100644
--- a/lib/load.c
+++ b/lib/load.c
@@ -48,6 +48,7 @@ typedef struct Stack {
 static FbleString* FindPackageAt(const char* package, const char* package_dir);
 static FbleString* FindAt(const char* root, FbleModulePath* path, FbleStringV* build_deps);
 static FbleString* Find(FbleSearchPath* search_path, FbleModulePath* path, FbleStringV* build_deps);
+static void SaveBuildPath(FILE* fout, const char* path);
 
 // See documentation in fble-load.h.
 FbleSearchPath* FbleNewSearchPath()
@@ -372,11 +373,34 @@ void FbleFreeLoadedProgram(FbleLoadedProgram* program)
   }
 }
 
+/**
+ * @func[SaveBuildPath] Outputs a file path to a depfile.
+ *  Escapes characters that have special meaning to ninja and make.
+ *
+ *  @arg[FILE*][fout] The output stream to write to.
+ *  @arg[const char*][path] The path to output.
+ *
+ *  @sideeffects
+ *   Outputs the escaped path to the output stream.
+ */
+static void SaveBuildPath(FILE* fout, const char* path)
+{
+  for (const char* c = path; *c != '\0'; ++c) {
+    if (*c == ' ' || *c == '#') {
+      fputc('\\', fout);
+    } else if (*c == '$') {
+      fputc('$', fout);
+    }
+    fputc(*c, fout);
+  }
+}
+
 // See documentation in fble-load.h.
 void FbleSaveBuildDeps(FILE* fout, const char* target, FbleStringV build_deps)
 {
   int cols = 1 + strlen(target);
-  fprintf(fout, "%s:", target);
+  SaveBuildPath(fout, target);
+  fprintf(fout, ":");
   for (size_t i = 0; i < build_deps.size; ++i) {
     const char* dep = build_deps.xs[i]->str;
     size_t len = 1 + strlen(dep);
@@ -386,7 +410,8 @@ void FbleSaveBuildDeps(FILE* fout, const char* target, FbleStringV build_deps)
     }
 
     cols += len;
-    fprintf(fout, " %s", dep);
+    fprintf(fout, " ");
+    SaveBuildPath(fout, dep);
   }
   fprintf(fout, "\n");
 }
-- 
2.43.0


From 721fa9798287b2fc7157bf757b7f187441163db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 08/45] fix: fail to load modules with a syntax error after
 their last statement

The error was reported, but the program parsed so far was still used. The
same applies to module paths given as arguments.
---
 lib/parse.y | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 4a80a41..0ddea4f 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -933,12 +933,17 @@ FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps)
     .start_token = PARSE_PROGRAM
   };
   FbleExpr* result = NULL;
-  yyparse(&lex, &result, deps);
+  int status = yyparse(&lex, &result, deps);
 
   // A read error looks like the end of the file to the lexer. Don't treat
   // whatever was read before the error as if it was the complete module.
   if (ferror(fin)) {
     fprintf(stderr, "Error reading file %s.\n", filename->str);
+    status = 1;
+  }
+
+  // The result may already be set when a syntax error follows the program.
+  if (status != 0) {
     FbleFreeExpr(result);
     result = NULL;
   }
@@ -965,13 +970,19 @@ FbleModulePath* FbleParseModulePath(const char* string)
 
   FbleModulePathV path;
   FbleInitVector(path);
-  yyparse(&lex, NULL, &path);
+  int status = yyparse(&lex, NULL, &path);
   FbleFreeLoc(lex.loc);
 
   FbleModulePath* result = NULL;
   assert(path.size < 2);
   if (path.size > 0) {
     result = path.xs[0];
+
+    // The path may already be set when a syntax error follows it.
+    if (status != 0) {
+      FbleFreeModulePath(result);
+      result = NULL;
+    }
   }
   FbleFreeVector(path);
   return result;
-- 
2.43.0


From 1a256d8a4ef4c1346cd91a4076fb28e33c5e6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 09/45] fix: reject null characters in source files

A null character was taken for the end of the file, so the rest of the file
was silently ignored.
---
 lib/parse.y | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/parse.y b/lib/parse.y
index 0ddea4f..2bf4503 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -853,7 +853,9 @@ static int yylex(YYSTYPE* lvalp, YYLTYPE* llocp, Lex* lex)
   }
 
   if (IsPunctuationChar(lex->c)) {
-    int c = lex->c;
+    // The null character is not a legal token. In particular, it must not be
+    // mistaken for END.
+    int c = (lex->c == '\0') ? YYUNDEF : lex->c;
     ReadNextChar(lex);
     return c;
   };
@@ -865,6 +867,11 @@ static int yylex(YYSTYPE* lvalp, YYLTYPE* llocp, Lex* lex)
     do {
       ReadNextChar(lex);
       while (lex->c != EOF && lex->c != '\'') {
+        if (lex->c == '\0') {
+          // Words can't contain the null character.
+          FbleFreeVector(wordv);
+          return YYUNDEF;
+        }
         FbleAppendToVector(wordv, lex->c);
         ReadNextChar(lex);
       }
-- 
2.43.0


From bdfb6b150e92896a724daa72103380b4292fffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 10/45] fix: read module path arguments as unsigned characters

The lexer expects unsigned characters or EOF. A byte 0xff in a module path
argument was taken for the end of the argument.
---
 lib/parse.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 2bf4503..e986174 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -793,7 +793,7 @@ static void ReadNextChar(Lex* lex)
     if (*lex->sin == '\0') {
       lex->c = EOF;
     } else {
-      lex->c = *lex->sin;
+      lex->c = (unsigned char)*lex->sin;
       lex->sin++;
     }
   }
@@ -916,7 +916,7 @@ static void yyerror(YYLTYPE* llocp, Lex* lex, FbleExpr** result, FbleModulePathV
 bool FbleIsPlainWord(const char* word)
 {
   for (const char* c = word; *c != '\0'; c++) {
-    if (!IsWordChar(*c)) {
+    if (!IsWordChar((unsigned char)*c)) {
       return false;
     }
   }
-- 
2.43.0


From 7a7c42605e9a86db45fcfd22513dc6f0401478f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 11/45] fix: report ill-typed arguments of a struct copy
 without crashing

---
 lib/typecheck.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 4464903..505bbba 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1318,6 +1318,10 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         error = error || (args[j].type == NULL);
       }
 
+      if (error) {
+        return TC_FAILED;
+      }
+
       size_t fieldc = struct_type->fields.size;
       FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
       struct_copy->source = FbleCopyTc(src.tc);
-- 
2.43.0


From c38de805f7b3042c466ef77c1d165e165d486096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 12/45] fix: attribute the main block of interpreted programs
 to <main>

---
 lib/link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/link.c b/lib/link.c
index 7a331f7..b7fb27a 100644
--- a/lib/link.c
+++ b/lib/link.c
@@ -99,7 +99,7 @@ static FbleValue* LinkInterpreted(FbleValueHeap* heap, FbleProfile* profile, Fbl
   FbleAppendToVector(code->instrs, &return_instr->_base);
 
   // Wrap that all up into an FbleFuncValue.
-  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, 0, funcs);
+  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, main_id, funcs);
   FbleFreeCode(code);
   FbleFreeCompiledProgram(compiled);
   return linked;
-- 
2.43.0


From 4c914ff66ab9994cc08a98fb5e819320a017f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 13/45] fix: name the right blocks in disassembled profile ops

---
 lib/code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/code.c b/lib/code.c
index 3c4a7f5..d7e7f11 100644
--- a/lib/code.c
+++ b/lib/code.c
@@ -263,7 +263,7 @@ void FbleDisassemble(FILE* fout, FbleCompiledModule* module)
       for (FbleProfileOp* op = instr->profile_ops; op != NULL; op = op->next) {
         switch (op->tag) {
           case FBLE_PROFILE_ENTER_OP: {
-            FbleBlockId block_id = op->arg;
+            FbleBlockId block_id = block->profile_block_id + op->arg;
             FbleName* name = &profile_blocks.xs[block_id];
             fprintf(fout, "    .  profile enter %s[%04zx];", name->name->str, block_id);
             PrintLoc(fout, name->loc);
@@ -271,7 +271,7 @@ void FbleDisassemble(FILE* fout, FbleCompiledModule* module)
           }
 
           case FBLE_PROFILE_REPLACE_OP: {
-            FbleBlockId block_id = op->arg;
+            FbleBlockId block_id = block->profile_block_id + op->arg;
             FbleName* name = &profile_blocks.xs[block_id];
             fprintf(fout, "    .  profile replace %s[%04zx];", name->name->str, block_id);
             PrintLoc(fout, name->loc);
-- 
2.43.0


From 63240a4281668af1e39209cbeb567bbd64112328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 14/45] fix: interpreter aborted on a select of a union with a
 single tag

---
 lib/interpret.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/interpret.c b/lib/interpret.c
index 992dc5d..cc628eb 100644
--- a/lib/interpret.c
+++ b/lib/interpret.c
@@ -5,7 +5,6 @@
 
 #include "interpret.h"
 
-#include <assert.h>   // for assert
 #include <stdlib.h>   // for rand
 #include <string.h>   // for memcpy
 
@@ -165,7 +164,6 @@ static FbleValue* Interpret(
         }
 
         // Binary search for the matching tag.
-        assert(select_instr->targets.size > 0);
         size_t target = select_instr->default_;
         size_t lo = 0;
         size_t hi = select_instr->targets.size;
-- 
2.43.0


From 67d7866857d02e32237c291ed4e9a49ccd6da2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 15/45] fix: code generation overflowed its label buffers for
 names with non-ASCII bytes

---
 lib/aarch64.c | 4 ++--
 lib/c.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 0ef546c..e3cbdec 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1118,7 +1118,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -1172,7 +1172,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
diff --git a/lib/c.c b/lib/c.c
index b8510b5..08f13f9 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -613,7 +613,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -666,7 +666,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
-- 
2.43.0


From 26bbbb30eedfebf98ad0a688d6b4cf32991075e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 16/45] fix: generated code did not quote source names, block
 names and trigraphs

---
 lib/aarch64.c | 35 ++++++++++++++++++++++++++---------
 lib/c.c       |  6 ++++--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index e3cbdec..dedbbee 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -67,6 +67,7 @@ static void AddLoc(const char* source, LocV* locs);
 static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code);
 
 static void StringLit(FILE* fout, const char* string);
+static void QuotedString(FILE* fout, const char* string);
 static LabelId StaticString(FILE* fout, LabelId* label_id, const char* string);
 static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
 static LabelId StaticModulePath(FILE* fout, LabelId* label_id, FbleModulePath* path);
@@ -225,7 +226,22 @@ static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code)
  */
 static void StringLit(FILE* fout, const char* string)
 {
-  fprintf(fout, "  .string \"");
+  fprintf(fout, "  .string ");
+  QuotedString(fout, string);
+  fprintf(fout, "\n");
+}
+
+/**
+ * @func[QuotedString] Outputs a quoted and escaped string.
+ *  @arg[FILE*][fout] The file to write to.
+ *  @arg[const char*][string] The contents of the string to write.
+ *  
+ *  @sideeffects
+ *   Writes the quoted string to the output file.
+ */
+static void QuotedString(FILE* fout, const char* string)
+{
+  fprintf(fout, "\"");
   for (const char* p = string; *p; p++) {
     switch (*p) {
       case '\n': fprintf(fout, "\\n"); break;
@@ -234,7 +250,7 @@ static void StringLit(FILE* fout, const char* string)
       default: fprintf(fout, "%c", *p); break;
     }
   }
-  fprintf(fout, "\"\n");
+  fprintf(fout, "\"");
 }
 
 /**
@@ -1194,7 +1210,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
 
   CollectBlocksAndLocs(&blocks, &locs, module->code);
 
-  fprintf(fout, "  .file 1 \"%s\"\n", module->path->loc.source->str);
+  fprintf(fout, "  .file 1 ");
+  QuotedString(fout, module->path->loc.source->str);
+  fprintf(fout, "\n");
 
   // Common things we hold in callee saved registers for Run and Abort
   // functions.
@@ -1228,7 +1246,8 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   for (size_t i = 0; i < locs.size; ++i) {
     char label[SizeofSanitizedString(locs.xs[i])];
     SanitizeString(locs.xs[i], label);
-    fprintf(fout, ".L.loc.%s:\n  .string \"%s\"\n", label, locs.xs[i]);
+    fprintf(fout, ".L.loc.%s:\n", label);
+    StringLit(fout, locs.xs[i]);
   }
 
   fprintf(fout, "  .text\n");
@@ -1262,10 +1281,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   fprintf(fout, "  .uleb128 1\n");       // abbrev code for compile_unit
   fprintf(fout, "  .8byte .L.low_pc\n");  // low_pc value.
   fprintf(fout, "  .8byte .L.high_pc\n"); // high_pc value.
-  fprintf(fout, "  .string \"%s\"\n",    // source file name.
-      module->path->loc.source->str);    
+  StringLit(fout, module->path->loc.source->str);     // source file name.
   fprintf(fout, "  .4byte .L.debug_line\n");          // stmt_list offset.
-  fprintf(fout, "  .string \"%s\"\n", cwd); // compilation directory.
+  StringLit(fout, cwd);                 // compilation directory.
   fprintf(fout, "  .string \"FBLE\"\n"); // producer.
 
   // FbleValue* type entry
@@ -1289,8 +1307,7 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
     SanitizeString(function_block.name->str, function_label);
 
     fprintf(fout, "  .uleb128 2\n");       // abbrev code for subprogram.
-    fprintf(fout, "  .string \"%s\"\n",    // source function name.
-        function_block.name->str);
+    StringLit(fout, function_block.name->str);  // source function name.
 
     // low_pc and high_pc attributes.
     fprintf(fout, "  .8byte %s.%04zx\n", function_label, func_id);
diff --git a/lib/c.c b/lib/c.c
index 08f13f9..790ff0f 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -102,6 +102,7 @@ static void StringLit(FILE* fout, const char* string)
       case '\v': fprintf(fout, "\\v"); break;
       case '"': fprintf(fout, "\\\""); break;
       case '\\': fprintf(fout, "\\\\"); break;
+      case '?': fprintf(fout, "\\?"); break;   // Avoid trigraphs.
       default: fprintf(fout, "%c", *p); break;
     }
   }
@@ -700,8 +701,9 @@ void FbleGenerateC(FILE* fout, FbleCompiledModule* module)
 
   fprintf(fout, "static void ReportAbort(const char* msg, int line, int col)\n");
   fprintf(fout, "{\n");
-  fprintf(fout, "  fprintf(stderr, \"%s:%%d:%%d: error: %%s\\n\", line, col, msg);\n",
-      module->path->loc.source->str);
+  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", ");
+  StringLit(fout, module->path->loc.source->str);
+  fprintf(fout, ", line, col, msg);\n");
   fprintf(fout, "}\n");
 
   // Generate prototypes for all the run functions.
-- 
2.43.0


From e5dbc594185c33ea5495a4facc8f1afb33c871a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 17/45] fix: go straight to the function of a partial
 application

Calling a partial application ran the function from a nested call, so that a
tail recursive loop through a partial application took stack space without
bound, and the function was entered twice in the profile.
---
 lib/value.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/value.c b/lib/value.c
index 23b172d..d68cfda 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1585,6 +1585,18 @@ static FbleValue* TailCall(FbleValueHeap* heap, FbleProfileThread* profile)
       return FblePopFrame(heap, partial);
     }
 
+    if (exe->run == &PartialApplyImpl) {
+      // Go straight to the partially applied function: a partial application
+      // takes no stack space and is not a call of its own in the profile.
+      size_t s = exe->num_statics - 1;
+      EnsureTailCallArgsSpace(s + argc);
+      FbleValue** func_and_args = gTailCallData.func_and_args;
+      memmove(func_and_args + 1 + s, func_and_args + 1, argc * sizeof(FbleValue*));
+      memcpy(func_and_args, function->statics, (1 + s) * sizeof(FbleValue*));
+      gTailCallData.argc = s + argc;
+      continue;
+    }
+
     if (profile) {
       FbleProfileReplaceBlock(profile, function->profile_block_id);
     }
@@ -1695,6 +1707,16 @@ FbleValue* FbleCall(FbleValueHeap* heap, FbleProfileThread* profile, FbleValue*
     return PartialApply(heap, func, function, argc, args);
   }
 
+  if (executable->run == &PartialApplyImpl) {
+    // Go straight to the partially applied function: a partial application is
+    // not a call of its own in the profile.
+    size_t s = executable->num_statics - 1;
+    FbleValue* nargs[s + argc];
+    memcpy(nargs, func->statics + 1, s * sizeof(FbleValue*));
+    memcpy(nargs + s, args, argc * sizeof(FbleValue*));
+    return FbleCall(heap, profile, func->statics[0], s + argc, nargs);
+  }
+
   if (profile) {
     FbleProfileEnterBlock(profile, func->profile_block_id);
   }
-- 
2.43.0


From 55c484c58c5fe5c3d375d27997a14d2b19bfd836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 18/45] fix: tail call the result of a function given too many
 arguments

The result was applied by a nested call, so that a tail recursive loop whose
function returns a function to apply to the rest of the arguments took stack
space without bound.
---
 lib/value.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index d68cfda..0e2521c 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1623,7 +1623,14 @@ static FbleValue* TailCall(FbleValueHeap* heap, FbleProfileThread* profile)
       memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
       gTailCallData.argc += num_unused;
     } else if (num_unused > 0 && result != NULL) {
-      return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
+      // Apply the result to the unused args without taking stack space.
+      if (FbleFuncValueFunction(result) == NULL) {
+        FbleLoc loc = FbleNewLoc(__FILE__, __LINE__ + 1, 9);
+        FbleReportError("called undefined function\n", loc);
+        FbleFreeLoc(loc);
+        return FblePopFrame(heap, NULL);
+      }
+      FbleTailCall(heap, FbleFuncValueFunction(result), result, num_unused, unused);
     } else {
       return FblePopFrame(heap, result);
     }
-- 
2.43.0


From 8d01232f44295fce0fd891edc98d0aebfac29e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 19/45] fix: command line tools succeeded when their output
 could not be written

---
 bin/fble-compile.c      | 24 +++++++++++++++++++++---
 bin/fble-deps.c         | 25 ++++++++++++++++++++++---
 bin/fble-disassemble.c  | 24 +++++++++++++++++++++---
 bin/fble-perf-profile.c | 25 ++++++++++++++++++++++---
 4 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/bin/fble-compile.c b/bin/fble-compile.c
index fa06b97..ee8f290 100644
--- a/bin/fble-compile.c
+++ b/bin/fble-compile.c
@@ -25,6 +25,24 @@ typedef enum {
   TARGET_C
 } Target;
 
+/**
+ * @func[Finish] Flushes standard output before exiting.
+ *  @returns[int]
+ *   EX_SUCCESS if everything written to stdout has been delivered. EX_FAIL
+ *   otherwise.
+ *
+ *  @sideeffects
+ *   Flushes stdout and prints an error message to stderr in case of error.
+ */
+static int Finish()
+{
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error writing to standard output\n");
+    return EX_FAIL;
+  }
+  return EX_SUCCESS;
+}
+
 /**
  * @func[main] The main entry point for the fble-compile program.
  *  @arg[int][argc] The number of command line arguments.
@@ -67,13 +85,13 @@ int main(int argc, const char* argv[])
   if (version) {
     FblePrintVersion(stdout, "fble-compile");
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (help) {
     fprintf(stdout, "%s", fbldUsageHelpText);
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (error) {
@@ -151,5 +169,5 @@ int main(int argc, const char* argv[])
   }
 
   FbleFreeModuleArg(module_arg);
-  return EX_SUCCESS;
+  return Finish();
 }
diff --git a/bin/fble-deps.c b/bin/fble-deps.c
index 96f6fbc..7748ee0 100644
--- a/bin/fble-deps.c
+++ b/bin/fble-deps.c
@@ -20,8 +20,27 @@
 #define EX_FAIL 1
 #define EX_USAGE 2
 
+static int Finish();
 int main(int argc, const char* argv[]);
 
+/**
+ * @func[Finish] Flushes standard output before exiting.
+ *  @returns[int]
+ *   EX_SUCCESS if everything written to stdout has been delivered. EX_FAIL
+ *   otherwise.
+ *
+ *  @sideeffects
+ *   Flushes stdout and prints an error message to stderr in case of error.
+ */
+static int Finish()
+{
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error writing to standard output\n");
+    return EX_FAIL;
+  }
+  return EX_SUCCESS;
+}
+
 /**
  * @func[main] The main entry point for the fble-deps program.
  *  @arg[int][argc] The number of command line arguments.
@@ -56,13 +75,13 @@ int main(int argc, const char* argv[])
   if (version) {
     FblePrintVersion(stdout, "fble-deps");
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (help) {
     fprintf(stdout, "%s", fbldUsageHelpText);
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (error) {
@@ -97,5 +116,5 @@ int main(int argc, const char* argv[])
     FbleFreeString(deps.xs[i]);
   }
   FbleFreeVector(deps);
-  return EX_SUCCESS;
+  return Finish();
 }
diff --git a/bin/fble-disassemble.c b/bin/fble-disassemble.c
index f41b876..8c42153 100644
--- a/bin/fble-disassemble.c
+++ b/bin/fble-disassemble.c
@@ -19,6 +19,24 @@
 #define EX_FAIL 1
 #define EX_USAGE 2
 
+/**
+ * @func[Finish] Flushes standard output before exiting.
+ *  @returns[int]
+ *   EX_SUCCESS if everything written to stdout has been delivered. EX_FAIL
+ *   otherwise.
+ *
+ *  @sideeffects
+ *   Flushes stdout and prints an error message to stderr in case of error.
+ */
+static int Finish()
+{
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error writing to standard output\n");
+    return EX_FAIL;
+  }
+  return EX_SUCCESS;
+}
+
 /**
  * @func[main] The main entry point for the fble-disassemble program.
  *  @arg[int][argc] The number of command line arguments.
@@ -50,13 +68,13 @@ int main(int argc, const char* argv[])
   if (version) {
     FblePrintVersion(stdout, "fble-disassemble");
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (help) {
     fprintf(stdout, "%s", fbldUsageHelpText);
     FbleFreeModuleArg(module_arg);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (error) {
@@ -88,5 +106,5 @@ int main(int argc, const char* argv[])
   FbleDisassemble(stdout, compiled);
 
   FbleFreeCompiledModule(compiled);
-  return EX_SUCCESS;
+  return Finish();
 }
diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index cb4d1b3..d54008e 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -32,6 +32,7 @@ typedef struct {
 static bool GetLine(FILE* file, String* line);
 static FbleBlockId GetBlockId(FbleProfile* profile, char* name);
 static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, int count, char* s);
+static int Finish();
 int main(int argc, const char* argv[]);
 
 /**
@@ -128,6 +129,24 @@ static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squ
   }
 }
 
+/**
+ * @func[Finish] Flushes standard output before exiting.
+ *  @returns[int]
+ *   EX_SUCCESS if everything written to stdout has been delivered. EX_FAIL
+ *   otherwise.
+ *
+ *  @sideeffects
+ *   Flushes stdout and prints an error message to stderr in case of error.
+ */
+static int Finish()
+{
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error writing to standard output\n");
+    return EX_FAIL;
+  }
+  return EX_SUCCESS;
+}
+
 /**
  * @func[main] The main entry point for the fble-perf-profile program.
  *  @arg[int][argc] The number of command line arguments.
@@ -170,13 +189,13 @@ int main(int argc, const char* argv[])
   if (version) {
     FblePrintVersion(stdout, "fble-perf-profile");
     FbleFree(squashes.xs);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (help) {
     fprintf(stdout, "%s", fbldUsageHelpText);
     FbleFree(squashes.xs);
-    return EX_SUCCESS;
+    return Finish();
   }
 
   if (error) {
@@ -218,5 +237,5 @@ int main(int argc, const char* argv[])
   FbleGenerateProfileReport(stdout, profile);
   FbleFreeProfile(profile);
   FbleFree(squashes.xs);
-  return EX_SUCCESS;
+  return Finish();
 }
-- 
2.43.0


From 319166b32b735baaa5ac021fe3f6fa65c04f835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 20/45] fix: fble-perf-profile wrote past the end of its line
 buffer

---
 bin/fble-perf-profile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index d54008e..bf312a0 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -49,13 +49,17 @@ static bool GetLine(FILE* file, String* line)
 
   int c = fgetc(file);
   while (c != EOF && c != '\n') {
-    if (line->size == line->capacity) {
+    if (line->size + 1 >= line->capacity) {
       line->capacity = 2 * (line->capacity + 1);
       line->chars = realloc(line->chars, line->capacity * sizeof(char));
     }
     line->chars[line->size++] = c;
     c = fgetc(file);
   }
+  if (line->chars == NULL) {
+    line->capacity = 2;
+    line->chars = realloc(line->chars, line->capacity * sizeof(char));
+  }
   line->chars[line->size] = '\0';
   return c == '\n';
 }
-- 
2.43.0


From 82db9b015f4977e38c8418ce1eaa07a5a1864cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 21/45] fix: fble-perf-profile did not terminate for an unknown
 argument

---
 bin/fble-perf-profile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index bf312a0..163fd66 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -188,6 +188,7 @@ int main(int argc, const char* argv[])
     }
     if (FbleParseBoolArg("-v", &version, &argc, &argv, &error)) continue;
     if (FbleParseBoolArg("--version", &version, &argc, &argv, &error)) continue;
+    if (FbleParseInvalidArg(&argc, &argv, &error)) continue;
   }
 
   if (version) {
-- 
2.43.0


From d572a693298fe4514956f3d0e1237f2478ba31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 22/45] fix: fble-perf-profile aborted on input it could not
 parse

---
 bin/fble-perf-profile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 163fd66..7e04c5a 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -230,6 +230,9 @@ int main(int argc, const char* argv[])
     int count;
     if (sscanf(line.chars, "%i", &count) != 1) {
       fprintf(stderr, "Unable to parse profile report.\n");
+      free(line.chars);
+      FbleFreeProfileThread(thread);
+      FbleFreeProfile(profile);
       FbleFree(squashes.xs);
       return EX_FAIL;
     }
-- 
2.43.0


From fbab74969434fe24e661838af941a03e79569654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 23/45] fix: fble-perf-profile misread sample counts

---
 bin/fble-perf-profile.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 7e04c5a..56b72ce 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -4,7 +4,8 @@
  */
 
 #include <assert.h>     // for assert
-#include <stdlib.h>     // for realloc, free
+#include <errno.h>      // for errno
+#include <stdlib.h>     // for realloc, free, strtoull
 #include <string.h>     // for strcmp, strchr
 
 #include <fble/fble-arg-parse.h> // for FbleParseBoolArg
@@ -31,7 +32,7 @@ typedef struct {
 
 static bool GetLine(FILE* file, String* line);
 static FbleBlockId GetBlockId(FbleProfile* profile, char* name);
-static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, int count, char* s);
+static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, uint64_t count, char* s);
 static int Finish();
 int main(int argc, const char* argv[]);
 
@@ -95,14 +96,14 @@ static FbleBlockId GetBlockId(FbleProfile* profile, char* name)
  * @func[Sample] Process a profiling sample.
  *  @arg[FbleProfile*][profile] The profile.
  *  @arg[FbleProfileThread*][thread] The profiling thread.
- *  @arg[int][count] The count corresponding to this sample.
+ *  @arg[uint64_t][count] The count corresponding to this sample.
  *  @arg[char*][s] The sample path, of the form "foo;bar;sludge".
  *
  *  @sideeffects
  *   @i May modify the contents of s by replacing ';' with nuls.
  *   @i Adds the sample to the profile.
  */
-static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, int count, char* s)
+static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, uint64_t count, char* s)
 {
   char* end = strchr(s, ';');
   if (end != NULL) {
@@ -227,8 +228,10 @@ int main(int argc, const char* argv[])
 
     // We expect a line of the form:
     // 3694 foo;bar;sludge\n
-    int count;
-    if (sscanf(line.chars, "%i", &count) != 1) {
+    errno = 0;
+    char* end = NULL;
+    unsigned long long count = strtoull(line.chars, &end, 10);
+    if (line.chars[0] < '0' || line.chars[0] > '9' || end != space || errno != 0) {
       fprintf(stderr, "Unable to parse profile report.\n");
       free(line.chars);
       FbleFreeProfileThread(thread);
-- 
2.43.0


From 7034baa29d8150f0f661bea6441db9d7570bc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 24/45] fix: fble-perf-profile took a read error for the end of
 the input

---
 bin/fble-perf-profile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 56b72ce..31b9e3f 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -244,6 +244,14 @@ int main(int argc, const char* argv[])
   }
   free(line.chars);
 
+  if (ferror(stdin)) {
+    fprintf(stderr, "error reading standard input\n");
+    FbleFreeProfileThread(thread);
+    FbleFreeProfile(profile);
+    FbleFree(squashes.xs);
+    return EX_FAIL;
+  }
+
   FbleFreeProfileThread(thread);
   FbleGenerateProfileReport(stdout, profile);
   FbleFreeProfile(profile);
-- 
2.43.0


From 799afed2909ca32207ab0e0d510c6b19c53381cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 25/45] fix: fbld: do not take the character 0x03 for the end
 of input

The text after such a character was dropped without an error.
---
 fbld/parse.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 8de0cc5..3acf1c1 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -11,10 +11,12 @@
 #include "vector.h"
 
 /**
- * @value[END] The character used to denote end of input.
- *  @type[char]
+ * @value[END] The value used to denote end of input.
+ *  Different from every character that can occur in the input.
+ *
+ *  @type[int]
  */
-const char END = '\x03';
+static const int END = 0x100;
 
 /**
  * @struct[Lex] State of the lexer.
@@ -48,9 +50,9 @@ typedef enum {
   SAME_LINE_ARG
 } InlineContext;
 
-static char GetC(Lex* lex);
-static char NextFetched(Lex* lex, size_t* i);
-static char Char(Lex* lex);
+static int GetC(Lex* lex);
+static int NextFetched(Lex* lex, size_t* i);
+static int Char(Lex* lex);
 static bool Is(Lex* lex, const char* str);
 static bool IsEnd(Lex* lex);
 static void Advance(Lex* lex);
@@ -69,10 +71,10 @@ static FbldMarkup* ParseBlock(Lex* lex);
  *  unindented lines as end of input.
  *
  *  @arg[Lex*][lex] The lexer state.
- *  @returns[char] The input character fetched, or END in case of end of input.
+ *  @returns[int] The input character fetched, or END in case of end of input.
  *  @sideeffects Advances location to next file if appropriate.
  */
-static char GetC(Lex* lex)
+static int GetC(Lex* lex)
 {
   int c = EOF;
   if (lex->fin != NULL) {
@@ -107,7 +109,7 @@ static char GetC(Lex* lex)
 
     c = fgetc(lex->fin);
   }
-  return c == EOF ? END : c;
+  return c == EOF ? END : (char)c;
 }
 
 /**
@@ -120,7 +122,7 @@ static char GetC(Lex* lex)
  *  @returns The next character in the input, given current indent level.
  *  @sideeffects Updates col, and i to point to the next character.
  */
-static char NextFetched(Lex* lex, size_t* i)
+static int NextFetched(Lex* lex, size_t* i)
 {
   // Assume we traverse a single index at at a time starting from 0. Callers
   // should not be giving random indexes for i.
@@ -142,7 +144,7 @@ static char NextFetched(Lex* lex, size_t* i)
   while (true) {
     // Fetch another character into the 'next' buffer if needed.
     if (lex->next_size == *i) {
-      char c = GetC(lex);
+      int c = GetC(lex);
       if (c == END) {
         return END;
       }
@@ -178,10 +180,10 @@ static char NextFetched(Lex* lex, size_t* i)
 /**
  * @func[Char] Returns the next input character.
  *  @arg[Lex*][lex] The lexer state.
- *  @returns[char] The next input character, or END in case of end of input.
+ *  @returns[int] The next input character, or END in case of end of input.
  *  @sideeffects Fetches the next input character if needed.
  */
-static char Char(Lex* lex)
+static int Char(Lex* lex)
 {
   size_t i = 0;
   return NextFetched(lex, &i);
@@ -199,7 +201,7 @@ static char Char(Lex* lex)
 static bool Is(Lex* lex, const char* str)
 {
   for (size_t i = 0; *str != '\0'; ++i) {
-    char c = NextFetched(lex, &i);
+    int c = NextFetched(lex, &i);
     if (c == END) {
       return false;
     }
@@ -235,7 +237,7 @@ static bool IsEnd(Lex* lex)
 static void Advance(Lex* lex)
 {
   size_t index = 0;
-  char c = NextFetched(lex, &index);
+  int c = NextFetched(lex, &index);
   assert(c != END);
   size_t len = index+1;
 
@@ -263,7 +265,7 @@ static void Advance(Lex* lex)
  */
 static bool IsNameChar(int c)
 {
-  return c == '_' || isalnum(c);
+  return c == '_' || (c != END && isalnum((unsigned char)c));
 }
 
 /**
-- 
2.43.0


From 753c20b538872a23e8959e5ad90e37cf5eb475cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 26/45] fix: fbld: fail properly when an input cannot be opened
 or read

A read error was taken for the end of the file, and the part of the
document read so far was processed as if it were complete. A file that
could not be opened made the program abort.
---
 fbld/parse.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 3acf1c1..86d1ac0 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -3,7 +3,6 @@
 #include <ctype.h>    // for isalnum
 #include <stdbool.h>  // for false
 #include <stdio.h>    // for FILE, feof, etc.
-#include <stdlib.h>   // for abort
 #include <string.h>   // for strcpy
 
 #include "alloc.h"
@@ -27,6 +26,7 @@ static const int END = 0x100;
  *  @field[char*][next] A buffer for storing the next characters in the input.
  *  @field[size_t][next_size] The number of characters in next.
  *  @field[size_t][next_capacity] The allocated size of next.
+ *  @field[bool][error] Set to true if the inputs could not be read.
  */
 typedef struct {
   const char** inputs;
@@ -38,6 +38,8 @@ typedef struct {
   char* next;
   size_t next_size;
   size_t next_capacity;
+
+  bool error;
 } Lex;
 
 // The context we are parsing inline text from.
@@ -72,16 +74,28 @@ static FbldMarkup* ParseBlock(Lex* lex);
  *
  *  @arg[Lex*][lex] The lexer state.
  *  @returns[int] The input character fetched, or END in case of end of input.
- *  @sideeffects Advances location to next file if appropriate.
+ *  @sideeffects
+ *   @i Advances location to next file if appropriate.
+ *   @item
+ *    Prints a message to stderr and sets lex->error if the input could not be
+ *    read.
  */
 static int GetC(Lex* lex)
 {
+  if (lex->error) {
+    return END;
+  }
+
   int c = EOF;
   if (lex->fin != NULL) {
     c = fgetc(lex->fin);
   }
 
   while (lex->next_size == 0 && c == EOF) {
+    if (lex->fin != NULL && ferror(lex->fin)) {
+      break;
+    }
+
     const char* filename = *lex->inputs;
     if (filename == NULL) {
       // We've finished processing all the inputs.
@@ -100,7 +114,8 @@ static int GetC(Lex* lex)
       lex->fin = fopen(filename, "r");
       if (lex->fin == NULL) {
         fprintf(stderr, "ERROR: unable to open '%s' for reading\n", filename); 
-        abort();
+        lex->error = true;
+        return END;
       }
     }
     lex->loc.file = filename;
@@ -109,6 +124,11 @@ static int GetC(Lex* lex)
 
     c = fgetc(lex->fin);
   }
+
+  if (c == EOF && ferror(lex->fin)) {
+    fprintf(stderr, "ERROR: unable to read '%s'\n", lex->loc.file);
+    lex->error = true;
+  }
   return c == EOF ? END : (char)c;
 }
 
@@ -708,6 +728,7 @@ FbldMarkup* FbldParse(const char** inputs)
     .next = FbldAllocArray(char, 4),
     .next_size = 0,
     .next_capacity = 4,
+    .error = false,
   };
 
   FbldMarkup* parsed = ParseBlock(&lex);
@@ -717,5 +738,10 @@ FbldMarkup* FbldParse(const char** inputs)
   }
 
   FbldFree(lex.next);
+
+  if (lex.error) {
+    FbldFreeMarkup(parsed);
+    return NULL;
+  }
   return parsed;
 }
-- 
2.43.0


From d55d9938ad5c6f2dcad1deee548f244e682ec494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 27/45] fix: fbld: do not use stdin after closing it

Naming '-' twice read from the closed stream.
---
 fbld/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 86d1ac0..1337355 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -103,7 +103,7 @@ static int GetC(Lex* lex)
     }
     lex->inputs++;
 
-    if (lex->fin) {
+    if (lex->fin && lex->fin != stdin) {
       fclose(lex->fin);
     }
 
@@ -733,7 +733,7 @@ FbldMarkup* FbldParse(const char** inputs)
 
   FbldMarkup* parsed = ParseBlock(&lex);
 
-  if (lex.fin != NULL) {
+  if (lex.fin != NULL && lex.fin != stdin) {
     fclose(lex.fin);
   }
 
-- 
2.43.0


From 29d6a117302a9321960288e39d653fefbde689f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 28/45] fix: fbld: report nul characters in the input

The rest of the text they occurred in was dropped without an error.
---
 fbld/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fbld/parse.c b/fbld/parse.c
index 1337355..9ad5309 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -129,6 +129,13 @@ static int GetC(Lex* lex)
     fprintf(stderr, "ERROR: unable to read '%s'\n", lex->loc.file);
     lex->error = true;
   }
+
+  if (c == '\0') {
+    // Text is represented by nul-terminated strings.
+    fprintf(stderr, "ERROR: unsupported nul character in '%s'\n", lex->loc.file);
+    lex->error = true;
+    return END;
+  }
   return c == EOF ? END : (char)c;
 }
 
-- 
2.43.0


From 4b9b5872addc8ef3976d1eed602120eb51b79d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 29/45] fix: fbld: report an error if the input ends in a same
 line argument

An assertion failed, or without assertions the parser did not end.
---
 fbld/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 9ad5309..2d386ce 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -445,7 +445,8 @@ static FbldMarkup* ParseInline(Lex* lex, InlineContext context)
     }
 
     if (context == SAME_LINE_ARG
-        && (Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n"))) {
+        && (Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n")
+          || IsEnd(lex))) {
       break;
     }
 
-- 
2.43.0


From d26576135c580fd57ad731024bc54cd26104b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 30/45] fix: fbld: do not crash in @tail and @plain after an
 error in their argument

---
 fbld/eval.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fbld/eval.c b/fbld/eval.c
index cdf9f07..3c89117 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -320,6 +320,11 @@ static bool HeadOf(FbldMarkup* m, char* out)
  */
 static bool TailOf(FbldMarkup* m, FbldMarkup** out)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return false;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       if (m->text->str[0] == '\0') {
@@ -453,13 +458,20 @@ static bool Eq(FbldMarkup* a, FbldMarkup* b, bool* eq)
  * @func[MapPlain] Applies function f to each plain text in the given markup.
  *  @arg[const char*][f] Name of the function to apply. Borrowed.
  *  @arg[FbldMarkup*][m] Markup to apply the function in.
- *  @returns[FbldMarkup*] Markup with calls to f inserted.
+ *  @returns[FbldMarkup*]
+ *   Markup with calls to f inserted. NULL if the markup is NULL because of an
+ *   earlier error.
  *  @sideeffects
  *   Allocates markup that should be freed with FbldFreeMarkup when no longer
  *   needed.
  */
 static FbldMarkup* MapPlain(const char* f, FbldMarkup* m)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return NULL;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       FbldMarkup* n = FbldAlloc(FbldMarkup);
-- 
2.43.0


From 20765abb50bc64268d7661fe6fa802c0ba569628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 31/45] fix: fbld: appending empty text to empty text failed an
 assertion

For example when the name of a definition is two variables with empty values.
---
 fbld/markup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/markup.c b/fbld/markup.c
index 0149f9d..7029743 100644
--- a/fbld/markup.c
+++ b/fbld/markup.c
@@ -153,7 +153,7 @@ static bool TextOfMarkup(FbldMarkup* markup, FbldText** text, size_t* capacity)
       size_t src_size = strlen(markup->text->str);
       if (src_size >= *capacity) {
         size_t size = strlen((*text)->str) + *capacity;
-        size_t nsize = 2 * (strlen((*text)->str) + src_size);
+        size_t nsize = 2 * (strlen((*text)->str) + src_size) + 1;
         *text = FbldReAllocRaw(*text, sizeof(FbldText) + nsize);
         *capacity = nsize - size;
         assert(src_size < *capacity);
-- 
2.43.0


From a9261ab270b475b26abef3897f4de84bfb8c0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 32/45] fix: fbld: exit with failure if the output could not be
 written

---
 fbld/fbld.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbld/fbld.c b/fbld/fbld.c
index cdde044..45c289e 100644
--- a/fbld/fbld.c
+++ b/fbld/fbld.c
@@ -6,6 +6,7 @@
 #include "fbld.h"
 
 #include <stdbool.h>    // for bool
+#include <stdio.h>      // for fflush, ferror, fprintf
 #include <string.h>     // for strcmp
 
 /**
@@ -40,5 +41,10 @@ int main(int argc, const char* argv[])
   }
 
   FbldFreeMarkup(evaled);
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "ERROR: unable to write the output\n");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 837241487042ad7380d33a0b2f2b80897dff41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 33/45] fix: app: report a failure to wait for events instead
 of reading an unset event

---
 pkgs/app/app.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkgs/app/app.c b/pkgs/app/app.c
index 11a5092..48a3b22 100644
--- a/pkgs/app/app.c
+++ b/pkgs/app/app.c
@@ -253,7 +253,10 @@ static FbleValue* EventImpl(
   FbleValue* value = NULL;
   while (value == NULL) {
     SDL_Event event;
-    SDL_WaitEvent(&event);
+    if (SDL_WaitEvent(&event) == 0) {
+      fprintf(stderr, "Unable to get next event: %s\n", SDL_GetError());
+      return NULL;
+    }
     switch (event.type) {
       case SDL_USEREVENT: {
         value = FbleNewEnumValue(heap, 0);
-- 
2.43.0


From 8fa64099e3b48dc1fc60acee772509a424985689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 34/45] fix: app: keep the application time in 64 bits so that
 it doesn't wrap

---
 pkgs/app/app.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkgs/app/app.c b/pkgs/app/app.c
index 48a3b22..5d420f8 100644
--- a/pkgs/app/app.c
+++ b/pkgs/app/app.c
@@ -31,14 +31,16 @@
 /**
  * @struct[App] Application state.
  *  @field[SDL_Window*][window] The application window for drawing.
- *  @field[Uint32][time] The application time based on effect ticks.
+ *  @field[Sint64][time]
+ *   The application time based on effect ticks, in milliseconds. More than 32
+ *   bits, so that it doesn't wrap around.
  *  @field[int*][fpsHistogram]
  *   The value at index i is the count of samples with i frames per second.
  *   Anything above 60 FPS is counted towards i = 60.
  */
 typedef struct {
   SDL_Window* window;
-  Uint32 time;
+  Sint64 time;
   int fpsHistogram[61];
 } App;
 
@@ -351,9 +353,9 @@ static FbleValue* EffectImpl(
 
   switch (FbleUnionValueTag(effect)) {
     case 0: {
-      int tick = FbleIntValueAccess(FbleUnionValueArg(effect));
+      int64_t tick = FbleIntValueAccess(FbleUnionValueArg(effect));
 
-      Uint32 now = SDL_GetTicks();
+      Sint64 now = SDL_GetTicks64();
       app->time += tick;
       if (app->time < now) {
         app->time = now;
@@ -588,7 +590,7 @@ int FbleAppMain(int argc, const char* argv[], FbleGeneratedModule* module)
 
   App app;
   app.window = window;
-  app.time = SDL_GetTicks();
+  app.time = SDL_GetTicks64();
   for (size_t i = 0; i < 61; ++i) {
     app.fpsHistogram[i] = 0;
   }
-- 
2.43.0


From e428d2dcfb8038c629973ed2fa0ed67569e68fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 35/45] fix: app: report a failure to set the tick timer
 instead of waiting forever

---
 pkgs/app/app.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkgs/app/app.c b/pkgs/app/app.c
index 5d420f8..2923ef2 100644
--- a/pkgs/app/app.c
+++ b/pkgs/app/app.c
@@ -360,7 +360,10 @@ static FbleValue* EffectImpl(
       if (app->time < now) {
         app->time = now;
       }
-      SDL_AddTimer(app->time - now, OnTimer, NULL);
+      if (SDL_AddTimer(app->time - now, OnTimer, NULL) == 0) {
+        fprintf(stderr, "Unable to set timer: %s\n", SDL_GetError());
+        return NULL;
+      }
       break;
     }
 
-- 
2.43.0


From aa28d02a0afde5ee76a06b4266d6951d48e6e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 36/45] fix: app: try again if there is no room for the tick
 event on the queue

---
 pkgs/app/app.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkgs/app/app.c b/pkgs/app/app.c
index 2923ef2..8ecb47c 100644
--- a/pkgs/app/app.c
+++ b/pkgs/app/app.c
@@ -400,7 +400,8 @@ static FbleValue* EffectImpl(
  *  @arg[void*][param] unused.
  *
  *  @returns[Uint32]
- *   0 to cancel to the timer.
+ *   0 to cancel to the timer, or the interval after which to try again if
+ *   there is no room for the event on the SDL event queue.
  *
  *  @sideeffects
  *   Pushes a user event onto the SDL event queue.
@@ -419,7 +420,9 @@ static Uint32 OnTimer(Uint32 interval, void* param)
   SDL_Event event;
   event.type = SDL_USEREVENT;
   event.user = user;
-  SDL_PushEvent(&event);
+  if (SDL_PushEvent(&event) < 0) {
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 1ce712fdce914c18f2640cdb3ef29a10d5499836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 37/45] fix: C back end: report errors with the file they are
 in

---
 lib/c.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/c.c b/lib/c.c
index 790ff0f..2844d56 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -265,7 +265,9 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
 static void ReturnAbort(FILE* fout, const char* lmsg, FbleLoc loc)
 {
   fprintf(fout, "{\n");
-  fprintf(fout, "    ReportAbort(%s, %zi, %zi);\n", lmsg, loc.line, loc.col);
+  fprintf(fout, "    ReportAbort(");
+  StringLit(fout, loc.source->str);
+  fprintf(fout, ", %s, %zi, %zi);\n", lmsg, loc.line, loc.col);
   fprintf(fout, "    return NULL;\n");
   fprintf(fout, "  }\n");
 }
@@ -699,11 +701,9 @@ void FbleGenerateC(FILE* fout, FbleCompiledModule* module)
   fprintf(fout, "static const char* UndefinedFunctionValue = \"called undefined function\";\n");
   fprintf(fout, "static const char* VacuousValue = \"vacuous value\";\n");
 
-  fprintf(fout, "static void ReportAbort(const char* msg, int line, int col)\n");
+  fprintf(fout, "static void ReportAbort(const char* source, const char* msg, int line, int col)\n");
   fprintf(fout, "{\n");
-  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", ");
-  StringLit(fout, module->path->loc.source->str);
-  fprintf(fout, ", line, col, msg);\n");
+  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", source, line, col, msg);\n");
   fprintf(fout, "}\n");
 
   // Generate prototypes for all the run functions.
-- 
2.43.0


From ecd54894c6ca2777dd443af01d596fab92c5512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 38/45] fix: aarch64: call the main function instead of jumping
 to it, so that the stack is restored

---
 lib/aarch64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index dedbbee..6a3683c 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1459,7 +1459,7 @@ void FbleGenerateAArch64Main(FILE* fout, const char* main, FbleModulePath* path)
 
   Adr(fout, "x3", "%s", main);
 
-  fprintf(fout, "  br x3\n");
+  fprintf(fout, "  blr x3\n");
   fprintf(fout, "  ldp FP, LR, [SP], #16\n");
   fprintf(fout, "  ret\n");
 }
-- 
2.43.0


From 38d87bbe5d4942d865be571d269118a4de72aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 39/45] fix: aarch64: only test the specified bits of the bool
 returned by FbleAssignRefValue

---
 lib/aarch64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 6a3683c..a3165ac 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -839,7 +839,10 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       GetFrameVar(fout, "x1", ref);
       GetFrameVar(fout, "x2", ref_instr->value);
       fprintf(fout, "  bl FbleAssignRefValue\n");
-      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.v\n", func_id, pc);
+
+      // Only the lower 8 bits of a returned bool are specified.
+      fprintf(fout, "  and w0, w0, #0xff\n");
+      fprintf(fout, "  cbz w0, .Lo.%04zx.%zi.v\n", func_id, pc);
       return;
     }
 
-- 
2.43.0


From 9e05fec4dbcac09ae4148bd05e11df298107226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 40/45] fix: don't skip the start of a new stack chunk, which
 overflowed it

---
 lib/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index 0e2521c..d3e2344 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -627,7 +627,7 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
 
     chunk->next = frame->chunks;
     frame->chunks = chunk;
-    frame->top = size + (intptr_t)(chunk + 1);
+    frame->top = (intptr_t)(chunk + 1);
     frame->max = CHUNK_SIZE + (intptr_t)chunk;
   }
 
-- 
2.43.0


From ba1c18228ac08ec2eabb9a3d25086c75cfdb6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 41/45] fix: allocate a chunk of its own for a value bigger
 than a stack chunk

---
 lib/value.c | 59 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index d3e2344..ca6e937 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -349,6 +349,7 @@ typedef struct {
 #define NewGcValueExtra(heap, frame, T, tag, count) ((T*) NewGcValueRaw(heap, frame, tag, sizeof(T) + count * sizeof(FbleValue*)))
 
 static void* StackAlloc(FbleValueHeap* heap, size_t size);
+static void ReleaseChunks(FbleValueHeap* heap, Frame* frame);
 static FbleValue* NewValueRaw(FbleValueHeap* heap, ValueTag tag, size_t size);
 static FbleValue* NewGcValueRaw(FbleValueHeap* heap, Frame* frame, ValueTag tag, size_t size);
 static void FreeGcValue(FbleValue* value);
@@ -369,9 +370,13 @@ static FbleValue* StrictValue(FbleValue* value);
 /**
  * @struct[Chunk] A chunk of allocated stack space.
  *  @field[Chunk*][next] The next chunk in the list.
+ *  @field[size_t][size]
+ *   The size of the chunk in bytes, including this header. This is CHUNK_SIZE
+ *   except for chunks allocated for an object too big to fit in that.
  */
 typedef struct Chunk {
   struct Chunk* next;
+  size_t size;
 } Chunk;
 
 /**
@@ -619,8 +624,12 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
   Frame* frame = heap->top;
   if (frame->max < frame->top + size) {
     Chunk* chunk = heap->chunks;
-    if (chunk == NULL) {
+    if (sizeof(Chunk) + size > CHUNK_SIZE) {
+      chunk = (Chunk*)FbleAllocRaw(sizeof(Chunk) + size);
+      chunk->size = sizeof(Chunk) + size;
+    } else if (chunk == NULL) {
       chunk = (Chunk*)FbleAllocRaw(CHUNK_SIZE);
+      chunk->size = CHUNK_SIZE;
     } else {
       heap->chunks = chunk->next;
     }
@@ -628,7 +637,7 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
     chunk->next = frame->chunks;
     frame->chunks = chunk;
     frame->top = (intptr_t)(chunk + 1);
-    frame->max = CHUNK_SIZE + (intptr_t)chunk;
+    frame->max = chunk->size + (intptr_t)chunk;
   }
 
   void* result = (void*)frame->top;
@@ -639,6 +648,32 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
   return result;
 }
 
+/**
+ * @func[ReleaseChunks] Releases the additional stack chunks of a frame.
+ *  @arg[FbleValueHeap*][heap] The heap the frame is from.
+ *  @arg[Frame*][frame] The frame to release the chunks of.
+ *  @sideeffects
+ *   Makes the frame's chunks available for reuse, or frees them if they are
+ *   not of the usual size. Sets frame->chunks to NULL.
+ */
+static void ReleaseChunks(FbleValueHeap* heap, Frame* frame)
+{
+  while (frame->chunks != NULL) {
+    Chunk* chunk = frame->chunks;
+    frame->chunks = chunk->next;
+    if (chunk->size > CHUNK_SIZE) {
+      FbleFree(chunk);
+      continue;
+    }
+
+    chunk->next = heap->chunks;
+    heap->chunks = chunk;
+#ifdef FBLE_SIM
+    FbleSimStackFree(chunk + 1, CHUNK_SIZE + (char*)chunk);
+#endif
+  }
+}
+
 /**
  * @func[NewValueRaw] Allocates a new value on the stack.
  *  @arg[FbleValueHeap*][heap] The heap to allocate to.
@@ -1146,15 +1181,7 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
     }
   }
 
-  while (top->chunks != NULL) {
-    Chunk* chunk = top->chunks;
-    top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-#ifdef FBLE_SIM
-    FbleSimStackFree(chunk + 1, CHUNK_SIZE + (char*)chunk);
-#endif
-  }
+  ReleaseChunks(heap, top);
 
   if (heap->gc.next == NULL || heap->gc.next == top) {
     heap->gc.next = heap->top;
@@ -1213,15 +1240,7 @@ static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue**
 
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = heap->top->caller->max;
-  while (heap->top->chunks != NULL) {
-    Chunk* chunk = heap->top->chunks;
-    heap->top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-#ifdef FBLE_SIM
-    FbleSimStackFree(chunk + 1, CHUNK_SIZE + (char*)chunk);
-#endif
-  }
+  ReleaseChunks(heap, heap->top);
 #ifdef FBLE_SIM
   FbleSimStackFree((void*)heap->top->top, (void*)heap->top->max);
 #endif
-- 
2.43.0


From bbf0a291940684d5acc0cdb8a5f7892dbad444ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 42/45] fix: aarch64: load constants that don't fit into an
 instruction into a register

---
 lib/aarch64.c | 160 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 126 insertions(+), 34 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index a3165ac..457b2fc 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -79,6 +79,11 @@ static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, Fbl
 
 static size_t StackBytesForCount(size_t count);
 
+static void Mov(FILE* fout, const char* r_dst, size_t value);
+static void AddSub(FILE* fout, const char* op, const char* r_dst, const char* r_src, size_t value);
+static void Cmp(FILE* fout, const char* r_src, size_t value);
+static void LdrStr(FILE* fout, const char* op, const char* reg, const char* r_base, size_t offset);
+
 static void Adr(FILE* fout, const char* r_dst, const char* fmt, ...);
 
 
@@ -415,7 +420,7 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
 static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
 {
   static const char* regs[] = { "R_STATICS", "R_ARGS", "R_LOCALS" };
-  fprintf(fout, "  ldr %s, [%s, #%zi]\n", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
+  LdrStr(fout, "ldr", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
 }
 
 /**
@@ -430,7 +435,7 @@ static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
  */
 static void SetFrameVar(FILE* fout, const char* rsrc, FbleLocalIndex index)
 {
-  fprintf(fout, "  str %s, [R_LOCALS, #%zi]\n", rsrc, sizeof(FbleValue*) * index);
+  LdrStr(fout, "str", rsrc, "R_LOCALS", sizeof(FbleValue*) * index);
 }
 
 /**
@@ -455,8 +460,8 @@ static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, Fbl
   SanitizeString(loc.source->str, label);
   Adr(fout, "x2", ".L.loc.%s", label);
 
-  fprintf(fout, "  mov x3, %zi\n", loc.line);
-  fprintf(fout, "  mov x4, %zi\n", loc.col);
+  Mov(fout, "x3", loc.line);
+  Mov(fout, "x4", loc.col);
   Adr(fout, "x5", "%s", lmsg);
   fprintf(fout, "  bl fprintf\n");
 
@@ -483,6 +488,93 @@ static size_t StackBytesForCount(size_t count)
   return 16 * ((count + 1) / 2);
 }
 
+/**
+ * @func[Mov] Emits code to load a constant into a register.
+ *  @arg[FILE*][fout] The output stream
+ *  @arg[const char*][r_dst] The name of the register to load the value into.
+ *  @arg[size_t][value] The value to load.
+ *
+ *  @sideeffects
+ *   Emits a sequence of instructions to load the value into the register.
+ */
+static void Mov(FILE* fout, const char* r_dst, size_t value)
+{
+  fprintf(fout, "  mov %s, #%zu\n", r_dst, value & 0xFFFF);
+  for (size_t shift = 16; (value >> shift) != 0; shift += 16) {
+    fprintf(fout, "  movk %s, #%zu, lsl #%zu\n", r_dst, (value >> shift) & 0xFFFF, shift);
+    if (shift == 48) {
+      break;
+    }
+  }
+}
+
+/**
+ * @func[AddSub] Emits code to add or subtract a constant.
+ *  Constants too big for the instruction are loaded into x16 first.
+ *
+ *  @arg[FILE*][fout] The output stream
+ *  @arg[const char*][op] "add" or "sub".
+ *  @arg[const char*][r_dst] The destination register.
+ *  @arg[const char*][r_src] The source register.
+ *  @arg[size_t][value] The value to add or subtract.
+ *
+ *  @sideeffects
+ *   Emits a sequence of instructions to do the operation.
+ */
+static void AddSub(FILE* fout, const char* op, const char* r_dst, const char* r_src, size_t value)
+{
+  if (value < 4096) {
+    fprintf(fout, "  %s %s, %s, #%zu\n", op, r_dst, r_src, value);
+    return;
+  }
+  Mov(fout, "x16", value);
+  fprintf(fout, "  %s %s, %s, x16\n", op, r_dst, r_src);
+}
+
+/**
+ * @func[Cmp] Emits code to compare a register with a constant.
+ *  Constants too big for the instruction are loaded into x16 first.
+ *
+ *  @arg[FILE*][fout] The output stream
+ *  @arg[const char*][r_src] The register to compare.
+ *  @arg[size_t][value] The value to compare to.
+ *
+ *  @sideeffects
+ *   Emits a sequence of instructions to do the operation.
+ */
+static void Cmp(FILE* fout, const char* r_src, size_t value)
+{
+  if (value < 4096) {
+    fprintf(fout, "  cmp %s, #%zu\n", r_src, value);
+    return;
+  }
+  Mov(fout, "x16", value);
+  fprintf(fout, "  cmp %s, x16\n", r_src);
+}
+
+/**
+ * @func[LdrStr] Emits code to load or store an xword.
+ *  Offsets too big for the instruction are loaded into x16 first.
+ *
+ *  @arg[FILE*][fout] The output stream
+ *  @arg[const char*][op] "ldr" or "str".
+ *  @arg[const char*][reg] The register to load or store.
+ *  @arg[const char*][r_base] The register with the base address.
+ *  @arg[size_t][offset] The offset from the base, a multiple of 8.
+ *
+ *  @sideeffects
+ *   Emits a sequence of instructions to do the operation.
+ */
+static void LdrStr(FILE* fout, const char* op, const char* reg, const char* r_base, size_t offset)
+{
+  if (offset < 8 * 4096) {
+    fprintf(fout, "  %s %s, [%s, #%zu]\n", op, reg, r_base, offset);
+    return;
+  }
+  Mov(fout, "x16", offset);
+  fprintf(fout, "  %s %s, [%s, x16]\n", op, reg, r_base);
+}
+
 /**
  * @func[Adr] Emits an adr instruction to load a label into a register.
  *  @arg[FILE*][fout] The output stream
@@ -555,7 +647,7 @@ static void EmitSearch(Context* context, Interval* interval)
   size_t mid = interval->num_targets / 2;
   size_t mid_tag = interval->targets[mid].tag;
   size_t mid_target = interval->targets[mid].target;
-  fprintf(fout, "  cmp x0, %zi\n", mid_tag);
+  Cmp(fout, "x0", mid_tag);
   fprintf(fout, "  b.eq .Lr.%04zx.%zi\n", func_id, mid_target);
 
   Interval low = {
@@ -640,26 +732,26 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddSub(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x0", struct_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LdrStr(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       };
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      Mov(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewStructValue\n");
       SetFrameVar(fout, "x0", struct_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
     case FBLE_UNION_VALUE_INSTR: {
       FbleUnionValueInstr* union_instr = (FbleUnionValueInstr*)instr;
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", union_instr->tag);
+      Mov(fout, "x1", union_instr->tag);
       GetFrameVar(fout, "x2", union_instr->arg);
       fprintf(fout, "  bl FbleNewUnionValue\n");
       SetFrameVar(fout, "x0", union_instr->dest);
@@ -669,7 +761,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
     case FBLE_STRUCT_ACCESS_INSTR: {
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      Mov(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleStructValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
@@ -680,7 +772,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
 
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      Mov(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleUnionValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
 
@@ -742,20 +834,20 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the statics array on the stack.
       size_t sp_offset = StackBytesForCount(func_instr->code->executable.num_statics);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddSub(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < func_instr->code->executable.num_statics; ++i) {
         GetFrameVar(fout, "x0", func_instr->scope.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LdrStr(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       Adr(fout, "x1", ".Lr.%04zx.%zi.exe", func_id, pc);
-      fprintf(fout, "  add x2, R_PROFILE_BLOCK_ID, #%zi\n", func_instr->profile_block_offset);
+      AddSub(fout, "add", "x2", "R_PROFILE_BLOCK_ID", func_instr->profile_block_offset);
       fprintf(fout, "  mov x3, SP\n");
       fprintf(fout, "  bl FbleNewFuncValue\n");
       SetFrameVar(fout, "x0", func_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -764,21 +856,21 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddSub(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x0", call_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LdrStr(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       fprintf(fout, "  mov x1, R_PROFILE\n");
       GetFrameVar(fout, "x2", call_instr->func);
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      Mov(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");          // args
 
       fprintf(fout, "  bl FbleCall\n");
       SetFrameVar(fout, "x0", call_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "add", "SP", "SP", sp_offset);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.abort\n", func_id, pc);
       return;
     }
@@ -797,16 +889,16 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Set up the arguments.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddSub(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x9", call_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LdrStr(fout, "str", "x9", "SP", sizeof(FbleValue*) * i);
       }
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      Mov(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");              // args
 
       fprintf(fout, "  bl FbleTailCall\n");
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "add", "SP", "SP", sp_offset);
 
       fprintf(fout, "  b .Lr.%04zx.exit\n", func_id);
       return;
@@ -867,19 +959,19 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space on the stack for the array of arguments.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x9", list_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", 8 * i);
+        LdrStr(fout, "str", "x9", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      Mov(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewListValue\n");
 
       SetFrameVar(fout, "x0", list_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddSub(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -897,7 +989,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       fprintf(fout, "  .text\n");
       fprintf(fout, "  .align 2\n");
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      Mov(fout, "x1", argc);
       Adr(fout, "x2", ".Lr.%04zx.%zi.letters", func_id, pc);
       fprintf(fout, "  bl FbleNewLiteralValue\n");
       SetFrameVar(fout, "x0", literal_instr->dest);
@@ -934,7 +1026,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_ENTER_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddSub(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileEnterBlock\n");
           break;
         }
@@ -942,7 +1034,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_REPLACE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddSub(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileReplaceBlock\n");
           break;
         }
@@ -955,7 +1047,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
 
         case FBLE_PROFILE_SAMPLE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
-          fprintf(fout, "  mov x1, #%zi\n", op->arg);
+          Mov(fout, "x1", op->arg);
           fprintf(fout, "  bl FbleProfileRandomSample\n");
           break;
         }
@@ -1060,7 +1152,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
 
   // Set up stack and frame pointer.
   size_t sp_offset = StackBytesForCount(code->num_locals);
-  fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+  AddSub(fout, "sub", "SP", "SP", sp_offset);
   fprintf(fout, "  stp FP, LR, [SP, #-%zi]!\n", sizeof(RunStackFrame));
   fprintf(fout, "  mov FP, SP\n");
 
@@ -1089,7 +1181,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
   fprintf(fout, "  ldp R_ARGS, R_STATICS, [SP, #%zi]\n", offsetof(RunStackFrame, r_args_save));
   fprintf(fout, "  ldp R_PROFILE_BLOCK_ID, R_PROFILE, [SP, #%zi]\n", offsetof(RunStackFrame, r_profile_block_id_save));
   fprintf(fout, "  ldp FP, LR, [SP], #%zi\n", sizeof(RunStackFrame));
-  fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+  AddSub(fout, "add", "SP", "SP", sp_offset);
   fprintf(fout, "  ret\n");
 
   // Emit code that's outside of the main execution path.
-- 
2.43.0


From 993207ed36e8518a9ea359709021dcb3b01232bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 43/45] fix: aarch64: don't assume the target of a conditional
 branch is within 1 MB

---
 lib/aarch64.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 457b2fc..d13fbbf 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -648,7 +648,7 @@ static void EmitSearch(Context* context, Interval* interval)
   size_t mid_tag = interval->targets[mid].tag;
   size_t mid_target = interval->targets[mid].target;
   Cmp(fout, "x0", mid_tag);
-  fprintf(fout, "  b.eq .Lr.%04zx.%zi\n", func_id, mid_target);
+  fprintf(fout, "  b.ne 1f\n  b .Lr.%04zx.%zi\n1:\n", func_id, mid_target);
 
   Interval low = {
     .lo = interval->lo,
@@ -684,9 +684,9 @@ static void EmitSearch(Context* context, Interval* interval)
   size_t low_label = NONE;
   if (low_target == NONE) {
     low_label = context->label++;
-    fprintf(fout, "  b.cc .Lr.%04zx.%zi.%zi\n", func_id, context->pc, low_label);
+    fprintf(fout, "  b.cs 1f\n  b .Lr.%04zx.%zi.%zi\n1:\n", func_id, context->pc, low_label);
   } else {
-    fprintf(fout, "  b.cc .Lr.%04zx.%zi\n", func_id, low_target);
+    fprintf(fout, "  b.cs 1f\n  b .Lr.%04zx.%zi\n1:\n", func_id, low_target);
   }
 
   EmitSearch(context, &high);
@@ -721,7 +721,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
   }
 
   if (instr->profile_ops != NULL) {
-    fprintf(fout, "  cbnz R_PROFILE, .Lo.%04zx.%zi.p\n", func_id, pc);
+    fprintf(fout, "  cbz R_PROFILE, 1f\n  b .Lo.%04zx.%zi.p\n1:\n", func_id, pc);
     fprintf(fout, ".Lr.%04zx.%zi.pp:\n", func_id, pc);
   }
 
@@ -764,7 +764,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       Mov(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleStructValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
-      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
+      fprintf(fout, "  cbnz x0, 1f\n  b .Lo.%04zx.%zi.u\n1:\n", func_id, pc);
       return;
     }
 
@@ -777,11 +777,11 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       SetFrameVar(fout, "x0", access_instr->dest);
 
       // Check for undefined
-      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
+      fprintf(fout, "  cbnz x0, 1f\n  b .Lo.%04zx.%zi.u\n1:\n", func_id, pc);
 
       // Check for wrong tag
       fprintf(fout, "  cmp x0, %p\n", (void*)FbleWrongUnionTag);
-      fprintf(fout, "  b.eq .Lo.%04zx.%zi.bt\n", func_id, pc);
+      fprintf(fout, "  b.ne 1f\n  b .Lo.%04zx.%zi.bt\n1:\n", func_id, pc);
       return;
     }
 
@@ -794,7 +794,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Abort if the union object is undefined.
       fprintf(fout, "  cmp x0, -1\n");
-      fprintf(fout, "  b.eq .Lo.%04zx.%zi.u\n", func_id, pc);
+      fprintf(fout, "  b.ne 1f\n  b .Lo.%04zx.%zi.u\n1:\n", func_id, pc);
 
       // Binary search for the jump target based on the tag in x0.
       Context context = { .fout = fout, .func_id = func_id, .pc = pc, .label = 0 };
@@ -871,7 +871,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       fprintf(fout, "  bl FbleCall\n");
       SetFrameVar(fout, "x0", call_instr->dest);
       AddSub(fout, "add", "SP", "SP", sp_offset);
-      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.abort\n", func_id, pc);
+      fprintf(fout, "  cbnz x0, 1f\n  b .Lo.%04zx.%zi.abort\n1:\n", func_id, pc);
       return;
     }
 
@@ -881,7 +881,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Verify the function isn't undefined.
       fprintf(fout, "  bl FbleFuncValueFunction\n");
-      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
+      fprintf(fout, "  cbnz x0, 1f\n  b .Lo.%04zx.%zi.u\n1:\n", func_id, pc);
 
       fprintf(fout, "  mov x1, x0\n");              // function
       fprintf(fout, "  mov x0, R_HEAP\n");          // heap
@@ -934,7 +934,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Only the lower 8 bits of a returned bool are specified.
       fprintf(fout, "  and w0, w0, #0xff\n");
-      fprintf(fout, "  cbz w0, .Lo.%04zx.%zi.v\n", func_id, pc);
+      fprintf(fout, "  cbnz w0, 1f\n  b .Lo.%04zx.%zi.v\n1:\n", func_id, pc);
       return;
     }
 
-- 
2.43.0


From 39be2078895e63ac425e0e05fee11cf12ff79b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 44/45] fix: give FastCat the signature FbleStdioMain calls

---
 pkgs/core/Core/Stdio/FastCat.fble | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/pkgs/core/Core/Stdio/FastCat.fble b/pkgs/core/Core/Stdio/FastCat.fble
index abda514..0f7db08 100644
--- a/pkgs/core/Core/Stdio/FastCat.fble
+++ b/pkgs/core/Core/Stdio/FastCat.fble
@@ -14,6 +14,8 @@
 @ World@ = /Core/Monad/IO%.World@;
 % m = /Core/Monad/IO%.Monad;
 
+@ StdioIO@ = /Core/Stdio/IO%.StdioIO@;
+
 @ String@ = /Core/String%.String@;
 % Str = /Core/String%.Str;
 
@@ -21,30 +23,17 @@
 
 <@>@ R@ = <@ T@> { *(World@ s, T@ x); };
 <@>@ IO@ = <@ T@> (World@) { R@<T@>; };
-<<@>@>@ IStream@ = <<@>@ M@> { M@<Maybe@<Int@>>; };
 
 # Implementation of fble-cat for the purposes of experimenting with
 # fble performance.
-(
-  IO@<Maybe@<Int@>>,
-  (Int@, World@) { R@<Unit@>; },
-  (Int@, World@) { R@<Unit@>; },
-  (String@, World@) { R@<Maybe@<IStream@<IO@>>>; },
-  List@<String@>
-) { IO@<Bool@>; }
-Main = (
-  IO@<Maybe@<Int@>> stdin,
-  (Int@, World@) { R@<Unit@>; } stdout,
-  (Int@, World@) { R@<Unit@>; } _stderr,
-  (String@, World@) { R@<Maybe@<IStream@<IO@>>>; } _read,
-  List@<String@> args) {
-
+(StdioIO@, List@<String@>) { IO@<Bool@>; }
+Main = (StdioIO@ stdio, List@<String@> args) {
   (Int@) { IO@<Unit@>; } stdout_ = (Int@ s, World@ w) {
-    stdout(s, w);
+    stdio.stdout(s, w);
   };
 
   IO@<Bool@> MCat = {
-    Maybe@<Int@> byte <- m.do(stdin);
+    Maybe@<Int@> byte <- m.do(stdio.stdin);
     byte.?(nothing: m.return(True));
     Char@ char = /Core/Char/Ascii%.Chr(byte.just);
     Unit@ _ <- m.do(stdout_(/Core/Char/Ascii%.Ord(char)));
@@ -52,11 +41,11 @@ Main = (
   };
 
   (World@) { R@<Bool@>; } Cat = (World@ w) {
-    R@<Maybe@<Int@>> byte = stdin(w);
+    R@<Maybe@<Int@>> byte = stdio.stdin(w);
     byte.x.?(nothing: R@(w, True));
 
     Char@ char = /Core/Char/Ascii%.Chr(byte.x.just);
-    R@<Unit@> out = stdout(/Core/Char/Ascii%.Ord(char), byte.s);
+    R@<Unit@> out = stdio.stdout(/Core/Char/Ascii%.Ord(char), byte.s);
     Cat(out.s);
   };
 
-- 
2.43.0


From 89b9462de6fcbc39c20c5dbf113980bd4c3a5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 45/45] fix: complement the D and W IUB codes in
 ReverseComplement

---
 pkgs/games/Games/BenchmarkGame/ReverseComplement.fble | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble b/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
index eac1a80..0a46895 100644
--- a/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
+++ b/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
@@ -33,14 +33,14 @@
 
 (Char@) { Char@; } ComplementCode = (Char@ c) {
   c.?(
-    A: Chars.T, B: Chars.V, C: Chars.G, G: Chars.C,
+    A: Chars.T, B: Chars.V, C: Chars.G, D: Chars.H, G: Chars.C,
     H: Chars.D, K: Chars.M, M: Chars.K, N: Chars.N,
     R: Chars.Y, S: Chars.S, T: Chars.A, U: Chars.A,
-    V: Chars.B, Y: Chars.R,
-    a: Chars.T, b: Chars.V, c: Chars.G, g: Chars.C,
+    V: Chars.B, W: Chars.W, Y: Chars.R,
+    a: Chars.T, b: Chars.V, c: Chars.G, d: Chars.H, g: Chars.C,
     h: Chars.D, k: Chars.M, m: Chars.K, n: Chars.N,
     r: Chars.Y, s: Chars.S, t: Chars.A, u: Chars.A,
-    v: Chars.B, y: Chars.R);
+    v: Chars.B, w: Chars.W, y: Chars.R);
   c;
 };
 
-- 
2.43.0

