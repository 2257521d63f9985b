From f092a6cdf1c86358f13919ccb9f27116a0234c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 01/32] fix: stop a line comment at the end of the buffer

---
 preprocess.c | 2 +-
 tokenize.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 673b28c..0f385f3 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -673,7 +673,7 @@ static void paste(Token *lhs, Token *rhs) {
   // Tokenize the resulting string.
   Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf), NULL);
   align_token(tok, lhs);
-  if (tok->next->kind != TK_EOF)
+  if (tok->kind == TK_EOF || tok->next->kind != TK_EOF)
     error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
   Token *t = lhs->alloc_next;
diff --git a/tokenize.c b/tokenize.c
index 3554614..00d775f 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -672,7 +672,7 @@ Token *tokenize(File *file, Token **end) {
     // Skip line comments.
     if (startswith2(p, '/', '/')) {
       p += 2;
-      while (*p != '\n')
+      while (*p && *p != '\n')
         p++;
       has_space = true;
       continue;
-- 
2.43.0


From d1f42f401f1220810b194c85b6dd81244717f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 02/32] fix: diagnose #ifdef family directives without a macro
 name

---
 preprocess.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 0f385f3..f977885 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -414,6 +414,13 @@ static Macro *find_macro(Token *tok) {
   return hashmap_get2(&macros, tok->loc, tok->len);
 }
 
+// Find a macro named by a directive such as #ifdef.
+static Macro *find_macro_operand(Token *tok) {
+  if (tok->kind != TK_IDENT)
+    error_tok(tok, "macro name must be an identifier");
+  return find_macro(tok);
+}
+
 static Macro *new_macro(char *name, bool is_objlike) {
   Macro *m = arena_calloc(&pp_arena, sizeof(Macro));
   m->is_objlike = is_objlike;
@@ -1302,7 +1309,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifdef")) {
-    bool active = find_macro(tok->next);
+    bool active = find_macro_operand(tok->next);
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1311,7 +1318,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifndef")) {
-    bool active = !find_macro(tok->next);
+    bool active = !find_macro_operand(tok->next);
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1338,7 +1345,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifdef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && find_macro(tok->next)) {
+    if (!cond->been_active && find_macro_operand(tok->next)) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
@@ -1351,7 +1358,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifndef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && !find_macro(tok->next)) {
+    if (!cond->been_active && !find_macro_operand(tok->next)) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
-- 
2.43.0


From 035ba1828878052cce935986f86db259fed96e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 03/32] fix: diagnose #line without a line number

---
 preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index f977885..fcc146f 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1200,7 +1200,8 @@ static void read_line_marker(Token **rest, Token *tok) {
   tok = expand_tok(split_line(rest, tok));
 
   int64_t val;
-  if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+  if (tok->kind != TK_PP_NUM ||
+    convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
     error_tok(tok, "invalid line marker");
 
   start->file->line_delta = val - start->line_no - 1;
-- 
2.43.0


From 7456273122fe5556f266975e86621535f0c32d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 04/32] fix: diagnose __has_builtin() without an operand

---
 preprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index fcc146f..9fc95a8 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1652,6 +1652,9 @@ static Token *has_c_attribute_macro(Token *start) {
 static Token *has_builtin_macro(Token *start) {
   Token *tok = skip(start->next, "(");
 
+  if (tok->kind != TK_IDENT)
+    error_tok(tok, "expected builtin name");
+
   bool has_it = equal(tok, "__builtin_alloca") ||
     equal(tok, "__builtin_constant_p") ||
     equal(tok, "__builtin_expect") ||
-- 
2.43.0


From 847938ca649bd2b3cc00055a97510fb734d82453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 05/32] fix: diagnose an unterminated __VA_TAIL__ operand

---
 preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 9fc95a8..455e7c1 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -778,7 +778,8 @@ static Token *subst(Token *tok, MacroContext *ctx) {
         rparen = tok;
         tok = tok->next;
       } else {
-        tail_m = find_macro(tok);
+        if (!(tail_m = find_macro(tok)))
+          error_tok(start, "expected function-like macro with at least one named parameter");
         rparen = tok->next;
         tok = skip(tok->next, ")");
       }
-- 
2.43.0


From bde49aecf0fb96299abaa0f14819c986e7b2c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 06/32] fix: recognize the u8 prefix when concatenating string
 literals

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 455e7c1..b95302b 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1750,7 +1750,7 @@ typedef enum {
 } StringKind;
 
 static StringKind getStringKind(Token *tok) {
-  if (!strcmp(tok->loc, "u8"))
+  if (!strncmp(tok->loc, "u8", 2))
     return STR_UTF8;
 
   switch (tok->loc[0]) {
-- 
2.43.0


From 19832c94e445bad6df7407a120fae274f71f31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 07/32] fix: require an identifier as symbolic asm operand name

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 227a82b..4a878aa 100644
--- a/parse.c
+++ b/parse.c
@@ -2237,8 +2237,8 @@ static AsmParam *asm_params(Token **rest, Token *tok) {
     cur = cur->next = arena_calloc(&ast_arena, sizeof(AsmParam));
 
     if (consume(&tok, tok, "[")) {
-      cur->name = tok;
-      tok = skip(tok->next, "]");
+      cur->name = ident_tok(&tok, tok);
+      tok = skip(tok, "]");
     }
     cur->constraint = str_tok(&tok, tok);
     cur->arg = expr(&tok, skip(tok, "("));
-- 
2.43.0


From 68cde22102481f69a82bbbe4eb747609aa3f2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 08/32] fix: diagnose #include of a macro with an empty
 expansion

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index b95302b..0c6042d 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1041,7 +1041,7 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
   bool is_expanded = false;
   if (tok->kind == TK_IDENT) {
     tok = expand_tok(tok);
-    for (Token *t = tok->next; t->kind != TK_EOF; t = t->next)
+    for (Token *t = tok; t->kind != TK_EOF; t = t->next)
       t->has_space = false;
     is_expanded = true;
   }
-- 
2.43.0


From 9c5f45df2bb5d5ba0d8284d82d2c90779c246203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 09/32] fix: diagnose a missing argument to --std

---
 main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 8bfae0a..6f0b1ff 100644
--- a/main.c
+++ b/main.c
@@ -404,8 +404,8 @@ static int parse_args(int argc, char **argv) {
       startswith(argv[i], &arg, "--std=c")) {
       set_std(strtoul(arg, NULL, 10));
       continue;
-    } else if (!strcmp(argv[i], "--std")) {
-      if (startswith(argv[++i], &arg, "c")) {
+    } else if (take_arg(argv, &i, &arg, "--std")) {
+      if (startswith(arg, &arg, "c")) {
         set_std(strtoul(arg, NULL, 10));
         continue;
       }
-- 
2.43.0


From fba63149906294e774e97c2de39fa7b2c2279ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 10/32] fix: report failed writes of the output

---
 main.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index 6f0b1ff..3b81ba3 100644
--- a/main.c
+++ b/main.c
@@ -562,6 +562,17 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+static void close_file(FILE *out, char *path) {
+  bool failed = ferror(out);
+  if (out == stdout)
+    failed |= fflush(out) != 0;
+  else
+    failed |= fclose(out) != 0;
+
+  if (failed)
+    error("cannot write output file: %s", path ? path : "-");
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -662,10 +673,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -717,10 +725,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -790,10 +795,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From 277dc17157ccf9d73f4e969fd900df6d433cc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 11/32] fix: reject negative and huge array designators

---
 parse.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 4a878aa..6174d93 100644
--- a/parse.c
+++ b/parse.c
@@ -1699,13 +1699,20 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
 //   struct { int a, b, c; } x = { .c=5 };
 //
 // The above initializer sets x.c to 5.
+static int array_designator_index(Token **rest, Token *tok) {
+  int64_t idx = const_expr(rest, tok);
+  if (idx < 0 || idx >= INT32_MAX)
+    error_tok(tok, "array designator index out of range");
+  return idx;
+}
+
 static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
-  *begin = const_expr(&tok, tok->next);
+  *begin = array_designator_index(&tok, tok->next);
   if (*begin >= ty->array_len)
     error_tok(tok, "array designator index exceeds array bounds");
 
   if (equal(tok, "...")) {
-    *end = const_expr(&tok, tok->next);
+    *end = array_designator_index(&tok, tok->next);
     if (*end >= ty->array_len)
       error_tok(tok, "array designator index exceeds array bounds");
     if (*end < *begin)
@@ -1774,9 +1781,9 @@ static int count_array_init_elements(Token *tok, Type *ty) {
   int i = 0, max = 0;
   while (comma_list(&tok, &tok, "}", i)) {
     if (equal(tok, "[")) {
-      i = const_expr(&tok, tok->next);
+      i = array_designator_index(&tok, tok->next);
       if (equal(tok, "..."))
-        i = const_expr(&tok, tok->next);
+        i = array_designator_index(&tok, tok->next);
       tok = skip(tok, "]");
       designation(&tok, tok, &dummy);
     } else {
-- 
2.43.0


From 204e8cfb129dfd53331cd53279a5430b1a98716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 12/32] fix: global initializers of _Bool and 64-bit wide
 bit-fields

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 6174d93..ef18d5c 100644
--- a/parse.c
+++ b/parse.c
@@ -2079,12 +2079,12 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = (uint64_t)-1 >> (64 - mem->bit_width);
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From ce6700f1d342fa9d67eb73e529c5682eaf9d6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 13/32] fix: reject bit-fields of non-integer type and of
 invalid width

---
 parse.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index ef18d5c..1d9d7cb 100644
--- a/parse.c
+++ b/parse.c
@@ -3743,9 +3743,17 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
 
       if (consume(&tok, tok, ":")) {
         mem->is_bitfield = true;
-        mem->bit_width = const_expr(&tok, tok);
-        if (mem->bit_width < 0)
+        if (!is_integer(mem->ty))
+          error_tok(tok, "bit-field has non-integer type");
+
+        int64_t width = const_expr(&tok, tok);
+        if (width < 0)
           error_tok(tok, "bit-field with negative width");
+        if (width > mem->ty->size * 8)
+          error_tok(tok, "width of bit-field exceeds its type");
+        if (width == 0 && mem->name)
+          error_tok(tok, "named bit-field with zero width");
+        mem->bit_width = width;
         attr_aligned(tok, &mem->alt_align, TK_ATTR);
       }
       cur = cur->next = mem;
-- 
2.43.0


From a3baf3e6fab371b5c06c1abf6296a3fcdaef3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 14/32] fix: round integer constants converted to float or
 double

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 1d9d7cb..e0afa2c 100644
--- a/parse.c
+++ b/parse.c
@@ -3182,8 +3182,8 @@ static long double eval_double(Node *node) {
     if (is_flonum(lhs->ty))
       return eval_fp_cast(eval_double(lhs), ty);
     if (lhs->ty->size == 8 && lhs->ty->is_unsigned)
-      return (uint64_t)eval(lhs);
-    return eval(lhs);
+      return eval_fp_cast((uint64_t)eval(lhs), ty);
+    return eval_fp_cast(eval(lhs), ty);
   case ND_NUM:
     return node->fval;
   }
-- 
2.43.0


From 6dc445eb2eaefd163685c5ff40a70725303cccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 15/32] fix: conversions from long double to short, unsigned
 short and unsigned int

---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..e31ebbb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1068,10 +1068,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From 48116bddd874b63cdd99afd45af68cab0a3e6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 16/32] fix: symbol names longer than the operand buffers

---
 codegen.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index e31ebbb..9e6040a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -232,7 +232,7 @@ static bool eval_memop(Node *node, char *ofs, char **ptr, bool let_subarray, boo
       *ptr = var->ptr;
       return true;
     }
-    if (!var->is_tls && use_rip(var)) {
+    if (!var->is_tls && use_rip(var) && strlen(asm_name(var)) < STRBUF_SZ - 16) {
       if (offset)
         snprintf(ofs, STRBUF_SZ, "%d+\"%s\"", offset, asm_name(var));
       else
@@ -3900,9 +3900,8 @@ static void emit_data(Obj *var) {
   }
 
   if (opt_femulated_tls && var->is_tls) {
-    char name_t[STRBUF_SZ], name_v[STRBUF_SZ];
-    snprintf(name_t, STRBUF_SZ, "__emutls_t.%s", asm_name(var));
-    snprintf(name_v, STRBUF_SZ, "__emutls_v.%s", asm_name(var));
+    char *name_t = format("__emutls_t.%s", asm_name(var));
+    char *name_v = format("__emutls_v.%s", asm_name(var));
 
     Obj tmp_var = *var;
     tmp_var.is_tls = false;
-- 
2.43.0


From bc23b5993c2faf42cab5cab3e6ae5c1995df7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 17/32] fix: conversion of a label address to _Bool in a
 constant initializer

A label address has no variable; its weakness was read through NULL.
---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index e0afa2c..0bc1267 100644
--- a/parse.c
+++ b/parse.c
@@ -2993,7 +2993,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
     if (ty->size != ty_intptr_t->size) {
       EvalContext ctx2= {.kind = EV_LABEL};
       if (eval_ctx(lhs, &ctx2, NULL) && ctx2.label) {
-        if (ty->kind == TY_BOOL && !ctx2.var->is_weak)
+        if (ty->kind == TY_BOOL && !(ctx2.var && ctx2.var->is_weak))
           return true;
         return eval_error(node->tok, "pointer cast to different size");
       }
-- 
2.43.0


From 25c3dd1be9180dc4a73144a14043edb6b4bb112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 18/32] fix: old-style parameter named like an enumeration
 constant of its declarations

The identifier was taken for a variable without looking, which crashed.
---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 0bc1267..db6f643 100644
--- a/parse.c
+++ b/parse.c
@@ -1070,6 +1070,8 @@ static Type *func_params_old_style(Token **rest, Token *tok, Type *fn_ty) {
     Obj *nxt;
     if (!sc)
       nxt = new_lvar(get_ident(tok), ty_int);
+    else if (!sc->var)
+      error_tok(tok, "not a parameter");
     else if (sc->var->param_promoted)
       nxt = sc->var->param_promoted;
     else
-- 
2.43.0


From 667fc4583f38c76aca5f7cb14dffa36198d28de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 19/32] fix: #embed of a file that is not found printed a null
 file name

---
 preprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 0c6042d..c75643e 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1163,8 +1163,11 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   if (tok->kind != TK_EOF)
     error_tok(start, "unknown embed parameter");
 
-  FILE *fp;
-  if (!path || !(fp = fopen(path, "r")))
+  if (!path)
+    error_tok(start, "file not found");
+
+  FILE *fp = fopen(path, "r");
+  if (!fp)
     error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
 
   Token head = {0};
-- 
2.43.0


From 0b4ba756785ddcb342b696ad6264ebca69b13bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 20/32] fix: reject invalid alignments

A huge alignment became zero in bits and the compiler died dividing by it.
---
 parse.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index db6f643..25dcf72 100644
--- a/parse.c
+++ b/parse.c
@@ -591,6 +591,13 @@ static bool get_attr_val(Token *tok, int64_t *val) {
   return false;
 }
 
+static int const_align(Token **rest, Token *tok) {
+  int64_t align = const_expr(rest, tok);
+  if (align < 0 || align > (1 << 28) || (align & (align - 1)))
+    error_tok(tok, "invalid alignment");
+  return align;
+}
+
 static void attr_aligned(Token *loc, int *align, TokenKind kind) {
   for (Token *tok = loc->attr_next; tok; tok = tok->attr_next) {
     if (tok->kind != kind)
@@ -598,7 +605,7 @@ static void attr_aligned(Token *loc, int *align, TokenKind kind) {
     if (equal_ext(tok, "aligned")) {
       Token *tok2;
       if (consume(&tok2, tok->next, "(")) {
-        int align2 = const_expr(&tok2, tok2);
+        int align2 = const_align(&tok2, tok2);
         *align = MAX(*align, align2);
         continue;
       }
@@ -865,7 +872,7 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       if (is_typename(tok))
         align = typename(&tok, tok)->align;
       else
-        align = const_expr(&tok, tok);
+        align = const_align(&tok, tok);
       attr->align = MAX(attr->align, align);
       tok = skip(tok, ")");
       continue;
-- 
2.43.0


From a4835a347dcb5896b1931a724ae3f4dfe0f16990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 21/32] fix: negated floating-point comparison is true for
 unordered operands

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 9e6040a..2fcdaf2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2842,7 +2842,7 @@ static bool gen_bool_opt(Node *node) {
     return false;
   node = boolexpr;
 
-  if (is_cmp(node)) {
+  if (is_cmp(node) && is_gp_ty(node->lhs->ty)) {
     Node n = *node;
     flip_cmp(&n.kind, flip);
     gen_expr(&n);
-- 
2.43.0


From d7cdaf83ee22be8d5dc23cbe6a119fbfb55f73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 22/32] fix: conversion of a narrow integer to a pointer is not
 skipped when folding an address

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 2fcdaf2..1362296 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2759,7 +2759,8 @@ static bool gen_load_opt_gp(Node *node, Reg r) {
 
 static void gen_deref_opt(Node *node, int64_t *ofs) {
   for (;; node = node->lhs) {
-    if (node->kind == ND_CAST && node->ty->base)
+    if (node->kind == ND_CAST && node->ty->base &&
+      (node->lhs->ty->base || node->lhs->ty->size == 8))
       continue;
 
     if (node->kind == ND_DEREF && node->ty->kind == TY_ARRAY)
-- 
2.43.0


From 4a7acf79c36967c5c6851d4d77269b28d4581c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 23/32] fix: atomic assignment, exchange and compare-and-swap
 convert the value to the object's type

---
 codegen.c | 20 ++++++++++++++++++--
 parse.c   |  2 +-
 type.c    |  4 +++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index 1362296..ee76d85 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1816,13 +1816,29 @@ static void gen_expr2(Node *node, bool is_void) {
     return;
   }
   case ND_EXCH: {
+    Type *ty = node->lhs->ty->base;
+    if (!is_scalar(ty) || ty->kind == TY_LDOUBLE)
+      error_tok(node->tok, "unsupported type for atomic exchange");
+
     gen_expr(node->lhs);
     push();
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%xmm0, %%rax"); break;
+    case TY_FLOAT: Printstn("movd %%xmm0, %%eax"); break;
+    }
+
+    Printftn("xchg %s, (%s)", reg_ax(ty->size), reg);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%rax, %%xmm0"); break;
+    case TY_FLOAT: Printstn("movd %%eax, %%xmm0"); break;
+    default:
+      if (ty->size < 4)
+        cast_extend_int32(ty, reg_ax(ty->size), "%eax");
+    }
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index 25dcf72..e185af6 100644
--- a/parse.c
+++ b/parse.c
@@ -3293,7 +3293,7 @@ static Node *assign(Token **rest, Token *tok) {
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
     add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
diff --git a/type.c b/type.c
index 4f2e385..5425bd7 100644
--- a/type.c
+++ b/type.c
@@ -557,11 +557,13 @@ void add_type(Node *node) {
       error_tok(node->cas_addr->tok, "pointer expected");
     if (node->cas_old->ty->kind != TY_PTR)
       error_tok(node->cas_old->tok, "pointer expected");
+    node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
     if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
+      error_tok(node->lhs->tok, "pointer expected");
     node->ty = node->lhs->ty->base;
+    node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_VA_START:
   case ND_VA_COPY:
-- 
2.43.0


From fb61e4f71181cbe97eb767b47835d6572ef8e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 24/32] fix: constant shift counts outside the operand's width
 are accepted by the assembler

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index ee76d85..ab9616c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2694,7 +2694,7 @@ static bool gen_shift_opt_gp(Node *node) {
 
   if (is_const_expr(node->rhs, &val)) {
     gen_expr(node->lhs);
-    imm_arith(node->kind, node->ty->size, val);
+    imm_arith(node->kind, node->ty->size, val & (node->ty->size * 8 - 1));
     return true;
   }
   if (is_memop(node->rhs, ofs, &ptr, true)) {
-- 
2.43.0


From c5a61700cac3b5f328b8030f4a348f759e5ed360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 25/32] fix: compound assignment to a bit-field promotes the
 bit-field by its width

---
 codegen.c | 9 ++++++---
 type.c    | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index ab9616c..c68fcbe 100644
--- a/codegen.c
+++ b/codegen.c
@@ -969,8 +969,11 @@ static void gen_var_assign(Obj *var, Node *expr) {
   gen_void_assign(&node);
 }
 
-static void gen_expr_null_lhs(NodeKind kind, Type *ty, Node *rhs) {
+static void gen_expr_null_lhs(NodeKind kind, Node *lhs, Node *rhs) {
+  Type *ty = lhs->ty;
   Node null = {.kind = ND_NULL_EXPR, .ty = ty, .tok = rhs->tok};
+  if (is_bitfield(lhs))
+    null.member = lhs->member;
   Node expr = {.kind = kind, .lhs = &null, .rhs = rhs,.tok = rhs->tok};
   add_type(&expr);
   gen_expr(new_cast(&expr, ty));
@@ -1685,7 +1688,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     push();
     load(node->lhs, 0);
-    gen_expr_null_lhs(node->arith_kind, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(node->arith_kind, node->lhs, node->rhs);
     store(node->lhs, is_void);
     return;
   case ND_POST_INCDEC:
@@ -1694,7 +1697,7 @@ static void gen_expr2(Node *node, bool is_void) {
     load(node->lhs, 0);
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
-    gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(ND_ADD, node->lhs, node->rhs);
     store(node->lhs, true);
     pop_by_ty(node->lhs->ty);
     return;
diff --git a/type.c b/type.c
index 5425bd7..75a89b7 100644
--- a/type.c
+++ b/type.c
@@ -147,6 +147,9 @@ static bool is_bitfield2(Node *node, int *width) {
     if (stmt->kind == ND_EXPR_STMT)
       return is_bitfield2(stmt->lhs, width);
   }
+  case ND_NULL_EXPR:
+    if (!node->member)
+      return false;
   case ND_MEMBER:
     if (!node->member->is_bitfield)
       return false;
-- 
2.43.0


From b4bb816ee7288b11c55b9250d4d3dc6cab812c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 26/32] fix: a signed 64-bit bit-field of 8, 16 or 32 bits is
 sign-extended to its type

---
 codegen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index c68fcbe..4146aac 100644
--- a/codegen.c
+++ b/codegen.c
@@ -648,6 +648,9 @@ static void gen_bitfield_load(Node *node, int ofs) {
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+
+    if (mem->ty->size == 8 && alt_ty->size < 8 && !alt_ty->is_unsigned)
+      Printstn("movslq %%eax, %%rax");
     return;
   }
   load2(mem->ty, ofs, "%rax");
@@ -667,8 +670,12 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
-      cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    if (!is_void && alt_ty->size < 8) {
+      if (alt_ty->size < 4 || mem->ty->size == 8)
+        cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+      if (mem->ty->size == 8 && !alt_ty->is_unsigned)
+        Printstn("movslq %%eax, %%rax");
+    }
     return;
   }
 
-- 
2.43.0


From 2a2a8dda0286b07a9c1448e4332841751dca3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 27/32] fix: the value of a postfix increment or decrement of a
 long double is lost

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 4146aac..323cf51 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1702,6 +1702,8 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fld %%st(0)");
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs, node->rhs);
-- 
2.43.0


From 42ed1e9cbd445c5277ada8daca18d38299935a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 28/32] fix: reading through a pointer at a constant offset
 beyond 32 bits used a truncated offset

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 323cf51..70514c3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2964,11 +2964,13 @@ static bool gen_expr_opt(Node *node) {
     int64_t ofs = 0;
     gen_deref_opt(node->lhs, &ofs);
 
-    if (is_scalar(ty)) {
+    if (is_scalar(ty) && in_imm_range(ofs)) {
       load2(ty, ofs, "%rax");
       return true;
     }
     imm_add("%rax", "%rdx", ofs);
+    if (is_scalar(ty))
+      load2(ty, 0, "%rax");
     return true;
   }
 
-- 
2.43.0


From b22598565d0632b830d5fb351b0ab637a52e5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 29/32] fix: the controlling expression of switch was not
 promoted, so case ranges were checked in the wrong type

---
 parse.c  | 1 +
 slimcc.h | 1 +
 type.c   | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index e185af6..329f5a7 100644
--- a/parse.c
+++ b/parse.c
@@ -2545,6 +2545,7 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     add_type(node->cond);
     if (!is_integer(node->cond->ty))
       error_tok(tok, "controlling expression not integer");
+    int_promotion(&node->cond);
 
     JumpContext ctx = {.next = jump_ctx, .switch_node = node};
     jump_ctx = &ctx;
diff --git a/slimcc.h b/slimcc.h
index 8590058..1bd25b5 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -647,6 +647,7 @@ Type *array_of(Type *base, int64_t size);
 Type *vla_of(Type *base, Node *expr);
 Type *new_type(TypeKind kind, int64_t size, int align);
 void add_type(Node *node);
+void int_promotion(Node **node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
 Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
diff --git a/type.c b/type.c
index 75a89b7..263d8ff 100644
--- a/type.c
+++ b/type.c
@@ -319,7 +319,7 @@ bool is_nullptr(Node *node) {
   return false;
 }
 
-static void int_promotion(Node **node) {
+void int_promotion(Node **node) {
   Type *ty = (*node)->ty;
   int bit_width;
 
-- 
2.43.0


From 98043b3423c36035dc2eeaa0ca2611b397d9d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 30/32] fix: a case label could jump into the scope of a
 deferred statement or variable-length array from outside a loop

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 329f5a7..255c534 100644
--- a/parse.c
+++ b/parse.c
@@ -2362,7 +2362,7 @@ static Token *label_stmt(Node **cur_node, Token **rest, Token *tok) {
             break;
         if (!ctx)
           error_tok(tok, "stray case");
-        if (jump_ctx->defr_end != current_defr)
+        if (ctx->defr_end != current_defr)
           error_tok(tok, "illegal jump");
         active_sw = ctx->switch_node;
       }
-- 
2.43.0


From 5d87f432fc2f42dc427f195745f707a8abd55904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 31/32] fix: labels in the scope of a variable-length array or
 deferred statement could not be used by && and asm goto

---
 parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 255c534..f228f42 100644
--- a/parse.c
+++ b/parse.c
@@ -2284,6 +2284,7 @@ static AsmParam *asm_labels(Token **rest, Token *tok) {
   while (comma_list(rest, &tok, ")", cur != &head)) {
     Node *node = new_node(ND_GOTO, tok);
     node->labels = ident_tok(&tok, tok);
+    node->defr_start = current_defr;
     node->goto_next = gotos;
     gotos = node;
 
@@ -4547,7 +4548,7 @@ static void resolve_goto_labels(void) {
       error_tok(x->tok->next, "use of undeclared label");
 
     x->unique_label = dest->unique_label;
-    if (!dest->defr_start)
+    if (!dest->defr_start || x->kind == ND_LABEL_VAL)
       continue;
 
     DeferStmt *defr= x->defr_start;
-- 
2.43.0


From 2cb2648a1b0c83448467d236bd15ab827eba3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 32/32] fix: calls through a pointer to a variadic function did
 not set the number of vector registers

---
 codegen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 70514c3..031ae6f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1508,7 +1508,10 @@ static void gen_funcall(Node *node) {
 
   gen_funcall_args(node);
 
-  if (node->lhs->ty->is_variadic) {
+  Type *fn_ty = node->lhs->ty;
+  if (fn_ty->kind == TY_PTR)
+    fn_ty = fn_ty->base;
+  if (fn_ty->is_variadic) {
     if (fp_count)
       Printftn("movb $%d, %%al", fp_count);
     else
-- 
2.43.0

