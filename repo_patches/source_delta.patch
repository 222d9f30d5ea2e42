From f3353757f7c3a34e63f99cc5181123e6ca9c50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 01/85] fix: -E keeps tokens apart that would merge when read
 back

---
 main.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 8bfae0a..b79fca1 100644
--- a/main.c
+++ b/main.c
@@ -637,11 +637,43 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
 }
 
 // Print tokens to stdout. Used for -E.
+// Returns true if `a` directly followed by `b` could be read back as
+// different tokens.
+static bool may_merge(Token *a, Token *b) {
+  if (!a || a->loc + a->len == b->loc)
+    return false;
+
+  unsigned char first = *a->loc, last = a->loc[a->len - 1], next = *b->loc;
+  bool a_num = Isdigit(first) || (first == '.' && a->len > 1 && Isdigit(a->loc[1]));
+  bool a_word = a_num || Isalnum(last) || last == '_' || last == '$' || last >= 128;
+
+  if (Isalnum(next) || next == '_' || next == '$' || next >= 128 || next == '\\')
+    return a_word || (last == '.' && Isdigit(next));
+  if (next == '"' || next == '\'')
+    return a_word;
+  if (a_num && (next == '.' || next == '+' || next == '-'))
+    return true;
+
+  switch (last) {
+  case '+': case '&': case '|': case '=': case '#': case '.': case '>':
+    return next == last || next == '=';
+  case '-': return next == '-' || next == '=' || next == '>';
+  case '<': return next == '<' || next == '=' || next == ':' || next == '%';
+  case '%': return next == '=' || next == ':' || next == '>';
+  case ':': return next == ':' || next == '>';
+  case '/': return next == '/' || next == '=' || next == '*';
+  case '*': case '^': case '!':
+    return next == '=';
+  }
+  return false;
+}
+
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
   int line = 1;
   File *markerfile = NULL;
+  Token *prev = NULL;
 
   for (; tok->kind != TK_EOF; tok = tok->next) {
     Token *orig = tok->origin ? tok->origin : tok;
@@ -651,13 +683,15 @@ static void print_tokens(Token *tok, char *path) {
       if (!strcmp(name, "-"))
         name = "<stdin>";
       fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+      prev = NULL;
     }
 
     if (line > 1 && tok->at_bol)
       fprintf(out, "\n");
-    if (tok->has_space && !tok->at_bol)
+    if (!tok->at_bol && (tok->has_space || may_merge(prev, tok)))
       fprintf(out, " ");
     fprintf(out, "%.*s", tok->len, tok->loc);
+    prev = tok;
     line++;
   }
   fprintf(out, "\n");
-- 
2.43.0


From 7822426d17855c8c2ffc36128f79110d6be293ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 02/85] fix: stringizing a macro argument is not affected by
 expanding it first

---
 preprocess.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 673b28c..857e971 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -561,7 +561,15 @@ static Token *expand_arg(MacroArg *arg) {
   if (arg->expanded)
     return arg->expanded;
 
-  return arg->expanded = expand_tok(arg->tok);
+  // Expansion may alter the tokens it reads, while `#` and `##` need
+  // the argument as it was spelled.
+  Token head = {0};
+  Token *cur = &head, *t = arg->tok;
+  for (; t->kind != TK_EOF; t = t->next)
+    cur = cur->next = copy_token(t);
+  cur->next = new_eof(t);
+
+  return arg->expanded = expand_tok(head.next);
 }
 
 static bool has_non_empty_va_arg(MacroContext *ctx, MacroArg **arg_p) {
-- 
2.43.0


From d2f5e79450c1089a9fa217631b6b043f5f1adb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 03/85] fix: operands of ## next to a placemarker or # are not
 macro-expanded

---
 preprocess.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 857e971..467e27c 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -730,25 +730,39 @@ static Token *subst(Token *tok, MacroContext *ctx) {
       if (tok->next->kind == TK_EOF)
         error_tok(tok, "'##' cannot appear at end of macro expansion");
 
-      if (cur->kind == TK_PMARK) {
-        tok = tok->next;
+      Token *op = tok->next;
+      if (cur->kind == TK_PMARK && equal(op, "##")) {
+        tok = op;
         continue;
       }
 
-      MacroArg *arg = find_arg(&tok, tok->next, ctx);
+      MacroArg *arg = find_arg(&tok, op, ctx);
       if (arg) {
-        if (arg->tok->kind == TK_EOF)
+        Token *t = arg->tok;
+        if (t->kind == TK_EOF)
           continue;
 
-        if (arg->tok->kind != TK_PMARK)
-          paste(cur, arg->tok);
+        if (cur->kind == TK_PMARK) {
+          cur = cur->next = copy_token(t);
+          align_token(cur, op);
+        } else if (t->kind != TK_PMARK) {
+          paste(cur, t);
+        }
 
-        for (Token *t = arg->tok->next; t->kind != TK_EOF; t = t->next)
+        for (t = t->next; t->kind != TK_EOF; t = t->next)
           cur = cur->next = copy_token(t);
         continue;
       }
-      paste(cur, tok->next);
-      tok = tok->next->next;
+
+      if (equal(op, "#") && (arg = find_arg(&tok, op->next, ctx)))
+        op = stringize(op, arg->tok);
+      else
+        tok = op->next;
+
+      if (cur->kind == TK_PMARK)
+        cur = cur->next = copy_token(op);
+      else
+        paste(cur, op);
       continue;
     }
 
-- 
2.43.0


From 6bd46f82c5a6fe7f47bf35ab7b4c5067eba0baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 04/85] fix: a cached header lookup keeps its search position
 for #include_next

---
 preprocess.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 467e27c..2c661c7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1007,22 +1007,28 @@ static char *search_include_paths3(char *filename, int *incl_no) {
   if (filename[0] == '/')
     return filename;
 
+  typedef struct {
+    char *path;
+    int incl_no;
+  } CacheEntry;
   static HashMap cache;
-  char *cached = hashmap_get(&cache, filename);
-  if (cached)
-    return cached;
+  CacheEntry *ent = hashmap_get(&cache, filename);
 
   // Search a file from the include paths.
-  for (int i = 0; i < include_paths.len; i++) {
+  for (int i = 0; !ent && i < include_paths.len; i++) {
     char *path = format("%s/%s", include_paths.data[i], filename);
     if (!file_exists(path))
       continue;
-    hashmap_put(&cache, filename, path);
-    if (incl_no)
-      *incl_no = i;
-    return path;
+    ent = calloc(1, sizeof(CacheEntry));
+    ent->path = path;
+    ent->incl_no = i;
+    hashmap_put(&cache, filename, ent);
   }
-  return NULL;
+  if (!ent)
+    return NULL;
+  if (incl_no)
+    *incl_no = ent->incl_no;
+  return ent->path;
 }
 
 static char *search_include_paths2(char *filename, Token *start, bool is_dquote, int *incl_no) {
-- 
2.43.0


From 1ba0c7636223d2f1e39639d4bd549c325543a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 05/85] fix: a directory is not a header

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index b79fca1..c4ea65d 100644
--- a/main.c
+++ b/main.c
@@ -871,7 +871,7 @@ char *find_dir_w_file(char *pattern) {
 // Returns true if a given file exists.
 bool file_exists(char *path) {
   struct stat st;
-  return !stat(path, &st);
+  return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 char *source_dir(void) {
-- 
2.43.0


From aaf1b2ba344a31a10767f3fa8913d56395295aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 06/85] fix: -MP makes phony targets for all dependencies but
 the main file

---
 main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index c4ea65d..df2b31a 100644
--- a/main.c
+++ b/main.c
@@ -744,9 +744,10 @@ static void print_dependencies(char *input) {
   fprintf(out, "\n\n");
 
   if (opt_MP) {
-    for (int i = 1; files[i]; i++) {
+    for (int i = 0; files[i]; i++) {
       char *name = files[i]->name;
-      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
+      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input ||
+        !strcmp(name, input))
         continue;
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
-- 
2.43.0


From 317afc55d533872ac5523d640c22bbc8975f71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 07/85] fix: quote the prerequisites of a dependency rule

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index df2b31a..d3d99a8 100644
--- a/main.c
+++ b/main.c
@@ -738,7 +738,7 @@ static void print_dependencies(char *input) {
     char *name = files[i]->name;
     if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
       continue;
-    fprintf(out, " \\\n  %s", name);
+    fprintf(out, " \\\n  %s", quote_makefile(name));
   }
 
   fprintf(out, "\n\n");
-- 
2.43.0


From a5b9c164365cef4a16c355506f9b13650ee39d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 08/85] fix: every inclusion of a file has its own search
 position and line numbering

---
 tokenize.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 3554614..bf7658a 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -924,16 +924,24 @@ static void convert_universal_chars(char *p) {
 File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
-  File *file = hashmap_get(&input_files_map, path);
-  if (file)
-    return file;
+  File *first = hashmap_get(&input_files_map, path);
+  if (first && !incl_no)
+    return first;
 
+  // A file that is read again starts afresh, under the same file number.
   static int file_no;
-  file = new_file(path, file_no + 1, contents);
+  File *file = new_file(path, first ? first->file_no : file_no + 1, contents);
   if (incl_no) {
     file->is_input = true;
     file->incl_no = *incl_no;
   }
+  if (first) {
+    if (!first->is_input) {
+      input_files[first->file_no - 1] = file;
+      hashmap_put(&input_files_map, path, file);
+    }
+    return file;
+  }
 
   input_files = realloc(input_files, sizeof(File *) * (file_no + 2));
   input_files[file_no] = file;
-- 
2.43.0


From e7698701c8137289ab62145c69f3a7de8545f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 09/85] fix: -MM leaves out empty system headers and what a
 system header's last line includes

---
 preprocess.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 2c661c7..c81af36 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1124,6 +1124,8 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
   Token *start = tokenize_file(path, &end, incl_no);
   if (!start)
     error_tok(filename_tok, "%s: cannot open file: %s", path, strerror(errno));
+  if (filename_tok->file->is_syshdr || in_sysincl_path(path))
+    start->file->is_syshdr = true;
   if (!end)
     return tok;
 
@@ -1131,9 +1133,6 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     start->next->next->kind == TK_IDENT && equal(end, "endif"))
     start->next->is_incl_guard = end->is_incl_guard = true;
 
-  if (tok->file->is_syshdr || in_sysincl_path(end->file->name))
-    end->file->is_syshdr = true;
-
   end->next = tok;
   return start;
 }
-- 
2.43.0


From 055b749cedf352d15ef3297dc4146689ec639190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 10/85] fix: __FILE__ of a name with backslashes or quotes
 denotes that name

---
 preprocess.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index c81af36..69eaf53 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1510,11 +1510,22 @@ void undef_macro(char *name) {
   hashmap_delete(&macros, name);
 }
 
+// Spell a file name so that the literal denotes it.
+static Token *new_filename_token(char *name, Token *tmpl) {
+  char *buf = calloc(1, strlen(name) * 2 + 1);
+  for (char *p = name, *q = buf; *p; p++) {
+    if (*p == '\\' || *p == '"' || *p == '\n')
+      *q++ = '\\';
+    *q++ = *p == '\n' ? 'n' : *p;
+  }
+  return new_str_token(buf, tmpl);
+}
+
 static Token *file_macro(Token *start) {
   Token *tok = start;
   if (tok->origin)
     tok = tok->origin;
-  tok = new_str_token(tok->file->display_file->name, tok);
+  tok = new_filename_token(tok->file->display_file->name, tok);
   tok->next = start->next;
   return tok;
 }
@@ -1556,7 +1567,7 @@ static Token *timestamp_macro(Token *start) {
 }
 
 static Token *base_file_macro(Token *start) {
-  Token *tok = new_str_token(base_file, start);
+  Token *tok = new_filename_token(base_file, start);
   tok->next = start->next;
   return tok;
 }
-- 
2.43.0


From 72407c8078b99f7fc85d40c29c4bc4fd5bd0cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 11/85] fix: the line number of a #line directive is decimal

---
 preprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 69eaf53..313e5fd 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1219,8 +1219,12 @@ static void read_line_marker(Token **rest, Token *tok) {
   Token *start = tok;
   tok = expand_tok(split_line(rest, tok));
 
-  int64_t val;
-  if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+  // The number is decimal, even with leading zeros.
+  char *p = tok->loc;
+  int64_t val = 0;
+  for (; p < tok->loc + tok->len && *p >= '0' && *p <= '9' && val <= INT32_MAX; p++)
+    val = val * 10 + *p - '0';
+  if (tok->kind != TK_PP_NUM || p != tok->loc + tok->len || val > INT32_MAX)
     error_tok(tok, "invalid line marker");
 
   start->file->line_delta = val - start->line_no - 1;
-- 
2.43.0


From e035e79ae81dff5ee0984ff62836c6aeb6dc5322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 12/85] fix: floating literals are rounded once

---
 tokenize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index bf7658a..a723222 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -599,14 +599,14 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   long double val = strtold(buf, &end);
 
   if (*end == 'f' || *end == 'F') {
-    val = (float)val;
+    val = strtof(buf, NULL);
     ty = ty_float;
     end++;
   } else if (*end == 'l' || *end == 'L') {
     ty = ty_ldouble;
     end++;
   } else {
-    val = (double)val;
+    val = strtod(buf, NULL);
     ty = ty_double;
   }
 
-- 
2.43.0


From d41a37bf3ce1d0769a9a9644baef23a077e4b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 13/85] fix: 08 and 0x1.8 are not floating literals

---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index a723222..6b862f0 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -595,6 +595,10 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
     return ty;
 
   // If it's not an integer, it must be a floating point constant.
+  bool is_hex = buf[0] == '0' && Casecmp(buf[1], 'x');
+  if (!strpbrk(buf, is_hex ? "pP" : ".eEfF"))
+    error_tok(tok, "invalid numeric constant");
+
   char *end;
   long double val = strtold(buf, &end);
 
-- 
2.43.0


From 67004aa9b14bdad95f60c983c39e8ba20710b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 14/85] fix: an escaped backslash before u is not a universal
 character name

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 6b862f0..0773f45 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -918,6 +918,8 @@ static void convert_universal_chars(char *p) {
         q += encode_utf8(q, c);
         continue;
       }
+    } else if (startswith2(p, '\\', '\\')) {
+      *q++ = *p++;
     }
     *q++ = *p++;
   }
-- 
2.43.0


From 0a669ef2a73cdd07b68de820cfc914cd093773a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 15/85] fix: u8 and u string literals do not concatenate

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 313e5fd..3f24da7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1780,7 +1780,7 @@ typedef enum {
 } StringKind;
 
 static StringKind getStringKind(Token *tok) {
-  if (!strcmp(tok->loc, "u8"))
+  if (!strncmp(tok->loc, "u8", 2))
     return STR_UTF8;
 
   switch (tok->loc[0]) {
-- 
2.43.0


From b26dcbccb3c430b75ea72c48510e6f6eda9abaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 16/85] fix: U'' constants above 0x7fffffff keep their unsigned
 value

---
 tokenize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenize.c b/tokenize.c
index 0773f45..38b231c 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -772,6 +772,7 @@ Token *tokenize(File *file, Token **end) {
     // UTF-32 character literal
     if (startswith2(p, 'U', '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_uint);
+      cur->ival = (uint32_t)cur->ival;
       p += cur->len;
       continue;
     }
-- 
2.43.0


From 567208daccd66770ed760eaf2079a52f291bc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 17/85] fix: do not link object inputs under -c, -S, -E and -M

---
 main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index d3d99a8..ac58fd9 100644
--- a/main.c
+++ b/main.c
@@ -1082,6 +1082,7 @@ int main(int argc, char **argv) {
     error("cannot specify '-o' with '-c,' '-S' or '-E' with multiple files");
 
   bool no_fork = (input_cnt == 1);
+  bool no_link = opt_c || opt_S || opt_E || opt_M;
   StringArray ld_args = {0};
   FileType opt_x = FILE_NONE;
 
@@ -1179,7 +1180,7 @@ int main(int argc, char **argv) {
     continue;
   }
 
-  if (ld_args.len) {
+  if (ld_args.len && !no_link) {
     for (int i = 0; i < ld_extra_args.len; i++)
       strarray_push(&ld_args, ld_extra_args.data[i]);
 
-- 
2.43.0


From 6f183a4b6167ac5c29442cffaf7b8ee5553c17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 18/85] fix: a failure to write an output file is an error

---
 main.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index ac58fd9..b559994 100644
--- a/main.c
+++ b/main.c
@@ -562,6 +562,21 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+static void close_file(FILE *out, char *path) {
+  bool failed = ferror(out);
+  bool is_stdout = out == stdout;
+
+  if ((is_stdout ? fflush(out) : fclose(out)) != 0)
+    failed = true;
+
+  if (failed) {
+    struct stat st;
+    if (!is_stdout && !stat(path, &st) && S_ISREG(st.st_mode))
+      unlink(path);
+    error("cannot write output file: %s", is_stdout ? "-" : path);
+  }
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -696,10 +711,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -752,10 +764,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -825,10 +834,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From df50e0ffdbde509f0a4c59fd949eec02513963c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 19/85] fix: labels in deferred statements are distinct in each
 copy

---
 codegen.c | 47 +++++++++++++++++++++++++++++++----------------
 slimcc.h  |  1 +
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..6c6b37a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1325,6 +1325,16 @@ static void builtin_alloca(Node *node) {
     Printstn("mov %%rsp, %%rax");
 }
 
+// A deferred statement is emitted once for every exit from its scope;
+// all but the first copy need labels of their own.
+static int64_t defr_copy;
+
+static char *jump_label(char *label) {
+  if (defr_copy)
+    return format("%s.%"PRIi64, label, defr_copy);
+  return label;
+}
+
 static void gen_defr(Node *node) {
   DeferStmt *defr = node->defr_start;
   DeferStmt *end = node->defr_end;
@@ -1354,7 +1364,12 @@ static void gen_defr(Node *node) {
       continue;
     }
     if (defr->kind == DF_DEFER_STMT) {
+      int64_t outer = defr_copy;
+      if (defr->is_emitted)
+        defr_copy = count();
+      defr->is_emitted = true;
       gen_stmt(defr->stmt);
+      defr_copy = outer;
       defr = defr->next;
       continue;
     }
@@ -1781,7 +1796,7 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     return;
   case ND_LABEL_VAL:
-    Printftn("lea %s(%%rip), %%rax", node->unique_label);
+    Printftn("lea %s(%%rip), %%rax", jump_label(node->unique_label));
     return;
   case ND_CAS: {
     gen_expr(node->cas_addr);
@@ -2094,14 +2109,14 @@ static void gen_stmt(Node *node) {
       gen_stmt(node->init);
     Printfsn(".L.begin.%"PRIi64":", c);
     if (node->cond)
-      gen_cond(node->cond, false, node->brk_label);
+      gen_cond(node->cond, false, jump_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", jump_label(node->cont_label));
     if (node->inc)
       gen_void_expr(node->inc);
     gen_defr(node);
     Printftn("jmp .L.begin.%"PRIi64, c);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_DO: {
@@ -2110,9 +2125,9 @@ static void gen_stmt(Node *node) {
 
     Printfsn("%s:", begin_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", jump_label(node->cont_label));
     gen_cond(node->cond, true, begin_label);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_SWITCH: {
@@ -2131,26 +2146,26 @@ static void gen_stmt(Node *node) {
 
       if (cr->hi == cr->lo) {
         imm_cmp(ax, dx, cr->lo);
-        Printftn("je %s", cr->label);
+        Printftn("je %s", jump_label(cr->label));
         continue;
       }
       if (cr->lo == 0) {
         imm_cmp(ax, dx, cr->hi);
-        Printftn("jbe %s", cr->label);
+        Printftn("jbe %s", jump_label(cr->label));
         continue;
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
       imm_cmp(cx, dx, cr->hi - cr->lo);
-      Printftn("jbe %s", cr->label);
+      Printftn("jbe %s", jump_label(cr->label));
     }
 
     if (node->default_case)
-      Printftn("jmp %s", node->default_case->label);
+      Printftn("jmp %s", jump_label(node->default_case->label));
 
-    Printftn("jmp %s", node->brk_label);
+    Printftn("jmp %s", jump_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_BLOCK:
@@ -2160,14 +2175,14 @@ static void gen_stmt(Node *node) {
     return;
   case ND_GOTO:
     gen_defr(node);
-    Printftn("jmp %s", node->unique_label);
+    Printftn("jmp %s", jump_label(node->unique_label));
     return;
   case ND_GOTO_EXPR:
     gen_expr(node->lhs);
     Printstn("jmp *%%rax");
     return;
   case ND_LABEL:
-    Printfsn("%s:", node->unique_label);
+    Printfsn("%s:", jump_label(node->unique_label));
     return;
   case ND_RETURN: {
     if (!node->lhs) {
@@ -3652,7 +3667,7 @@ static void asm_body(Node *node) {
       if (node->asm_outputs)
         Printf("%df", ap->label_id);
       else
-        Printf("%s", ap->arg->unique_label);
+        Printf("%s", jump_label(ap->arg->unique_label));
       continue;
     }
 
@@ -3802,7 +3817,7 @@ static void gen_asm(Node *node) {
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
       Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", ap->arg->unique_label, tmp_gp);
+      Printftn("lea %s(%%rip), %s", jump_label(ap->arg->unique_label), tmp_gp);
       Printftn("jmp %df", meet_label);
     }
     Printftn("%d:", meet_label);
diff --git a/slimcc.h b/slimcc.h
index 8590058..7cbf020 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -318,6 +318,7 @@ struct DeferStmt {
   Obj *vla;
   Node *cleanup_fn;
   Node *stmt;
+  bool is_emitted;
 };
 
 typedef enum {
-- 
2.43.0


From 6cb213eefdcaeb71ce1647d8ea22a5da5b4ee91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 20/85] fix: reject jumps into and out of deferred statements

---
 parse.c  | 17 +++++++++++++++++
 slimcc.h |  1 +
 2 files changed, 18 insertions(+)

diff --git a/parse.c b/parse.c
index 227a82b..01dfbc3 100644
--- a/parse.c
+++ b/parse.c
@@ -126,6 +126,9 @@ static Node *labels;
 
 static DeferStmt *current_defr;
 
+// Innermost deferred statement being parsed
+static Token *defr_body;
+
 static bool fn_use_vla;
 static bool dont_dealloc_vla;
 static bool is_global_init_context;
@@ -2421,6 +2424,7 @@ static Token *label_stmt(Node **cur_node, Token **rest, Token *tok) {
     if (node) {
       node->labels = head.label_next;
       node->defr_start = current_defr;
+      node->defr_body = defr_body;
       node->goto_next = labels;
       (*cur_node) = (*cur_node)->next = labels = node;
     }
@@ -2491,6 +2495,8 @@ static JumpContext *resolve_labeled_jump(Token **rest, Token *tok, bool is_cont)
 //      | expr-stmt
 static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   if (equal(tok, "return")) {
+    if (defr_body)
+      error_tok(tok, "return in a deferred statement");
     Node *node = new_node(ND_RETURN, tok);
     node->defr_start = current_defr;
     if (consume(rest, tok->next, ";"))
@@ -2626,6 +2632,7 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     node->labels = ident_tok(&tok, tok->next);
     node->goto_next = gotos;
     node->defr_start = current_defr;
+    node->defr_body = defr_body;
     gotos = node;
     *rest = skip(tok, ";");
     return node;
@@ -2644,7 +2651,14 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   }
 
   if (equal_kw(tok, "defer") || equal(tok, "_Defer")) {
+    // Jumps cannot leave a deferred statement
+    JumpContext *outer_ctx = jump_ctx;
+    Token *outer_body = defr_body;
+    jump_ctx = NULL;
+    defr_body = tok;
     Node *node = secondary_block(rest, tok->next);
+    jump_ctx = outer_ctx;
+    defr_body = outer_body;
     add_type(node);
     new_defr(DF_DEFER_STMT)->stmt = node;
     return new_node(ND_NULL_STMT, tok);
@@ -4521,6 +4535,9 @@ static void resolve_goto_labels(void) {
     if (!dest)
       error_tok(x->tok->next, "use of undeclared label");
 
+    if (x->kind == ND_GOTO && x->defr_body != dest->defr_body)
+      error_tok(x->tok->next, "illegal jump");
+
     x->unique_label = dest->unique_label;
     if (!dest->defr_start)
       continue;
diff --git a/slimcc.h b/slimcc.h
index 7cbf020..0c6ecfd 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -459,6 +459,7 @@ struct Node {
   // Goto or labeled statement, or labels-as-values
   Token *labels;
   char *unique_label;
+  Token *defr_body;
   Node *goto_next;
 
   // Switch
-- 
2.43.0


From f228f49ad6d9be56bda312ee2b34012a3dbafff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 21/85] fix: reject case labels that skip a defer of the switch
 body from an inner loop

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 01dfbc3..c296c43 100644
--- a/parse.c
+++ b/parse.c
@@ -2349,7 +2349,7 @@ static Token *label_stmt(Node **cur_node, Token **rest, Token *tok) {
             break;
         if (!ctx)
           error_tok(tok, "stray case");
-        if (jump_ctx->defr_end != current_defr)
+        if (ctx->defr_end != current_defr)
           error_tok(tok, "illegal jump");
         active_sw = ctx->switch_node;
       }
-- 
2.43.0


From 65ba06ba2eb607ca004d5e5ab4a063399d60f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:51 +0000
Subject: [PATCH 22/85] fix: the controlling expression of a switch is promoted

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index c296c43..30cd4dc 100644
--- a/parse.c
+++ b/parse.c
@@ -2535,6 +2535,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     add_type(node->cond);
     if (!is_integer(node->cond->ty))
       error_tok(tok, "controlling expression not integer");
+    node->cond = new_unary(ND_POS, node->cond, node->tok);
+    add_type(node->cond);
 
     JumpContext ctx = {.next = jump_ctx, .switch_node = node};
     jump_ctx = &ctx;
-- 
2.43.0


From 8777595f7c688c884afc098e500fc2d529a3b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 23/85] fix: an out-of-range constant shift count does not make
 invalid assembly

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 6c6b37a..3ea1d43 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2693,7 +2693,7 @@ static bool gen_shift_opt_gp(Node *node) {
 
   if (is_const_expr(node->rhs, &val)) {
     gen_expr(node->lhs);
-    imm_arith(node->kind, node->ty->size, val);
+    imm_arith(node->kind, node->ty->size, val & (node->ty->size * 8 - 1));
     return true;
   }
   if (is_memop(node->rhs, ofs, &ptr, true)) {
-- 
2.43.0


From 02ea384586a16d88e3ae86860939188542547730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 24/85] fix: #if expressions are evaluated in intmax_t and
 uintmax_t

---
 preprocess.c | 18 ++++++++++++++++++
 slimcc.h     |  1 +
 type.c       |  7 +++++--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 3f24da7..cb7e034 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -375,11 +375,29 @@ static int64_t eval_const_expr(Token *tok) {
   if (tok->kind == TK_EOF)
     error_tok(start, "no expression");
 
+  // All operands have the width of intmax_t
+  for (Token *t = tok; t->kind != TK_EOF; t = t->next) {
+    if (t->kind == TK_INT_NUM || t->kind == TK_PP_NUM) {
+      int64_t ival;
+      long double fval;
+      Type *ty = convert_pp_number(t, &ival, &fval);
+      if (is_integer(ty)) {
+        bool is_unsigned = ty->is_unsigned;
+        if (t->kind == TK_PP_NUM && ival >= 0)
+          is_unsigned = memchr(t->loc, 'u', t->len) || memchr(t->loc, 'U', t->len);
+        to_int_token(t, ival);
+        t->ty = is_unsigned ? ty_ullong : ty_llong;
+      }
+    }
+  }
+
   arena_on(&ast_arena);
   arena_on(&node_arena);
 
   Token *end;
+  in_pp_expr = true;
   int64_t val = const_expr(&end, tok);
+  in_pp_expr = false;
 
   arena_off(&node_arena);
   arena_off(&ast_arena);
diff --git a/slimcc.h b/slimcc.h
index 0c6ecfd..9a82682 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -629,6 +629,7 @@ extern Type *ty_ptrdiff_t;
 extern Type *ty_first_64bit_int;
 extern Type *ty_first_64bit_uint;
 
+extern bool in_pp_expr;
 bool is_integer(Type *ty);
 bool is_flonum(Type *ty);
 bool is_numeric(Type *ty);
diff --git a/type.c b/type.c
index 4f2e385..c738033 100644
--- a/type.c
+++ b/type.c
@@ -27,6 +27,9 @@ Type *ty_ptrdiff_t;
 Type *ty_first_64bit_int;
 Type *ty_first_64bit_uint;
 
+// Evaluating a preprocessor expression
+bool in_pp_expr;
+
 Type *to_unsigned(TypeKind kind) {
   switch (kind) {
     case TY_INT:
@@ -473,7 +476,7 @@ void add_type(Node *node) {
   case ND_GT:
   case ND_GE:
     usual_arith_conv(&node->lhs, &node->rhs, true);
-    node->ty = ty_int;
+    node->ty = in_pp_expr ? ty_llong : ty_int;
     return;
   case ND_FUNCALL:
     assert(!!node->ty);
@@ -481,7 +484,7 @@ void add_type(Node *node) {
   case ND_NOT:
   case ND_LOGOR:
   case ND_LOGAND:
-    node->ty = ty_int;
+    node->ty = in_pp_expr ? ty_llong : ty_int;
     return;
   case ND_BITNOT:
     if (!is_integer(node->lhs->ty))
-- 
2.43.0


From 868ebcb78402443da0b8948926a9e43a66bcb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 25/85] fix: conversions of long double to short, unsigned
 short and unsigned int

---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3ea1d43..e22bf4e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1068,10 +1068,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From 5ba3ba2964973acf1bf7506e48e5c545804b0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 26/85] fix: folded conversions of integers to floating types
 are rounded

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 30cd4dc..e97a94f 100644
--- a/parse.c
+++ b/parse.c
@@ -3191,8 +3191,8 @@ static long double eval_double(Node *node) {
     if (is_flonum(lhs->ty))
       return eval_fp_cast(eval_double(lhs), ty);
     if (lhs->ty->size == 8 && lhs->ty->is_unsigned)
-      return (uint64_t)eval(lhs);
-    return eval(lhs);
+      return eval_fp_cast((uint64_t)eval(lhs), ty);
+    return eval_fp_cast(eval(lhs), ty);
   case ND_NUM:
     return node->fval;
   }
-- 
2.43.0


From 0c9e3c8aa81954e43022faf822016c69d41fe33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 27/85] fix: keep the value when saving the result of long
 double post-increment

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index e22bf4e..59405a7 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1707,6 +1707,8 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fld %%st(0)");
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
-- 
2.43.0


From 3e251a3527bd436ae74d057d7bce5ea57485e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 28/85] fix: do not invert negated floating-point comparisons

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 59405a7..d6ca57f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2859,7 +2859,8 @@ static bool gen_bool_opt(Node *node) {
     return false;
   node = boolexpr;
 
-  if (is_cmp(node)) {
+  // Inverting an ordered floating-point comparison is wrong for NaN operands.
+  if (is_cmp(node) && !(flip && is_flonum(node->lhs->ty))) {
     Node n = *node;
     flip_cmp(&n.kind, flip);
     gen_expr(&n);
-- 
2.43.0


From 120ede5133a9fd32c7a2aced789c98906eca714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 29/85] fix: fold floating-point arithmetic in the type of the
 expression

---
 parse.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index e97a94f..b363f01 100644
--- a/parse.c
+++ b/parse.c
@@ -3165,6 +3165,24 @@ static long double eval_fp_cast(long double fval, Type *ty) {
   internal_error();
 }
 
+static long double eval_fp_arith(NodeKind kind, long double lhs, long double rhs, Type *ty) {
+#define FP_ARITH(T)                            \
+  switch (kind) {                              \
+  case ND_ADD: return (T)((T)lhs + (T)rhs);    \
+  case ND_SUB: return (T)((T)lhs - (T)rhs);    \
+  case ND_MUL: return (T)((T)lhs * (T)rhs);    \
+  case ND_DIV: return (T)((T)lhs / (T)rhs);    \
+  default: internal_error();                   \
+  }
+  switch (ty->kind) {
+  case TY_FLOAT: FP_ARITH(float)
+  case TY_DOUBLE: FP_ARITH(double)
+  case TY_LDOUBLE: FP_ARITH(long double)
+  }
+#undef FP_ARITH
+  internal_error();
+}
+
 static long double eval_double(Node *node) {
   if (eval_recover && *eval_recover)
     return false;
@@ -3174,10 +3192,13 @@ static long double eval_double(Node *node) {
   Node *rhs = node->rhs;
 
   switch (node->kind) {
-  case ND_ADD: return eval_fp_cast(eval_double(lhs) + eval_double(rhs), ty);
-  case ND_SUB: return eval_fp_cast(eval_double(lhs) - eval_double(rhs), ty);
-  case ND_MUL: return eval_fp_cast(eval_double(lhs) * eval_double(rhs), ty);
-  case ND_DIV: return eval_fp_cast(eval_double(lhs) / eval_double(rhs), ty);
+  case ND_ADD:
+  case ND_SUB:
+  case ND_MUL:
+  case ND_DIV: {
+    long double lval = eval_double(lhs);
+    return eval_fp_arith(node->kind, lval, eval_double(rhs), ty);
+  }
   case ND_POS:
     return eval_double(lhs);
   case ND_NEG:
-- 
2.43.0


From c5ab42fb60ef129c6b7b5c2b3edf1ef37c3025f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 30/85] fix: convert static bit-field initializers to the type
 of the bit-field

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index b363f01..b05db26 100644
--- a/parse.c
+++ b/parse.c
@@ -2075,7 +2075,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
-- 
2.43.0


From 3df3f10bca725101d8d2bf00d620342dfa02c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 31/85] fix: static initialization of bit-fields of 64 bits

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index b05db26..e58e522 100644
--- a/parse.c
+++ b/parse.c
@@ -2080,7 +2080,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = -1ULL >> (64 - mem->bit_width);
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From 89ed171c8564c69bc1b77a6d8900e80b69ba7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 32/85] fix: accept a trailing comma after a braced string
 initializer

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index e58e522..0d40931 100644
--- a/parse.c
+++ b/parse.c
@@ -1826,6 +1826,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     Token *start = tok;
     Token *str_tok;
     if (equal(tok, "{") && is_str_tok(&tok, tok->next, &str_tok)) {
+      consume(&tok, tok, ",");
       if (consume(rest, tok, "}")) {
         string_initializer(str_tok, init);
         return;
-- 
2.43.0


From b9ae0c91405d605ff8517197f7aee6c18ddb6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 33/85] fix: elements given after a whole structure value were
 dropped

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 0d40931..16c78e4 100644
--- a/parse.c
+++ b/parse.c
@@ -1795,6 +1795,7 @@ static int count_array_init_elements(Token *tok, Type *ty) {
 
 static void braced_initializer(Token **rest, Token *tok, Initializer *init) {
   Token *start = tok;
+  init->kind = INIT_LIST;
   list_initializer(&tok, tok, init, 0);
 
   for (; comma_list(rest, &tok, "}", tok != start);) {
@@ -1867,6 +1868,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    init->kind = INIT_LIST;
     list_initializer(rest, tok, init, 0);
     return;
   }
@@ -1886,6 +1888,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    init->kind = INIT_LIST;
     init->initmem = init->ty->members;
     initializer2(rest, tok, &init->mem_arr[0]);
     return;
-- 
2.43.0


From 92e42ff89a86fa29778c0b0cb0088bda2c8b88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 34/85] fix: reject negative and oversized array designators

---
 parse.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parse.c b/parse.c
index 16c78e4..70c3d66 100644
--- a/parse.c
+++ b/parse.c
@@ -1677,6 +1677,13 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
   return false;
 }
 
+static int array_index(Token **rest, Token *tok, int64_t array_len) {
+  int64_t idx = const_expr(rest, tok);
+  if (idx < 0 || idx >= array_len)
+    error_tok(tok, "array designator index exceeds array bounds");
+  return idx;
+}
+
 // array-designator = "[" const-expr "]"
 //
 // C99 added the designated initializer to the language, which allows
@@ -1703,14 +1710,10 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
 //
 // The above initializer sets x.c to 5.
 static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
-  *begin = const_expr(&tok, tok->next);
-  if (*begin >= ty->array_len)
-    error_tok(tok, "array designator index exceeds array bounds");
+  *begin = array_index(&tok, tok->next, ty->array_len);
 
   if (equal(tok, "...")) {
-    *end = const_expr(&tok, tok->next);
-    if (*end >= ty->array_len)
-      error_tok(tok, "array designator index exceeds array bounds");
+    *end = array_index(&tok, tok->next, ty->array_len);
     if (*end < *begin)
       error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
   } else {
@@ -1777,9 +1780,9 @@ static int count_array_init_elements(Token *tok, Type *ty) {
   int i = 0, max = 0;
   while (comma_list(&tok, &tok, "}", i)) {
     if (equal(tok, "[")) {
-      i = const_expr(&tok, tok->next);
+      i = array_index(&tok, tok->next, INT32_MAX);
       if (equal(tok, "..."))
-        i = const_expr(&tok, tok->next);
+        i = array_index(&tok, tok->next, INT32_MAX);
       tok = skip(tok, "]");
       designation(&tok, tok, &dummy);
     } else {
-- 
2.43.0


From 8c6290f092040efe744042139a65632558c0d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 35/85] fix: value of assigning to an 8, 16 or 32 bit bit-field
 of 64-bit type

---
 codegen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index d6ca57f..2a9ca27 100644
--- a/codegen.c
+++ b/codegen.c
@@ -667,8 +667,15 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
+    if (is_void)
+      return;
+    if (mem->ty->size == 8 && alt_ty->size < 8) {
+      int shft = 64 - mem->bit_width;
+      Printftn("shl $%d, %%rax", shft);
+      Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), shft);
+    } else if (alt_ty->size < 4) {
       cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    }
     return;
   }
 
-- 
2.43.0


From a1665b8f7c30264896187334c5b0096c79b5f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 36/85] fix: alignment of a struct type is not that of what it
 declares

---
 parse.c  | 16 ++++++++++------
 slimcc.h |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index 70c3d66..4d06e41 100644
--- a/parse.c
+++ b/parse.c
@@ -49,6 +49,7 @@ typedef struct {
   char *section;
   char *visibility;
   int align;
+  int ty_align;
 } VarAttr;
 
 // This struct represents a variable initializer. Since initializers
@@ -681,6 +682,7 @@ static void str_attr(Token *loc, TokenKind kind, char *name, char **str) {
 
 static void tyspec_attr(Token *tok, VarAttr *attr, TokenKind kind) {
   attr_aligned(tok, &attr->align, kind);
+  attr_aligned(tok, &attr->ty_align, TK_TYATTR);
   attr_cleanup(tok, kind, &attr->cleanup_fn);
   bool_attr(tok, kind, "weak", &attr->is_weak);
   bool_attr(tok, kind, "gnu_inline", &attr->is_gnu_inline);
@@ -1464,7 +1466,7 @@ static void defr_cleanup(Obj *var, Obj *fn, Token *tok) {
 static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr, Obj **cond_var) {
   Node *expr = NULL;
   Token *name = NULL;
-  int alt_align = attr ? attr->align : 0;
+  int alt_align = attr ? MAX(attr->align, attr->ty_align) : 0;
 
   Type *ty = declarator2(&tok, tok, basety, &name, &alt_align);
 
@@ -3837,7 +3839,11 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   // Construct a struct object.
   struct_members(&tok, tok, ty);
 
-  attr_aligned(tok, &alt_align, TK_ATTR);
+  // An alignment given here belongs to the type, not to what it declares.
+  for (Token *t = tok->attr_next; t; t = t->attr_next)
+    if (t->kind == TK_ATTR && equal_ext(t, "aligned"))
+      t->kind = TK_TYATTR;
+  attr_aligned(tok, &alt_align, TK_TYATTR);
   bool_attr(tok, TK_ATTR, "packed", &ty->is_packed);
   *rest = tok;
 
@@ -3879,9 +3885,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
       alt_align = MAX(alt_align, mem->alt_align);
     }
     if (mem->alt_align)
-      if (mem->alt_align > mem->ty->align ||
-        (mem->ty->kind != TY_STRUCT && mem->ty->kind != TY_UNION))
-        bits = align_to(bits, mem->alt_align * 8);
+      bits = align_to(bits, mem->alt_align * 8);
 
     if (mem->is_bitfield) {
       if (mem->bit_width == 0) {
@@ -4679,7 +4683,7 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
   bool first = true;
   for (; comma_list(&tok, &tok, ";", !first); first = false) {
     Token *name = NULL;
-    int alt_align = attr->align;
+    int alt_align = MAX(attr->align, attr->ty_align);
     Type *ty = declarator2(&tok, tok, basety, &name, &alt_align);
 
     if (ty->kind == TY_FUNC) {
diff --git a/slimcc.h b/slimcc.h
index 9a82682..89fc501 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -149,6 +149,7 @@ typedef enum {
   TK_PMARK,   // Placermarkers
   TK_ATTR,    // GNU attribute
   TK_BATTR,   // C23 attribute
+  TK_TYATTR,  // GNU attribute of the preceding type
   TK_EOF,     // End-of-file markers
 } TokenKind;
 
-- 
2.43.0


From 15eff4be2907e61f2a45686fcb15bf401f26ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 37/85] fix: _Alignas on an anonymous struct or union member

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 4d06e41..3b5c16a 100644
--- a/parse.c
+++ b/parse.c
@@ -50,6 +50,7 @@ typedef struct {
   char *visibility;
   int align;
   int ty_align;
+  int alignas_val;
 } VarAttr;
 
 // This struct represents a variable initializer. Since initializers
@@ -872,6 +873,7 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       else
         align = const_expr(&tok, tok);
       attr->align = MAX(attr->align, align);
+      attr->alignas_val = MAX(attr->alignas_val, align);
       tok = skip(tok, ")");
       continue;
     }
@@ -3761,6 +3763,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
       (basety->kind == TY_STRUCT || basety->kind == TY_UNION)) {
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->ty = basety;
+      mem->alt_align = attr.alignas_val;
 
       tok = tok->next;
       cur = cur->next = mem;
-- 
2.43.0


From 9631698d21246b46ceaecffa073457dc5b17dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 38/85] fix: value of a signed 8, 16 or 32 bit bit-field of
 64-bit type

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 2a9ca27..af1d435 100644
--- a/codegen.c
+++ b/codegen.c
@@ -648,6 +648,8 @@ static void gen_bitfield_load(Node *node, int ofs) {
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    if (mem->ty->size == 8 && alt_ty->size < 8 && !mem->ty->is_unsigned)
+      Printstn("movslq %%eax, %%rax");
     return;
   }
   load2(mem->ty, ofs, "%rax");
-- 
2.43.0


From 9ac20315a8b66d4460fe6ecba38686b7c46600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 39/85] fix: bit-fields of packed types

---
 codegen.c | 70 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 parse.c   | 49 ++++++++++++++++++++++++++++----------
 slimcc.h  |  1 +
 3 files changed, 102 insertions(+), 18 deletions(-)

diff --git a/codegen.c b/codegen.c
index af1d435..8f5bc77 100644
--- a/codegen.c
+++ b/codegen.c
@@ -155,6 +155,7 @@ static void imm_sub(char *op, char *tmp, int64_t val);
 static void imm_and(char *op, char *tmp, int64_t val);
 static void imm_cmp(char *op, char *tmp, int64_t val);
 static char *arith_ins(NodeKind kind);
+static char *reg_sz(Reg reg, int sz);
 
 #define Prints(str) fprintf(output_file, str)
 #define Printsts(str) fprintf(output_file, "\t" str)
@@ -643,6 +644,56 @@ static void gen_cmp_setcc(NodeKind kind, bool is_unsigned) {
   Printstn("movzbl %%al, %%eax");
 }
 
+static void bitfield_extend(Member *mem) {
+  int shft = 64 - mem->bit_width;
+  if (!shft)
+    return;
+  Printftn("shl $%d, %%rax", shft);
+  Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), shft);
+}
+
+// Access only the bytes that a bit-field occupies.
+static int bytewise_chunk(Member *mem, int pos) {
+  int len = (mem->bit_offset + mem->bit_width + 7) / 8 - pos;
+  return len >= 8 ? 8 : len >= 4 ? 4 : len >= 2 ? 2 : len;
+}
+
+static void bytewise_load(Member *mem, int ofs) {
+  Printstn("mov %%rax, %%rcx");
+
+  for (int pos = 0, sz; (sz = bytewise_chunk(mem, pos)); pos += sz) {
+    char *insn = sz == 1 ? "movzbl" : sz == 2 ? "movzwl" : "mov";
+    Printftn("%s %d(%%rcx), %s", insn, ofs + pos, reg_dx(MAX(sz, 4)));
+
+    int shft = pos * 8 - mem->bit_offset;
+    if (shft)
+      Printftn("%s $%d, %%rdx", (shft > 0 ? "shl" : "shr"), abs(shft));
+    Printftn("%s %%rdx, %%rax", (pos ? "or" : "mov"));
+  }
+  bitfield_extend(mem);
+}
+
+static void bytewise_store(Member *mem, bool is_void) {
+  char *ptr = pop_inreg(tmpreg64[0]);
+
+  for (int pos = 0, sz; (sz = bytewise_chunk(mem, pos)); pos += sz) {
+    Printstn("mov %%rax, %%rcx");
+
+    int shft = pos * 8 - mem->bit_offset;
+    if (shft)
+      Printftn("%s $%d, %%rcx", (shft > 0 ? "shr" : "shl"), abs(shft));
+
+    int lo = MAX(-shft, 0);
+    int hi = MIN(mem->bit_width - shft, sz * 8);
+    char *cx = reg_sz(REG_CX, sz);
+    Printftn("xor %d(%s), %s", pos, ptr, cx);
+    imm_and("%rcx", "%rdx", (-1ULL >> (64 - (hi - lo))) << lo);
+    Printftn("xor %s, %d(%s)", cx, pos, ptr);
+  }
+  if (!is_void)
+    bitfield_extend(mem);
+}
+
 static void gen_bitfield_load(Node *node, int ofs) {
   Member *mem = node->member;
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
@@ -652,6 +703,10 @@ static void gen_bitfield_load(Node *node, int ofs) {
       Printstn("movslq %%eax, %%rax");
     return;
   }
+  if (mem->is_bytewise) {
+    bytewise_load(mem, ofs);
+    return;
+  }
   load2(mem->ty, ofs, "%rax");
 
   char *ax = regop_ax(mem->ty);
@@ -671,13 +726,14 @@ static void gen_bitfield_store(Node *node, bool is_void) {
 
     if (is_void)
       return;
-    if (mem->ty->size == 8 && alt_ty->size < 8) {
-      int shft = 64 - mem->bit_width;
-      Printftn("shl $%d, %%rax", shft);
-      Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), shft);
-    } else if (alt_ty->size < 4) {
+    if (mem->ty->size == 8 && alt_ty->size < 8)
+      bitfield_extend(mem);
+    else if (alt_ty->size < 4)
       cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
-    }
+    return;
+  }
+  if (mem->is_bytewise) {
+    bytewise_store(mem, is_void);
     return;
   }
 
@@ -3510,6 +3566,8 @@ static bool asm_bitfield_out(AsmParam *ap, Reg tmpreg) {
     return false;
 
   Member *mem = ap->arg->member;
+  if (mem->is_bytewise)
+    error_tok(ap->arg->tok, "unsupported operand size");
   char *val = regs[ap->reg][3];
   char *tmp = regs[tmpreg][3];
 
diff --git a/parse.c b/parse.c
index 3b5c16a..9c19bc4 100644
--- a/parse.c
+++ b/parse.c
@@ -2089,11 +2089,11 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
           Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
-          uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = -1ULL >> (64 - mem->bit_width);
-          uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-          memcpy(loc, &combined, mem->ty->size);
+          for (int i = 0; i < mem->bit_width; i++) {
+            int pos = mem->bit_offset + i;
+            loc[pos / 8] |= ((newval >> i) & 1) << (pos % 8);
+          }
           continue;
         }
         cur = write_gvar_data(cur, init2, mem->ty, buf, offset + mem->offset, kind);
@@ -2851,10 +2851,14 @@ static char *eval_constexpr_data(Node *node) {
   int ofs;
   Obj *var = eval_var(node, &ofs, false);
 
-  if (!var || !(var->constexpr_data || is_static_const_var(var, ofs, node->ty->size)))
+  int size = node->ty->size;
+  if (is_bitfield(node))
+    size = align_to(node->member->bit_offset + node->member->bit_width, 8) / 8;
+
+  if (!var || !(var->constexpr_data || is_static_const_var(var, ofs, size)))
     return (char *)eval_error(node->tok, "not a compile-time constant");
 
-  if (ofs < 0 || (var->ty->size < (ofs + node->ty->size)))
+  if (ofs < 0 || (var->ty->size < (ofs + size)))
     return (char *)eval_error(node->tok, "constexpr access out of bounds");
 
   if (var->constexpr_data)
@@ -3112,16 +3116,18 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   if (ctx->kind == EV_CONST && is_integer(ty)) {
     char *data = eval_constexpr_data(node);
     if (data) {
-      int64_t val = eval_sign_extend(ty, read_buf(data, ty->size));
       if (is_bitfield(node)) {
+        uint64_t val = 0;
+        for (int i = 0; i < node->member->bit_width; i++) {
+          int pos = node->member->bit_offset + i;
+          val |= (uint64_t)((data[pos / 8] >> (pos % 8)) & 1) << i;
+        }
         int unused_msb = 64 - node->member->bit_width;
-        val <<= (unused_msb - node->member->bit_offset);
-
         if (ty->is_unsigned)
-          return (uint64_t)val >> unused_msb;
-        return val >> unused_msb;
+          return val;
+        return (int64_t)(val << unused_msb) >> unused_msb;
       }
-      return val;
+      return eval_sign_extend(ty, read_buf(data, ty->size));
     }
   }
   return eval_error(node->tok, "not a compile-time constant");
@@ -3875,6 +3881,23 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   return ty;
 }
 
+// A bit-field of a packed type may straddle the units of its declared
+// type, and the last of these may reach past the end of the object.
+static void packed_bitfields(Type *ty) {
+  if (!ty->is_packed)
+    return;
+  for (Member *mem = ty->members; mem; mem = mem->next) {
+    if (!mem->is_bitfield)
+      continue;
+    int sz = mem->ty->size;
+    if (mem->bit_offset + mem->bit_width > sz * 8 || mem->offset + sz > ty->size) {
+      mem->is_bytewise = true;
+      mem->offset += mem->bit_offset / 8;
+      mem->bit_offset %= 8;
+    }
+  }
+}
+
 static Type *struct_decl(Type *ty, int alt_align) {
   int bits = 0;
   Member head = {0};
@@ -3923,6 +3946,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
     ty->size = align_to(bits, 8) / 8;
   else
     ty->size = align_to(bits, ty->align * 8) / 8;
+  packed_bitfields(ty);
   return ty;
 }
 
@@ -3950,6 +3974,7 @@ static Type *union_decl(Type *ty, int alt_align) {
   if (alt_align)
     ty->align = alt_align;
   ty->size = align_to(ty->size, ty->align);
+  packed_bitfields(ty);
   return ty;
 }
 
diff --git a/slimcc.h b/slimcc.h
index 89fc501..53349d9 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -599,6 +599,7 @@ struct Member {
 
   // Bitfield
   bool is_bitfield;
+  bool is_bytewise; // does not fit in a unit of its type inside the object
   int bit_offset;
   int bit_width;
 };
-- 
2.43.0


From 0486dc1bf92f169f60019614eb178382e91ce79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 40/85] fix: reads past the end of structs passed or returned
 in registers

---
 codegen.c | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8f5bc77..c3b784c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1313,6 +1313,28 @@ static void copy_ret_buffer(Obj *var) {
   }
 }
 
+// Load up to 8 bytes of a struct without touching what follows it.
+static void load_gp_chunk(int i, char *ofs, char *ptr, Reg reg, int sz) {
+  int rem = MIN(sz, 8);
+  switch (rem) {
+  case 8:
+  case 4:
+    Printftn("mov %d+%s(%s), %s", i, ofs, ptr, reg_sz(reg, rem));
+    return;
+  }
+  int p2 = (rem & 1) ? 1 : 2;
+  rem -= p2;
+  Printftn("movz%sl %d+%s(%s), %s", (p2 == 1 ? "b" : "w"), i + rem, ofs, ptr, reg_sz(reg, 4));
+  for (; rem > 0; rem -= 2) {
+    Printftn("shl $16, %s", reg_sz(reg, 8));
+    Printftn("movw %d+%s(%s), %s", i + rem - 2, ofs, ptr, reg_sz(reg, 2));
+  }
+}
+
+static void load_fp_chunk(int i, char *ofs, char *ptr, int reg, int sz) {
+  Printftn("movs%s %d+%s(%s), %%xmm%d", (sz < 8 ? "s" : "d"), i, ofs, ptr, reg);
+}
+
 static void copy_struct_reg(void) {
   Type *ty = current_fn->ty->return_ty;
   int gp = 0, fp = 0;
@@ -1322,22 +1344,14 @@ static void copy_struct_reg(void) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
     if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
-      if (chunk_sz == 4)
-        Printftn("movss %d(%s), %%xmm%d", ofs, sptr, fp);
-      else
-        Printftn("movsd %d(%s), %%xmm%d", ofs, sptr, fp);
-      fp++;
+      load_fp_chunk(ofs, "0", sptr, fp++, chunk_sz);
       continue;
     }
     if (gp == 0) {
       Printstn("mov %%rax, %%rcx");
       sptr = "%rcx";
     }
-    int regsz = (chunk_sz > 4) ? 8 : (chunk_sz > 2) ? 4 : (chunk_sz > 1) ? 2 : 1;
-    if (gp == 0)
-      Printftn("mov %d(%%rcx), %s", ofs, reg_ax(regsz));
-    else
-      Printftn("mov %d(%%rcx), %s", ofs, reg_dx(regsz));
+    load_gp_chunk(ofs, "0", sptr, (gp == 0 ? REG_AX : REG_DX), chunk_sz);
     gp++;
   }
 }
@@ -1458,16 +1472,11 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
-    if (has_flonum1(ty))
-      Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else
-      Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-
-    if (ty->size > 8) {
-      if (has_flonum2(ty))
-        Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
+    for (int i = 0; i < ty->size; i += 8) {
+      if (i == 0 ? has_flonum1(ty) : has_flonum2(ty))
+        load_fp_chunk(i, ofs, ptr, (*fp)++, ty->size - i);
       else
-        Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
+        load_gp_chunk(i, ofs, ptr, argreg[(*gp)++], ty->size - i);
     }
     return;
   case TY_FLOAT:
-- 
2.43.0


From 69727c3c97706bad69725cbaf898b1bea5b70583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 41/85] fix: classification of structs passed and returned by
 value

---
 codegen.c | 217 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 123 insertions(+), 94 deletions(-)

diff --git a/codegen.c b/codegen.c
index c3b784c..588bcb3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -138,6 +138,7 @@ static struct {
 static void load2(Type *ty, int sofs, char *sptr);
 static void store2(Type *ty, int dofs, char *dptr);
 static void store_gp2(char **reg, int sz, int ofs, char *ptr);
+static void store_fp(int r, int sz, int ofs, char *ptr);
 
 static void gen_asm(Node *node);
 static void gen_expr(Node *node);
@@ -1181,76 +1182,107 @@ static void gen_cast(Node *node) {
 }
 
 // Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
+// using up to two registers, one for each of their eightbytes.
 //
-// If the first 8 bytes contains only floating-point type members,
-// they are passed in an XMM register. Otherwise, they are passed
-// in a general-purpose register.
+// If an eightbyte contains only floating-point type members, it is
+// passed in an XMM register. Otherwise it is passed in a general-purpose
+// register, or not at all if it is only padding.
 //
-// If a struct/union is larger than 8 bytes, the same rule is
-// applied to the the next 8 byte chunk.
-//
-// This function returns true if `ty` has only floating-point
-// members in its byte range [lo, hi).
-static bool has_flonum(Type *ty, int lo, int hi, int offset) {
+// Those with a long double or an unaligned member are passed in memory.
+typedef enum { RC_NONE, RC_GP, RC_FP } RegClass;
+
+static bool classify(Type *ty, int offset, RegClass *rc) {
   if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
     for (Member *mem = ty->members; mem; mem = mem->next) {
       int ofs = offset + mem->offset;
-      if ((ofs + mem->ty->size) <= lo)
+      if (mem->is_bitfield) {
+        rc[(ofs * 8 + mem->bit_offset) / 64] = RC_GP;
+        rc[(ofs * 8 + mem->bit_offset + mem->bit_width - 1) / 64] = RC_GP;
         continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(mem->ty, lo, hi, ofs))
+      }
+      if (!classify(mem->ty, ofs, rc))
         return false;
     }
     return true;
   }
 
   if (ty->kind == TY_ARRAY) {
-    for (int i = 0; i < ty->array_len; i++) {
-      int ofs = offset + ty->base->size * i;
-      if ((ofs + ty->base->size) <= lo)
-        continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(ty->base, lo, hi, ofs))
+    for (int i = 0; i < ty->array_len; i++)
+      if (!classify(ty->base, offset + ty->base->size * i, rc))
         return false;
-    }
     return true;
   }
 
-  return ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE;
-}
+  if (ty->kind == TY_LDOUBLE || offset % ty->size)
+    return false;
 
-static bool has_flonum1(Type *ty) {
-  return has_flonum(ty, 0, 8, 0);
+  if (ty->kind != TY_FLOAT && ty->kind != TY_DOUBLE)
+    rc[offset / 8] = RC_GP;
+  else if (rc[offset / 8] != RC_GP)
+    rc[offset / 8] = RC_FP;
+  return true;
 }
 
-static bool has_flonum2(Type *ty) {
-  return has_flonum(ty, 8, 16, 0);
+static bool is_by_reg(Type *ty, RegClass *rc) {
+  rc[0] = rc[1] = RC_NONE;
+  return ty->size <= 16 && classify(ty, 0, rc);
 }
 
-bool va_arg_need_copy(Type *ty) {
-  if (ty->size > 8 && ty->size <= 16) {
-    return has_flonum1(ty) || has_flonum2(ty);
+// Whether `ty` is just a long double. Such a struct is passed in memory
+// but returned like a long double.
+static bool is_x87_struct(Type *ty, bool *has_ldouble) {
+  switch (ty->kind) {
+  case TY_STRUCT:
+  case TY_UNION:
+    for (Member *mem = ty->members; mem; mem = mem->next)
+      if (mem->is_bitfield || !is_x87_struct(mem->ty, has_ldouble))
+        return false;
+    return true;
+  case TY_ARRAY:
+    return ty->array_len <= 0 || is_x87_struct(ty->base, has_ldouble);
+  case TY_LDOUBLE:
+    return *has_ldouble = true;
   }
   return false;
 }
 
+static bool is_rtn_by_x87(Type *ty) {
+  bool has_ldouble = false;
+  return ty->size <= 16 && is_x87_struct(ty, &has_ldouble) && has_ldouble;
+}
+
+static bool is_rtn_by_stk(Type *ty) {
+  if (ty->kind != TY_STRUCT && ty->kind != TY_UNION)
+    return false;
+  return !is_by_reg(ty, (RegClass[2]){0}) && !is_rtn_by_x87(ty);
+}
+
+bool va_arg_need_copy(Type *ty) {
+  if (ty->kind != TY_STRUCT && ty->kind != TY_UNION)
+    return false;
+  RegClass rc[2];
+  if (!is_by_reg(ty, rc))
+    return false;
+  if (ty->size <= 8)
+    return rc[0] == RC_NONE;
+  return rc[0] != RC_GP || rc[1] != RC_GP;
+}
+
 static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack_align) {
   int stack = 0;
   int max_align = 16;
   int gp = *gp_count, fp = *fp_count;
   for (; var; var = var->param_next) {
     Type *ty = var->ty;
+    RegClass rc[2];
     assert(ty->size != 0);
 
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      if (ty->size <= 16) {
-        int fp_inc = has_flonum1(ty) + (ty->size > 8 && has_flonum2(ty));
-        int gp_inc = !has_flonum1(ty) + (ty->size > 8 && !has_flonum2(ty));
+      if (is_by_reg(ty, rc)) {
+        int fp_inc = (rc[0] == RC_FP) + (rc[1] == RC_FP);
+        int gp_inc = (rc[0] == RC_GP) + (rc[1] == RC_GP);
 
         if ((!fp_inc || (fp + fp_inc <= FP_MAX)) &&
           (!gp_inc || (gp + gp_inc <= GP_MAX))) {
@@ -1292,24 +1324,22 @@ static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
 
+  if (is_rtn_by_x87(ty)) {
+    Printftn("fstpt %d(%s)", var->ofs, var->ptr);
+    return;
+  }
+
+  RegClass rc[2];
+  is_by_reg(ty, rc);
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
-      if (chunk_sz == 4)
-        Printftn("movss %%xmm%d, %d(%s)", fp, ofs + var->ofs, var->ptr);
-      else
-        Printftn("movsd %%xmm%d, %d(%s)", fp, ofs + var->ofs, var->ptr);
-      fp++;
-      continue;
+    if (rc[ofs / 8] == RC_FP) {
+      store_fp(fp++, chunk_sz, ofs + var->ofs, var->ptr);
+    } else if (rc[ofs / 8] == RC_GP) {
+      Reg r = gp++ ? REG_DX : REG_AX;
+      store_gp2(regs[r], chunk_sz, ofs + var->ofs, var->ptr);
     }
-    if (gp == 0)
-      store_gp2((char *[]){reg_ax(1), reg_ax(2), reg_ax(4), reg_ax(8)},
-                chunk_sz, ofs + var->ofs, var->ptr);
-    else
-      store_gp2((char *[]){reg_dx(1), reg_dx(2), reg_dx(4), reg_dx(8)},
-                chunk_sz, ofs + var->ofs, var->ptr);
-    gp++;
   }
 }
 
@@ -1338,21 +1368,22 @@ static void load_fp_chunk(int i, char *ofs, char *ptr, int reg, int sz) {
 static void copy_struct_reg(void) {
   Type *ty = current_fn->ty->return_ty;
   int gp = 0, fp = 0;
-  char *sptr = "%rax";
 
+  if (is_rtn_by_x87(ty)) {
+    Printstn("fldt (%%rax)");
+    return;
+  }
+
+  RegClass rc[2];
+  is_by_reg(ty, rc);
+  Printstn("mov %%rax, %%rcx");
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
-      load_fp_chunk(ofs, "0", sptr, fp++, chunk_sz);
-      continue;
-    }
-    if (gp == 0) {
-      Printstn("mov %%rax, %%rcx");
-      sptr = "%rcx";
-    }
-    load_gp_chunk(ofs, "0", sptr, (gp == 0 ? REG_AX : REG_DX), chunk_sz);
-    gp++;
+    if (rc[ofs / 8] == RC_FP)
+      load_fp_chunk(ofs, "0", "%rcx", fp++, chunk_sz);
+    else if (rc[ofs / 8] == RC_GP)
+      load_gp_chunk(ofs, "0", "%rcx", (gp++ ? REG_DX : REG_AX), chunk_sz);
   }
 }
 
@@ -1365,17 +1396,23 @@ static void copy_struct_mem(void) {
 }
 
 static void gen_vaarg_reg_copy(Type *ty, Obj *var) {
-  int gp_inc = !has_flonum1(ty) + !has_flonum2(ty);
+  RegClass rc[2];
+  is_by_reg(ty, rc);
+  int gp_inc = (rc[0] == RC_GP) + (rc[1] == RC_GP);
   if (gp_inc) {
     Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
     Printstn("ja 1f");
   }
-  int fp_inc = has_flonum1(ty) + has_flonum2(ty);
-  Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
-  Printstn("ja 1f");
+  int fp_inc = (rc[0] == RC_FP) + (rc[1] == RC_FP);
+  if (fp_inc) {
+    Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
+    Printstn("ja 1f");
+  }
 
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    if (rc[ofs / 8] == RC_NONE)
+      continue;
+    if (rc[ofs / 8] == RC_FP) {
       Printstn("movl 4(%%rax), %%ecx");  // fp_offset
       Printstn("addq 16(%%rax), %%rcx"); // reg_save_area
       Printstn("addq $16, 4(%%rax)");
@@ -1469,13 +1506,15 @@ static void print_loc(Token *tok) {
 }
 
 static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
+  RegClass rc[2];
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
+    is_by_reg(ty, rc);
     for (int i = 0; i < ty->size; i += 8) {
-      if (i == 0 ? has_flonum1(ty) : has_flonum2(ty))
+      if (rc[i / 8] == RC_FP)
         load_fp_chunk(i, ofs, ptr, (*fp)++, ty->size - i);
-      else
+      else if (rc[i / 8] == RC_GP)
         load_gp_chunk(i, ofs, ptr, argreg[(*gp)++], ty->size - i);
     }
     return;
@@ -1500,7 +1539,7 @@ static void gen_funcall_args(Node *node) {
     if (var->ptr)
       gen_var_assign(var, var->arg_expr);
 
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp = rtn_by_stk, fp = 0;
 
   int reg_arg_cnt = 0;
@@ -1561,7 +1600,7 @@ static void gen_funcall(Node *node) {
 
   // If the return type is a large struct/union, the caller passes
   // a pointer to a buffer as if it were the first argument.
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_align;
@@ -1865,7 +1904,7 @@ static void gen_expr2(Node *node, bool is_void) {
         cast_extend_int32(node->ty, reg_ax(node->ty->size), "%eax");
         return;
       }
-      if (node->ret_buffer && node->ty->size <= 16) {
+      if (node->ret_buffer && !is_rtn_by_stk(node->ty)) {
         copy_ret_buffer(node->ret_buffer);
         Printftn("lea %d(%s), %%rax", node->ret_buffer->ofs, node->ret_buffer->ptr);
       }
@@ -1942,13 +1981,14 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->lhs);
 
     Type *ty = node->ty->base;
-    bool use_reg_save = ty->size <= 16 && ty->kind != TY_LDOUBLE;
+    RegClass rc[2];
+    bool use_reg_save = is_by_reg(ty, rc);
     if (use_reg_save) {
       if (va_arg_need_copy(ty)) {
         // Structs with FP member are split into 8-byte chunks in the
         // reg save area, we reconstruct the layout with a local copy.
         gen_vaarg_reg_copy(ty, node->var);
-      } else if (has_flonum1(ty)) {
+      } else if (rc[0] == RC_FP) {
         Printftn("cmpl $%d, 4(%%rax)", 160);
         Printstn("ja 1f");
         Printstn("movl 4(%%rax), %%edx");  // fp_offset
@@ -2271,7 +2311,7 @@ static void gen_stmt(Node *node) {
     Type *ty = node->lhs->ty;
 
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      if (ty->size <= 16) {
+      if (!is_rtn_by_stk(ty)) {
         if (has_defr(node)) {
           push_copy(ty->size);
           gen_defr(node);
@@ -4087,15 +4127,7 @@ static void emit_data(Obj *var) {
 }
 
 static void store_fp(int r, int sz, int ofs, char *ptr) {
-  switch (sz) {
-  case 4:
-    Printftn("movss %%xmm%d, %d(%s)", r, ofs, ptr);
-    return;
-  case 8:
-    Printftn("movsd %%xmm%d, %d(%s)", r, ofs, ptr);
-    return;
-  }
-  internal_error();
+  Printftn("movs%s %%xmm%d, %d(%s)", (sz < 8 ? "s" : "d"), r, ofs, ptr);
 }
 
 static void store_gp2(char **reg, int sz, int dofs, char *dptr) {
@@ -4143,7 +4175,7 @@ void emit_text(Obj *fn) {
   Printftn(".type \"%s\", @function", asm_name(fn));
   Printfsn("\"%s\":", asm_name(fn));
 
-  bool rtn_by_stk = fn->ty->return_ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(fn->ty->return_ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_size = calling_convention(fn->ty->param_list, &gp_count, &fp_count, NULL);
@@ -4218,21 +4250,18 @@ void emit_text(Obj *fn) {
       continue;
 
     Type *ty = var->ty;
+    RegClass rc[2];
 
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      assert(ty->size <= 16);
-      if (has_flonum1(ty))
-        store_fp(fp++, MIN(8, ty->size), var->ofs, var->ptr);
-      else
-        store_gp(gp++, MIN(8, ty->size), var->ofs, var->ptr);
-
-      if (ty->size > 8) {
-        if (has_flonum2(ty))
-          store_fp(fp++, ty->size - 8, var->ofs + 8, var->ptr);
-        else
-          store_gp(gp++, ty->size - 8, var->ofs + 8, var->ptr);
+      is_by_reg(ty, rc);
+      for (int ofs = 0; ofs < ty->size; ofs += 8) {
+        int chunk_sz = MIN(8, ty->size - ofs);
+        if (rc[ofs / 8] == RC_FP)
+          store_fp(fp++, chunk_sz, var->ofs + ofs, var->ptr);
+        else if (rc[ofs / 8] == RC_GP)
+          store_gp(gp++, chunk_sz, var->ofs + ofs, var->ptr);
       }
       break;
     case TY_FLOAT:
@@ -4272,7 +4301,7 @@ void emit_text(Obj *fn) {
 
 // Logic should be in sync with gen_funcall_args()
 void prepare_funcall(Node *node, Scope *scope) {
-  bool rtn_by_stk = node->ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
 
   int reg_arg_cnt = 0;
-- 
2.43.0


From 41d17553481f18d540a4f1a9c3b75f18bc102a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 42/85] fix: discarded long double values left on the x87
 register stack

---
 codegen.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index 588bcb3..1c83f9a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1170,10 +1170,11 @@ static void gen_cast(Node *node) {
     gen_cmp_zero(node->lhs, ND_NE);
     return;
   }
-  gen_expr(node->lhs);
-
-  if (node->ty->kind == TY_VOID)
+  if (node->ty->kind == TY_VOID) {
+    gen_void_expr(node->lhs);
     return;
+  }
+  gen_expr(node->lhs);
 
   int t1 = getTypeId(node->lhs->ty);
   int t2 = getTypeId(node->ty);
@@ -1826,6 +1827,8 @@ static void gen_expr2(Node *node, bool is_void) {
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
     store(node->lhs, true);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fstp %%st(0)");
     pop_by_ty(node->lhs->ty);
     return;
   case ND_STMT_EXPR:
@@ -2393,6 +2396,16 @@ static void memop_arith(Node *lhs, Node *rhs, char *ins) {
   Printftn("%s %s, (%s)", ins_sz, reg_ax(lhs->ty->size), dptr);
 }
 
+// Evaluate an expression whose value has no use. A long double, unlike
+// the others, must not be left where it was evaluated.
+static void gen_discard(Node *node) {
+  gen_expr2(node, true);
+
+  if (node->ty->kind == TY_LDOUBLE ||
+    (node->kind == ND_FUNCALL && node->ret_buffer && is_rtn_by_x87(node->ty)))
+    Printstn("fstp %%st(0)");
+}
+
 static void gen_void_arith_assign(Node *node) {
   if (node->kind == ND_POST_INCDEC) {
     node->kind = ND_ARITH_ASSIGN;
@@ -2419,7 +2432,7 @@ static void gen_void_arith_assign(Node *node) {
       return;
     }
   }
-  gen_expr2(node, true);
+  gen_discard(node);
 }
 
 static void gen_void_assign(Node *node) {
@@ -2461,7 +2474,7 @@ static void gen_void_assign(Node *node) {
     }
   }
 
-  gen_expr2(node, true);
+  gen_discard(node);
 }
 
 static void gen_void_expr(Node *node) {
@@ -2511,7 +2524,7 @@ static void gen_void_expr(Node *node) {
     gen_void_arith_assign(node);
     return;
   }
-  gen_expr2(node, true);
+  gen_discard(node);
 }
 
 static char *arith_ins(NodeKind kind) {
-- 
2.43.0


From e643026ebe78512a7bc52cad848af98143d6af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 43/85] fix: fninit resets the rounding and precision modes of
 the x87

---
 codegen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 1c83f9a..a6f93e5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -859,7 +859,7 @@ static void load3(Type *ty, char *sofs, char *sptr) {
     Printftn("movsd %s(%s), %%xmm0", sofs, sptr);
     return;
   case TY_LDOUBLE:
-    Printftn("fninit; fldt %s(%s)", sofs, sptr);
+    Printftn("fldt %s(%s)", sofs, sptr);
     return;
   }
   load_extend_int(ty, sofs, sptr, regop_ax(ty));
@@ -912,7 +912,7 @@ static void store3(Type *ty, char *dofs, char *dptr) {
     return;
   case TY_LDOUBLE:
     Printftn("fstpt %s(%s)", dofs, dptr);
-    Printftn("fninit; fldt %s(%s)", dofs, dptr);
+    Printftn("fldt %s(%s)", dofs, dptr);
     return;
   }
 
@@ -991,21 +991,21 @@ static void load_fval(Type *ty, long double fval) {
 
   long double pos_z = +0.0L;
   if (!memcmp(&pos_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     return;
   }
   long double neg_z = -0.0L;
   if (!memcmp(&neg_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     Printstn("fchs");
     return;
   }
   if (fval == 1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     return;
   }
   if (fval == -1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     Printstn("fchs");
     return;
   }
@@ -1016,7 +1016,7 @@ static void load_fval(Type *ty, long double fval) {
   Printftn("movw $%"PRIu16", %%dx", (uint16_t)u.u64[1]);
   Printstn("push %%rdx");
   Printstn("push %%rax");
-  Printstn("fninit; fldt (%%rsp)");
+  Printstn("fldt (%%rsp)");
   Printstn("add $16, %%rsp");
   return;
 }
-- 
2.43.0


From b6b70e631309298e06b1d3760090dd1690ae598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 44/85] fix: %al at calls through pointers or without a
 prototype

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index a6f93e5..f3d6e8b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1627,7 +1627,8 @@ static void gen_funcall(Node *node) {
 
   gen_funcall_args(node);
 
-  if (node->lhs->ty->is_variadic) {
+  Type *fn_ty = node->lhs->ty->kind == TY_PTR ? node->lhs->ty->base : node->lhs->ty;
+  if (fn_ty->is_variadic || fn_ty->is_oldstyle) {
     if (fp_count)
       Printftn("movb $%d, %%al", fp_count);
     else
-- 
2.43.0


From da60cbade56176a134ed3fbec2c427b20f168a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 45/85] fix: classification of unions of a long double and
 integers

---
 codegen.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index f3d6e8b..fbe557a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1189,8 +1189,9 @@ static void gen_cast(Node *node) {
 // passed in an XMM register. Otherwise it is passed in a general-purpose
 // register, or not at all if it is only padding.
 //
-// Those with a long double or an unaligned member are passed in memory.
-typedef enum { RC_NONE, RC_GP, RC_FP } RegClass;
+// Those with an unaligned member, or with a long double that does not
+// share its eightbytes with integers, are passed in memory.
+typedef enum { RC_NONE, RC_GP, RC_FP, RC_X87 } RegClass;
 
 static bool classify(Type *ty, int offset, RegClass *rc) {
   if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
@@ -1214,19 +1215,22 @@ static bool classify(Type *ty, int offset, RegClass *rc) {
     return true;
   }
 
-  if (ty->kind == TY_LDOUBLE || offset % ty->size)
+  if (offset % ty->size)
     return false;
 
-  if (ty->kind != TY_FLOAT && ty->kind != TY_DOUBLE)
-    rc[offset / 8] = RC_GP;
-  else if (rc[offset / 8] != RC_GP)
-    rc[offset / 8] = RC_FP;
+  for (int i = offset / 8; i * 8 < offset + ty->size; i++) {
+    RegClass cls = ty->kind == TY_LDOUBLE ? RC_X87 : is_flonum(ty) ? RC_FP : RC_GP;
+    if (rc[i] == RC_NONE || cls == RC_GP)
+      rc[i] = cls;
+    else if (rc[i] != RC_GP && rc[i] != cls)
+      return false;
+  }
   return true;
 }
 
 static bool is_by_reg(Type *ty, RegClass *rc) {
   rc[0] = rc[1] = RC_NONE;
-  return ty->size <= 16 && classify(ty, 0, rc);
+  return ty->size <= 16 && classify(ty, 0, rc) && rc[0] != RC_X87 && rc[1] != RC_X87;
 }
 
 // Whether `ty` is just a long double. Such a struct is passed in memory
-- 
2.43.0


From 2e630543cf779f59ca4a220b15d2b758e10c8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 46/85] fix: members of comma expressions of structure type

---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index fbe557a..e0ca992 100644
--- a/codegen.c
+++ b/codegen.c
@@ -837,6 +837,8 @@ static void gen_addr(Node *node) {
     case ND_COND:
     case ND_STMT_EXPR:
     case ND_VA_ARG:
+    case ND_CHAIN:
+    case ND_COMMA:
       gen_expr(node->lhs);
       imm_add("%rax", "%rdx", node->member->offset);
       return;
@@ -2941,6 +2943,8 @@ static void gen_member_opt(Node *node, int64_t *ofs) {
   case ND_COND:
   case ND_STMT_EXPR:
   case ND_VA_ARG:
+  case ND_CHAIN:
+  case ND_COMMA:
     gen_expr(node);
     return;
   }
-- 
2.43.0


From b3233ab2aed0d2e60e3f91c3774d53fedfb1ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 47/85] fix: block-scope extern and function declarations
 hidden by local variables

---
 parse.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/parse.c b/parse.c
index 9c19bc4..c1bc57d 100644
--- a/parse.c
+++ b/parse.c
@@ -4639,10 +4639,26 @@ static void mark_fn_live(Obj *var) {
   }
 }
 
+// Find the object a block-scope declaration with linkage refers to,
+// which objects without linkage may hide.
+static Obj *find_linked_var(Token *name) {
+  for (Scope *sc = scope; sc; sc = sc->parent) {
+    VarScope *sc2 = hashmap_get2(&sc->vars, name->loc, name->len);
+    if (sc2 && sc2->var && !sc2->var->is_local && equal(name, sc2->var->name))
+      return sc2->var;
+  }
+  return NULL;
+}
+
 static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   char *name_str = get_ident(name);
 
   Obj *fn = find_func(name_str);
+  if (fn && scope->parent) {
+    VarScope *sc = find_var(name);
+    if (!(sc && sc->var == fn))
+      push_scope(name_str)->var = fn;
+  }
   if (!fn) {
     fn = new_gvar(name_str, ty);
 
@@ -4744,6 +4760,20 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (!is_definition && equal(tok, "="))
       is_definition = true;
 
+    if (scope->parent && !is_definition) {
+      Obj *outer = find_linked_var(name);
+      if (outer) {
+        symbol_attr(outer, attr, name, tok);
+
+        Obj *var = ast_arena_calloc(sizeof(Obj));
+        *var = *outer;
+        if (!(ty->kind == TY_ARRAY && ty->size < 0))
+          var->ty = ty;
+        push_scope(get_ident(name))->var = var;
+        continue;
+      }
+    }
+
     VarScope *sc = find_var(name);
     Obj *var;
     if (sc && sc->var) {
-- 
2.43.0


From 389dd40a6ffc26d28c7d35ddda66556878a562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 48/85] fix: redeclarations of arrays of unknown size

---
 parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.c b/parse.c
index c1bc57d..e9c32e1 100644
--- a/parse.c
+++ b/parse.c
@@ -4779,6 +4779,13 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (sc && sc->var) {
       symbol_attr(sc->var, attr, name, tok);
 
+      // The composite type of an array type and one of unknown size
+      bool is_incomplete = ty->kind == TY_ARRAY && ty->size < 0;
+      if (is_incomplete && is_array(sc->var->ty) && !equal(tok, "="))
+        ty = sc->var->ty;
+      else if (sc->var->ty->kind == TY_ARRAY && sc->var->ty->size < 0)
+        sc->var->ty = ty;
+
       if (!is_definition)
         continue;
       if (sc->var->is_definition && !sc->var->is_tentative)
-- 
2.43.0


From 7eec111e1f8e70d8c7ea113a1c73b956381c0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 49/85] fix: initialized extern declaration following a static
 one

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index e9c32e1..6b14ba0 100644
--- a/parse.c
+++ b/parse.c
@@ -4798,7 +4798,7 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
       symbol_attr(var, attr, name, tok);
     }
     var->is_definition = is_definition;
-    var->is_static = attr->is_static;
+    var->is_static |= attr->is_static;
     var->is_tls = attr->is_tls;
     if (alt_align)
       var->align = alt_align;
-- 
2.43.0


From 4afd5541cdb1840c1afaf488f97e789b7625a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 50/85] fix: external definitions of inline functions

---
 codegen.c |  8 ++++----
 parse.c   | 10 +++++++++-
 slimcc.h  |  1 +
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index e0ca992..41e1497 100644
--- a/codegen.c
+++ b/codegen.c
@@ -213,7 +213,7 @@ static bool in_imm_range (int64_t val) {
 }
 
 static bool use_rip(Obj *var) {
-  return !(opt_fpic || opt_fpie) || var->is_static ||
+  return !(opt_fpic || opt_fpie) || (var->is_static && !var->is_inline_def) ||
     (opt_fpie && (var->ty->kind != TY_FUNC || var->is_definition));
 }
 
@@ -4188,8 +4188,6 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  emit_symbol(fn);
-
   if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
@@ -4406,8 +4404,10 @@ int codegen(Obj *prog, FILE *out) {
       continue;
     }
     if (var->ty->kind == TY_FUNC) {
-      if (var->is_live)
+      if (var->is_live) {
+        emit_symbol(var);
         fwrite(((FuncObj *)var->output)->buf, 1, ((FuncObj *)var->output)->buflen, out);
+      }
       continue;
     }
     emit_data(var);
diff --git a/parse.c b/parse.c
index 6b14ba0..2a37a63 100644
--- a/parse.c
+++ b/parse.c
@@ -4662,8 +4662,10 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   if (!fn) {
     fn = new_gvar(name_str, ty);
 
-    if (attr->is_static || (attr->is_inline && !attr->is_extern))
+    if (attr->is_static)
       fn->is_static = true;
+    else if (attr->is_inline && !attr->is_extern)
+      fn->is_static = fn->is_inline_def = true;
 
     if (strstr(name_str, "setjmp") || strstr(name_str, "savectx") ||
       strstr(name_str, "vfork") || strstr(name_str, "getcontext"))
@@ -4674,6 +4676,12 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
 
     if (!fn->is_static && attr->is_static)
       error_tok(name, "static declaration follows a non-static declaration");
+
+    // [https://www.sigbus.info/n1570#6.7.4p7] An inline definition is
+    // an external one if any file scope declaration lacks "inline" or
+    // has "extern".
+    if (fn->is_inline_def && !scope->parent && (!attr->is_inline || attr->is_extern))
+      fn->is_static = fn->is_inline_def = false;
   }
   fn->is_inline |= attr->is_inline;
   return fn;
diff --git a/slimcc.h b/slimcc.h
index 53349d9..97ad6fa 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -279,6 +279,7 @@ struct Obj {
 
   // Function
   bool is_inline;
+  bool is_inline_def;
   bool only_inline;
   bool returns_twice;
   bool dont_reuse_stk;
-- 
2.43.0


From 8f9394de582eb036186c2bd18c8c6f621588bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 51/85] fix: unreferenced inline functions that have aliases

---
 parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse.c b/parse.c
index 2a37a63..e423ebd 100644
--- a/parse.c
+++ b/parse.c
@@ -4894,6 +4894,14 @@ Obj *parse(Token *tok) {
       (var->is_referenced || !(var->is_static && var->is_inline)))
       mark_fn_live(var);
 
+  for (Obj *var = globals; var; var = var->next) {
+    if (var->alias_name) {
+      Obj *fn = find_func(var->alias_name);
+      if (fn)
+        mark_fn_live(fn);
+    }
+  }
+
   cur->next = globals;
   return head.next;
 }
-- 
2.43.0


From 4b79db5317e4dea1b4f904ef43da5a0f6054056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 52/85] fix: section attribute of functions

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 41e1497..748883b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4188,7 +4188,9 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  if (opt_func_sections)
+  if (fn->section_name)
+    Printftn(".section \"%s\",\"ax\",@progbits", fn->section_name);
+  else if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
     Printstn(".text");
-- 
2.43.0


From 1b49f3e23aa95c152a7accdaad117aff9fe23651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 53/85] fix: constructor attribute on redeclarations of defined
 functions

---
 codegen.c | 11 ++++-------
 parse.c   |  3 ++-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 748883b..7721e6f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4180,8 +4180,6 @@ static void emit_cdtor(char *sec, uint16_t priority, Obj *fn) {
   Printssn(",\"aw\"");
   Printstn(".align 8");
   Printftn(".quad \"%s\"", asm_name(fn));
-
-  fn->is_referenced = true;
 }
 
 void emit_text(Obj *fn) {
@@ -4314,11 +4312,6 @@ void emit_text(Obj *fn) {
   Printstn("leave");
   Printstn("ret");
   Printftn(".size \"%s\", .-\"%s\"", asm_name(fn), asm_name(fn));
-
-  if (fn->is_ctor)
-    emit_cdtor("init_array", fn->ctor_prior, fn);
-  if (fn->is_dtor)
-    emit_cdtor("fini_array", fn->dtor_prior, fn);
 }
 
 // Logic should be in sync with gen_funcall_args()
@@ -4409,6 +4402,10 @@ int codegen(Obj *prog, FILE *out) {
       if (var->is_live) {
         emit_symbol(var);
         fwrite(((FuncObj *)var->output)->buf, 1, ((FuncObj *)var->output)->buflen, out);
+        if (var->is_ctor)
+          emit_cdtor("init_array", var->ctor_prior, var);
+        if (var->is_dtor)
+          emit_cdtor("fini_array", var->dtor_prior, var);
       }
       continue;
     }
diff --git a/parse.c b/parse.c
index e423ebd..46f3100 100644
--- a/parse.c
+++ b/parse.c
@@ -4891,7 +4891,8 @@ Obj *parse(Token *tok) {
 
   for (Obj *var = globals; var; var = var->next)
     if (var->is_definition && var->ty->kind == TY_FUNC &&
-      (var->is_referenced || !(var->is_static && var->is_inline)))
+      (var->is_referenced || var->is_ctor || var->is_dtor ||
+      !(var->is_static && var->is_inline)))
       mark_fn_live(var);
 
   for (Obj *var = globals; var; var = var->next) {
-- 
2.43.0


From 33a8d311e836ff7fbf4139f7a8a8981e22fef2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 54/85] fix: assembler labels of functions in initializers

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 46f3100..8f4b4c6 100644
--- a/parse.c
+++ b/parse.c
@@ -3106,7 +3106,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
 
       if (var) {
         ctx->var = var;
-        ctx->label = &var->name;
+        ctx->label = var->asm_name ? &var->asm_name : &var->name;
         return ofs;
       }
     }
-- 
2.43.0


From f0124a0fbda53642d1cab7e022d0bd87a3d0a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 55/85] fix: names of per-symbol sections

---
 codegen.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 7721e6f..e2c1740 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4090,19 +4090,21 @@ static void emit_data(Obj *var) {
 
   bool use_rodata = is_const_var(var) && !((opt_fpic || opt_fpie) && var->rel);
 
+  Printsts(".section \"");
   if (var->section_name)
-    Printfts(".section \"%s\"", var->section_name);
+    Printf("%s", var->section_name);
   else if (var->is_tls)
-    Printfts(".section .%s", var->init_data ? "tdata" : "tbss");
+    Printf(".%s", var->init_data ? "tdata" : "tbss");
   else if (use_rodata)
-    Printsts(".section .rodata");
+    Prints(".rodata");
   else if ((opt_fpic || opt_fpie) && var->rel)
-    Printfts(".section .data.rel%s%s", (is_const_var(var) ? ".ro" : ""), (opt_fpie ? ".local" : ""));
+    Printf(".data.rel%s%s", (is_const_var(var) ? ".ro" : ""), (opt_fpie ? ".local" : ""));
   else
-    Printfts(".section .%s", var->init_data ? "data" : "bss");
+    Printf(".%s", var->init_data ? "data" : "bss");
 
-  if (opt_data_sections)
-    Printf(".\"%s\"", asm_name(var));
+  if (opt_data_sections && !var->section_name)
+    Printf(".%s", asm_name(var));
+  Prints("\"");
 
   if (var->is_tls)
     Prints(",\"awT\"");
@@ -4189,7 +4191,7 @@ void emit_text(Obj *fn) {
   if (fn->section_name)
     Printftn(".section \"%s\",\"ax\",@progbits", fn->section_name);
   else if (opt_func_sections)
-    Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
+    Printftn(".section \".text.%s\",\"ax\",@progbits", asm_name(fn));
   else
     Printstn(".text");
   Printftn(".type \"%s\", @function", asm_name(fn));
-- 
2.43.0


From 6970749979cf6b32957d21e9b7c69a216de0c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 56/85] fix: first declaration of an object in a block where
 its name is hidden

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 8f4b4c6..0b92f33 100644
--- a/parse.c
+++ b/parse.c
@@ -4782,7 +4782,7 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
       }
     }
 
-    VarScope *sc = find_var(name);
+    VarScope *sc = scope->parent ? NULL : find_var(name);
     Obj *var;
     if (sc && sc->var) {
       symbol_attr(sc->var, attr, name, tok);
-- 
2.43.0


From 415900c8977f972bf43fc0de418f315aa2648cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 57/85] fix: definitions of functions following GNU inline ones

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index 0b92f33..87a57b3 100644
--- a/parse.c
+++ b/parse.c
@@ -4693,6 +4693,10 @@ static void func_definition(Token **rest, Token *tok, Obj *fn, Type *ty) {
   fn->is_definition = true;
   fn->ty = ty;
 
+  // A GNU inline definition may have come before
+  fn->static_lvars = NULL;
+  fn->refs.len = 0;
+
   fn->output = prepare_funcgen();
   arena_on(&ast_arena);
 
-- 
2.43.0


From 9749901a8308e63de7b1bb13578deaf0477a2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 58/85] fix: addresses of weak objects in position-independent
 executables

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index e2c1740..7959f64 100644
--- a/codegen.c
+++ b/codegen.c
@@ -214,7 +214,8 @@ static bool in_imm_range (int64_t val) {
 
 static bool use_rip(Obj *var) {
   return !(opt_fpic || opt_fpie) || (var->is_static && !var->is_inline_def) ||
-    (opt_fpie && (var->ty->kind != TY_FUNC || var->is_definition));
+    (opt_fpie && (var->is_definition ||
+      (var->ty->kind != TY_FUNC && !var->is_weak)));
 }
 
 static Node *skip_gp_cast(Node *node) {
-- 
2.43.0


From 083623d1b667fc7e2a7be26d44e088ed50af771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 59/85] fix: assignment operators on atomic pointers

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 87a57b3..f0b6d21 100644
--- a/parse.c
+++ b/parse.c
@@ -3255,6 +3255,9 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->lhs);
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
-- 
2.43.0


From c20c679af184e5644dd52504fba82e0a36e92c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 60/85] fix: values of atomic assignments, exchanges and
 compare-exchanges

---
 codegen.c | 24 ++++++++++++++++++++++--
 parse.c   |  8 +++++++-
 type.c    |  4 +++-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index 7959f64..f92f7ca 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1962,8 +1962,28 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *ty = node->lhs->ty->base;
+    char *ax = reg_ax(ty->size);
+
+    if (!is_scalar(ty) || ty->kind == TY_LDOUBLE)
+      error_tok(node->tok, "unsupported type for atomic exchange");
+
+    switch (ty->kind) {
+    case TY_DOUBLE:
+      Printftn("movq %%xmm0, %s", ax);
+      Printftn("xchg %s, (%s)", ax, reg);
+      Printftn("movq %s, %%xmm0", ax);
+      return;
+    case TY_FLOAT:
+      Printftn("movd %%xmm0, %s", ax);
+      Printftn("xchg %s, (%s)", ax, reg);
+      Printftn("movd %s, %%xmm0", ax);
+      return;
+    }
+
+    Printftn("xchg %s, (%s)", ax, reg);
+    if (ty->size < 4)
+      cast_extend_int32(ty, ax, "%eax");
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index f0b6d21..c6b3766 100644
--- a/parse.c
+++ b/parse.c
@@ -3334,7 +3334,7 @@ static Node *assign(Token **rest, Token *tok) {
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
     add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
@@ -4471,6 +4471,9 @@ static Node *primary(Token **rest, Token *tok) {
     tok = skip(tok, ",");
     node->cas_new = assign(&tok, tok);
     *rest = skip(tok, ")");
+
+    add_type(node);
+    node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return node;
   }
 
@@ -4481,6 +4484,9 @@ static Node *primary(Token **rest, Token *tok) {
     tok = skip(tok, ",");
     node->rhs = assign(&tok, tok);
     *rest = skip(tok, ")");
+
+    add_type(node);
+    node->rhs = new_cast(node->rhs, node->ty);
     return node;
   }
 
diff --git a/type.c b/type.c
index c738033..5e3bb04 100644
--- a/type.c
+++ b/type.c
@@ -562,8 +562,10 @@ void add_type(Node *node) {
       error_tok(node->cas_old->tok, "pointer expected");
     return;
   case ND_EXCH:
+    add_type(node->lhs);
+    add_type(node->rhs);
     if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
+      error_tok(node->lhs->tok, "pointer expected");
     node->ty = node->lhs->ty->base;
     return;
   case ND_VA_START:
-- 
2.43.0


From bee73cf7cc2f936cab302b0db4d0919249e90806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 61/85] fix: lifetime of structure rvalues inside function call
 arguments

---
 parse.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index c6b3766..c9d76da 100644
--- a/parse.c
+++ b/parse.c
@@ -483,6 +483,20 @@ Obj *new_lvar(char *name, Type *ty) {
   return var;
 }
 
+// Storage for an rvalue of structure or union type. It has to last
+// until the end of the full expression.
+static Obj *new_rvalue_lvar(Type *ty) {
+  Scope *sc = scope;
+  while (sc->is_temporary)
+    sc = sc->parent;
+
+  Obj *var = new_var(NULL, ty, ast_arena_calloc(sizeof(Obj)));
+  var->is_local = true;
+  var->next = sc->locals;
+  sc->locals = var;
+  return var;
+}
+
 static Obj *new_gvar(char *name, Type *ty) {
   Obj *var = new_var(name, ty, calloc(1, sizeof(Obj)));
   var->next = globals;
@@ -2737,7 +2751,7 @@ static Node *compound_stmt(Token **rest, Token *tok, NodeKind kind) {
     add_type(cur->lhs);
     Type *ty = cur->lhs->ty;
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      Obj *var = new_lvar(NULL, ty);
+      Obj *var = new_rvalue_lvar(ty);
       Node *expr = new_binary(ND_ASSIGN, new_var_node(var, tok), cur->lhs, tok);
       chain_expr(&expr, new_var_node(var, tok));
       cur->lhs = expr;
@@ -4177,7 +4191,7 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   // If a function returns a struct, it is caller's responsibility
   // to allocate a space for the return value.
   if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION)
-    node->ret_buffer = new_lvar(NULL, node->ty);
+    node->ret_buffer = new_rvalue_lvar(node->ty);
   return node;
 }
 
@@ -4455,7 +4469,7 @@ static Node *primary(Token **rest, Token *tok) {
 
     Type *ty = typename(&tok, tok);
     if (va_arg_need_copy(ty))
-      node->var = new_lvar(NULL, ty);
+      node->var = new_rvalue_lvar(ty);
 
     node->ty = pointer_to(ty);
     *rest = skip(tok, ")");
-- 
2.43.0


From cee8d0021b5244ca1dbe32dc387ee6f24e44f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 62/85] fix: alignment of variable-length arrays of
 over-aligned types

---
 parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index c9d76da..ae8ef8d 100644
--- a/parse.c
+++ b/parse.c
@@ -1545,8 +1545,14 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
     // For example, `int x[n+2]` is translated to `tmp = n + 2,
     // x = alloca(tmp)`.
     Obj *var = new_lvar(get_ident(name), ty);
-    if (alt_align)
+    if (alt_align) {
       var->align = alt_align;
+    } else {
+      Type *elem = ty;
+      while (is_array(elem))
+        elem = elem->base;
+      var->align = elem->align;
+    }
     chain_expr(&expr, new_vla(new_var_node(ty->vla_size, name), var));
 
     DeferStmt *defr = new_defr(DF_VLA_DEALLOC);
-- 
2.43.0


From 78e10534920d1e992f351996a2632f91775bb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 63/85] fix: statement expressions and alloca in arguments of
 calls that pass others by stack

---
 codegen.c |  5 +++++
 parse.c   | 32 +++++++++++++++++++++++++++++++-
 slimcc.h  |  2 ++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index f92f7ca..ae3075b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4338,6 +4338,11 @@ void emit_text(Obj *fn) {
 }
 
 // Logic should be in sync with gen_funcall_args()
+bool has_stack_args(Node *node) {
+  bool rtn_by_stk = is_rtn_by_stk(node->ty);
+  return calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
+}
+
 void prepare_funcall(Node *node, Scope *scope) {
   bool rtn_by_stk = is_rtn_by_stk(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
diff --git a/parse.c b/parse.c
index ae8ef8d..abd9b78 100644
--- a/parse.c
+++ b/parse.c
@@ -133,6 +133,10 @@ static Token *defr_body;
 
 static bool fn_use_vla;
 static bool dont_dealloc_vla;
+
+// Number of expressions seen that may move the stack pointer, or be
+// left by a jump
+static int64_t stk_expr_cnt;
 static bool is_global_init_context;
 static bool *eval_recover;
 
@@ -4155,10 +4159,12 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
 
   Obj head = {0};
   Obj *cur = &head;
+  int64_t stk_expr_start = stk_expr_cnt;
 
   enter_tmp_scope();
 
   while (comma_list(rest, &tok, ")", cur != &head)) {
+    int64_t stk_expr = stk_expr_cnt;
     Node *arg = assign(&tok, tok);
     if (param) {
       Node ty_node = {.kind = ND_NULL_EXPR, .ty = param->ty};
@@ -4183,6 +4189,7 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
     }
     cur = cur->param_next = new_var(NULL, arg->ty, ast_arena_calloc(sizeof(Obj)));
     cur->arg_expr = arg;
+    cur->is_stk_expr = stk_expr != stk_expr_cnt;
   }
   if (param)
     error_tok(tok, "too few arguments");
@@ -4191,6 +4198,20 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   node->ty = ty->return_ty;
   node->args = head.param_next;
 
+  // The stack pointer is lowered for arguments passed by stack; evaluate
+  // those that may move it, or be left by a jump, beforehand.
+  Node *spill = NULL;
+  if (stk_expr_start != stk_expr_cnt && has_stack_args(node)) {
+    for (Obj *var = node->args; var; var = var->param_next) {
+      if (!var->is_stk_expr)
+        continue;
+      Obj *tmp = new_lvar(NULL, unqual(var->ty));
+      chain_expr(&spill, new_binary(ND_ASSIGN, new_var_node(tmp, tok), var->arg_expr, tok));
+      var->arg_expr = new_var_node(tmp, tok);
+      add_type(var->arg_expr);
+    }
+  }
+
   prepare_funcall(node, scope);
   leave_scope();
 
@@ -4198,6 +4219,11 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   // to allocate a space for the return value.
   if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION)
     node->ret_buffer = new_rvalue_lvar(node->ty);
+
+  if (spill) {
+    chain_expr(&spill, node);
+    return spill;
+  }
   return node;
 }
 
@@ -4298,6 +4324,7 @@ static Node *primary(Token **rest, Token *tok) {
     if (is_constant_context())
       error_tok(tok, "statement expresssion in constant context");
 
+    stk_expr_cnt++;
     Node *node = compound_stmt(&tok, tok->next->next, ND_STMT_EXPR);
     *rest = skip(tok, ")");
     return node;
@@ -4356,6 +4383,7 @@ static Node *primary(Token **rest, Token *tok) {
     return generic_selection(rest, tok->next);
 
   if (equal(tok, "__builtin_alloca")) {
+    stk_expr_cnt++;
     Node *node = new_node(ND_ALLOCA, tok);
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
@@ -4523,8 +4551,10 @@ static Node *primary(Token **rest, Token *tok) {
         sc->var->is_referenced = true;
 
       char *name = sc->var->name;
-      if (!strcmp(name, "alloca"))
+      if (!strcmp(name, "alloca")) {
         dont_dealloc_vla = true;
+        stk_expr_cnt++;
+      }
     }
 
     if (sc) {
diff --git a/slimcc.h b/slimcc.h
index 97ad6fa..a2e5d24 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -256,6 +256,7 @@ struct Obj {
   bool pass_by_stack;
   int stack_offset;
   Node *arg_expr;
+  bool is_stk_expr;
   Obj *param_promoted;
 
   // Global variable or function
@@ -663,6 +664,7 @@ Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
 
 int codegen(Obj *prog, FILE *out);
 void prepare_funcall(Node *node, Scope *scope);
+bool has_stack_args(Node *node);
 void prepare_inline_asm(Node *node);
 int align_to(int n, int align);
 bool va_arg_need_copy(Type *ty);
-- 
2.43.0


From 45b8aa4d5babb237adab5a5f3a6f4e20fe91e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 64/85] fix: __builtin_alloca in functions with variable-length
 arrays

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index abd9b78..3a471d5 100644
--- a/parse.c
+++ b/parse.c
@@ -4383,6 +4383,7 @@ static Node *primary(Token **rest, Token *tok) {
     return generic_selection(rest, tok->next);
 
   if (equal(tok, "__builtin_alloca")) {
+    dont_dealloc_vla = true;
     stk_expr_cnt++;
     Node *node = new_node(ND_ALLOCA, tok);
     tok = skip(tok->next, "(");
-- 
2.43.0


From 4eac1ea816ec370478f2395ca58f8d1879e3dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 65/85] fix: tags and enumerators declared in function call
 arguments and GNU conditionals

---
 parse.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 3a471d5..0d225a2 100644
--- a/parse.c
+++ b/parse.c
@@ -416,9 +416,18 @@ static void apply_cv_qualifier(Node *node, Type *ty2) {
   }
 }
 
+// Temporary scopes own storage, what is declared in them belongs to the
+// enclosing block.
+static Scope *declaration_scope(void) {
+  Scope *sc = scope;
+  while (sc->is_temporary)
+    sc = sc->parent;
+  return sc;
+}
+
 static VarScope *push_scope(char *name) {
   VarScope *sc = ast_arena_calloc(sizeof(VarScope));
-  hashmap_put(&scope->vars, name, sc);
+  hashmap_put(&declaration_scope()->vars, name, sc);
   return sc;
 }
 
@@ -573,7 +582,7 @@ static Token *str_tok(Token **rest, Token *tok) {
 }
 
 static void push_tag_scope(Token *tok, Type *ty) {
-  hashmap_put2(&scope->tags, tok->loc, tok->len, ty);
+  hashmap_put2(&declaration_scope()->tags, tok->loc, tok->len, ty);
 }
 
 static void chain_expr(Node **lhs, Node *rhs) {
@@ -1347,7 +1356,7 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   tok = skip(tok, "{");
 
   if (tag) {
-    Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+    Type *ty2 = hashmap_get2(&declaration_scope()->tags, tag->loc, tag->len);
     if (ty2) {
       if (ty2->kind == TY_STRUCT || ty2->kind == TY_UNION)
         error_tok(tag, "not an enum tag");
@@ -3891,7 +3900,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   if (!tag)
     return ty;
 
-  Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+  Type *ty2 = hashmap_get2(&declaration_scope()->tags, tag->loc, tag->len);
   if (ty2) {
     for (Type *t = ty2; t; t = t->decl_next) {
       t->size = ty->size;
-- 
2.43.0


From 18d3a39d0de8da1599eb321da37ad1def03f5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 66/85] fix: scope of a structure tag begins at its own
 definition

---
 parse.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/parse.c b/parse.c
index 0d225a2..dc595e3 100644
--- a/parse.c
+++ b/parse.c
@@ -3881,6 +3881,14 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
 
   tok = skip(tok, "{");
 
+  // The tag is in scope from here on, in its own definition too.
+  Type *ty2 = NULL;
+  if (tag) {
+    ty2 = hashmap_get2(&declaration_scope()->tags, tag->loc, tag->len);
+    if (!ty2)
+      push_tag_scope(tag, ty2 = new_type(kind, -1, 1));
+  }
+
   // Construct a struct object.
   struct_members(&tok, tok, ty);
 
@@ -3897,24 +3905,18 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   else
     ty = union_decl(ty, alt_align);
 
-  if (!tag)
+  if (!ty2)
     return ty;
 
-  Type *ty2 = hashmap_get2(&declaration_scope()->tags, tag->loc, tag->len);
-  if (ty2) {
-    for (Type *t = ty2; t; t = t->decl_next) {
-      t->size = ty->size;
-      t->align = MAX(t->align, ty->align);
-      t->members = ty->members;
-      t->is_flexible = ty->is_flexible;
-      t->is_packed = ty->is_packed;
-      t->origin = ty;
-    }
-    return ty2;
+  for (Type *t = ty2; t; t = t->decl_next) {
+    t->size = ty->size;
+    t->align = MAX(t->align, ty->align);
+    t->members = ty->members;
+    t->is_flexible = ty->is_flexible;
+    t->is_packed = ty->is_packed;
+    t->origin = ty;
   }
-
-  push_tag_scope(tag, ty);
-  return ty;
+  return ty2;
 }
 
 // A bit-field of a packed type may straddle the units of its declared
-- 
2.43.0


From 7448aa8bd115620e50f99cd8e8f7a381414344fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 67/85] fix: scope of an enumeration tag begins at its own
 definition

---
 parse.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index dc595e3..d28b610 100644
--- a/parse.c
+++ b/parse.c
@@ -1368,6 +1368,8 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   }
   if (!ty)
     ty = new_type(TY_ENUM, -1, 1);
+  if (tag)
+    push_tag_scope(tag, ty);
 
   bool has_type = (ty->kind != TY_ENUM);
   Type *base_ty;
@@ -1420,9 +1422,6 @@ static Type *enum_specifier(Token **rest, Token *tok) {
     update_enum_ty(ty, ty_first_64bit_int, false);
   else
     update_enum_ty(ty, base_ty, false);
-
-  if (tag)
-    push_tag_scope(tag, ty);
   return ty;
 }
 
-- 
2.43.0


From 8eb891c07d4d644521a50e4d40a8cb3a16a2f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 68/85] fix: enumerations with a fixed underlying type
 corrupting that type

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index d28b610..74afbaf 100644
--- a/parse.c
+++ b/parse.c
@@ -1416,6 +1416,9 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   if (first)
     error_tok(tok, "empty enum specifier");
 
+  if (has_type)
+    return ty;
+
   if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
     update_enum_ty(ty, ty_uint, true);
   else if (been_negative && been_unsigned)
-- 
2.43.0


From feccf9903853bf36d367a6ee90835a3f41be4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 69/85] fix: do statements are blocks

---
 parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 74afbaf..84995ec 100644
--- a/parse.c
+++ b/parse.c
@@ -2644,6 +2644,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   }
 
   if (equal(tok, "do")) {
+    DeferStmt *dfr = new_block_scope();
+
     Node *node = new_node(ND_DO, tok);
 
     loop_body(&tok, tok->next, node, label_list);
@@ -2653,7 +2655,7 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     node->cond = cond_cast(expr(&tok, tok));
     tok = skip(tok, ")");
     *rest = skip(tok, ";");
-    return node;
+    return leave_block_scope(dfr, node);
   }
 
   if (equal_kw(tok, "asm") || equal(tok, "__asm") || equal(tok, "__asm__")) {
-- 
2.43.0


From 77753413fd210998a87a167b9ab4bbf710782a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 70/85] fix: forward declarations of structures in inner scopes

---
 parse.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parse.c b/parse.c
index 84995ec..f97a926 100644
--- a/parse.c
+++ b/parse.c
@@ -2720,6 +2720,17 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   return expr_stmt(rest, tok);
 }
 
+// `struct S;` declares a new type even if S is the tag of an outer scope.
+static void forward_declaration(Token *tok) {
+  TypeKind kind = equal(tok, "struct") ? TY_STRUCT : TY_UNION;
+  if (kind == TY_UNION && !equal(tok, "union"))
+    return;
+  tok = tok->next;
+  if (tok->kind == TK_IDENT && equal(tok->next, ";") &&
+    !hashmap_get2(&scope->tags, tok->loc, tok->len))
+    push_tag_scope(tok, new_type(kind, -1, 1));
+}
+
 // compound-stmt = (typedef | declaration | stmt)* "}"
 static Node *compound_stmt(Token **rest, Token *tok, NodeKind kind) {
   Node *node = new_node(kind, tok);
@@ -2746,6 +2757,8 @@ static Node *compound_stmt(Token **rest, Token *tok, NodeKind kind) {
       continue;
     }
 
+    forward_declaration(tok);
+
     VarAttr attr = {0};
     Type *basety = declspec(&tok, tok, &attr);
 
-- 
2.43.0


From b5ca796ff8dd08ca151169fce71274d8ae48dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 71/85] fix: declarations of enumerations with fixed underlying
 type in inner scopes

---
 parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index f97a926..b70fe89 100644
--- a/parse.c
+++ b/parse.c
@@ -1342,7 +1342,11 @@ static Type *enum_specifier(Token **rest, Token *tok) {
 
   if (tag && !equal(tok, "{")) {
     *rest = tok;
-    Type *ty2 = find_tag(tag);
+    Type *ty2;
+    if (ty && equal(tok, ";"))
+      ty2 = hashmap_get2(&declaration_scope()->tags, tag->loc, tag->len);
+    else
+      ty2 = find_tag(tag);
     if (ty2) {
       if (ty2->kind == TY_STRUCT || ty2->kind == TY_UNION)
         error_tok(tag, "not an enum tag");
-- 
2.43.0


From 808037840aaa52722d06ca8c37ede0884bd7b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 72/85] fix: qualifiers added to typedef names of qualified and
 of array types

---
 parse.c  |  9 +++------
 slimcc.h |  1 +
 type.c   | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index b70fe89..27f5afb 100644
--- a/parse.c
+++ b/parse.c
@@ -1047,12 +1047,9 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
     ty = ty_int;
 
   if (is_atomic || is_const || is_volatile || is_restrict) {
-    Type *ty2 = new_qualified_type(ty);
-    ty2->is_atomic = is_atomic;
-    ty2->is_const = is_const;
-    ty2->is_volatile = is_volatile;
-    ty2->is_restrict = is_restrict;
-    return ty2;
+    Type qual = {.is_atomic = is_atomic, .is_const = is_const,
+      .is_volatile = is_volatile, .is_restrict = is_restrict};
+    return add_qualifiers(ty, &qual);
   }
 
   return ty;
diff --git a/slimcc.h b/slimcc.h
index a2e5d24..11f7880 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -656,6 +656,7 @@ Type *new_type(TypeKind kind, int64_t size, int align);
 void add_type(Node *node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
+Type *add_qualifiers(Type *ty, Type *qual);
 Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
 
 //
diff --git a/type.c b/type.c
index 5e3bb04..2db4640 100644
--- a/type.c
+++ b/type.c
@@ -111,6 +111,21 @@ Type *new_qualified_type(Type *ty) {
   return ret;
 }
 
+// Add the qualifiers of `qual`. Those of an array are its elements'.
+Type *add_qualifiers(Type *ty, Type *qual) {
+  if (is_array(ty)) {
+    Type *ret = copy_type(ty);
+    ret->base = add_qualifiers(ty->base, qual);
+    return ret;
+  }
+  Type *ret = new_qualified_type(ty);
+  ret->is_atomic = ty->is_atomic | qual->is_atomic;
+  ret->is_const = ty->is_const | qual->is_const;
+  ret->is_volatile = ty->is_volatile | qual->is_volatile;
+  ret->is_restrict = ty->is_restrict | qual->is_restrict;
+  return ret;
+}
+
 bool is_integer(Type *ty) {
   TypeKind k = ty->kind;
   return k == TY_BOOL || k == TY_PCHAR || k == TY_CHAR || k == TY_SHORT ||
-- 
2.43.0


From a09957554c4dd9aad2c16f219bbe47831d7cb47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 73/85] fix: qualifiers of array members of qualified
 structures

---
 parse.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index 27f5afb..a18fb52 100644
--- a/parse.c
+++ b/parse.c
@@ -410,9 +410,8 @@ static void apply_cv_qualifier(Node *node, Type *ty2) {
   add_type(node);
   Type *ty = node->ty;
   if (ty->is_const < ty2->is_const || ty->is_volatile < ty2->is_volatile) {
-    node->ty = new_qualified_type(ty);
-    node->ty->is_const = ty->is_const | ty2->is_const;
-    node->ty->is_volatile = ty->is_volatile | ty2->is_volatile;
+    Type qual = {.is_const = ty2->is_const, .is_volatile = ty2->is_volatile};
+    node->ty = add_qualifiers(ty, &qual);
   }
 }
 
-- 
2.43.0


From a08c658c84316ff27cb339dc0b2da431e22bf901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 74/85] fix: qualifiers after static in array parameters

---
 parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index a18fb52..386f737 100644
--- a/parse.c
+++ b/parse.c
@@ -1236,7 +1236,10 @@ static Type *type_suffix(Token **rest, Token *tok, Type *ty) {
     if (tok->kind == TK_TYPEKW) {
       Token *start = tok;
       pointer_qualifiers(&tok, tok, &(Type){0});
-      consume(&tok, tok, "static");
+      if (consume(&tok, tok, "static") && start->next == tok) {
+        start = tok;
+        pointer_qualifiers(&tok, tok, &(Type){0});
+      }
       Type *ty2 = array_dimensions(rest, tok, ty);
       pointer_qualifiers(&(Token *){0}, start, ty2);
       return ty2;
-- 
2.43.0


From 0863b8b0d66ef9eff6918b928bc1454de4643a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 75/85] fix: alignment and qualifiers of typedef names whose
 types are qualified or aligned

---
 type.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/type.c b/type.c
index 2db4640..2bf1250 100644
--- a/type.c
+++ b/type.c
@@ -92,8 +92,7 @@ Type *unqual(Type *ty) {
 }
 
 Type *new_qualified_type(Type *ty) {
-  if (ty->origin)
-    ty = ty->origin;
+  Type *origin = ty->origin ? ty->origin : ty;
 
   Type *ret;
   if (ty->size < 0)
@@ -102,11 +101,11 @@ Type *new_qualified_type(Type *ty) {
     ret = ast_arena_malloc(sizeof(Type));
 
   *ret = *ty;
-  ret->origin = ty;
+  ret->origin = origin;
 
   if (ty->size < 0) {
-    ret->decl_next = ty->decl_next;
-    ty->decl_next = ret;
+    ret->decl_next = origin->decl_next;
+    origin->decl_next = ret;
   }
   return ret;
 }
-- 
2.43.0


From 1a6a956cb0628550493e23c50c91938437c7f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 76/85] fix: functions as the value of comma expressions and
 statement expressions

---
 type.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 2bf1250..14f4b1b 100644
--- a/type.c
+++ b/type.c
@@ -281,6 +281,10 @@ Type *array_to_pointer(Type *ty) {
   return ty;
 }
 
+static Type *decay(Type *ty) {
+  return ty->kind == TY_FUNC ? pointer_to(ty) : array_to_pointer(ty);
+}
+
 Type *func_type(Type *return_ty, Token *tok) {
   if (return_ty->base && return_ty->kind != TY_PTR)
     error_tok(tok, "function return type cannot be array");
@@ -533,7 +537,7 @@ void add_type(Node *node) {
     node->ty = node->rhs->ty;
     return;
   case ND_COMMA:
-    node->ty = array_to_pointer(node->rhs->ty);
+    node->ty = decay(node->rhs->ty);
     return;
   case ND_MEMBER:
     node->ty = node->member->ty;
@@ -555,7 +559,7 @@ void add_type(Node *node) {
       while (stmt->next)
         stmt = stmt->next;
       if (stmt->kind == ND_EXPR_STMT) {
-        node->ty = array_to_pointer(stmt->lhs->ty);
+        node->ty = decay(stmt->lhs->ty);
         return;
       }
     }
-- 
2.43.0


From b9878dda90550d928a8cf3f4da09429a3230aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 77/85] fix: type of conditional expressions of pointers

---
 type.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/type.c b/type.c
index 14f4b1b..e07d024 100644
--- a/type.c
+++ b/type.c
@@ -368,6 +368,38 @@ static void int_promotion(Node **node) {
   }
 }
 
+// The composite of two compatible types
+static Type *composite_type(Type *t1, Type *t2) {
+  if (t1->kind == TY_PTR) {
+    Type *ty = copy_type(t1);
+    ty->base = composite_type(t1->base, t2->base);
+    return ty;
+  }
+  if (t1->kind == TY_ARRAY && t2->kind == TY_ARRAY)
+    return array_of(composite_type(t1->base, t2->base),
+                    t1->array_len < 0 ? t2->array_len : t1->array_len);
+  return t1;
+}
+
+// The type of a conditional expression whose operands are pointers: a
+// pointer to the composite type or to void, with the qualifiers of both.
+static Type *common_pointer_type(Type *p1, Type *p2) {
+  Type *ty = ty_void;
+  if (is_compatible(p1->base, p2->base))
+    ty = composite_type(p1->base, p2->base);
+  if (ty->kind == TY_FUNC)
+    return pointer_to(ty);
+
+  for (int i = 0; i < 2; i++) {
+    Type *qual = i ? p2->base : p1->base;
+    while (is_array(qual))
+      qual = qual->base;
+    if (qual->is_atomic || qual->is_const || qual->is_volatile || qual->is_restrict)
+      ty = add_qualifiers(ty, qual);
+  }
+  return pointer_to(ty);
+}
+
 static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
   Type *ty1 = (*lhs)->ty;
   Type *ty2 = (*rhs)->ty;
@@ -384,9 +416,7 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       return array_to_pointer(ty2);
 
     if (ty1->base && ty2->base) {
-      if (is_compatible(ty1->base, ty2->base))
-        return array_to_pointer(ty1);
-      return pointer_to(ty_void);
+      return common_pointer_type(ty1, ty2);
     }
   }
 
@@ -527,7 +557,9 @@ void add_type(Node *node) {
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
     } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
-      node->ty = array_to_pointer(node->then->ty);
+      node->ty = node->then->ty;
+      if (node->ty->base || node->ty->kind == TY_FUNC)
+        node->ty = common_pointer_type(decay(node->ty), decay(node->els->ty));
     } else {
       usual_arith_conv(&node->then, &node->els, true);
       node->ty = node->then->ty;
-- 
2.43.0


From 2b654a3a18990436eccd4d8c1a15b21973323c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 78/85] fix: compatibility of functions without prototypes

---
 type.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/type.c b/type.c
index e07d024..fd1c257 100644
--- a/type.c
+++ b/type.c
@@ -249,6 +249,17 @@ bool is_compatible(Type *t1, Type *t2) {
   case TY_FUNC: {
     if (!is_compatible(t1->return_ty, t2->return_ty))
       return false;
+    if (t1->is_oldstyle && t2->is_oldstyle)
+      return true;
+    if (t1->is_oldstyle || t2->is_oldstyle) {
+      // Without a prototype, the parameters are those of promoted arguments.
+      Type *ty = t1->is_oldstyle ? t2 : t1;
+      for (Obj *p = ty->param_list; p; p = p->param_next)
+        if (p->ty->kind == TY_FLOAT || p->ty->kind == TY_BOOL ||
+          (is_integer(p->ty) && p->ty->size < ty_int->size))
+          return false;
+      return !ty->is_variadic;
+    }
     if (t1->is_variadic != t2->is_variadic)
       return false;
 
-- 
2.43.0


From cb666b6ff67f95b571bb1dd39c566a69d6018537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 79/85] fix: structure rvalues having qualified types

---
 type.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/type.c b/type.c
index fd1c257..b9e50cb 100644
--- a/type.c
+++ b/type.c
@@ -293,7 +293,9 @@ Type *array_to_pointer(Type *ty) {
 }
 
 static Type *decay(Type *ty) {
-  return ty->kind == TY_FUNC ? pointer_to(ty) : array_to_pointer(ty);
+  if (ty->kind == TY_FUNC)
+    return pointer_to(ty);
+  return is_array(ty) ? pointer_to(ty->base) : unqual(ty);
 }
 
 Type *func_type(Type *return_ty, Token *tok) {
@@ -524,9 +526,11 @@ void add_type(Node *node) {
   case ND_ASSIGN:
     if (node->lhs->ty->kind == TY_ARRAY && !node->lhs->var->constexpr_data)
       error_tok(node->lhs->tok, "not an lvalue");
-    if (node->lhs->ty->kind != TY_STRUCT && node->lhs->ty->kind != TY_UNION)
-      node->rhs = new_cast(node->rhs, node->lhs->ty);
     node->ty = node->lhs->ty;
+    if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION)
+      node->ty = unqual(node->ty);
+    else
+      node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_EQ:
   case ND_NE:
@@ -568,9 +572,9 @@ void add_type(Node *node) {
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
     } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
-      node->ty = node->then->ty;
-      if (node->ty->base || node->ty->kind == TY_FUNC)
-        node->ty = common_pointer_type(decay(node->ty), decay(node->els->ty));
+      node->ty = decay(node->then->ty);
+      if (node->ty->base)
+        node->ty = common_pointer_type(node->ty, decay(node->els->ty));
     } else {
       usual_arith_conv(&node->then, &node->els, true);
       node->ty = node->then->ty;
-- 
2.43.0


From 82b5dc0059ce2c41ec518ae31c55d3d308a59186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 80/85] fix: members of anonymous structures are qualified like
 the structure they are in

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 386f737..ac879f0 100644
--- a/parse.c
+++ b/parse.c
@@ -4082,7 +4082,7 @@ static Node *struct_ref(Node *node, Token *tok) {
 
     if (mem->name)
       break;
-    ty = mem->ty;
+    ty = node->ty;
   }
   return node;
 }
-- 
2.43.0


From cb49c79a2285969113b8cb0093af9bf516cd68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 81/85] fix: # after an expansion to nothing does not start a
 directive

---
 preprocess.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index cb7e034..b90ede8 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -996,7 +996,11 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root) {
     push_macro_lock(m, stop_tok);
     align_token(*rest, tok);
   } else {
-    (*rest)->at_bol |= tok->at_bol;
+    // A `#` that an expansion to nothing precedes starts no directive.
+    if (tok->at_bol && !(*rest)->at_bol && equal(*rest, "#"))
+      (*rest)->has_space = true;
+    else
+      (*rest)->at_bol |= tok->at_bol;
     (*rest)->has_space |= tok->has_space;
   }
 
-- 
2.43.0


From 2a72e92df0509eae1a4de5457814d8bb0e398c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 82/85] fix: digit separators outside digit sequences are
 rejected

---
 tokenize.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 38b231c..e57d9c4 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -580,9 +580,16 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   if (tok->len >= 227)
     error_tok(tok, "numeric literal exceeds static buffer size");
 
+  bool hex_digits = tok->loc[0] == '0' && Casecmp(tok->loc[1], 'x');
   for (int i = 0; i < tok->len; i++) {
-    if (tok->loc[i] == '\'')
+    if (tok->loc[i] == '\'') {
+      char *p = &tok->loc[i];
+      if (hex_digits ? !Isxdigit(p[-1]) || !Isxdigit(p[1]) : !Isdigit(p[-1]) || !Isdigit(p[1]))
+        error_tok(tok, "digit separator outside digit sequence");
       continue;
+    }
+    if (Casecmp(tok->loc[i], 'p'))
+      hex_digits = false;
 
     buf[len++] = tok->loc[i];
   }
-- 
2.43.0


From 00fc34bc565f651608ec1417cb5bc56d8e778e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 83/85] fix: a second prefix inside an integer constant is
 rejected

---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index e57d9c4..f795096 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -504,6 +504,10 @@ static bool convert_pp_int(char *loc, int len, Type **res_ty, int64_t *res_val)
     }
   }
 
+  // strtoul() would skip another prefix
+  if (p != loc && *p == '0' && (Casecmp(p[1], 'x') || (base == 2 && Casecmp(p[1], 'b'))))
+    return false;
+
   int64_t val = strtoul(p, &p, base);
 
   // Read U, L or LL suffixes.
-- 
2.43.0


From 8b9a989c26e2da54b4db3e38945651852fcac534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 84/85] fix: the address of a label in the scope of a deferred
 action can be taken

---
 parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index ac879f0..74b6e30 100644
--- a/parse.c
+++ b/parse.c
@@ -4688,10 +4688,13 @@ static void resolve_goto_labels(void) {
     if (!dest)
       error_tok(x->tok->next, "use of undeclared label");
 
-    if (x->kind == ND_GOTO && x->defr_body != dest->defr_body)
+    x->unique_label = dest->unique_label;
+    if (x->kind == ND_LABEL_VAL)
+      continue;
+
+    if (x->defr_body != dest->defr_body)
       error_tok(x->tok->next, "illegal jump");
 
-    x->unique_label = dest->unique_label;
     if (!dest->defr_start)
       continue;
 
-- 
2.43.0


From b5b69f8e88141b88b713a146f8fa34d5f0e7807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 85/85] fix: file names are escaped in line markers and .file
 directives

---
 codegen.c    | 2 +-
 main.c       | 2 +-
 preprocess.c | 8 ++++++--
 slimcc.h     | 1 +
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index ae3075b..2665cc8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4413,7 +4413,7 @@ int codegen(Obj *prog, FILE *out) {
   if (opt_g) {
     File **files = get_input_files();
     for (int i = 0; files[i]; i++)
-      Printftn(".file %d \"%s\"", files[i]->file_no, files[i]->name);
+      Printftn(".file %d \"%s\"", files[i]->file_no, escape_filename(files[i]->name));
   }
 
   for (Obj *var = prog; var; var = var->next) {
diff --git a/main.c b/main.c
index b559994..a0b064b 100644
--- a/main.c
+++ b/main.c
@@ -697,7 +697,7 @@ static void print_tokens(Token *tok, char *path) {
       char *name = orig->file->name;
       if (!strcmp(name, "-"))
         name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, escape_filename(name));
       prev = NULL;
     }
 
diff --git a/preprocess.c b/preprocess.c
index b90ede8..1c6d601 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1537,14 +1537,18 @@ void undef_macro(char *name) {
 }
 
 // Spell a file name so that the literal denotes it.
-static Token *new_filename_token(char *name, Token *tmpl) {
+char *escape_filename(char *name) {
   char *buf = calloc(1, strlen(name) * 2 + 1);
   for (char *p = name, *q = buf; *p; p++) {
     if (*p == '\\' || *p == '"' || *p == '\n')
       *q++ = '\\';
     *q++ = *p == '\n' ? 'n' : *p;
   }
-  return new_str_token(buf, tmpl);
+  return buf;
+}
+
+static Token *new_filename_token(char *name, Token *tmpl) {
+  return new_str_token(escape_filename(name), tmpl);
 }
 
 static Token *file_macro(Token *start) {
diff --git a/slimcc.h b/slimcc.h
index 11f7880..f362440 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -229,6 +229,7 @@ void init_macros(void);
 void define_macro(char *name, char *buf);
 void define_macro_cli(char *str);
 void undef_macro(char *name);
+char *escape_filename(char *name);
 Token *preprocess(Token *tok, char *input_file);
 extern Token *last_alloc_tok;
 extern Token *tok_freelist;
-- 
2.43.0

