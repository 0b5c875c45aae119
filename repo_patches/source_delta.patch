From 4d90ef0a2e03c2f17d67b53669ce39e88f6c03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:45 +0000
Subject: [PATCH 01/81] fix: do not read before the path when a file name has
 no extension

---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..cee1279 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ?
+                    p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From b51e4ff78bc7f7cf61e4b02fdaaf4e572bc011a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:45 +0000
Subject: [PATCH 02/81] fix: size the path buffer of the directory walk by the
 path, and check lstat

---
 src/sourcefile.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index cee1279..1ed509d 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -370,29 +370,25 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
-  char filepath[FILENAME_MAX];
-  strncpy(filepath, directory, strlen(directory));
-  *(filepath + strlen(directory)) = '/';
-  char *f_p = filepath + strlen(directory) + 1;
-
   struct dirent *file;
   DIR *d = NULL;
   d = opendir(directory);
   if (d) {
     while ((file = readdir(d))) {
       struct stat st;
-      int length = strlen(file->d_name);
-      strncpy(f_p, (const char *)file->d_name, length);
-      *(f_p + length) = '\0';
+      char *filepath = malloc(strlen(directory) + strlen(file->d_name) + 2);
+      sprintf(filepath, "%s/%s", directory, file->d_name);
 
-      lstat(filepath, &st);
-      if(S_ISLNK(st.st_mode))
+      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode)) {
+        free(filepath);
         continue;
+      }
 
       if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
         ohcount_sourcefile_list_add_directory(list, filepath);
       else if (S_ISREG(st.st_mode))
         ohcount_sourcefile_list_add_file(list, filepath);
+      free(filepath);
     }
     closedir(d);
   }
-- 
2.43.0


From c1cb5c2d6e94f4126a128f69a5c69bceb4ff7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:58 +0000
Subject: [PATCH 03/81] fix: print annotated lines without a stack copy one
 byte too short

---
 src/ohcount.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..4b1d6a9 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -13,10 +13,8 @@ void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
   int length = end - start;
-  char buf[length];
-  strncpy(buf, (const char*)sf->contents + start, length); // field exists
-  buf[length] = '\0';
-  printf("%s\t%s\t%s", language, entity, buf);
+  printf("%s\t%s\t%.*s", language, entity, length,
+         (const char*)sf->contents + start); // field exists
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0


From fab075b105e627aad6fe8819c82a6972b9ecb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:58 +0000
Subject: [PATCH 04/81] fix: give the diff's working copy of the text room for
 its terminator

---
 src/diff.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..938ca87 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -315,19 +315,19 @@ static int hash(char *line) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
+  char *bufcpy = malloc(strlen(buf) + 1);
   char *l;
 
   p = malloc(3*sizeof(struct line));
   j = 0;
-  strncpy(bufcpy, buf, strlen(buf));
-  bufcpy[strlen(buf)] = 0;
+  strcpy(bufcpy, buf);
   l = strtok(bufcpy, "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
     p[j].value = hash(l);
     l = strtok(NULL, "\n");
   }
+  free(bufcpy);
   len[i] = j;
   file[i] = p;
 }
-- 
2.43.0


From d99b64391c6a0844d5c8ce3e62f8935610719e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:07 +0000
Subject: [PATCH 05/81] fix: merge a delta into its language's entry, not only
 into the list's first

---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..0b47e5d 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From dd84150957b1fdf888bcee7fd2e3e707e195d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:21 +0000
Subject: [PATCH 06/81] fix: tell changed lines apart that the diff's 16-bit
 line sum confused

---
 src/diff.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 938ca87..ea45868 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -279,32 +279,18 @@ struct cand *clist; // merely a free storage pot for candidates
 int clen;
 int *J; // will be overlaid on class
 
-#define HALFLONG 16
-#define low(x)  (x&((1L<<HALFLONG)-1))
-#define high(x) (x>>HALFLONG)
-
 /**
  * Returns a computed hash for a given string.
- * Hashing has the effect of arranging line in 7-bit bytes and then summing 1-s
- * complement in 16-bit hunks.
+ * The hash (32-bit FNV-1a) depends on the position of every character, so that
+ * lines with the same characters in another order are told apart. It is never
+ * 0, which equiv() reserves for lines without a counterpart.
  * @param line The line of a buffer to hash.
  */
 static int hash(char *line) {
-  long sum;
-  unsigned shift;
-  char *p;
-  int len;
-
-  sum = 1;
-  shift = 0;
-  len = strlen(line);
-  p = line;
-  while (len--) {
-    sum += (long)*p++ << (shift &= (HALFLONG-1));
-    shift += 7;
-  }
-  sum = low(sum) + high(sum);
-  return ((short)low(sum) + (short)high(sum));
+  unsigned int sum = 2166136261u;
+  for (; *line; line++)
+    sum = (sum ^ (unsigned char)*line) * 16777619u;
+  return sum ? (int)sum : 1;
 }
 
 /**
-- 
2.43.0


From 803addafa9c9b516cf36410917f4216d0e6a2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:01 +0000
Subject: [PATCH 07/81] fix: count a line that holds only a closing string or
 comment delimiter as code or comment, not as blank

---
 src/parsers/autoconf.rl        | 2 +-
 src/parsers/bfpp.rl            | 2 +-
 src/parsers/c.rl               | 4 ++--
 src/parsers/chaiscript.rl      | 4 ++--
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/coq.rl             | 2 +-
 src/parsers/cs_aspx.rl         | 4 ++--
 src/parsers/css.rl             | 4 ++--
 src/parsers/d.rl               | 6 +++---
 src/parsers/elm.rl             | 2 +-
 src/parsers/factor.rl          | 2 +-
 src/parsers/forth.rl           | 2 +-
 src/parsers/fortranfree.rl     | 4 ++--
 src/parsers/fsharp.rl          | 4 ++--
 src/parsers/glsl.rl            | 4 ++--
 src/parsers/golang.rl          | 4 ++--
 src/parsers/grace.rl           | 2 +-
 src/parsers/groovy.rl          | 4 ++--
 src/parsers/haskell.rl         | 2 +-
 src/parsers/jam.rl             | 4 ++--
 src/parsers/javascript.rl      | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/kotlin.rl          | 2 +-
 src/parsers/limbo.rl           | 4 ++--
 src/parsers/lisp.rl            | 2 +-
 src/parsers/lua.rl             | 4 ++--
 src/parsers/modula3.rl         | 4 ++--
 src/parsers/mxml.rl            | 4 ++--
 src/parsers/pascal.rl          | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/powershell.rl      | 4 ++--
 src/parsers/puppet.rl          | 2 +-
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/rust.rl            | 2 +-
 src/parsers/shell.rl           | 4 ++--
 src/parsers/smalltalk.rl       | 2 +-
 src/parsers/sql.rl             | 2 +-
 src/parsers/stratego.rl        | 2 +-
 src/parsers/tcl.rl             | 2 +-
 src/parsers/unrealscript.rl    | 4 ++--
 src/parsers/vb_aspx.rl         | 4 ++--
 41 files changed, 67 insertions(+), 67 deletions(-)

diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 98721d1..065807a 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -61,7 +61,7 @@ enum {
       ']' @ac_str_nc_dec @code
       |
       (nonnewline - ws - [\[\]]) @code
-    )* :>> (']' when { nest_count == 0 });
+    )* :>> (']' when { nest_count == 0 }) @code;
 
   ac_line := |*
     spaces      ${ entity = AC_SPACE; } => ac_ccallback;
diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fcb029e..af71c35 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -58,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ')';
+    )* :>> ')' @comment;
 
   bfpp_line := |*
     spaces             ${ entity = BFPP_SPACE;    } => bfpp_ccallback;
diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 0ba4008..d0da598 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   c_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   c_string = c_sq_str | c_dq_str;
 
   c_line := |*
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5491e36..b83cc4a 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -69,7 +69,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   chai_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
@@ -79,7 +79,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..4135c70 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '\'' @{ fgoto cshtml_line; };
+  )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '"' @{ fgoto cshtml_line; };
+  )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index eaa3330..f1e141e 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -68,7 +68,7 @@ enum {
       ws
       |
       [^"] @code
-    )* '"';
+    )* '"' @code;
 
   coq_line := |*
     spaces          ${ entity = COQ_SPACE; } => coq_ccallback;
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..b7f0f66 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -78,7 +78,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto cs_aspx_line; };
+  )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
@@ -91,7 +91,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto cs_aspx_line; };
+  )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..14736d9 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   css_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   css_string = css_sq_str | css_dq_str;
 
   css_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 9ca52b8..1dac49d 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -87,7 +87,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   d_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -97,7 +97,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   d_bt_str =
     '`' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -107,7 +107,7 @@ enum {
       [^\t `\\] @code
       |
       '\\' nonnewline @code
-    )* '`';
+    )* '`' @code;
   d_string = d_sq_str | d_dq_str | d_bt_str;
 
   d_line := |*
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 1d71ab2..bbc0ac5 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   elm_string = elm_char | elm_dq_str;
 
   elm_line := |*
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index c16aee9..06a11da 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -56,7 +56,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   factor_line := |*
     spaces        ${ entity = FACTOR_SPACE; } => factor_ccallback;
diff --git a/src/parsers/forth.rl b/src/parsers/forth.rl
index c7c53c0..ebfa526 100644
--- a/src/parsers/forth.rl
+++ b/src/parsers/forth.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> ')';
+    )* :>> ')' @comment;
   forth_comment = forth_line_comment | forth_block_comment;
 
   forth_string = '"' @code ([^\r\n\f"])* '"';
diff --git a/src/parsers/fortranfree.rl b/src/parsers/fortranfree.rl
index 0f1def1..f805a31 100644
--- a/src/parsers/fortranfree.rl
+++ b/src/parsers/fortranfree.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       [^\r\n\f\t '] @code
-    )* '\'';
+    )* '\'' @code;
   ffree_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %ffree_ccallback
@@ -61,7 +61,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @code
-    )* '"';
+    )* '"' @code;
   ffree_string = ffree_sq_str | ffree_dq_str;
 
   ffree_line := |*
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 64c85b1..cb6e492 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -74,7 +74,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
@@ -84,7 +84,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   fsharp_string = fsharp_sq_str | fsharp_dq_str;
 
   fsharp_line := |*
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 167364c..64e0cda 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -75,7 +75,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   glsl_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
@@ -85,7 +85,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   glsl_string = glsl_sq_str | glsl_dq_str;
 
   glsl_line := |*
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index f845ca0..fa9a227 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   golang_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   golang_string = golang_sq_str | golang_dq_str;
 
   golang_line := |*
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..1d85813 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,7 +54,7 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
-    )* '"' @commit;
+    )* '"' @commit @code;
 
   grace_line := |*
     spaces         ${ entity = GRACE_SPACE; } => grace_ccallback;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index e1a6da4..caf6730 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -71,7 +71,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   groovy_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
@@ -81,7 +81,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   groovy_string = groovy_sq_str | groovy_dq_str;
 
   groovy_line := |*
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 1bb062d..9f4b445 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   haskell_string = haskell_char | haskell_dq_str;
 
   haskell_line := |*
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..0806347 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -55,7 +55,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   jam_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   jam_string = jam_sq_str | jam_dq_str;
 
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..723fbcf 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -68,7 +68,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   js_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
@@ -78,7 +78,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..fec9774 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto jsp_line; };
+  )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto jsp_line; };
+  )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 38ef112..cdb974e 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -76,7 +76,7 @@ enum {
       ws
       |
       [^\t ] @code
-    )* '"""';
+    )* '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..b7964a0 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -54,13 +54,13 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   limbo_dq_str =
     '"' @enqueue @code (
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   limbo_string = limbo_sq_str | limbo_dq_str;
 
   limbo_line := |*
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 0698964..08bf62e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -71,7 +71,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..067413f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -78,7 +78,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   lua_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   lua_string = lua_sq_str | lua_dq_str | lua_long_string;
 
   lua_line := |*
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 2166f0f..198b62c 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -78,7 +78,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   modula3_string = modula3_singlequoted_string | modula3_doublequoted_string;
 
 
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index 7afe23b..f3604c0 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -72,7 +72,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   mxml_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
@@ -82,7 +82,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4dfdf17..4578123 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   pascal_comment = pascal_line_comment | pascal_old_block_comment |
                    pascal_turbo_block_comment;
 
@@ -73,7 +73,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   pascal_line := |*
     spaces          ${ entity = PASCAL_SPACE; } => pascal_ccallback;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..a306568 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '\'' @{ fgoto phtml_line; };
+  )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '"' @{ fgoto phtml_line; };
+  )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..c309222 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   powershell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
@@ -76,7 +76,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredoc; see ruby.rl for details.
   powershell_string = powershell_sq_str | powershell_dq_str;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d862f7f..0abb695 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   puppet_line := |*
     spaces          ${ entity = PUPPET_SPACE; } => puppet_ccallback;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..7ee2fcb 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto rhtml_line; };
+  )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto rhtml_line; };
+  )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index e3b17c3..0dedd14 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   rust_string = rust_dq_str;
 
   rust_line := |*
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..ecfaf97 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -57,7 +57,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   shell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
@@ -69,7 +69,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   shell_string = shell_sq_str | shell_dq_str;
 
diff --git a/src/parsers/smalltalk.rl b/src/parsers/smalltalk.rl
index bffb167..fd59f35 100644
--- a/src/parsers/smalltalk.rl
+++ b/src/parsers/smalltalk.rl
@@ -51,7 +51,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @comment
-    )* '"';
+    )* '"' @comment;
 
   smalltalk_string = '\'' @code [^\r\n\f']* '\'';
 
diff --git a/src/parsers/sql.rl b/src/parsers/sql.rl
index 8f20433..09eb40d 100644
--- a/src/parsers/sql.rl
+++ b/src/parsers/sql.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   sql_comment = sql_line_comment | sql_c_block_comment | sql_block_comment;
 
   sql_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 56d76c6..976480d 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -71,7 +71,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   stratego_char_str =
     '\'' (
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index cef3df1..79fb391 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -62,7 +62,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   tcl_line := |*
     spaces       ${ entity = TCL_SPACE; } => tcl_ccallback;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 7e6d8e4..13d2aee 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -64,7 +64,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   unrealscript_string = unrealscript_sq_str | unrealscript_dq_str;
 
   unrealscript_line := |*
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..d6b987d 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -78,7 +78,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto vb_aspx_line; };
+  )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
@@ -91,7 +91,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto vb_aspx_line; };
+  )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
-- 
2.43.0


From 04d92687513dbec53f04ce688b33e19e9ea93929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 08/81] fix: count the inside of MATLAB, Octave, Pascal and
 Puppet block comments as comment, not code

---
 src/parsers/matlab.rl | 2 +-
 src/parsers/octave.rl | 2 +-
 src/parsers/pascal.rl | 2 +-
 src/parsers/puppet.rl | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 94862b4..74b1324 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   matlab_comment = matlab_line_comment | matlab_block_comment;
 
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 6261af3..4d9255c 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -54,7 +54,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   octave_comment = octave_line_comment | octave_block_comment;
 
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4578123..a4eae58 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -51,7 +51,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*)';
   pascal_turbo_block_comment =
     '{' @comment (
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index 0abb695..7d924bd 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*/';
   puppet_comment = puppet_line_comment | puppet_block_comment;
 
-- 
2.43.0


From 6de91ba9b6fad44c6bb365377800bea75d9989f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 09/81] fix: end a Kotlin raw string at its first closing
 quotes

---
 src/parsers/kotlin.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index cdb974e..40ff11e 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -76,7 +76,7 @@ enum {
       ws
       |
       [^\t ] @code
-    )* '"""' @code;
+    )* :>> '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
-- 
2.43.0


From 7f891282879a372cfdc09c35e50fc937c12c6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 10/81] fix: accept every escape in a Modelica string

---
 src/parsers/modelica.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index f6c5cd2..b4d3020 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -60,8 +60,8 @@ enum {
   string = '\"' @code
     (newline %{ entity = INTERNAL_NL; } %modelica_ccallback
     |ws
-    |[^ \t\n"\\] @code
-    |'\\\"' @code
+    |[^\r\n\f\t "\\] @code
+    |'\\' nonnewline @code
     )* '\"' @code;
 
   modelica_line := |*
-- 
2.43.0


From 756acac0ab9c95812d3a19c7518804314c73ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 11/81] fix: let single-quoted Modula-2 and Oberon strings hold
 double quotes, and end at their quote

---
 src/parsers/modula2.rl | 2 +-
 src/parsers/oberon.rl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index 27d6156..96e5efb 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -69,7 +69,7 @@ enum {
 
   # Modula-2 string literals
 
-  modula2_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  modula2_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   modula2_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   modula2_string = modula2_singlequoted_string | modula2_doublequoted_string;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index ee0e30e..f9953a2 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -69,7 +69,7 @@ enum {
 
   # Oberon string literals
 
-  oberon_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  oberon_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   oberon_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   oberon_string = oberon_singlequoted_string | oberon_doublequoted_string;
-- 
2.43.0


From 39ec01a1d97b5002631028bcd08af7e673f2194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 12/81] fix: recognise Mathematica strings of any length

---
 src/parsers/mathematica.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mathematica.rl b/src/parsers/mathematica.rl
index 72b5957..5c1a3ba 100644
--- a/src/parsers/mathematica.rl
+++ b/src/parsers/mathematica.rl
@@ -63,7 +63,7 @@ enum {
 
   mathematica_comment = mathematica_nested_block_comment;
 
-  mathematica_string = '"' @code ([^"]) '"';
+  mathematica_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
 
   mathematica_line := |*
     spaces               ${ entity = MATHEMATICA_SPACE; } => mathematica_ccallback;
-- 
2.43.0


From 90cf85663797493974536fb846b30ee3a5df8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 13/81] fix: count Erlang lines that start with a single % as
 comments

---
 src/parsers/erlang.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/erlang.rl b/src/parsers/erlang.rl
index e1294b6..eceaeaa 100644
--- a/src/parsers/erlang.rl
+++ b/src/parsers/erlang.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  erlang_comment = '%%' @comment nonnewline*;
+  erlang_comment = '%' @comment nonnewline*;
 
   erlang_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
   erlang_dq_str = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
-- 
2.43.0


From a7cb95684dc6d39f00f38e29292d051c29619b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 14/81] fix: do not lose the end of Lisp strings that begin
 with a newline or an escape

---
 src/parsers/lisp.rl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 08bf62e..78e3e11 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -59,11 +59,8 @@ enum {
   lisp_empty_string =
     '"'{2} [^"] @{fhold;} @code;
 
-  lisp_char_string =
-    '"' [^"] '"' @code;
-
   lisp_regular_string =
-    '"' ([^"]{2}) @code (
+    '"' [^"] @{fhold;} @code (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
       ws
@@ -71,9 +68,9 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @code;
+    )+ '"' @code;
 
-  lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
+  lisp_string = lisp_empty_string | lisp_regular_string;
 
   lisp_line := |*
     spaces        ${ entity = LISP_SPACE; } => lisp_ccallback;
-- 
2.43.0


From 9f12ff1c0dd5312adb9e3fce24db601669a8ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 15/81] fix: take only column one as the mark of a fixed-form
 Fortran comment

---
 src/parsers/fortranfixed.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/fortranfixed.rl b/src/parsers/fortranfixed.rl
index 16ad9c1..327e874 100644
--- a/src/parsers/fortranfixed.rl
+++ b/src/parsers/fortranfixed.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  ffixed_comment = 'C' @comment nonnewline*;
+  ffixed_comment = ([Cc*!] when starts_line) @comment nonnewline*;
 
   ffixed_sq_str = '\'' @code nonnewline* '\'';
   ffixed_dq_str = '"' @code nonnewline* '"';
-- 
2.43.0


From 830f81d70450a7ad5645c46e5047faa9dc42b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 16/81] fix: do not take a one-line Lua or Julia long comment
 followed by code as a line comment

---
 src/parsers/julia.rl | 2 +-
 src/parsers/lua.rl   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsers/julia.rl b/src/parsers/julia.rl
index d700570..02c57fc 100644
--- a/src/parsers/julia.rl
+++ b/src/parsers/julia.rl
@@ -42,7 +42,7 @@ enum {
     }
   }
 
-  julia_line_comment = '#' @comment nonnewline*;
+  julia_line_comment = '#' @comment ([^=\r\n\f] nonnewline*)?;
   julia_block_comment =
     '#=' @comment (
       newline %{ entity = INTERNAL_NL; } %julia_ccallback
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 067413f..622a2fe 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -58,7 +58,12 @@ enum {
       |
       (nonnewline - ws) @comment
     )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
-  lua_line_comment = '--' @comment nonnewline*;
+  lua_line_comment = # make sure it's not a long comment
+    '--' @comment (
+      ([^\[\r\n\f] nonnewline*)?
+      |
+      '[' '='* ([^=\[\r\n\f] nonnewline*)?
+    );
   lua_comment = lua_long_comment | lua_line_comment;
 
   lua_long_string =
-- 
2.43.0


From 1209bc5d50c74b9974d8db921d1d440eb5ce2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 17/81] fix: count blank lines in Rebol strings as blank

---
 src/parsers/rebol.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index eb7fc59..b4e9518 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -55,10 +55,10 @@ enum {
   rebol_comment = rebol_line_comment;
 
   rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
-  rebol_cb_str_inner = [^{}] | '^{' | '^}'
+  rebol_cb_str_inner = ws | [^{}\r\n\f\t ] @code | '^{' | '^}'
                      | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
                      | rebol_cb_str_nest;
-  rebol_cb_str = '{' @code rebol_cb_str_inner* @code '}' @code;
+  rebol_cb_str = '{' @code rebol_cb_str_inner* '}' @code;
   rebol_string = rebol_dq_str | rebol_cb_str;
 
   rebol_line := |*
-- 
2.43.0


From c1f7a5665357468d85362562b12ae9a1ff408c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 18/81] fix: do not let an unclosed quote swallow line ends, so
 that no line is lost

---
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 4 ++--
 src/parsers/coq.rl          | 2 +-
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/javascript.rl   | 4 ++--
 src/parsers/kotlin.rl       | 2 +-
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/rust.rl         | 2 +-
 src/parsers/stratego.rl     | 4 ++--
 src/parsers/unrealscript.rl | 4 ++--
 16 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index d0da598..cfc8ab3 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index b83cc4a..5547429 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -66,7 +66,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -76,7 +76,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index f1e141e..71469da 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -67,7 +67,7 @@ enum {
       |
       ws
       |
-      [^"] @code
+      [^\r\n\f\t "] @code
     )* '"' @code;
 
   coq_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 1dac49d..b71a3c1 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -84,7 +84,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -94,7 +94,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
@@ -104,7 +104,7 @@ enum {
       |
       ws
       |
-      [^\t `\\] @code
+      [^\r\n\f\t `\\] @code
       |
       '\\' nonnewline @code
     )* '`' @code;
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index bbc0ac5..ddf711d 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index cb6e492..4105d51 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -81,7 +81,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 64e0cda..3a5f853 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -72,7 +72,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -82,7 +82,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index fa9a227..144c4ab 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index caf6730..6650e06 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -78,7 +78,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 9f4b445..5b4e469 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 723fbcf..c43e53e 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -65,7 +65,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 40ff11e..53bf77d 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t ] @code
+      [^\r\n\f\t ] @code
     )* :>> '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 198b62c..5633f91 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -85,7 +85,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 0dedd14..3011139 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 976480d..5d4107c 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
@@ -77,7 +77,7 @@ enum {
     '\'' (
       ('\\' [.] '\'') @code
       |
-      ([^'\\] '\'') @code
+      ([^\r\n\f'\\] '\'') @code
     );
 
   stratego_string = stratego_dq_str | stratego_char_str;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 13d2aee..4e753ff 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -61,7 +61,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-- 
2.43.0


From 8bfc1e13c2ecae09acb4ca01e8060914e63e458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 19/81] fix: give CoffeeScript and DTX metadata under the names
 they are detected as

---
 src/hash/languages.gperf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..fe44c64 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -35,7 +35,6 @@ cuda, LANG_CUDA, "CUDA", 0
 dart, LANG_DART, "Dart", 0
 dcl, LANG_DCL, "DCL", 0
 dmd, LANG_DMD, "D", 0
-dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 dylan, LANG_DYLAN, "Dylan", 0
 ebuild, LANG_EBUILD, "Ebuild", 0
 ec, LANG_EC, "eC", 0
@@ -115,6 +114,7 @@ sql, LANG_SQL, "SQL", 0
 swift, LANG_SWIFT, "Swift", 0
 tcl, LANG_TCL, "TCL", 0
 tex, LANG_TEX, "TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 umple, LANG_UMPLE, "Umple", 0
 unrealscript, LANG_UNREALSCRIPT, "UnrealScript", 0
 typescript, LANG_TYPESCRIPT, "TypeScript", 0
-- 
2.43.0


From 81d74e64f5dd972e5463e4f844f2d7a28b1f44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 20/81] fix: keep counting a Vim script after a trailing
 comment

---
 src/parsers/vim.rl | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 3d278f2..3c52d1c 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -46,8 +46,8 @@ enum {
 
   vim_comment = '"' when no_code  @comment nonnewline*;
 
-  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' any)* '\'';
-  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' any)* '"';
+  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
+  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
   vim_string = vim_sq_str | vim_dq_str;
 
   vim_line := |*
@@ -55,9 +55,7 @@ enum {
     vim_comment;
     vim_string;
     newline        ${ entity = NEWLINE;   } => vim_ccallback;
-    #'"';
-    ^(space | '"') ${ entity = VIM_ANY;   } => vim_ccallback;
-
+    ^space         ${ entity = VIM_ANY;   } => vim_ccallback;
   *|;
 
   # Entity machine
-- 
2.43.0


From fbf096744a54a24bed635650a20a0f103b5f7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 21/81] fix: do not take a one-line CoffeeScript block comment
 followed by code as a line comment

---
 src/parsers/coffeescript.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..2cd5395 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -45,7 +45,8 @@ enum {
     }
   }
 
-  coffeescript_line_comment = ('#') @comment nonnewline*;
+  coffeescript_line_comment = # make sure it's not ###
+    '#' @comment (([^#\r\n\f] nonnewline*)? | '#' ([^#\r\n\f] nonnewline*)? | '###' nonnewline*);
   coffeescript_block_comment =
     '###' @comment (
       newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
-- 
2.43.0


From adeea4d87b1569ccaca31fa561cb8284a4edb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 22/81] fix: do not take a slash at the end of a line, or an
 escaped slash, for a whole JavaScript or ChaiScript regular expression

---
 src/parsers/chaiscript.rl | 2 +-
 src/parsers/javascript.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5547429..aeeb476 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -80,7 +80,7 @@ enum {
       |
       '\\' nonnewline @code
     )* '"' @code;
-  chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  chai_regex_str = '/' ([^\r\n\f/*\\] | '\\' nonnewline) ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
   chai_line := |*
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index c43e53e..699fa70 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -79,7 +79,7 @@ enum {
       |
       '\\' nonnewline @code
     )* '"' @code;
-  js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  js_regex_str = '/' ([^\r\n\f/*\\] | '\\' nonnewline) ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
   js_line := |*
-- 
2.43.0


From bc76d82a8defd81017d84d0a0b2c6f915bf35f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:17 +0000
Subject: [PATCH 23/81] fix: do not report a stale line where embedded
 JavaScript begins in CoffeeScript

---
 src/parsers/coffeescript.rl | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 2cd5395..a67d1b5 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -38,10 +38,13 @@ enum {
       code
       break;
     case INTERNAL_NL:
-      std_internal_newline(COFFEESCRIPT_LANG)
+      emb_internal_newline(COFFEESCRIPT_LANG)
       break;
     case NEWLINE:
-      std_newline(COFFEESCRIPT_LANG)
+      emb_newline(COFFEESCRIPT_LANG)
+      break;
+    case CHECK_BLANK_ENTRY:
+      check_blank_entry(COFFEESCRIPT_LANG)
     }
   }
 
@@ -97,7 +100,7 @@ enum {
 		coffeescript_sq_here_doc | coffeescript_dq_here_doc) @code;
 
   coffeescript_js_entry = '`' @code;
-  coffeescript_js_outry = '`' @check_blank_outry @code;
+  coffeescript_js_outry = '`' @{ seen = 0; } @code;
 	coffeescript_js_line := |*
     coffeescript_js_outry @{ p = ts; fret; };
     # unmodified JavaScript patterns
@@ -109,8 +112,8 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
-			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
+    coffeescript_js_entry @{ entity = CHECK_BLANK_ENTRY; } @coffeescript_ccallback
+      @{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
     coffeescript_string;
-- 
2.43.0


From c685085a8523f049a2d1a4c8db1ad7405ab472d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:17 +0000
Subject: [PATCH 24/81] fix: count a line that only closes an ASPX code block
 as markup

---
 src/parsers/cs_aspx.rl | 2 +-
 src/parsers/vb_aspx.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index b7f0f66..db34a0d 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -120,7 +120,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index d6b987d..49e39e4 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -120,7 +120,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
-- 
2.43.0


From 22100e7dd09731b2485e94ac2877ef014fe7270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:17 +0000
Subject: [PATCH 25/81] fix: attribute an unterminated last line to the
 embedded language it holds

---
 src/parser_macros.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..2499219 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -247,15 +247,17 @@ void free_queue() {
  * Processes the last line for buffers that don't have a newline at EOF.
  * This is typically used at the end of the parse_lang function after the Ragel
  * parser has been executed.
+ * A line in which an embedded language has been seen belongs to that language.
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
 #define process_last_line(lang) {\
   if ((whole_line_comment || line_contains_code) && callback) { \
+    const char *last_lang = seen ? seen : lang; \
     if (line_contains_code) \
-      callback(lang, "lcode", cint(line_start), cint(pe), userdata); \
+      callback(last_lang, "lcode", cint(line_start), cint(pe), userdata); \
     else if (whole_line_comment) \
-      callback(lang, "lcomment", cint(line_start), cint(pe), userdata); \
+      callback(last_lang, "lcomment", cint(line_start), cint(pe), userdata); \
   } \
 }
 
-- 
2.43.0


From 6d64ca85cae2ae6bdfbe9a5bef0ea75a99923b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 26/81] fix: do not leave PHP at a question mark that closes
 nothing

---
 src/parsers/phphtml.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index a306568..6705dde 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -122,9 +122,11 @@ enum {
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
-  phtml_php_outry = '?>' @check_blank_outry @code;
+  # Control returns to the parent between the two characters of '?>'.
+  action phtml_php_closes { p + 1 < pe && *(p+1) == '>' }
+  phtml_php_outry = '?' when phtml_php_closes;
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    phtml_php_outry @{ p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
-- 
2.43.0


From 87f3f7ad6343caec42cecd0c1d2ead71488dde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 27/81] fix: attribute an unterminated last line to the host
 where the host has resumed

---
 src/parsers/html.rl              | 4 ++--
 src/parsers/metapost_with_tex.rl | 2 +-
 src/parsers/mxml.rl              | 4 ++--
 src/parsers/nix.rl               | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..2d1c581 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -70,7 +70,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
 
   html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  html_css_outry = '</' /style/i ws_or_inl* '>' @{ seen = 0; } @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -82,7 +82,7 @@ enum {
   *|;
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  html_js_outry = '</' /script/i ws_or_inl* '>' @{ seen = 0; } @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/metapost_with_tex.rl b/src/parsers/metapost_with_tex.rl
index 64040d9..35f5edd 100644
--- a/src/parsers/metapost_with_tex.rl
+++ b/src/parsers/metapost_with_tex.rl
@@ -56,7 +56,7 @@ enum {
   mptex_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
 
   mptex_tex_entry = ('verbatimtex' | 'btex') @code;
-  mptex_tex_outry = 'etex' @check_blank_outry @code;
+  mptex_tex_outry = 'etex' @{ seen = 0; } @code;
   mptex_tex_line := |*
     mptex_tex_outry @{ p = ts; fret; };
     # unmodified Tex patterns
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index f3604c0..d8f9f81 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -88,7 +88,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
 
   mxml_css_entry = '<mx:Style>' @code;
-  mxml_css_outry = '</mx:Style>' @check_blank_outry @code;
+  mxml_css_outry = '</mx:Style>' @{ seen = 0; } @code;
   mxml_css_line := |*
     mxml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -100,7 +100,7 @@ enum {
   *|;
 
   mxml_as_entry = '<mx:Script>' @code;
-  mxml_as_outry = '</mx:Script>' @check_blank_outry @code;
+  mxml_as_outry = '</mx:Script>' @{ seen = 0; } @code;
   mxml_as_line := |*
     mxml_as_outry @{ p = ts; fret; };
     # unmodified Actionscript patterns
diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index a95c071..6609f73 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -62,7 +62,7 @@ enum {
   nix_comment = nix_line_comment | nix_block_comment;
 
   nix_dq_shell_entry = '"' @code;
-  nix_dq_shell_outry = '"' @check_blank_outry @code;
+  nix_dq_shell_outry = '"' @{ seen = 0; } @code;
   nix_dq_shell_line := |*
     nix_dq_shell_outry @{ p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
@@ -75,7 +75,7 @@ enum {
   *|;
 
   nix_dsq_shell_entry = "''" @code;
-  nix_dsq_shell_outry = "''" @check_blank_outry @code;
+  nix_dsq_shell_outry = "''" @{ seen = 0; } @code;
   nix_dsq_shell_line := |*
     nix_dsq_shell_outry @{ p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
-- 
2.43.0


From 66aea0b2b5706d3fc104dc5472047e0aba9853f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 28/81] fix: report a line that closes a Nix string from its
 start

---
 src/parsers/nix.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index 6609f73..3cedd55 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -62,7 +62,7 @@ enum {
   nix_comment = nix_line_comment | nix_block_comment;
 
   nix_dq_shell_entry = '"' @code;
-  nix_dq_shell_outry = '"' @{ seen = 0; } @code;
+  nix_dq_shell_outry = '"' @{ seen = 0; inqueue = 0; } @code;
   nix_dq_shell_line := |*
     nix_dq_shell_outry @{ p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
@@ -75,7 +75,7 @@ enum {
   *|;
 
   nix_dsq_shell_entry = "''" @code;
-  nix_dsq_shell_outry = "''" @{ seen = 0; } @code;
+  nix_dsq_shell_outry = "''" @{ seen = 0; inqueue = 0; } @code;
   nix_dsq_shell_line := |*
     nix_dsq_shell_outry @{ p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
-- 
2.43.0


From f7573b9b90e3e29552d4afe8dc4a6677e3ffc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 29/81] fix: do not count blank lines after a Haml comment
 twice

---
 src/parsers/haml.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..644d856 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -94,10 +94,10 @@ enum {
   haml_xhtml_tag = "%" ((nonnewline-ws-'['-'{')+ - haml_ruby_evaluator) haml_xhtml_tag_modifier? '//'?;
 
   haml_block_line_transition =
-    haml_eol %{ entity = INTERNAL_NL;} %haml_ccallback
+    haml_eol >enqueue %{ entity = INTERNAL_NL;} %haml_ccallback
     ( newline %{ entity = INTERNAL_NL; } %haml_ccallback )*
     ( [ ]{2} when {current_indent_level < prior_indent_level} @haml_indent_level_inc )*
-    ( [ ]{2} when {current_indent_level >= prior_indent_level} @haml_indent_level_inc)+;
+    ( [ ]{2} when {current_indent_level >= prior_indent_level} @haml_indent_level_inc @commit)+;
 
   haml_block_comment =
     haml_indent_init haml_comment_delimiter >haml_indent_level_set @comment (
-- 
2.43.0


From 48c643a76b5e4f82564384aadd26b21a5ccc21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:57 +0000
Subject: [PATCH 30/81] fix: find the depth of a Haml comment from its own line

---
 src/parsers/haml.rl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index 644d856..bc869f3 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -54,7 +54,12 @@ enum {
 
 	action haml_indent_level_inc { current_indent_level++; }
 	action haml_indent_level_res { current_indent_level = 0; }
-  action haml_indent_level_set { prior_indent_level = current_indent_level; }
+  action haml_indent_level_set {
+    char *indent = p;
+    while (indent > buffer && *(indent-1) != '\n' && *(indent-1) != '\r') indent--;
+    for (prior_indent_level = 0; *indent == ' ' && *(indent+1) == ' '; indent += 2)
+      prior_indent_level++;
+  }
   action bracket_inc { bracket_level++; }
   action bracket_dec { bracket_level--; }
   action bracket_level_res { bracket_level = 0; }
-- 
2.43.0


From b2ac4da0cdf4bc397b54099ba23a079271fc9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 31/81] fix: do not write past the line buffers of language
 detection

---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..af17017 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -146,7 +146,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -166,7 +166,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -323,7 +323,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -572,7 +572,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -741,7 +741,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1029,7 +1029,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
-- 
2.43.0


From fd25d5dc21880f4db7245c079d61a221020c1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 32/81] fix: give the copies made while detecting a language
 room for their terminator

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index af17017..11d2b0a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -236,7 +236,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length];
+      char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf);
@@ -550,7 +550,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -650,7 +650,7 @@ const char *disambiguate_in(SourceFile *sourcefile) {
   if (strstr(p, ".") <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
@@ -1066,7 +1066,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
-- 
2.43.0


From f492ce91f0fedf63e2f99f86ae7318bed8843c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 33/81] fix: stop at the end of the line when an Emacs mode
 line is not closed

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 11d2b0a..7ebb493 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -165,7 +165,8 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
       pe = p;
-      while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
+      while (*pe && !isspace(*pe) && *pe != ';' && strncmp(pe, "-*-", 3) != 0)
+        pe++;
       length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
-- 
2.43.0


From ce6b3505289ae90ea0f8b39bb60b5ad0607909ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 34/81] fix: do not read before the text that libmagic
 returned, and close its cookie

---
 src/detector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 7ebb493..00ea437 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -53,14 +53,14 @@ const char *magic_parse(char *line) {
   }
 
   p = strstr(line, "script"); // Example: "PHP script, ASCII text"
-  if (p) {
+  if (p && p != line) {
     do {
       p--;
       pe = p;
-      while (*p == ' ') p--;
+      while (p != line && *p == ' ') p--;
       while (p != line && isalnum(*(p - 1))) p--;
       if (p != line && *(p - 1) == '-') p--;
-    } while (*p == '-'); // Skip over any switches.
+    } while (*p == '-' && p != line); // Skip over any switches.
     length = pe - p;
     strncpy(buf, p, length);
     buf[length] = '\0';
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
-- 
2.43.0


From 0947178554fb673343c578863532259004e92a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 35/81] fix: recognise the Limbo include that the .b and .m
 heuristics look for

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 00ea437..5d879b5 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -296,6 +296,7 @@ const char *disambiguate_b(SourceFile *sourcefile) {
       p += 7;
       while (*p == ' ' || *p == '\t') p++;
       if (*p == '"') {
+        p++;
         while (*p != '"' && p < eof) p++;
         if (*p == '"' && *(p + 1) == ';')
           return LANG_LIMBO;
@@ -784,6 +785,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
       if (*p == ' ' || *p == '\t') {
         while (*p == ' ' || *p == '\t') p++;
         if (*p == '"') {
+          p++;
           while (*p != '"' && p < eol) p++;
           if (*p == '"' && *(p - 2) == '.' && *(p - 1) == 'm')
             limbo_score++;
-- 
2.43.0


From c9740b5690ad3066cc7dc77846b0909d8c7d4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 36/81] fix: notice C files and headers beside an .m file
 whatever the length of their names

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 5d879b5..536144c 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -719,12 +719,14 @@ const char *disambiguate_m(SourceFile *sourcefile) {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 3) {
+      }
+      if (pe - p >= 3) {
         if (*(pe - 3) == '.' && *(pe - 2) == 'c' && *(pe - 1) == 'c') {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 2) {
+      }
+      if (pe - p >= 2) {
         if (*(pe - 2) == '.') {
           if (*(pe - 1) == 'h')
             has_h_headers = 1;
-- 
2.43.0


From 69fe3b2461afe59b9922a67c1e38886e551faac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 37/81] fix: look at every directive of an ASPX page for its
 language

---
 src/detector.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 536144c..ef1cbfd 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -237,19 +237,20 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (!p)
 			break;
     char *pe = strstr(p, "%>");
-    if (p && pe) {
+    if (pe && pe >= p + 3) {
       p += 3;
       const int length = pe - p;
       char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf);
-      for (p = buf; p < eol; p++) *p = tolower(*p);
-      p = buf;
-      while (*p == ' ' || *p == '\t') p++;
-      if (strncmp(p, "page", 4) == 0) {
-        p += 4;
-        if (strstr(p, "language=\"vb\""))
+      char *bp;
+      for (bp = buf; bp < eol; bp++) *bp = tolower(*bp);
+      bp = buf;
+      while (*bp == ' ' || *bp == '\t') bp++;
+      if (strncmp(bp, "page", 4) == 0) {
+        bp += 4;
+        if (strstr(bp, "language=\"vb\""))
           return LANG_VB_ASPX;
       }
     }
-- 
2.43.0


From e6b85d56957603b630b3ca667cc5a52cc43fe9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 38/81] fix: search all of a file for what tells R from REBOL,
 Rust from RenderScript and PHP from binary

---
 src/detector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index ef1cbfd..cd75cb1 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -683,7 +683,7 @@ const char *disambiguate_in(SourceFile *sourcefile) {
 const char *disambiguate_inc(SourceFile *sourcefile) {
   char *p = ohcount_sourcefile_get_contents(sourcefile);
 	if (p) {
-		char *eof = p + strlen(p);
+		char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
 		while (p < eof) {
 			if (*p == '\0')
 				return BINARY;
@@ -987,7 +987,7 @@ const char *disambiguate_r(SourceFile *sourcefile) {
   // block.
   char *needle = "rebol";
   int len = strlen(needle);
-  for (; contents < eof - len; ++contents)
+  for (; contents <= eof - len; ++contents)
     if (tolower(*contents) == *needle &&
           !strncasecmp(contents, needle, len))
       return LANG_REBOL;
@@ -1015,7 +1015,7 @@ const char *disambiguate_rs(SourceFile *sourcefile) {
 
   char *eof = contents + ohcount_sourcefile_get_contents_size(sourcefile);
 
-  for (; contents < eof - len; ++contents) {
+  for (; contents <= eof - len; ++contents) {
     if (!strncmp(contents, needle, len)) {
       return NULL;
     }
-- 
2.43.0


From 307e50b4575cd58a765bcf27895bbac1b4f01d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 39/81] fix: only take .in off a path that ends with it

---
 src/detector.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index cd75cb1..1028ef8 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -647,15 +647,13 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_in(SourceFile *sourcefile) {
-  char *p, *pe;
+  char *p;
   int length;
   const char *language = NULL;
 
   p = sourcefile->filepath;
-  pe = p + strlen(p) - 3;
-  if (strstr(p, ".") <= pe) {
-    // Only if the filename has an extension prior to the .in
-    length = pe - p;
+  length = strlen(p) - 3;
+  if (length >= 0 && strcasecmp(p + length, ".in") == 0) {
     char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
-- 
2.43.0


From fc6a8fd47986b1fa53788012ae7cf50e999aa436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 40/81] fix: do not read before the line when looking for C++
 keywords

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1028ef8..0c2f038 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -550,7 +550,7 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_h(SourceFile *sourcefile) {
-  char *p, *pe, *bof;
+  char *p, *pe;
   int length;
 
   // If the directory contains a matching *.m file, likely Objective C.
@@ -571,8 +571,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 
   // Attempt to detect based on file contents.
   char line[81], buf[81];
-  bof = ohcount_sourcefile_get_contents(sourcefile);
-  p = bof;
+  p = ohcount_sourcefile_get_contents(sourcefile);
   pe = p;
   char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
   while (pe < eof) {
@@ -619,7 +618,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) && (p == line ||
+                          (!isalnum(*(p - 1)) && *(p - 1) != '_'))) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From 6046322a12544deb1d9c3c87033a6b2202df0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 41/81] fix: do not leak the regular expressions that tell
 Puppet, Pascal, Perl and Prolog apart

---
 src/detector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 0c2f038..360ae6a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -921,7 +921,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	int found = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(keyword);
+	if (found)
 		return LANG_PUPPET;
 
 	/* check for standard puppet constructs */
@@ -929,7 +931,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	found = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(construct);
+	if (found)
 		return LANG_PUPPET;
 
 	return LANG_PASCAL;
@@ -944,7 +948,9 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 	const char *error;
 	int erroffset;
 	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
-  if (pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1)
+  int shebang = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1;
+  pcre_free(re);
+  if (shebang)
     return LANG_PERL;
 
   // Check for prolog :- rules
-- 
2.43.0


From c299d26ecc7a912258b06463ee2ae6c6a4668aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:51 +0000
Subject: [PATCH 42/81] fix: give no language to a file that turns out to be
 binary

---
 src/sourcefile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 1ed509d..bcc096a 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -127,6 +127,9 @@ void ohcount_sourcefile_set_language(SourceFile *sourcefile,
 const char *ohcount_sourcefile_get_language(SourceFile *sourcefile) {
   if (!sourcefile->language_detected) {
     sourcefile->language = ohcount_detect_language(sourcefile);
+    // A file that turns out to be binary has no language.
+    if (sourcefile->language && *sourcefile->language == '\1')
+      sourcefile->language = NULL;
     sourcefile->language_detected = 1;
   }
   return sourcefile->language;
-- 
2.43.0


From de7cc5b1ee5b8e24d9c474748d07fe3d3c86d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 43/81] fix: find the licenses in every language's comments,
 not only in the last one's

---
 src/licenses.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..4c1b4c1 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -2,6 +2,7 @@
 // See COPYING for license information.
 
 #include <ctype.h>
+#include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -767,7 +768,7 @@ void compile_regexps() {
 #define OVERRIDE_LICENSE(l, with) { \
   if (strcmp(license_map[i].name, l) == 0) { \
     for (j = 0; j < license_map_length; j++) \
-      if (potential_licenses_s[j] > -1 && \
+      if (found_licenses[j] && \
           strcmp(license_map[j].name, with) == 0) { \
         overridden = 1; \
         break; \
@@ -794,6 +795,9 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
   if (iter_language) {
     int potential_licenses_s[license_map_length];
     int potential_licenses_e[license_map_length];
+    // The licenses found in the comments of any language.
+    char found_licenses[license_map_length];
+    memset(found_licenses, 0, license_map_length);
 
     while (iter_language) {
       // Before looking for licenses, strip whitespace and newlines
@@ -853,12 +857,15 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      for (j = 0; j < license_map_length; j++)
+        if (potential_licenses_s[j] > -1) found_licenses[j] = 1;
+      free(buffer);
       iter_language = iter_language->next;
     }
 
     // Create the list of licenses from potential licenses.
     for (i = 0; i < license_map_length; i++) {
-      if (potential_licenses_s[i] > -1) {
+      if (found_licenses[i]) {
         int overridden = 0;
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
-- 
2.43.0


From e419ebf2615521834c0459d8b3be04f1db41d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 44/81] fix: do not take blank lines in fixed-form Fortran for
 free form

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 360ae6a..94acb9e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -500,7 +500,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
         p++; i++;
         if (i <= 5) {
           blanklabel = blanklabel && (*p == ' ');
-          if ( !isdigit(*p) && *p != ' ' && *p != '!')
+          if ( !isdigit(*p) && *p != ' ' && *p != '!' &&
+              *p != '\r' && *p != '\n' && p < eof)
             // Non-digit, non-blank, non-comment character in the label field
             // definetly not valid fixed formatted code!
             return LANG_FORTRANFREE;
@@ -536,7 +537,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
       }
     } else {
       // Not a statement line in fixed format...
-      if (*p != 'C' && *p != 'c' && *p != '*' && *p != '!')
+      if (*p != 'C' && *p != 'c' && *p != '*' && *p != '!' &&
+          *p != '\r' && *p != '\n')
         // Not a valid fixed form comment, has to be free formatted source
         return LANG_FORTRANFREE;
       // Comment in fixed form, ignore this line
-- 
2.43.0


From 828494ca3ac2e157290c08e607736ca0c021feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 45/81] fix: do not keep the size of contents that were freed
 after parsing

---
 src/sourcefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index bcc096a..d0748dd 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -205,6 +205,7 @@ void ohcount_sourcefile_parse(SourceFile *sourcefile) {
     // unlikely they will need to be accessed again after parsing.
     free(sourcefile->contents); // field is guaranteed to exist
     sourcefile->contents = NULL;
+    sourcefile->size = -1; // unknown until the contents are read again
   }
 }
 
-- 
2.43.0


From 81bba62bf52c8e6b8fe59ddc57c54f5b5dda817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:26 +0000
Subject: [PATCH 46/81] fix: count changed lines of large files as of small
 ones, whatever their length and final newline

---
 src/diff.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index ea45868..a8eff2d 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -615,6 +615,11 @@ char *tmp_file_from_buf(const char *buf) {
   if (write(fd, buf, strlen(buf)) != strlen(buf)) {
     fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
     exit(1);
+  }
+  // End the last line, so that it equals the same line elsewhere.
+  if (*buf && buf[strlen(buf) - 1] != '\n' && write(fd, "\n", 1) != 1) {
+    fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
+    exit(1);
   }
 	close(fd);
 	return path;
@@ -638,11 +643,13 @@ void ohcount_calc_diff_with_disk(
 	FILE *f = popen(command, "r");
 	if (f) {
 		char line[10000];
+		int at_line_start = 1; // a line longer than the buffer comes in parts
 		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
+			if (at_line_start && line[0] == '>')
 			 	(*added)++;
-			if (line[0] == '<')
+			if (at_line_start && line[0] == '<')
 				(*removed)++;
+			at_line_start = line[strlen(line) - 1] == '\n';
 		}
 	}
 	pclose(f);
-- 
2.43.0


From 746cad276992abc8f5f114401a04076a0edadbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 47/81] fix: name the last kind of Limbo entity, and report
 Modelica entities without line counts among them

---
 src/parsers/limbo.rl    |  4 ++--
 src/parsers/modelica.rl | 17 ++++++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index b7964a0..fe193fa 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -89,7 +89,7 @@ enum {
   limbo_identifier_entity = (alpha | '_') (alnum | '_')*;
 
   limbo_keyword_entity =
-    'alt' | 'break' | 'continue' | 'exit' | 'return' | 'spawn' | 'implement' | 'import' | 'load' | 'raise' | 'raises'
+    'alt' | 'break' | 'continue' | 'exit' | 'return' | 'spawn' | 'implement' | 'import' | 'load' | 'raise' | 'raises' |
     'include' | 'array' | 'big' | 'byte' | 'chan' | 'con' | 'int' | 'list' | 'real' | 'string' | 'fn' |
     'adt' | 'pick' | 'module' |
     'for' | 'while' | 'do' |
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index b4d3020..6a7d372 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -79,24 +79,19 @@ enum {
     callback(MODELICA_LANG, modelica_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  modelica_eline_comment = '//' @comment nonnewline*;
+  modelica_eline_comment = '//' nonnewline*;
 
-  modelica_eblock_comment =
-    '/*' @comment (
-      newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '*/';
+  modelica_eblock_comment = '/*' any* :>> '*/';
+
+  modelica_ecomment = modelica_eline_comment | modelica_eblock_comment;
 
-  modelica_ecomment = modelica_line_comment | modelica_block_comment;
+  modelica_estring = '\"' ([^"\\] | '\\' any)* '\"';
 
   modelica_entity := |*
     space+             ${ entity = MODELICA_SPACE;   } => modelica_ecallback;
     modelica_ecomment ${ entity = MODELICA_COMMENT; } => modelica_ecallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ecallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ecallback;
+    modelica_estring ${ entity = MODELICA_ANY; } => modelica_ecallback;
     ^space;
   *|;
 }%%
-- 
2.43.0


From bb0c160ee95622c3c80f457cd8ba82767108827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:51 +0000
Subject: [PATCH 48/81] fix: a line begun inside an attribute or comment after
 embedded code starts where it does

---
 src/parsers/common.rl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..fdc2a15 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -48,17 +48,19 @@ action commit {
   }
 }
 
-action ls { if (!line_start) line_start = ts; }
+# ts is 0 outside of a scanner's token
+
+action ls { if (!line_start) line_start = ts ? ts : p; }
 
 action code {
-  if (!line_contains_code && !line_start) line_start = ts;
+  if (!line_contains_code && !line_start) line_start = ts ? ts : p;
   line_contains_code = 1;
 }
 
 action comment {
   if (!line_contains_code) {
     whole_line_comment = 1;
-    if (!line_start) line_start = ts;
+    if (!line_start) line_start = ts ? ts : p;
   }
 }
 
-- 
2.43.0


From 8b5f2a994d39f236bf0c080dfbcd92ab3a9c2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 49/81] fix: an attribute or comment line that ends in an
 opening embedded tag is the document's, not a blank embedded line

---
 src/parsers/clearsilverhtml.rl | 9 ++++++---
 src/parsers/cs_aspx.rl         | 9 ++++++---
 src/parsers/jsp.rl             | 9 ++++++---
 src/parsers/phphtml.rl         | 9 ++++++---
 src/parsers/rhtml.rl           | 9 ++++++---
 src/parsers/vb_aspx.rl         | 9 ++++++---
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 4135c70..a979c04 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @comment @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* '\'' @code @{ fgoto cshtml_line; };
@@ -90,7 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* '"' @code @{ fgoto cshtml_line; };
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index db34a0d..ec60a73 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -61,7 +61,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
@@ -75,7 +76,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto cs_aspx_line; };
@@ -88,7 +90,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto cs_aspx_line; };
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index fec9774..06e097a 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto jsp_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto jsp_line; };
@@ -90,7 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto jsp_line; };
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 6705dde..ae90580 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @comment @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* :>> '-->' @comment @{ fgoto phtml_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* '\'' @code @{ fgoto phtml_line; };
@@ -90,7 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* '"' @code @{ fgoto phtml_line; };
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 7ee2fcb..9522b9e 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto rhtml_line; };
@@ -90,7 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto rhtml_line; };
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 49e39e4..70f27df 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -61,7 +61,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
@@ -75,7 +76,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto vb_aspx_line; };
@@ -88,7 +90,8 @@ enum {
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto vb_aspx_line; };
-- 
2.43.0


From 4b2610ef0eeaefd35131be59f46c9371e9c8bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 50/81] fix: whitespace lines inside PHP strings are blank

---
 src/parsers/php.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index e949794..b8076ee 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -65,7 +65,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f'\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @commit @code;
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f"\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @commit @code;
-- 
2.43.0


From af296cbc67c9f9fb4e43deba2ee8fd5f7b5d4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:44 +0000
Subject: [PATCH 51/81] fix: the WTF public licence's pattern holds a form feed

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 4c1b4c1..dde41c9 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -725,7 +725,7 @@ License license_map[] = {
     LIC_WTFPL2,
     "",
     "WTF Public License",
-    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*\\fuck\\s*public\\s*license\\b)",
+    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*fuck\\s*public\\s*license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From 2495e4f555a26aa7a7fcc7be42eaa3f3d4c8bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 52/81] fix: --detect lists no file without a language

---
 src/ohcount.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index 4b1d6a9..f189e92 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -29,8 +29,9 @@ void annotate(SourceFileList *list) {
 void detect(SourceFileList *list) {
   SourceFileList *iter = list->head;
   while (iter) {
-    printf("%s\t%s\n", ohcount_sourcefile_get_language(iter->sf),
-           iter->sf->filepath);
+    const char *language = ohcount_sourcefile_get_language(iter->sf);
+    if (language)
+      printf("%s\t%s\n", language, iter->sf->filepath);
     iter = iter->next;
   }
 }
-- 
2.43.0


From 0f32967175c06660258e5c4da4cceadd1c0b060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 53/81] fix: an Emacs mode line naming Modelica is not taken
 for the word mode

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 94acb9e..58ec48b 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -163,7 +163,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       p += 3;
       while (*p == ' ' || *p == '\t') p++;
       // detect "mode" (any capitalization)
-      if (strncasecmp(p, "mode", 4) == 0) {
+      if (strncasecmp(p, "mode", 4) == 0 && !isalnum((unsigned char)*(p + 4))) {
         p += 4;
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
-- 
2.43.0


From 19b6e60073657386861f41efc594b4fa93f92906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 54/81] fix: notice Octave's keywords at the start of a line

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 58ec48b..89363e0 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -799,7 +799,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
     // Look for Octave keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != line && !isalnum(*(p - 1))) {
+      if (islower(*p) && (p == line || !isalnum(*(p - 1)))) {
         pe = p;
         while (islower(*pe) || *pe == '_') pe++;
         if (!isalnum(*pe)) {
-- 
2.43.0


From e8e08a68da4bad5cf35dc99a005c6bd2b919bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 55/81] fix: a vertical tab is white space and does not end the
 count of a file

---
 src/parser_macros.h   | 2 +-
 src/parsers/common.rl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 2499219..83cf845 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -272,7 +272,7 @@ void free_queue() {
 int is_blank_entry(char **p) {
   char *pos = *p+1;
   while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+    if (*pos != '\t' && *pos != ' ' && *pos != '\v') return 0;
     pos++;
   }
   if (*pos == '\r' && *(pos+1) == '\n') pos++;
diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index fdc2a15..bd9c4c1 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -4,8 +4,8 @@ machine common;
 # common definitions
 
 # whitespace, non-printables
-ws = [\t ];
-spaces = [\t ]+;
+ws = [\t \v];
+spaces = [\t \v]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From 02af0ecb1fa91762f3dc08205fa05525d500f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 56/81] fix: hyphens and lone less-than signs in the comments
 of template pages do not end the count of the page

---
 src/parsers/clearsilverhtml.rl | 8 ++++----
 src/parsers/cs_aspx.rl         | 8 ++++----
 src/parsers/jsp.rl             | 8 ++++----
 src/parsers/phphtml.rl         | 8 ++++----
 src/parsers/rhtml.rl           | 8 ++++----
 src/parsers/vb_aspx.rl         | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index a979c04..4e74c3b 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -61,12 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '?cs' @comment @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
 
   cshtml_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code
   )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
@@ -95,7 +95,7 @@ enum {
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code
   )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index ec60a73..422b3f7 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -59,12 +59,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
       @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
 
   cs_aspx_sq_str := (
@@ -79,7 +79,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
       @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
@@ -93,7 +93,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
       @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 06e097a..7c95542 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -61,12 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto jsp_line; };
 
   jsp_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
@@ -95,7 +95,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index ae90580..5d7d501 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -61,12 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '?php' @comment @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
       @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto phtml_line; };
 
   phtml_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
       @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code
   )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
@@ -95,7 +95,7 @@ enum {
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
       @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code
   )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 9522b9e..b968704 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -61,12 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
 
   rhtml_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
@@ -95,7 +95,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 70f27df..4eeec96 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -59,12 +59,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
       @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
 
   vb_aspx_sq_str := (
@@ -79,7 +79,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
       @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
@@ -93,7 +93,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
       @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
-- 
2.43.0


From 53e4d5455f903b2897c56b817ba883945a87b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 57/81] fix: a line comment in a page's embedded code ends
 where the code does

---
 src/parsers/cs_aspx.rl | 20 ++++++++++++++++++--
 src/parsers/jsp.rl     |  9 +++++++--
 src/parsers/phphtml.rl |  8 ++++++--
 src/parsers/rhtml.rl   |  9 +++++++--
 src/parsers/vb_aspx.rl |  9 +++++++--
 5 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 422b3f7..21604f6 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -124,11 +124,25 @@ enum {
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
+  # A line comment ends where control returns to the parent.
+  action cs_aspx_cs_closes { p + 1 < pe && *(p+1) == '>' }
+  cs_aspx_cs_text = (nonnewline - '%') | '%' when !cs_aspx_cs_closes;
+  cs_aspx_cs_line_comment =
+    '//' @comment (
+      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      |
+      ws
+      |
+      (nonnewline - ws - '%') @comment
+      |
+      '%' when !cs_aspx_cs_closes @comment
+    )*;
+  cs_aspx_cs_comment = cs_aspx_cs_line_comment | c_block_comment;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
     spaces        ${ entity = C_SPACE; } => c_ccallback;
-    c_comment;
+    cs_aspx_cs_comment;
     c_string;
     newline       ${ entity = NEWLINE;    } => c_ccallback;
     ^space        ${ entity = C_ANY;   } => c_ccallback;
@@ -181,11 +195,13 @@ enum {
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_comment_entity = '//' (escaped_newline | cs_aspx_cs_text)* |
+    c_block_comment_entity;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
     space+              ${ entity = C_SPACE;   } => c_ecallback;
-    c_comment_entity ${ entity = C_COMMENT; } => c_ecallback;
+    cs_aspx_cs_comment_entity ${ entity = C_COMMENT; } => c_ecallback;
     # TODO:
     ^space;
   *|;
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 7c95542..04b73bd 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -126,11 +126,15 @@ enum {
 
   jsp_java_entry = '<%' @code;
   jsp_java_outry = '%>' @check_blank_outry @code;
+  # A line comment ends where control returns to the parent.
+  action jsp_java_closes { p + 1 < pe && *(p+1) == '>' }
+  jsp_java_text = (nonnewline - '%') | '%' when !jsp_java_closes;
+  jsp_java_comment = '//' @comment jsp_java_text* | java_block_comment;
   jsp_java_line := |*
     jsp_java_outry @{ p = ts; fret; };
     # unmodified JAVA patterns
     spaces        ${ entity = JAVA_SPACE; } => java_ccallback;
-    java_comment;
+    jsp_java_comment;
     java_string;
     newline       ${ entity = NEWLINE;    } => java_ccallback;
     ^space        ${ entity = JAVA_ANY;   } => java_ccallback;
@@ -182,11 +186,12 @@ enum {
 
   jsp_java_entry_entity = '<%';
   jsp_java_outry_entity = '%>';
+  jsp_java_comment_entity = '//' jsp_java_text* | java_block_comment_entity;
   jsp_java_entity := |*
     jsp_java_outry_entity @{ fret; };
     # unmodified Java patterns
     space+              ${ entity = JAVA_SPACE;   } => java_ecallback;
-    java_comment_entity ${ entity = JAVA_COMMENT; } => java_ecallback;
+    jsp_java_comment_entity ${ entity = JAVA_COMMENT; } => java_ecallback;
     # TODO:
     ^space;
   *|;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 5d7d501..dca1a59 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -128,11 +128,14 @@ enum {
   # Control returns to the parent between the two characters of '?>'.
   action phtml_php_closes { p + 1 < pe && *(p+1) == '>' }
   phtml_php_outry = '?' when phtml_php_closes;
+  # A line comment ends there.
+  phtml_php_text = (nonnewline - '?') | '?' when !phtml_php_closes;
+  phtml_php_comment = ('//' | '#') @comment phtml_php_text* | php_block_comment;
   phtml_php_line := |*
     phtml_php_outry @{ p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
-    php_comment;
+    phtml_php_comment;
     php_string;
     newline      ${ entity = NEWLINE;   } => php_ccallback;
     ^space       ${ entity = PHP_ANY;   } => php_ccallback;
@@ -184,11 +187,12 @@ enum {
 
   phtml_php_entry_entity = '<?' 'php'?;
   phtml_php_outry_entity = '?>';
+  phtml_php_comment_entity = ('//' | '#') phtml_php_text* | php_block_comment_entity;
   phtml_php_entity := |*
     phtml_php_outry_entity @{ fret; };
     # unmodified PHP patterns
     space+             ${ entity = PHP_SPACE;   } => php_ecallback;
-    php_comment_entity ${ entity = PHP_COMMENT; } => php_ecallback;
+    phtml_php_comment_entity ${ entity = PHP_COMMENT; } => php_ecallback;
     # TODO:
     ^space;
   *|;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index b968704..0b9cead 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -126,11 +126,15 @@ enum {
 
   rhtml_ruby_entry = '<%' @code;
   rhtml_ruby_outry = '%>' @check_blank_outry @code;
+  # A line comment ends where control returns to the parent.
+  action rhtml_ruby_closes { p + 1 < pe && *(p+1) == '>' }
+  rhtml_ruby_text = (nonnewline - '%') | '%' when !rhtml_ruby_closes;
+  rhtml_ruby_comment = '#' @comment rhtml_ruby_text* | ruby_block_comment;
   rhtml_ruby_line := |*
     rhtml_ruby_outry @{ p = ts; fret; };
     # unmodified Ruby patterns
     spaces        ${ entity = RUBY_SPACE; } => ruby_ccallback;
-    ruby_comment;
+    rhtml_ruby_comment;
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
     ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
@@ -182,11 +186,12 @@ enum {
 
   rhtml_ruby_entry_entity = '<%';
   rhtml_ruby_outry_entity = '%>';
+  rhtml_ruby_comment_entity = '#' rhtml_ruby_text* | ruby_block_comment_entity;
   rhtml_ruby_entity := |*
     rhtml_ruby_outry_entity @{ fret; };
     # unmodified Ruby patterns
     space+              ${ entity = RUBY_SPACE;   } => ruby_ecallback;
-    ruby_comment_entity ${ entity = RUBY_COMMENT; } => ruby_ecallback;
+    rhtml_ruby_comment_entity ${ entity = RUBY_COMMENT; } => ruby_ecallback;
     # TODO:
     ^space;
   *|;
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 4eeec96..ede8c22 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -124,11 +124,15 @@ enum {
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
+  # A line comment ends where control returns to the parent.
+  action vb_aspx_cs_closes { p + 1 < pe && *(p+1) == '>' }
+  vb_aspx_cs_text = (nonnewline - '%') | '%' when !vb_aspx_cs_closes;
+  vb_aspx_cs_comment = ('\'' | /rem/i) @comment vb_aspx_cs_text*;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
     spaces        ${ entity = VB_SPACE; } => vb_ccallback;
-    vb_comment;
+    vb_aspx_cs_comment;
     vb_string;
     newline       ${ entity = NEWLINE;    } => vb_ccallback;
     ^space        ${ entity = VB_ANY;   } => vb_ccallback;
@@ -181,11 +185,12 @@ enum {
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_comment_entity = ('\'' | /rem/i) vb_aspx_cs_text*;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
     space+              ${ entity = VB_SPACE;   } => vb_ecallback;
-    vb_comment_entity ${ entity = VB_COMMENT; } => vb_ecallback;
+    vb_aspx_cs_comment_entity ${ entity = VB_COMMENT; } => vb_ecallback;
     # TODO:
     ^space;
   *|;
-- 
2.43.0


From d37eed3fe6cf895f4dee7114ab485d97ad62ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 58/81] fix: a name that begins with rem does not begin a
 comment

---
 src/parser_macros.h             | 1 +
 src/parsers/bat.rl              | 4 ++--
 src/parsers/blitzmax.rl         | 4 ++--
 src/parsers/common.rl           | 9 +++++++++
 src/parsers/structured_basic.rl | 4 ++--
 src/parsers/vb_aspx.rl          | 4 ++--
 src/parsers/visual_basic.rl     | 4 ++--
 7 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 83cf845..dbf08e3 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -4,6 +4,7 @@
 #ifndef OHCOUNT_PARSER_MACROS_H
 #define OHCOUNT_PARSER_MACROS_H
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 
diff --git a/src/parsers/bat.rl b/src/parsers/bat.rl
index 9966a21..bc26874 100644
--- a/src/parsers/bat.rl
+++ b/src/parsers/bat.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  bat_comment = ( /rem/i | /@rem/i | '::' ) @comment nonnewline*;
+  bat_comment = ( rem_word | '@' rem_word | '::' ) @comment nonnewline*;
 
   bat_line := |*
     spaces       ${ entity = BAT_SPACE; } => bat_ccallback;
@@ -59,7 +59,7 @@ enum {
     callback(BAT_LANG, bat_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  bat_comment_entity = ( /rem/i | /@rem/i | '::' ) nonnewline*;
+  bat_comment_entity = ( rem_word | '@' rem_word | '::' ) nonnewline*;
 
   bat_entity := |*
     space+             ${ entity = BAT_SPACE;   } => bat_ecallback;
diff --git a/src/parsers/blitzmax.rl b/src/parsers/blitzmax.rl
index f3da548..9e35d7d 100644
--- a/src/parsers/blitzmax.rl
+++ b/src/parsers/blitzmax.rl
@@ -46,7 +46,7 @@ enum {
 
   blitzmax_line_comment = '\'' @comment nonnewline*;
   blitzmax_rem_block_comment =
-    /rem/i @comment (
+    rem_word @comment (
       newline %{ entity = INTERNAL_NL; } %blitzmax_ccallback
       |
       ws
@@ -75,7 +75,7 @@ enum {
 
   blitzmax_line_comment_entity = '\'' nonnewline*;
   blitzmax_rem_block_comment_entity =
-    /rem/i (
+    rem_word (
       newline %{ entity = INTERNAL_NL; } %blitzmax_ecallback
       |
       ws
diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index bd9c4c1..9e4170d 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -80,5 +80,14 @@ action starts_line {
 action starts_line2 {
   p == buffer || *(p-2) == '\r' || *(p-2) == '\n' || *(p-2) == '\f'
 }
+action starts_word {
+  p == buffer || !isalnum((unsigned char)*(p-1)) && *(p-1) != '_'
+}
+action ends_word {
+  p+1 >= pe || !isalnum((unsigned char)*(p+1)) && *(p+1) != '_'
+}
+
+# the word that begins a comment in BASIC and its like
+rem_word = ([rR] when starts_word) [eE] ([mM] when ends_word);
 
 }%%
diff --git a/src/parsers/structured_basic.rl b/src/parsers/structured_basic.rl
index d100d4c..b379db4 100644
--- a/src/parsers/structured_basic.rl
+++ b/src/parsers/structured_basic.rl
@@ -42,7 +42,7 @@ enum {
     }
   }
 
-  sb_comment = ('\'' | /rem/i) @comment nonnewline*;
+  sb_comment = ('\'' | rem_word) @comment nonnewline*;
 
   sb_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
 
@@ -60,7 +60,7 @@ enum {
     callback(SB_LANG, sb_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  sb_comment_entity = ('\'' | /rem/i) nonnewline*;
+  sb_comment_entity = ('\'' | rem_word) nonnewline*;
 
   sb_entity := |*
     space+            ${ entity = SB_SPACE;   } => sb_ecallback;
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index ede8c22..f57a167 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -127,7 +127,7 @@ enum {
   # A line comment ends where control returns to the parent.
   action vb_aspx_cs_closes { p + 1 < pe && *(p+1) == '>' }
   vb_aspx_cs_text = (nonnewline - '%') | '%' when !vb_aspx_cs_closes;
-  vb_aspx_cs_comment = ('\'' | /rem/i) @comment vb_aspx_cs_text*;
+  vb_aspx_cs_comment = ('\'' | rem_word) @comment vb_aspx_cs_text*;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
@@ -185,7 +185,7 @@ enum {
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
-  vb_aspx_cs_comment_entity = ('\'' | /rem/i) vb_aspx_cs_text*;
+  vb_aspx_cs_comment_entity = ('\'' | rem_word) vb_aspx_cs_text*;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
diff --git a/src/parsers/visual_basic.rl b/src/parsers/visual_basic.rl
index 7c311d6..fac29b1 100644
--- a/src/parsers/visual_basic.rl
+++ b/src/parsers/visual_basic.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  vb_comment = ('\'' | /rem/i) @comment nonnewline*;
+  vb_comment = ('\'' | rem_word) @comment nonnewline*;
 
   vb_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
 
@@ -62,7 +62,7 @@ enum {
     callback(VB_LANG, vb_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  vb_comment_entity = ('\'' | /rem/i) nonnewline*;
+  vb_comment_entity = ('\'' | rem_word) nonnewline*;
 
   vb_entity := |*
     space+            ${ entity = VB_SPACE;   } => vb_ecallback;
-- 
2.43.0


From 1ef94421a3624bdd7fa9e4b9b66911a04aecbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 59/81] fix: brackets within Lua's long comments and strings do
 not keep them from closing

---
 src/parsers/lua.rl | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 622a2fe..85374da 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -48,7 +48,12 @@ enum {
 
   action lua_long_ec_res { equal_count = 0; }
   action lua_long_ec_inc { equal_count++; }
-  action lua_long_ec_dec { equal_count--; }
+  action lua_long_cc_res { close_count = 0; }
+  action lua_long_cc_inc { close_count++; }
+
+  # a closing bracket has as many equal signs as the one that opened
+  lua_long_close = ']' >lua_long_cc_res '='* $lua_long_cc_inc
+    ']' when { close_count == equal_count };
 
   lua_long_comment =
     '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @comment (
@@ -57,7 +62,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> lua_long_close @commit;
   lua_line_comment = # make sure it's not a long comment
     '--' @comment (
       ([^\[\r\n\f] nonnewline*)?
@@ -73,7 +78,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> lua_long_close @commit;
   lua_sq_str =
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -112,7 +117,7 @@ enum {
 
   lua_block_comment_entity =
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
-    :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 });
+    :>> lua_long_close;
   lua_line_comment_entity = '--' (nonnewline)*;
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
@@ -162,7 +167,7 @@ void parse_lua(char *buffer, int length, int count,
   ) {
   init
 
-  int equal_count = 0;
+  int equal_count = 0, close_count = 0;
 
   %% write init;
   cs = (count) ? lua_en_lua_line : lua_en_lua_entity;
-- 
2.43.0


From 151386ecd36dcee487cc1c3adf986993ae97ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 60/81] fix: delimiters of nested comments that stand together
 do not share a character

---
 src/parsers/augeas.rl      | 12 +++++++++---
 src/parsers/boo.rl         | 12 +++++++++---
 src/parsers/coq.rl         | 12 +++++++++---
 src/parsers/d.rl           | 12 +++++++++---
 src/parsers/elm.rl         | 12 +++++++++---
 src/parsers/haskell.rl     | 12 +++++++++---
 src/parsers/kotlin.rl      | 12 +++++++++---
 src/parsers/mathematica.rl | 12 +++++++++---
 src/parsers/modula2.rl     | 12 +++++++++---
 src/parsers/modula3.rl     | 12 +++++++++---
 src/parsers/oberon.rl      | 12 +++++++++---
 src/parsers/ocaml.rl       | 12 +++++++++---
 src/parsers/rexx.rl        | 12 +++++++++---
 13 files changed, 117 insertions(+), 39 deletions(-)

diff --git a/src/parsers/augeas.rl b/src/parsers/augeas.rl
index bfc89d1..d79dc21 100644
--- a/src/parsers/augeas.rl
+++ b/src/parsers/augeas.rl
@@ -43,9 +43,13 @@ enum {
     }
   }
 
-  action augeas_comment_nc_res { nest_count = 0; }
-  action augeas_comment_nc_inc { nest_count++; }
-  action augeas_comment_nc_dec { nest_count--; }
+  action augeas_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action augeas_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action augeas_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   augeas_nested_block_comment =
 		'(*' >augeas_comment_nc_res @comment (
@@ -115,6 +119,8 @@ void parse_augeas(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? augeas_en_augeas_line : augeas_en_augeas_entity;
diff --git a/src/parsers/boo.rl b/src/parsers/boo.rl
index 961b18a..058b3ab 100644
--- a/src/parsers/boo.rl
+++ b/src/parsers/boo.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action boo_comment_nc_res { nest_count = 0; }
-  action boo_comment_nc_inc { nest_count++; }
-  action boo_comment_nc_dec { nest_count--; }
+  action boo_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action boo_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action boo_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   boo_line_comment = ('#' | '//') @comment nonnewline*;
   boo_block_comment =
@@ -131,6 +135,8 @@ void parse_boo(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? boo_en_boo_line : boo_en_boo_entity;
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index 71469da..8372343 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -42,9 +42,13 @@ enum {
     }
   }
 
-  action coq_comment_nc_res { nest_count = 0; }
-  action coq_comment_nc_inc { nest_count++; }
-  action coq_comment_nc_dec { nest_count--; }
+  action coq_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action coq_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action coq_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   coq_nested_block_comment =
     '(*' >coq_comment_nc_res @comment (
@@ -121,6 +125,8 @@ void parse_coq(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? coq_en_coq_line : coq_en_coq_entity;
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index b71a3c1..04b36f2 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action d_comment_nc_res { nest_count = 0; }
-  action d_comment_nc_inc { nest_count++; }
-  action d_comment_nc_dec { nest_count--; }
+  action d_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action d_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action d_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   d_line_comment =
     '//' @comment (
@@ -165,6 +169,8 @@ void parse_d(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? d_en_d_line : d_en_d_entity;
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index ddf711d..68315d8 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action elm_comment_nc_res { nest_count = 0; }
-  action elm_comment_nc_inc { nest_count++; }
-  action elm_comment_nc_dec { nest_count--; }
+  action elm_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action elm_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action elm_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   # TODO: |-- is not a comment
   elm_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
@@ -132,6 +136,8 @@ void parse_elm(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? elm_en_elm_line : elm_en_elm_entity;
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 5b4e469..242d7c1 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action haskell_comment_nc_res { nest_count = 0; }
-  action haskell_comment_nc_inc { nest_count++; }
-  action haskell_comment_nc_dec { nest_count--; }
+  action haskell_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action haskell_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action haskell_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   # TODO: |-- is not a comment
   haskell_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
@@ -132,6 +136,8 @@ void parse_haskell(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? haskell_en_haskell_line : haskell_en_haskell_entity;
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 53bf77d..5edaa05 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -47,9 +47,13 @@ enum {
     }
   }
 
-  action kotlin_comment_nc_res { kotlin_comment_nest_count = 0; }
-  action kotlin_comment_nc_inc { kotlin_comment_nest_count++; }
-  action kotlin_comment_nc_dec { kotlin_comment_nest_count--; }
+  action kotlin_comment_nc_res { kotlin_comment_nest_count = 0; kotlin_comment_nest_end = 0; }
+  action kotlin_comment_nc_inc {
+    if (p - 1 > kotlin_comment_nest_end) { kotlin_comment_nest_count++; kotlin_comment_nest_end = p; }
+  }
+  action kotlin_comment_nc_dec {
+    if (p - 1 > kotlin_comment_nest_end) { kotlin_comment_nest_count--; kotlin_comment_nest_end = p; }
+  }
 
   kotlin_line_comment = '//' @comment nonnewline*;
   kotlin_block_comment =
@@ -161,6 +165,8 @@ void parse_kotlin(char *buffer, int length, int count,
   init
 
   int kotlin_comment_nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *kotlin_comment_nest_end = 0;
 
   %% write init;
   cs = (count) ? kotlin_en_kotlin_line : kotlin_en_kotlin_entity;
diff --git a/src/parsers/mathematica.rl b/src/parsers/mathematica.rl
index 5c1a3ba..60d1b9b 100644
--- a/src/parsers/mathematica.rl
+++ b/src/parsers/mathematica.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action mathematica_comment_nc_res { nest_count = 0; }
-  action mathematica_comment_nc_inc { nest_count++; }
-  action mathematica_comment_nc_dec { nest_count--; }
+  action mathematica_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action mathematica_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action mathematica_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   mathematica_nested_block_comment =
 		'(*' >mathematica_comment_nc_res @comment (
@@ -117,6 +121,8 @@ void parse_mathematica(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? mathematica_en_mathematica_line : mathematica_en_mathematica_entity;
diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index 96e5efb..596d37b 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -49,9 +49,13 @@ enum {
 
   # Modula-2 comments
 
-  action modula2_comment_nc_res { nest_count = 0; }
-  action modula2_comment_nc_inc { nest_count++; }
-  action modula2_comment_nc_dec { nest_count--; }
+  action modula2_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action modula2_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action modula2_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   modula2_comment =
     '(*' >modula2_comment_nc_res @comment (
@@ -133,6 +137,8 @@ void parse_modula2(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? modula2_en_modula2_line : modula2_en_modula2_entity;
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 5633f91..70d166c 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -49,9 +49,13 @@ enum {
 
   # Modula-3 comments
 
-  action modula3_comment_nc_res { nest_count = 0; }
-  action modula3_comment_nc_inc { nest_count++; }
-  action modula3_comment_nc_dec { nest_count--; }
+  action modula3_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action modula3_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action modula3_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   modula3_comment =
     '(*' >modula3_comment_nc_res @comment (
@@ -151,6 +155,8 @@ void parse_modula3(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? modula3_en_modula3_line : modula3_en_modula3_entity;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index f9953a2..607c6f0 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -49,9 +49,13 @@ enum {
 
   # Oberon comments
 
-  action oberon_comment_nc_res { nest_count = 0; }
-  action oberon_comment_nc_inc { nest_count++; }
-  action oberon_comment_nc_dec { nest_count--; }
+  action oberon_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action oberon_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action oberon_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   oberon_comment =
     '(*' >oberon_comment_nc_res @comment (
@@ -133,6 +137,8 @@ void parse_oberon(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? oberon_en_oberon_line : oberon_en_oberon_entity;
diff --git a/src/parsers/ocaml.rl b/src/parsers/ocaml.rl
index 0c53f59..631bd35 100644
--- a/src/parsers/ocaml.rl
+++ b/src/parsers/ocaml.rl
@@ -42,9 +42,13 @@ enum {
     }
   }
 
-  action ocaml_comment_nc_res { nest_count = 0; }
-  action ocaml_comment_nc_inc { nest_count++; }
-  action ocaml_comment_nc_dec { nest_count--; }
+  action ocaml_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action ocaml_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action ocaml_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   ocaml_nested_block_comment =
 		'(*' >ocaml_comment_nc_res @comment (
@@ -114,6 +118,8 @@ void parse_ocaml(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? ocaml_en_ocaml_line : ocaml_en_ocaml_entity;
diff --git a/src/parsers/rexx.rl b/src/parsers/rexx.rl
index 5d0c0af..40ee398 100644
--- a/src/parsers/rexx.rl
+++ b/src/parsers/rexx.rl
@@ -44,9 +44,13 @@ enum {
     }
   }
 
-  action rexx_comment_nc_res { nest_count = 0; }
-  action rexx_comment_nc_inc { nest_count++; }
-  action rexx_comment_nc_dec { nest_count--; }
+  action rexx_comment_nc_res { nest_count = 0; nest_end = 0; }
+  action rexx_comment_nc_inc {
+    if (p - 1 > nest_end) { nest_count++; nest_end = p; }
+  }
+  action rexx_comment_nc_dec {
+    if (p - 1 > nest_end) { nest_count--; nest_end = p; }
+  }
 
   rexx_comment =
     '/*' >rexx_comment_nc_res @comment (
@@ -116,6 +120,8 @@ void parse_rexx(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  // the end of the last delimiter within a comment, which no other shares
+  char *nest_end = 0;
 
   %% write init;
   cs = (count) ? rexx_en_rexx_line : rexx_en_rexx_entity;
-- 
2.43.0


From 2288615983b3d6c7c7be4c9f947f1d829f8f7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 61/81] fix: closing tags of embedded scripts report no lines
 in entity mode

---
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/cs_aspx.rl         | 6 +++---
 src/parsers/html.rl            | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/vb_aspx.rl         | 6 +++---
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 4e74c3b..620a477 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -160,7 +160,7 @@ enum {
   }
 
   cshtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cshtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cshtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cshtml_css_entity := |*
     cshtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -171,7 +171,7 @@ enum {
   *|;
 
   cshtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cshtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cshtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cshtml_js_entity := |*
     cshtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 21604f6..26e06b9 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -172,7 +172,7 @@ enum {
   }
 
   cs_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cs_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cs_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cs_aspx_css_entity := |*
     cs_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -183,7 +183,7 @@ enum {
   *|;
 
   cs_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cs_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cs_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cs_aspx_js_entity := |*
     cs_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -194,7 +194,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>');
   cs_aspx_cs_comment_entity = '//' (escaped_newline | cs_aspx_cs_text)* |
     c_block_comment_entity;
   cs_aspx_cs_entity := |*
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 2d1c581..bf3c094 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -113,7 +113,7 @@ enum {
   }
 
   html_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  html_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  html_css_outry_entity = '</' /style/i (ws | newline)* '>';
   html_css_entity := |*
     html_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   html_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  html_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  html_js_outry_entity = '</' /script/i (ws | newline)* '>';
   html_js_entity := |*
     html_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 04b73bd..6306776 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -163,7 +163,7 @@ enum {
   }
 
   jsp_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  jsp_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  jsp_css_outry_entity = '</' /style/i (ws | newline)* '>';
   jsp_css_entity := |*
     jsp_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -174,7 +174,7 @@ enum {
   *|;
 
   jsp_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  jsp_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  jsp_js_outry_entity = '</' /script/i (ws | newline)* '>';
   jsp_js_entity := |*
     jsp_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index dca1a59..7c60fc7 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -164,7 +164,7 @@ enum {
   }
 
   phtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  phtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  phtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   phtml_css_entity := |*
     phtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -175,7 +175,7 @@ enum {
   *|;
 
   phtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  phtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  phtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   phtml_js_entity := |*
     phtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 0b9cead..f88218b 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -163,7 +163,7 @@ enum {
   }
 
   rhtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  rhtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  rhtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   rhtml_css_entity := |*
     rhtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -174,7 +174,7 @@ enum {
   *|;
 
   rhtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  rhtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  rhtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   rhtml_js_entity := |*
     rhtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index f57a167..9fb9958 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -162,7 +162,7 @@ enum {
   }
 
   vb_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  vb_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  vb_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   vb_aspx_css_entity := |*
     vb_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -173,7 +173,7 @@ enum {
   *|;
 
   vb_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  vb_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  vb_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   vb_aspx_js_entity := |*
     vb_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -184,7 +184,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>');
   vb_aspx_cs_comment_entity = ('\'' | rem_word) vb_aspx_cs_text*;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
-- 
2.43.0


From 55be2e7bbcc2c9eeef7d7dfb375c4c280fc55f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 62/81] fix: count every line of an opening tag over several
 lines, and one that ends the file

---
 src/parser_macros.h | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index dbf08e3..1d2fac7 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -266,13 +266,18 @@ void free_queue() {
  * Determines whether or not the rest of the line is blank.
  * This is typically used when entering an embedded language.
  * @param p The position of entry into the emebedded language.
+ * @param pe The end of the buffer.
  * @return 0 if the rest of the line is not blank, the position at the end of
- *   the newline otherwise (inclusive).
+ *   the newline (or of the buffer) otherwise (inclusive).
  * @note Applies only to line counting parsers.
  */
-int is_blank_entry(char **p) {
+int is_blank_entry(char **p, const char *pe) {
   char *pos = *p+1;
   while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
+    if (pos == pe) {
+      *p = pos - 1;
+      return 1;
+    }
     if (*pos != '\t' && *pos != ' ' && *pos != '\v') return 0;
     pos++;
   }
@@ -281,6 +286,29 @@ int is_blank_entry(char **p) {
   return 1;
 }
 
+/**
+ * Counts the lines of the parent language an opening tag ends before the
+ * transition into the embedded language at p.
+ * @param lang The language name string.
+ * @note Applies only to line counting parsers.
+ */
+#define entry_lines(lang) { \
+  const char *eol, *pos = line_start; \
+  int blank = 1; \
+  for (; pos && pos < p; pos++) { \
+    if (*pos == '\n' || *pos == '\r' || *pos == '\f') { \
+      eol = (*pos == '\r' && *(pos+1) == '\n') ? pos + 2 : pos + 1; \
+      if (callback) \
+        callback(lang, blank ? "lblank" : "lcode", cint(line_start), \
+                 cint(eol), userdata); \
+      line_start = eol; \
+      pos = eol - 1; \
+      blank = 1; \
+    } else if (*pos != ' ' && *pos != '\t' && *pos != '\v') \
+      blank = 0; \
+  } \
+}
+
 /**
  * If there is a transition into an embedded language and there is only parent
  * language code on the line (the rest of the line is blank with no child code),
@@ -292,7 +320,8 @@ int is_blank_entry(char **p) {
  * @note Applies only to line counting parsers.
  */
 #define check_blank_entry(lang) { \
-  if (is_blank_entry(&p)) { \
+  entry_lines(lang) \
+  if (is_blank_entry(&p, pe)) { \
     te = p + 1; \
     std_newline(lang) \
   } \
-- 
2.43.0


From a6cb32a0c6002c4a8e89578c7618cf52dbc128a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 63/81] fix: count every include of a header, also after a tab
 or without a space

---
 ruby/gestalt/rules/c_header_rule.rb | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ruby/gestalt/rules/c_header_rule.rb b/ruby/gestalt/rules/c_header_rule.rb
index fbbb630..ef665af 100644
--- a/ruby/gestalt/rules/c_header_rule.rb
+++ b/ruby/gestalt/rules/c_header_rule.rb
@@ -15,15 +15,14 @@ module Ohcount
 
         ['c','cpp'].each do |lang|
           next unless source_file.language_breakdown(lang)
-          md = regexp.match(source_file.language_breakdown(lang).code)
-          @count += (md && md.size).to_i
+          @count += source_file.language_breakdown(lang).code.scan(regexp).size
         end
       end
 
 			def regexp
 				@regexp ||= begin
 					header_term = "(" + headers.join("|") + ")"
-					Regexp.new("include\s+['<\"]#{ header_term }[\">']", Regexp::IGNORECASE)
+					Regexp.new("include\\s*['<\"]#{ header_term }[\">']", Regexp::IGNORECASE)
 				end
 			end
 		end
-- 
2.43.0


From 33633f585e9438e240b4b71178eac28c7625cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 64/81] fix: the options of keywords, csharp_using,
 csproj_import and maven rules are options

---
 ruby/gestalt/rules/csharp_using_rule.rb | 3 ++-
 ruby/gestalt/rules/logical_rule.rb      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruby/gestalt/rules/csharp_using_rule.rb b/ruby/gestalt/rules/csharp_using_rule.rb
index 7de2488..0b19cf6 100644
--- a/ruby/gestalt/rules/csharp_using_rule.rb
+++ b/ruby/gestalt/rules/csharp_using_rule.rb
@@ -5,8 +5,9 @@ module Ohcount
 		class CSharpUsingRule < FileRule
 
 			def initialize(*args)
+				options = args.pop if args.last.is_a?(Hash)
 				@regex = args.shift
-				super(args)
+				super(options)
 			end
 
 			def process_source_file(source_file)
diff --git a/ruby/gestalt/rules/logical_rule.rb b/ruby/gestalt/rules/logical_rule.rb
index 32d1856..ec401e3 100644
--- a/ruby/gestalt/rules/logical_rule.rb
+++ b/ruby/gestalt/rules/logical_rule.rb
@@ -66,7 +66,7 @@ module Ohcount
 			end
 
 			def keywords(*args)
-				new_rule KeywordRule, *([nil] << args)
+				new_rule KeywordRule, *([nil] + args)
 			end
 
 			def c_keywords(*args)
-- 
2.43.0


From 4b422ad329447ef4d2e800a4961b76ca15061552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 65/81] fix: a Maven dependency has its own identifiers, and no
 project file ends the analysis

---
 ruby/gestalt/rules/csproj_rule.rb  |  5 +++--
 ruby/gestalt/rules/maven_parser.rb | 27 ++++++++++++++++-----------
 ruby/gestalt/rules/maven_rule.rb   |  5 +++--
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/ruby/gestalt/rules/csproj_rule.rb b/ruby/gestalt/rules/csproj_rule.rb
index f519422..24bad7f 100644
--- a/ruby/gestalt/rules/csproj_rule.rb
+++ b/ruby/gestalt/rules/csproj_rule.rb
@@ -6,10 +6,11 @@ module Ohcount
 			attr_accessor :import
 
 			def initialize(*args)
+				options = args.pop if args.last.is_a?(Hash)
 				@import = args.shift || /.*/
 				@import = /^#{Regexp.escape(@import.to_s)}$/ unless @import.is_a? Regexp
 
-				super(args)
+				super(options)
 			end
 
       def process_source_file(source_file)
@@ -20,7 +21,7 @@ module Ohcount
 
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, CsprojListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError, EncodingError
 						# Malformed XML! -- ignore and move on
 					end
         end
diff --git a/ruby/gestalt/rules/maven_parser.rb b/ruby/gestalt/rules/maven_parser.rb
index 305468e..b498ea5 100755
--- a/ruby/gestalt/rules/maven_parser.rb
+++ b/ruby/gestalt/rules/maven_parser.rb
@@ -5,12 +5,15 @@ require 'rexml/streamlistener'
 class MavenListener
 	include REXML::StreamListener
 
-	attr_accessor :group_id, :artifact_id, :text
+	attr_accessor :text
 
 	attr_accessor :callback
 	def initialize(callback)
 		@callback = callback
 		@is_pom_file = false
+		@path = [] # names of the open elements
+		@text = ''
+		@ids = [] # groupId and artifactId of the open plugins and dependencies
 	end
 
 	def tag_start(name, attrs)
@@ -22,20 +25,22 @@ class MavenListener
 				@is_pom_file = false
 			end
 		when 'plugin', 'dependency'
-			@group_id = nil
-			@artifact_id = nil
+			@ids << {}
 		end
+		@path << name
+		@text = ''
 	end
 
 	def tag_end(name)
+		@path.pop
 		case name
-		when 'groupId'
-			@group_id = clean(@text)
-		when 'artifactId'
-			@artifact_id = clean(@text)
-		when /^(plugin|dependency)$/
-			if @is_pom_file && @group_id && @artifact_id
-				@callback.call($1, @group_id, @artifact_id)
+		when 'groupId', 'artifactId'
+			# Other elements, such as exclusions, have identifiers as well.
+			@ids.last[name] = clean(@text) if ['plugin', 'dependency'].include?(@path.last)
+		when 'plugin', 'dependency'
+			ids = @ids.pop
+			if @is_pom_file && ids['groupId'] && ids['artifactId']
+				@callback.call(name, ids['groupId'], ids['artifactId'])
 			end
 		end
 	end
@@ -47,6 +52,6 @@ class MavenListener
 	end
 
 	def text(text)
-		@text = text
+		@text += text
 	end
 end
diff --git a/ruby/gestalt/rules/maven_rule.rb b/ruby/gestalt/rules/maven_rule.rb
index 7aed4c7..d9b40bf 100644
--- a/ruby/gestalt/rules/maven_rule.rb
+++ b/ruby/gestalt/rules/maven_rule.rb
@@ -7,6 +7,7 @@ module Ohcount
 
 			# Type is either 'dependency' or 'plugin'
 			def initialize(*args)
+				options = args.pop if args.last.is_a?(Hash)
 				@type = args.shift
 
 				@group = args.shift
@@ -15,7 +16,7 @@ module Ohcount
 				@artifact = args.shift || /.*/
 				@artifact = /^#{Regexp.escape(@artifact.to_s)}$/ unless @artifact.is_a? Regexp
 
-				super(args)
+				super(options)
 			end
 
       def process_source_file(source_file)
@@ -28,7 +29,7 @@ module Ohcount
         if source_file.filename =~ /\bpom\.xml$/ && source_file.language_breakdown('xml')
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, MavenListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError, EncodingError
 						# Malformed XML! -- ignore and move on
 					end
         end
-- 
2.43.0


From 9f96d4af3300b06357bca2530886e409c2d580cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 66/81] fix: notice static imports of Java

---
 ruby/gestalt/rules/java_import_rule.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/gestalt/rules/java_import_rule.rb b/ruby/gestalt/rules/java_import_rule.rb
index cbadc8b..7bceac8 100644
--- a/ruby/gestalt/rules/java_import_rule.rb
+++ b/ruby/gestalt/rules/java_import_rule.rb
@@ -21,7 +21,7 @@ module Ohcount
 			end
 
 			def import_regexp
-				/^\s*import\s+([a-zA-Z][\w\.\*\-]*)\b/
+				/^\s*import\s+(?:static\s+)?([a-zA-Z][\w\.\*\-]*)\b/
 			end
 		end
 	end
-- 
2.43.0


From 7cc777c54a4f3be7a0831021c7dac3945839ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 67/81] fix: define OpenESB once, and spell the GlassFish and
 WebLogic descriptors

---
 ruby/gestalt/java_definitions.rb | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ruby/gestalt/java_definitions.rb b/ruby/gestalt/java_definitions.rb
index 4a82a2d..e60fd44 100644
--- a/ruby/gestalt/java_definitions.rb
+++ b/ruby/gestalt/java_definitions.rb
@@ -7,7 +7,7 @@ module Ohcount
 			_and do
 				gestalt(:platform, 'java')
 				_or do
-					find_filenames /\b(sun\-web|sun\-ejb\-jar|sun\-application(\-client))\.xml\b/
+					find_filenames /\b(sun\-web|sun\-ejb\-jar|sun\-application(\-client)?)\.xml\b/
 					maven_dependency /^org.glassfish\b/
 				end
 			end
@@ -27,7 +27,7 @@ module Ohcount
 			_and do
 				gestalt(:platform, 'java')
 				_or do
-					find_filenames /\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\jar)\.xml\b/
+					find_filenames /\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\-jar)\.xml\b/
 					maven_plugin /^org\.codehaus\.mojo\b/, /^weblogic\-maven\-plugin\b/
 				end
 			end
@@ -234,13 +234,6 @@ module Ohcount
 			end
 		end
 
-		define_platform 'openesb' do
-			_and do
-				gestalt(:platform, 'java')
-				java_import /^org\.openesb\b/
-			end
-		end
-
 		# Other Java Technologies
 
 		define_platform 'opensso' do
-- 
2.43.0


From f40260c744802fe07ace8077b801fe0db3667873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 68/81] fix: definitions name D, Fortran and Visual Basic as
 ohcount does

---
 ruby/gestalt/definitions.rb | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruby/gestalt/definitions.rb b/ruby/gestalt/definitions.rb
index 548d745..19feb8c 100644
--- a/ruby/gestalt/definitions.rb
+++ b/ruby/gestalt/definitions.rb
@@ -336,7 +336,7 @@ module Ohcount
     ############################ Windows CE ############################
 		define_platform 'windows_ce_incomplete' do
 			csharp_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
-			vb_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
+			visualbasic_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
 		end
 
 		######################### Native Code ##############################
@@ -345,8 +345,9 @@ module Ohcount
 			language :cpp, :min_percent => 5
 			language :cncpp, :min_percent => 5
 			language :assembly, :min_percent => 5
-			language :d, :min_percent => 5
-			language :fortran, :min_percent => 5
+			language :dmd, :min_percent => 5
+			language :fortranfixed, :min_percent => 5
+			language :fortranfree, :min_percent => 5
 			language :haskell, :min_percent => 5
 			language :cobol, :min_percent => 5
 		end
-- 
2.43.0


From 79cce5cbb5b18171ce6ccb00e80000f5da83638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 69/81] fix: process a list of files, and give a language
 without code no percentage of nothing

---
 ruby/gestalt/base.rb           |  2 +-
 ruby/gestalt/gestalt_engine.rb | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ruby/gestalt/base.rb b/ruby/gestalt/base.rb
index 7584c17..080adde 100644
--- a/ruby/gestalt/base.rb
+++ b/ruby/gestalt/base.rb
@@ -29,7 +29,7 @@ module Ohcount
 
       # will return an array of detected gestalts from a source_file_list
       def self.find_gestalts(source_file_list)
-        GestaltEngine.new.process(source_file_list).gestalts
+        GestaltEngine.new.process(source_file_list).calc_gestalts
       end
 
     end
diff --git a/ruby/gestalt/gestalt_engine.rb b/ruby/gestalt/gestalt_engine.rb
index a7ecae0..789bf80 100644
--- a/ruby/gestalt/gestalt_engine.rb
+++ b/ruby/gestalt/gestalt_engine.rb
@@ -27,8 +27,10 @@ module Ohcount
       end
 
       def process_source_files(source_file_list)
-        source_file_list.each_source_file do |source_file|
-          process_source_file source_file
+        iter = source_file_list.head
+        while (iter)
+          process_source_file(iter.sf)
+          iter = iter.next
         end
         self
       end
@@ -37,7 +39,7 @@ module Ohcount
         if what.is_a?(SourceFile)
           process_source_file(what)
         elsif what.is_a?(SourceFileList)
-          process_source_file_list(what)
+          process_source_files(what)
         else
           raise ArgumentError.new
         end
@@ -118,7 +120,7 @@ module Ohcount
 
           l = {}
           @language_counts.each do |k,v|
-           l[k] = 100.0 * v.to_i / total
+           l[k] = v == 0 ? 0.0 : 100.0 * v.to_i / total
           end
           l
 
-- 
2.43.0


From 6bbbf3c9635e5fd929f95af68b2e6c7507551dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 70/81] fix: keep what Ruby objects point to for as long as
 they live

---
 ruby/ohcount.i  | 29 ++++++++++++++++++++++++-----
 ruby/ohcount.rb | 10 ++++++++--
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 38212fa..29df728 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -4,6 +4,18 @@
 #include "../src/detector.h"
 #include "../src/languages.h"
 #include "../src/sourcefile.h"
+
+static void free_filenames(SourceFile *sourcefile) {
+  if (sourcefile->filenames) {
+#if defined(SWIGRUBY)
+    char **name;
+    for (name = sourcefile->filenames; *name; name++)
+      free(*name);
+#endif
+    free(sourcefile->filenames);
+    sourcefile->filenames = NULL;
+  }
+}
 %}
 
 %include typemaps.i
@@ -112,10 +124,18 @@
 #if defined(SWIGRUBY)
   void set_filenames(VALUE filenames) {
     int i, length = RARRAY_LEN(filenames);
+    VALUE name;
+    for (i = 0; i < length; i++) {
+      name = rb_ary_entry(filenames, i);
+      StringValueCStr(name);
+    }
+    // The file outlives the strings of the array.
     char **fnames = calloc(length + 1, sizeof(char *));
-    VALUE *iter = RARRAY_PTR(filenames);
-    for (i = 0; i < length; i++, iter++)
-      fnames[i] = StringValuePtr(*iter);
+    for (i = 0; i < length; i++) {
+      name = rb_ary_entry(filenames, i);
+      fnames[i] = strdup(StringValueCStr(name));
+    }
+    free_filenames(self);
     self->filenames = fnames;
   }
   SourceFile(const char *filepath, VALUE opt_hash=NULL) {
@@ -203,8 +223,7 @@
 
 #endif
   ~SourceFile() {
-    if (self->filenames)
-      free(self->filenames);
+    free_filenames(self);
     ohcount_sourcefile_free(self);
   }
 };
diff --git a/ruby/ohcount.rb b/ruby/ohcount.rb
index 7596a69..5148fce 100644
--- a/ruby/ohcount.rb
+++ b/ruby/ohcount.rb
@@ -62,7 +62,10 @@ module Ohcount
       array = Array.new
       iter = list.head
       while (iter)
-        array << iter.send(method)
+        item = iter.send(method)
+        # The item is a part of this file, which must live as long as it.
+        item.instance_variable_set(:@owner, self)
+        array << item
         iter = iter.next
       end
       return array
@@ -73,7 +76,10 @@ module Ohcount
     def each_source_file
       iter = self.head
       while (iter)
-        yield iter.sf if iter.sf.polyglot
+        source_file = iter.sf
+        # The file is a part of this list, which must live as long as it.
+        source_file.instance_variable_set(:@owner, self)
+        yield source_file if source_file.polyglot
         iter = iter.next
       end
     end
-- 
2.43.0


From 9e557aacf403263d28bb26e713e9d0b062ef4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 71/81] fix: free what a comparison allocates

---
 src/diff.c       | 4 +++-
 src/sourcefile.c | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.c b/src/diff.c
index a8eff2d..70cba71 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -606,7 +606,7 @@ static void output(int *added, int *removed) {
 }
 
 // create and return the path of a tmp_file filled with buf
-// caller must delete file if that's desired
+// caller must delete file if that's desired, and free the path
 char *tmp_file_from_buf(const char *buf) {
 	char *template = "/tmp/ohcount_diff_XXXXXXX";
 	char *path = strdup(template);
@@ -659,6 +659,8 @@ void ohcount_calc_diff_with_disk(
 	if (unlink(to_tmp)) {
 		printf("error unlinking %s: %d", from_tmp, errno);
 	}
+	free(from_tmp);
+	free(to_tmp);
 }
 
 #define USE_DISK_IF_LARGER 100000
diff --git a/src/sourcefile.c b/src/sourcefile.c
index d0748dd..89b2aa3 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -325,6 +325,7 @@ LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
   else
     delta->blanks_added = to->blanks_count - from->blanks_count;
 
+  ohcount_parsed_language_free(blank);
   return delta;
 }
 
-- 
2.43.0


From d994bb586646a86e22b4ab27b779d69f3d0d60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 72/81] fix: report no line twice when a construct turns out
 not to be closed

---
 src/parser.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 358113e..62d89d4 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -9,6 +9,22 @@
 
 struct ParserMap * ohcount_hash_parser_from_language (register const char *str, register size_t len);
 
+// Scanning resumes within lines that were reported already when a construct
+// turns out not to be closed. Each line is passed on once.
+typedef struct {
+  void (*callback) (const char *, const char *, int, int, void *);
+  void *userdata;
+  int end; // of the last line passed on
+} LineFilter;
+
+static void pass_line_once(const char *language, const char *entity, int start,
+                           int end, void *userdata) {
+  LineFilter *filter = (LineFilter *)userdata;
+  if (end <= filter->end) return;
+  filter->end = end;
+  filter->callback(language, entity, start, end, filter->userdata);
+}
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -20,7 +36,10 @@ int ohcount_parse(SourceFile *sourcefile, int count,
     if (rp) {
       char *buffer = ohcount_sourcefile_get_contents(sourcefile);
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
-      if (callback)
+      if (callback && count) {
+        LineFilter filter = { callback, userdata, 0 };
+        rp->parser(buffer, buffer_len, count, pass_line_once, &filter);
+      } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
     }
-- 
2.43.0


From 33c64cd441f2c5ac8492c9cfa2ec8d88d0fbe75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 73/81] fix: end a line of REBOL at an unclosed string

---
 src/parsers/rebol.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index b4e9518..8ea52d9 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -54,7 +54,7 @@ enum {
   rebol_line_comment = ';' @comment nonnewline*;
   rebol_comment = rebol_line_comment;
 
-  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
+  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* '"';
   rebol_cb_str_inner = ws | [^{}\r\n\f\t ] @code | '^{' | '^}'
                      | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
                      | rebol_cb_str_nest;
-- 
2.43.0


From 806cba8d94fc6af4ac44d6c2f5708a64009d23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 74/81] fix: count the lines after a backslash at a line end in
 a page's quotation

---
 src/parsers/clearsilverhtml.rl | 4 ++++
 src/parsers/cs_aspx.rl         | 4 ++++
 src/parsers/jsp.rl             | 4 ++++
 src/parsers/phphtml.rl         | 4 ++++
 src/parsers/rhtml.rl           | 4 ++++
 src/parsers/vb_aspx.rl         | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 620a477..06d9cc2 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -78,6 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
+    |
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
@@ -92,6 +94,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
+    |
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 26e06b9..bfdeda7 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -76,6 +76,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
       @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
@@ -90,6 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
       @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 6306776..a5d13c2 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -78,6 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
@@ -92,6 +94,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 7c60fc7..2db3509 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -78,6 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
+    |
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
       @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
@@ -92,6 +94,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
+    |
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
       @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index f88218b..150ce45 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -78,6 +78,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
@@ -92,6 +94,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 9fb9958..5baa972 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -76,6 +76,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
       @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
@@ -90,6 +92,8 @@ enum {
     |
     '\\' nonnewline @code
     |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
+    |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
       @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-- 
2.43.0


From bec7d269156916111bf01fe6a075d6c1bb6d2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 75/81] fix: a closing tag over several lines is counted by the
 page around it

---
 src/parsers/clearsilverhtml.rl | 5 ++---
 src/parsers/cs_aspx.rl         | 7 +++----
 src/parsers/html.rl            | 5 ++---
 src/parsers/jsp.rl             | 5 ++---
 src/parsers/phphtml.rl         | 5 ++---
 src/parsers/rhtml.rl           | 5 ++---
 src/parsers/vb_aspx.rl         | 7 +++----
 7 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 06d9cc2..4c40fca 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -102,10 +102,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto cshtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
   cshtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -117,7 +116,7 @@ enum {
   *|;
 
   cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index bfdeda7..7470159 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -100,10 +100,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto cs_aspx_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
   cs_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -115,7 +114,7 @@ enum {
   *|;
 
   cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -127,7 +126,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i (ws | newline)* '>') @check_blank_outry @code;
   # A line comment ends where control returns to the parent.
   action cs_aspx_cs_closes { p + 1 < pe && *(p+1) == '>' }
   cs_aspx_cs_text = (nonnewline - '%') | '%' when !cs_aspx_cs_closes;
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index bf3c094..60a7ee0 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -67,10 +67,9 @@ enum {
   html_dq_str = '"' ([^\r\n\f"\\] | '\\' nonnewline)* '"' @code;
   html_string = html_sq_str | html_dq_str;
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
 
   html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @{ seen = 0; } @code;
+  html_css_outry = '</' /style/i (ws | newline)* '>' @{ seen = 0; } @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -82,7 +81,7 @@ enum {
   *|;
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @{ seen = 0; } @code;
+  html_js_outry = '</' /script/i (ws | newline)* '>' @{ seen = 0; } @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index a5d13c2..b02a7b7 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -102,10 +102,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto jsp_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
   jsp_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -117,7 +116,7 @@ enum {
   *|;
 
   jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 2db3509..9044246 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -102,10 +102,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto phtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
   phtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -117,7 +116,7 @@ enum {
   *|;
 
   phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 150ce45..8aa8e3a 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -102,10 +102,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto rhtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
   rhtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -117,7 +116,7 @@ enum {
   *|;
 
   rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 5baa972..24cc01a 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -100,10 +100,9 @@ enum {
     '<' @code
   )* '"' @code @{ fgoto vb_aspx_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
   vb_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_css_outry = '</' /style/i (ws | newline)* '>' @check_blank_outry @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -115,7 +114,7 @@ enum {
   *|;
 
   vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_js_outry = '</' /script/i (ws | newline)* '>' @check_blank_outry @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -127,7 +126,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i (ws | newline)* '>') @check_blank_outry @code;
   # A line comment ends where control returns to the parent.
   action vb_aspx_cs_closes { p + 1 < pe && *(p+1) == '>' }
   vb_aspx_cs_text = (nonnewline - '%') | '%' when !vb_aspx_cs_closes;
-- 
2.43.0


From 6bd43650636206cf6f5589469d6577232d35b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:05 +0000
Subject: [PATCH 76/81] fix: count the blank line that ends a page within an
 open quotation

---
 src/parser_macros.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 1d2fac7..d290e43 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -246,6 +246,8 @@ void free_queue() {
 
 /**
  * Processes the last line for buffers that don't have a newline at EOF.
+ * A blank line that ends within a construct that is not closed is a last line
+ * as well.
  * This is typically used at the end of the parse_lang function after the Ragel
  * parser has been executed.
  * A line in which an embedded language has been seen belongs to that language.
@@ -259,7 +261,10 @@ void free_queue() {
       callback(last_lang, "lcode", cint(line_start), cint(pe), userdata); \
     else if (whole_line_comment) \
       callback(last_lang, "lcomment", cint(line_start), cint(pe), userdata); \
-  } \
+  } else if (callback && line_start && line_start < pe && \
+             (*(pe-1) == '\n' || *(pe-1) == '\r' || *(pe-1) == '\f')) \
+    callback(seen ? seen : lang, "lblank", cint(line_start), cint(pe), \
+             userdata); \
 }
 
 /**
-- 
2.43.0


From 1a0b8041c0b177882f3ef5afbbfba53e288d9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 77/81] fix: take a line of Perl that begins with = for POD
 only when a command follows

---
 src/parsers/perl.rl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..c847d4e 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -46,7 +46,7 @@ enum {
 
   perl_line_comment = '#' @comment nonnewline*;
   perl_block_comment =
-    '=' when starts_line @enqueue @comment nonnewline+ (
+    '=' when starts_line [a-zA-Z] @enqueue @comment nonnewline* (
       '=' when starts_line 'cut' @commit @comment @{ fgoto perl_line; }
       |
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
@@ -99,8 +99,7 @@ enum {
     perl_comment;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
-    '=' when !starts_line;
-    ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
+    ^space         ${ entity = PERL_ANY;   } => perl_ccallback;
   *|;
 
   # Entity machine
-- 
2.43.0


From 9c3e69c4621fe664d90c772f90ccf2999c19dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 78/81] fix: count as code the character that opens a construct
 which is not closed

---
 src/parser_macros.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index d290e43..aa2f000 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -164,10 +164,12 @@ void free_queue() {
 /**
  * Executes standard line counting actions for INTERNAL_NL entities.
  * This is typically used in the main action for the INTERNAL_NL entity.
+ * When a multiple-line construct turns out not to be closed, the scanner takes
+ * its first character for a token of its own (p == ts), which is code.
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
-#define std_internal_newline(lang) { \
+#define std_internal_newline(lang) { if (p == ts) { code } else { \
   if (callback && p > line_start) { \
     if (line_contains_code) { \
       if (inqueue) \
@@ -189,7 +191,7 @@ void free_queue() {
   whole_line_comment = 0; \
   line_contains_code = 0; \
   line_start = p; \
-}
+} }
 
 /**
  * Executes emebedded language line counting actions for INTERNAL_NL entities
@@ -199,13 +201,13 @@ void free_queue() {
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
-#define emb_internal_newline(lang) { \
+#define emb_internal_newline(lang) { if (p == ts) { code } else { \
   if (seen && seen != lang) \
     std_internal_newline(seen) \
   else \
     std_internal_newline(lang) \
   seen = 0; \
-}
+} }
 
 /**
  * Executes standard line counting actions for NEWLINE entities.
-- 
2.43.0


From e7c0cfc45308435a04d365a84148f26e98af8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 79/81] fix: report each line of a Haml text continued with |

---
 src/parsers/haml.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index bc869f3..ddd1159 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -124,7 +124,7 @@ enum {
       - "#"
       - "%"
       - [ ]) @code
-    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL;}))*;
+    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL;} %haml_ccallback))*;
 
   haml_ruby_entry =
     ([ ]{2})*
-- 
2.43.0


From 6770469404996d46419ff11d9bd71afe2ebde24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 80/81] fix: forget a construct that was not closed when the
 next one opens

---
 src/parsers/common.rl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 9e4170d..16c0aae 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -28,6 +28,7 @@ dq_str_with_escapes = '"' ([^"\\] | '\\' any)* '"';
 # common actions
 
 action enqueue {
+  if (inqueue) { dequeue; } // a construct before this one was not closed
   inqueue = 1;
   if (callback_list_head) free_queue(); // free the current queue
   callback_list_head = NULL;
-- 
2.43.0


From 998d7a156b64f2c09260a93117d2bbfc50036b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:56 +0000
Subject: [PATCH 81/81] fix: take a lone % at the end of a Matlab or Octave
 file for a comment

---
 src/parsers/matlab.rl | 3 ++-
 src/parsers/octave.rl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 74b1324..bd6fe2b 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -45,7 +45,8 @@ enum {
   }
 
   # Matlab(TM) comments also may begin with the line-continuing sequence ...
-  matlab_line_comment = (('%' | '...') [^{] @{ fhold; }) @comment nonnewline*;
+  matlab_line_comment = (('%' | '...') [^{] @{ fhold; }) @comment nonnewline*
+    | ('%' | '...') @comment; # the last of a file
   matlab_block_comment =
     '%{' @comment (
       newline %{ entity = INTERNAL_NL; } %matlab_ccallback
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 4d9255c..8d6474c 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -47,7 +47,8 @@ enum {
   # note: GNU Octave accepts % as well as #, but not '...' at the moment.  We
   # accept it anyways, as that may change.  Also, GNU Octave does not currently
   # support block comments but likely will someday.
-  octave_line_comment = (('%' | '...') [^{] @{ fhold; } | '#') @comment nonnewline*;
+  octave_line_comment = (('%' | '...') [^{] @{ fhold; } | '#') @comment nonnewline*
+    | ('%' | '...') @comment; # the last of a file
   octave_block_comment =
     '%{' @comment (
       newline %{ entity = INTERNAL_NL; } %octave_ccallback
-- 
2.43.0

