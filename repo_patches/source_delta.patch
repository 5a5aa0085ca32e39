From f84b50100bc2c011c144862b1f1cbd0852c5fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 01/73] fix: do not show variables of a previous block in
 listing_once and listing_empty blocks

---
 src/blogc/renderer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..df1c4b4 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -293,6 +293,9 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                         }
                         break;
                     }
+                    // the variables of a source that was rendered by a
+                    // previous block must not be visible in this one.
+                    tmp_source = NULL;
                 }
                 if (0 == strcmp("listing_empty", node->data[0])) {
                     if (sources != NULL) {
-- 
2.43.0


From 78f678d3ae08858edbad96d814bc814be6182be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 02/73] fix: reject templates that end inside a statement or
 variable

---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..3fcb473 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -649,6 +649,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
                 start2, "Found an open double-quoted string.");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
+                "The last statement or variable was not closed!");
         else if (if_count != 0)
             *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
                 "%d open 'if', 'ifdef' and/or 'ifndef' statements were not closed!",
-- 
2.43.0


From bcfa52383a818bf7c953d2fbbc14e7445fa18747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 03/73] fix: do not drop the template content when a bracket
 precedes its last character

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 3fcb473..21a4bdc 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -141,7 +141,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 }
                 state = TEMPLATE_START;
-                break;
+                continue;  // not a statement nor a variable, just content
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From 53bd635a193c4bb51c474c03f1a1ee85722f5fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 04/73] fix: whitespace cleaner must only strip content next to
 its statement

---
 src/blogc/template-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 21a4bdc..937618e 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -138,6 +138,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         previous = node;
                         node = NULL;
                     }
+                    // there is nothing else to strip before this node
+                    lstrip_next = false;
                     break;
                 }
                 state = TEMPLATE_START;
-- 
2.43.0


From a48b593ed0f937f491d4dcd2e6d0658f0b806d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 05/73] fix: reject conditionals and loops that are not
 properly nested in templates

---
 src/blogc/template-parser.c | 45 +++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 937618e..689c96e 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,10 +54,14 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
-    bool else_open = false;
     bool foreach_open = false;
     bool block_foreach_open = false;
 
+    // statements currently open, from outermost to innermost: 'b' for 'block',
+    // 'i' for 'if', 'ifdef' and 'ifndef', 'e' for these after an 'else', and
+    // 'f' for 'foreach'.
+    bc_string_t *nesting = bc_string_new();
+
     bc_slist_t *ast = NULL;
     blogc_template_node_t *node = NULL;
 
@@ -190,6 +194,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             start = current;
                             block_if_count = if_count;
                             block_foreach_open = foreach_open;
+                            bc_string_append_c(nesting, 'b');
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -216,6 +221,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDBLOCK;
                             block_open = false;
+                            nesting->len--;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -230,7 +236,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(nesting, 'i');
                         break;
                     }
                     else if ((current - start == 6) &&
@@ -240,7 +246,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFNDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(nesting, 'i');
                         break;
                     }
                     else if ((current - start == 2) &&
@@ -250,7 +256,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(nesting, 'i');
                         break;
                     }
                     else if ((current - start == 4) &&
@@ -259,10 +265,17 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && if_count > block_if_count) ||
                             (!block_open && if_count > 0))
                         {
-                            if (!else_open) {
+                            if (nesting->str[nesting->len - 1] == 'f') {
+                                *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
+                                    src, src_len, current,
+                                    "'else' statement inside an open 'foreach' "
+                                    "statement.");
+                                break;
+                            }
+                            if (nesting->str[nesting->len - 1] == 'i') {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                                 type = BLOGC_TEMPLATE_NODE_ELSE;
-                                else_open = true;
+                                nesting->str[nesting->len - 1] = 'e';
                                 break;
                             }
                             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -283,10 +296,17 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && if_count > block_if_count) ||
                             (!block_open && if_count > 0))
                         {
+                            if (nesting->str[nesting->len - 1] == 'f') {
+                                *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
+                                    src, src_len, current,
+                                    "'endif' statement inside an open 'foreach' "
+                                    "statement.");
+                                break;
+                            }
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
                             if_count--;
-                            else_open = false;
+                            nesting->len--;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -303,6 +323,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             type = BLOGC_TEMPLATE_NODE_FOREACH;
                             start = current;
                             foreach_open = true;
+                            bc_string_append_c(nesting, 'f');
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -316,9 +337,17 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && !block_foreach_open && foreach_open) ||
                             (!block_open && foreach_open))
                         {
+                            if (nesting->str[nesting->len - 1] != 'f') {
+                                *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
+                                    src, src_len, current,
+                                    "'endforeach' statement inside an open 'if', "
+                                    "'ifdef' or 'ifndef' statement.");
+                                break;
+                            }
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDFOREACH;
                             foreach_open = false;
+                            nesting->len--;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -647,6 +676,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         current++;
     }
 
+    bc_string_free(nesting, true);
+
     if (*err == NULL) {
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
-- 
2.43.0


From 06c362a3c022a4922d667e3cb87816b0cc1cae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 06/73] fix: do not swallow the character after a variable
 operand in templates

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 689c96e..f11a2b3 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -507,7 +507,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                 end2 = current;
-                break;
+                continue;  // this character is not part of the operand
 
             case TEMPLATE_BLOCK_FOREACH_START:
                 if (bc_isspace(c))
-- 
2.43.0


From 0f7091c58ae31679fed9a275594ae7657f15caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 07/73] fix: fail when the value given to -D is not valid UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..88d3d44 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From 728c5390018dca3781672496a152cc9d8d134e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 08/73] fix: reject -D without a variable name

---
 src/blogc/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 88d3d44..c2c76d3 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -211,6 +211,14 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
+                        if (pieces[0][0] == '\0') {
+                            fprintf(stderr, "blogc: error: invalid value for "
+                                "-D (configuration key must not be empty): "
+                                "%s\n", tmp);
+                            bc_strv_free(pieces);
+                            rv = 1;
+                            goto cleanup;
+                        }
                         for (size_t j = 0; pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
-- 
2.43.0


From 0a0f029c07c36ea2d011032c0fe929e1be0019c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 09/73] fix: report errors when writing output

---
 src/blogc/main.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index c2c76d3..1c5f39a 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -372,11 +372,20 @@ main(int argc, char **argv)
         }
     }
 
+    bool write_failed = false;
+
     if (out != NULL)
-        fprintf(fp, "%s", out);
+        write_failed = fputs(out, fp) == EOF;
 
-    if (!write_to_stdout)
-        fclose(fp);
+    if (!write_to_stdout) {
+        if (fclose(fp) != 0)
+            write_failed = true;
+        if (write_failed) {
+            fprintf(stderr, "blogc: error: failed to write output file (%s): "
+                "%s\n", output, strerror(errno));
+            rv = 1;
+        }
+    }
 
 cleanup4:
     free(out);
@@ -386,6 +395,10 @@ cleanup2:
     bc_slist_free_full(s, (bc_free_func_t) bc_trie_free);
     bc_error_free(err);
 cleanup:
+    if ((fflush(stdout) != 0 || ferror(stdout)) && rv == 0) {
+        fprintf(stderr, "blogc: error: failed to write to standard output\n");
+        rv = 1;
+    }
     bc_trie_free(config);
     free(template);
     free(output);
-- 
2.43.0


From 2728717971d0e6a393f045a3218e5b0c36aaac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 10/73] fix: do not read before the beginning of an empty
 variable name

---
 src/blogc/renderer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index df1c4b4..99df48c 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -101,6 +101,9 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
         return NULL;
     }
 
+    if (name[0] == '\0')
+        return NULL;
+
     char *var = bc_strdup(name);
 
     size_t i;
-- 
2.43.0


From dfb12bc51e7d0d9fa320e0581bb30ec97808fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 11/73] fix: report errors when reading files instead of
 looping forever

---
 src/common/file.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..b633eb2 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -32,7 +32,7 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     char buffer[BC_FILE_CHUNK_SIZE];
     char *tmp;
 
-    while (!feof(fp)) {
+    while (!feof(fp) && !ferror(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
         tmp = buffer;
@@ -48,6 +48,17 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
         *len += read_len;
         bc_string_append_len(str, tmp, read_len);
     }
+
+    if (ferror(fp)) {
+        int tmp_errno = errno;
+        *err = bc_error_new_printf(BC_ERROR_FILE,
+            "Failed to read file (%s): %s", path, strerror(tmp_errno));
+        fclose(fp);
+        bc_string_free(str, true);
+        *len = 0;
+        return NULL;
+    }
+
     fclose(fp);
 
     if (utf8 && !bc_utf8_validate_str(str)) {
-- 
2.43.0


From 539824a4875bee9bbcd6ee84ece7764797d90f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 12/73] fix: sort sources correctly when their dates are many
 years apart

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..b2782cf 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (lb > la) - (lb < la);
 }
 
 
-- 
2.43.0


From 4a473a591782c6e69fb49d4870541f15223884e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/73] fix: do not divide by zero when computing the last page

---
 src/blogc/loader.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index b2782cf..6d932f5 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -1,7 +1,6 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
-#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -297,7 +296,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        size_t last_page = per_page > 0 ? (counter + per_page - 1) / per_page : 0;
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
@@ -306,7 +305,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%zu", last_page));
     }
 
     return rv;
-- 
2.43.0


From 4886a8c8a0caa42ed8b5652e2445e3cbc7d2667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 14/73] fix: find the end of each line correctly when line
 endings are mixed

---
 src/blogc/content-parser.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..08e122e 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -730,6 +730,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         bool is_last = current == src_len - 1;
 
         if (c == '\n' || c == '\r') {
+            // position of the end of this line, without its line ending
+            real_end = current;
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
@@ -740,7 +742,6 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         line_ending[2] = '\0';
                         line_ending_found = true;
                     }
-                    real_end = current;
                     c = src[++current];
                     is_last = current == src_len - 1;
                 }
@@ -843,11 +844,11 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     state = CONTENT_HEADER_TITLE;
                     break;
                 }
+                start = real_end;
 
             case CONTENT_HEADER_TITLE:
                 if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start, end - start);
                     if (first_header != NULL && *first_header == NULL)
                         *first_header = blogc_htmlentities(tmp);
@@ -875,8 +876,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_HTML:
                 if (c == '\n' || c == '\r' || is_last) {
                     state = CONTENT_HTML_END;
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                 }
                 if (!is_last)
                     break;
@@ -903,8 +903,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
             case CONTENT_BLOCKQUOTE_START:
                 if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     if (bc_str_starts_with(tmp, prefix)) {
                         lines = bc_slist_append(lines, bc_strdup(tmp + strlen(prefix)));
@@ -966,8 +965,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
             case CONTENT_CODE_START:
                 if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     if (bc_str_starts_with(tmp, prefix)) {
                         lines = bc_slist_append(lines, bc_strdup(tmp + strlen(prefix)));
@@ -1062,8 +1060,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
             case CONTENT_UNORDERED_LIST_START:
                 if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     tmp2 = bc_strdup_printf("%-*s", strlen(prefix), "");
                     if (bc_str_starts_with(tmp, prefix)) {
@@ -1173,8 +1170,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
             case CONTENT_ORDERED_LIST_START:
                 if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     tmp2 = bc_strdup_printf("%-*s", prefix_len, "");
                     if (blogc_is_ordered_list_item(tmp, prefix_len)) {
@@ -1265,8 +1261,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_PARAGRAPH:
                 if (c == '\n' || c == '\r' || is_last) {
                     state = CONTENT_PARAGRAPH_END;
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                 }
                 if (!is_last)
                     break;
-- 
2.43.0


From b7062ed1d315e6485f7575d694e4345234e13223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 15/73] fix: do not use freed list items when a list turns out
 to be a paragraph

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 08e122e..ff66b8a 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1097,6 +1097,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1207,6 +1208,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From 21a0e9b8be8beefeb7d6ec533c429d946855f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 16/73] fix: do not join invalid blockquotes and code blocks
 with the next block

---
 src/blogc/content-parser.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index ff66b8a..ff02a0d 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -910,16 +910,16 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_BLOCKQUOTE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
                         lines = NULL;
-                        if (is_last) {
-                            free(tmp);
-                            tmp = NULL;
+                        free(tmp);
+                        tmp = NULL;
+                        if (is_last)
                             continue;
-                        }
+                        break;
                     }
                     free(tmp);
                     tmp = NULL;
@@ -972,7 +972,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_CODE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
-- 
2.43.0


From 9073f3ac8550f76ce9aad41a78421186ec778826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 17/73] fix: do not end a paragraph that looks like an excerpt
 separator too early

---
 src/blogc/content-parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index ff02a0d..05339b4 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -821,7 +821,9 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     }
                 }
                 eend = 0;
-                state = CONTENT_PARAGRAPH_END;
+                state = CONTENT_PARAGRAPH;
+                if (is_last)
+                    continue;
                 break;
 
             case CONTENT_HEADER:
-- 
2.43.0


From dadb525d1d61e936122bbcd6bf353faef1715d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 18/73] fix: do not lose the last line of a content that does
 not end with a line ending

---
 src/blogc/content-parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 05339b4..ee917e2 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -677,6 +677,15 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
     // src is always nul-terminated.
     size_t src_len = strlen(src);
 
+    // the end of the content also ends its last line. without this the states
+    // that are waiting for more characters would lose it.
+    char *src_endl = NULL;
+    if (src_len > 0 && src[src_len - 1] != '\n' && src[src_len - 1] != '\r') {
+        src_endl = bc_strdup_printf("%s\n", src);
+        src = src_endl;
+        src_len++;
+    }
+
     size_t current = 0;
     size_t start = 0;
     size_t start2 = 0;
@@ -1298,5 +1307,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         free(line_ending);
     }
 
+    free(src_endl);
+
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From ffedbee71762d6be2da58232fc739312d0f34a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 19/73] fix: do not join blocks that have only a marker in
 their first line with what follows

---
 src/blogc/content-parser.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index ee917e2..7412b03 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -761,6 +761,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 line_ending_found = true;
             }
         }
+        bool is_endl = c == '\n' || c == '\r';
 
         switch (state) {
 
@@ -845,6 +846,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
+                if (is_last)
+                    goto paragraph;
                 break;
 
             case CONTENT_HEADER_TITLE_START:
@@ -908,9 +911,11 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_BLOCKQUOTE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start,
+                    (is_endl ? real_end : current) - start);
                 state = CONTENT_BLOCKQUOTE_START;
-                break;
+                if (!is_endl)
+                    break;
 
             case CONTENT_BLOCKQUOTE_START:
                 if (c == '\n' || c == '\r' || is_last) {
@@ -970,9 +975,11 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_CODE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start,
+                    (is_endl ? real_end : current) - start);
                 state = CONTENT_CODE_START;
-                break;
+                if (!is_endl)
+                    break;
 
             case CONTENT_CODE_START:
                 if (c == '\n' || c == '\r' || is_last) {
@@ -1027,20 +1034,25 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_UNORDERED_LIST_OR_HORIZONTAL_RULE_OR_EMPHASIS:
-                if (current == start+1) {
+                if ((is_endl ? real_end : current) == start+1) {
                     if (c == d) { // horizontal rule or '**' emphasis
                         state = CONTENT_HORIZONTAL_RULE_OR_EMPHASIS;
                         break;
                     }
                     else if (c != ' ' && c != '\t' && d == '*') { // is '*' emphasis
                         state = CONTENT_PARAGRAPH;
+                        if (is_endl)
+                            goto paragraph;
                         break;
                     }
                 }
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start,
+                    (is_endl ? real_end : current) - start);
                 state = CONTENT_UNORDERED_LIST_START;
+                if (is_endl)
+                    goto unordered_list_start;
                 break;
 
             case CONTENT_HORIZONTAL_RULE_OR_EMPHASIS:
@@ -1053,6 +1065,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 }
                 // is '**' emphasis
                 state = CONTENT_PARAGRAPH;
+                if (is_endl)
+                    goto paragraph;
                 break;
 
             case CONTENT_HORIZONTAL_RULE:
@@ -1070,6 +1084,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_UNORDERED_LIST_START:
+unordered_list_start:
                 if (c == '\n' || c == '\r' || is_last) {
                     end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
                     tmp = bc_strndup(src + start2, end - start2);
@@ -1168,16 +1183,16 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
-                if (is_last)
-                    continue;
+                if (is_endl)
+                    goto paragraph;
                 break;
 
             case CONTENT_ORDERED_LIST_SPACE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix_len = current - start;
+                prefix_len = (is_endl ? real_end : current) - start;
                 state = CONTENT_ORDERED_LIST_START;
-                if (c != '\n' && c != '\r' && !is_last)
+                if (!is_endl)
                     break;
 
             case CONTENT_ORDERED_LIST_START:
@@ -1272,6 +1287,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_PARAGRAPH:
+paragraph:
                 if (c == '\n' || c == '\r' || is_last) {
                     state = CONTENT_PARAGRAPH_END;
                     end = is_last && c != '\n' && c != '\r' ? src_len : real_end;
-- 
2.43.0


From e2051077baacb3ac4b72a6075fea3d6c5a9d5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 20/73] fix: require at least two dots in the excerpt
 separator, as documented

---
 src/blogc/content-parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 7412b03..fb10799 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -813,13 +813,15 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 if (end_excerpt != NULL) {
                     if (c == '.')
                         break;
-                    if (c == '\n' || c == '\r') {
+                    if (is_endl && real_end - start >= 2) {
                         state = CONTENT_EXCERPT_END;
                         break;
                     }
                 }
                 eend = 0;
                 state = CONTENT_PARAGRAPH;
+                if (is_endl)
+                    goto paragraph;
                 break;
 
             case CONTENT_EXCERPT_END:
-- 
2.43.0


From 5c9fb2eb78d8fdd2223939fc67dec2667203251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 21/73] fix: do not repeat or unescape text that follows an
 unfinished link or image

---
 src/blogc/content-parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fb10799..46121a0 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -605,9 +605,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
-            bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
+            bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
         // add all the other states here explicitly, so the compiler helps us
-- 
2.43.0


From bdfd9ece3979e26145a475556bafb41d561b223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 22/73] fix: do not drop an opening delimiter at the end of a
 text

---
 src/blogc/content-parser.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 46121a0..5137ab3 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -611,17 +611,27 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
+        // the text ended just after an opening delimiter
+        case CONTENT_INLINE_ASTERISK_DOUBLE:
+            bc_string_append(rv, "**");
+            break;
+        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
+            bc_string_append(rv, "__");
+            break;
+        case CONTENT_INLINE_BACKTICKS_DOUBLE:
+            bc_string_append(rv, "``");
+            break;
+        case CONTENT_INLINE_LINK_AUTO:
+            bc_string_append(rv, "[[");
+            break;
+
         // add all the other states here explicitly, so the compiler helps us
         // not missing any new state that should be handled.
         case CONTENT_INLINE_START:
         case CONTENT_INLINE_ASTERISK:
-        case CONTENT_INLINE_ASTERISK_DOUBLE:
         case CONTENT_INLINE_UNDERSCORE:
-        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
         case CONTENT_INLINE_BACKTICKS:
-        case CONTENT_INLINE_BACKTICKS_DOUBLE:
         case CONTENT_INLINE_LINK_START:
-        case CONTENT_INLINE_LINK_AUTO:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From 64b631d90ccdd2068e43348b399a6416c8e54026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 23/73] fix: respect an escape at the beginning of a link

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 5137ab3..0bf86e0 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -389,6 +389,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 start_link = current;
                 count = 1;
                 state = CONTENT_INLINE_LINK_CONTENT;
+                if (c == '\\')
+                    current++;
                 break;
 
             case CONTENT_INLINE_LINK_AUTO:
-- 
2.43.0


From 2570c8fd661f234f66b58bfe1822152485b66465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 24/73] fix: do not lose a content with only one character

---
 src/blogc/source-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..2f30cb1 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -142,7 +142,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     break;
                 start = current;
                 state = SOURCE_CONTENT;
-                break;
+                // the content may have only one character
 
             case SOURCE_CONTENT:
                 if (current == (src_len - 1)) {
-- 
2.43.0


From 1de76ee427871e80b2591710ca43059fc60bf7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 25/73] fix: report an incomplete variable at the end of a
 source file

---
 src/blogc/source-parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index 2f30cb1..d398c35 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -215,13 +215,15 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
         current++;
     }
 
-    if (*err == NULL && bc_trie_size(rv) == 0) {
+    if (*err == NULL) {
 
-        // ok, nothing found in the config trie, but no error set either.
-        // let's try to be nice with the users and provide some reasonable
-        // output. :)
+        // ok, no error set, but we may have nothing in the config trie, or an
+        // incomplete last line. let's try to be nice with the users and
+        // provide some reasonable output. :)
         switch (state) {
             case SOURCE_START:
+                if (bc_trie_size(rv) > 0)
+                    break;
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
                     current, "Your source file is empty.");
                 break;
-- 
2.43.0


From e072692999e50d7ac26a829fd3b79544d7f75fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 26/73] fix: leave the excerpt empty if the content starts with
 the separator

---
 src/blogc/source-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index d398c35..3ab3e7b 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -31,7 +31,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
 
     size_t current = 0;
     size_t start = 0;
-    size_t end_excerpt = 0;
+    size_t end_excerpt = (size_t) -1;
 
     char *key = NULL;
     char *tmp = NULL;
@@ -203,7 +203,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     }
                     free(endl);
                     bc_trie_insert(rv, "CONTENT", content);
-                    bc_trie_insert(rv, "EXCERPT", end_excerpt == 0 ?
+                    bc_trie_insert(rv, "EXCERPT", end_excerpt == (size_t) -1 ?
                         bc_strdup(content) : bc_strndup(content, end_excerpt));
                 }
                 break;
-- 
2.43.0


From c9a3248bbb20659dcd40cbce9c8ff60e3bfa5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 27/73] fix: do not read after the end of a text that ends with
 a backslash

---
 src/common/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..92a1c9c 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -316,6 +316,8 @@ bc_str_find(const char *str, char c)
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
             i++;
+            if (str[i] == '\0')
+                break;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From 9be963badef5dc16abb9298e3d79e7492ee3eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:11 +0000
Subject: [PATCH 28/73] fix: do not lose the end of settings files without
 final line ending

---
 src/common/config-parser.c | 48 +++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..96f56af 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -169,13 +169,6 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                 if (c == '=') {
                     key = bc_strndup(src + start, current - start);
                     state = CONFIG_SECTION_VALUE_START;
-                    if (is_last) {
-                        bc_trie_insert(section->data, bc_str_strip(key),
-                            bc_strdup(""));
-                        free(key);
-                        key = NULL;
-                        break;
-                    }
                     if (value == NULL)
                         value = bc_string_new();
                     break;
@@ -223,7 +216,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_VALUE_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -274,7 +267,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_LIST_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -309,6 +302,43 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    if (*err == NULL) {
+
+        // the last line may not have a line ending, but it must be complete.
+        if (escaped) {
+            *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                src_len, "Incomplete escape sequence.");
+        }
+        else switch (state) {
+            case CONFIG_SECTION_START:
+            case CONFIG_SECTION:
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    src_len, "Section name without ']'.");
+                break;
+            case CONFIG_SECTION_VALUE_QUOTE:
+            case CONFIG_SECTION_LIST_QUOTE:
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    src_len, "Quoted value without closing quote.");
+                break;
+            case CONFIG_SECTION_VALUE_START:
+            case CONFIG_SECTION_VALUE:
+                bc_trie_insert(section->data, bc_str_strip(key),
+                    bc_strdup(bc_str_rstrip(value->str)));
+                break;
+            case CONFIG_SECTION_LIST:
+                section->data = bc_slist_append(section->data,
+                    bc_strdup(bc_str_strip(value->str)));
+                break;
+            default:
+                break;
+        }
+
+        if (*err != NULL) {
+            bc_config_free(rv);
+            rv = NULL;
+        }
+    }
+
     free(section_name);
     free(key);
     bc_string_free(value, true);
-- 
2.43.0


From 1943cffabd42d21fe3b6b304425086730243c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:13 +0000
Subject: [PATCH 29/73] fix: do not drop blanks that follow an escape at the
 beginning of a setting

---
 src/common/config-parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 96f56af..dee61ce 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -82,6 +82,11 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         if (escaped) {
             bc_string_append_c(value, c);
             escaped = false;
+            // the value started, if it was not already
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
-- 
2.43.0


From 93f6ef6e94d8cd36cbd29b9f54ef91627d1da55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:16 +0000
Subject: [PATCH 30/73] fix: handle line endings at beginning of section names
 and list items

---
 src/common/config-parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index dee61ce..333748d 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -135,6 +135,8 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_START:
                 start = current;
                 state = CONFIG_SECTION;
+                if (c == '\r' || c == '\n')
+                    continue;
                 break;
 
             case CONFIG_SECTION:
@@ -253,6 +255,13 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     state = CONFIG_SECTION_LIST_QUOTE;
                     break;
                 }
+                if (c == '\r' || c == '\n') {
+                    // line with blanks only
+                    bc_string_free(value, true);
+                    value = NULL;
+                    state = CONFIG_START;
+                    break;
+                }
                 bc_string_append_c(value, c);
                 state = CONFIG_SECTION_LIST;
                 break;
-- 
2.43.0


From 0b5e86453164ca37790df45c7a05d4d1dc1331c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 31/73] fix: reject settings files with an empty global
 variable name

---
 src/blogc-make/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/settings.c b/src/blogc-make/settings.c
index 20bf3f8..e565175 100644
--- a/src/blogc-make/settings.c
+++ b/src/blogc-make/settings.c
@@ -115,7 +115,7 @@ bm_settings_parse(const char *content, size_t content_len, bc_error_t **err)
 
     if (global != NULL) {
         for (size_t i = 0; global[i] != NULL; i++) {
-            for (size_t j = 0; global[i][j] != '\0'; j++) {
+            for (size_t j = 0; j == 0 || global[i][j] != '\0'; j++) {
                 if (j == 0) {
                     if (!(global[i][j] >= 'A' && global[i][j] <= 'Z')) {
                         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_SETTINGS,
-- 
2.43.0


From 367a15745942c1d6dd8825d4dd633eea0425c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:54 +0000
Subject: [PATCH 32/73] fix: do not block forever if blogc writes too much to
 stderr

---
 src/blogc-make/exec.c | 130 ++++++++++++++++++++++++++++--------------
 1 file changed, 88 insertions(+), 42 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..d35311f 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -18,7 +18,10 @@
 #include <unistd.h>
 #include <sys/wait.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <libgen.h>
+#include <poll.h>
+#include <signal.h>
 #include "../common/compat.h"
 #include "../common/error.h"
 #include "../common/file.h"
@@ -147,59 +150,102 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_out[1]);
     close(fd_err[1]);
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
-            close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
-        }
-    }
+    // the child may exit without reading its whole input
+    struct sigaction ignore, previous;
+    ignore.sa_handler = SIG_IGN;
+    sigemptyset(&ignore.sa_mask);
+    ignore.sa_flags = 0;
+    sigaction(SIGPIPE, &ignore, &previous);
 
-    close(fd_in[1]);
+    fcntl(fd_in[1], F_SETFL, O_NONBLOCK);
 
     char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
+    size_t input_len = input == NULL ? 0 : strlen(input);
+    size_t written = 0;
+    bc_string_t *out[2] = {NULL, NULL};
+
+    if (input_len == 0) {
+        close(fd_in[1]);
+        fd_in[1] = -1;
+    }
+
+    // all the pipes are handled together, because the child may block if any
+    // of them is full.
+    while (fd_in[1] != -1 || fd_out[0] != -1 || fd_err[0] != -1) {
+        struct pollfd fds[3] = {
+            {.fd = fd_in[1], .events = POLLOUT},
+            {.fd = fd_out[0], .events = POLLIN},
+            {.fd = fd_err[0], .events = POLLIN},
+        };
 
-    bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+                "Failed to wait for pipes: %s", strerror(errno));
+            break;
         }
-        if (out == NULL) {
-            out = bc_string_new();
+
+        if (fd_in[1] != -1 && fds[0].revents != 0) {
+            ssize_t s = write(fd_in[1], input + written, input_len - written);
+            if (s == -1 && errno != EPIPE && errno != EAGAIN && errno != EINTR) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+            if (s > 0)
+                written += s;
+            if (written == input_len || (s == -1 && errno == EPIPE)) {
+                close(fd_in[1]);
+                fd_in[1] = -1;
+            }
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
-    }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+        for (size_t i = 0; i < 2; i++) {
+            int *fd = i == 0 ? &fd_out[0] : &fd_err[0];
+            if (*fd == -1 || fds[i + 1].revents == 0)
+                continue;
+            ssize_t s = read(*fd, buffer, BC_FILE_CHUNK_SIZE);
+            if (s == -1) {
+                if (errno == EINTR)
+                    continue;
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to read from %s pipe: %s",
+                    i == 0 ? "stdout" : "stderr", strerror(errno));
+                break;
+            }
+            if (s == 0) {
+                close(*fd);
+                *fd = -1;
+                continue;
+            }
+            if (out[i] == NULL)
+                out[i] = bc_string_new();
+            bc_string_append_len(out[i], buffer, s);
         }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
+
+        if (*err != NULL)
+            break;
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    sigaction(SIGPIPE, &previous, NULL);
+
+    if (*err != NULL) {
+        if (fd_in[1] != -1)
+            close(fd_in[1]);
+        if (fd_out[0] != -1)
+            close(fd_out[0]);
+        if (fd_err[0] != -1)
+            close(fd_err[0]);
+        bc_string_free(out[0], true);
+        bc_string_free(out[1], true);
+        return 1;
     }
-    close(fd_err[0]);
+
+    if (out[0] != NULL)
+        *output = bc_string_free(out[0], false);
+    if (out[1] != NULL)
+        *error = bc_string_free(out[1], false);
 
     int status;
     waitpid(pid, &status, 0);
-- 
2.43.0


From d4c76532b97314f31f67ee987a152b1ae3a998df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 33/73] fix: quote MAKE_TAGS when building blogc commands

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index d35311f..439c1df 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -286,7 +286,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 2ee3cd802407150fe057d1d3ab725f10494fd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 34/73] fix: do not use the blog_prefix setting as a format
 string

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..499d804 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -58,7 +58,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     if (blog_prefix != NULL) {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From 215f4834715f20af9b360318f22a9a48d89561f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 35/73] fix: fail if any of the requested rules does not exist

---
 src/blogc-make/rules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..8d67339 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -963,7 +963,8 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
         if (rule == NULL) {
             fprintf(stderr, "blogc-make: error: rule not found: %.*s\n",
                 (int) (sep - rule_str), rule_str);
-            rv = 1;
+            bc_trie_free(args);
+            return 1;
         }
     }
 
-- 
2.43.0


From d91c1883751c5f08c01e116626a1df850bbfad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 36/73] fix: recover from broken settings when watching for
 changes

---
 src/blogc-make/ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..3d19fb1 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -312,7 +312,8 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        // the context is only changed if the new settings are valid
+        bm_ctx_new(*ctx, tmp, NULL, &err);
         free(tmp);
         if (err != NULL) {
             bc_error_print(err, "blogc-make");
-- 
2.43.0


From 327c08bdc4bb651840ccde49e0798ba409131d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:07 +0000
Subject: [PATCH 37/73] fix: handle empty OUTPUT_DIR and trailing slashes

An empty OUTPUT_DIR wrote the website to the root directory, and with a
trailing slash the clean rule removed empty parents of the output directory.
---
 src/blogc-make/ctx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 3d19fb1..d59c4ad 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -229,7 +229,14 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     free(abs_filename);
 
     const char *output_dir = getenv("OUTPUT_DIR");
-    rv->short_output_dir = bc_strdup(output_dir != NULL ? output_dir : "_build");
+    rv->short_output_dir = bc_strdup(
+        (output_dir != NULL && output_dir[0] != '\0') ? output_dir : "_build");
+
+    // the output directory is compared with parents of output files when
+    // cleaning, and these do not have trailing slashes.
+    for (size_t i = strlen(rv->short_output_dir); i > 1 &&
+            rv->short_output_dir[i - 1] == '/'; i--)
+        rv->short_output_dir[i - 1] = '\0';
 
     if (rv->short_output_dir[0] == '/') {
         rv->output_dir = bc_strdup(rv->short_output_dir);
-- 
2.43.0


From 0043e9ecad8c5a66f968d7468f3a2d84ffb516c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 38/73] fix: notice new files in copied directories when
 watching for changes

---
 src/blogc-make/ctx.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index d59c4ad..7b97a39 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -161,6 +161,19 @@ bm_filectx_free(bm_filectx_t *fctx)
 }
 
 
+static bc_slist_t*
+list_copy_files(bm_ctx_t *ctx)
+{
+    if (ctx->settings->copy == NULL)
+        return NULL;
+
+    bc_slist_t *rv = NULL;
+    for (size_t i = 0; ctx->settings->copy[i] != NULL; i++)
+        rv = bm_filectx_new_r(rv, ctx, ctx->settings->copy[i]);
+    return rv;
+}
+
+
 bm_ctx_t*
 bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     bc_error_t **err)
@@ -293,13 +306,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
         }
     }
 
-    rv->copy_fctx = NULL;
-    if (settings->copy != NULL) {
-        for (size_t i = 0; settings->copy[i] != NULL; i++) {
-            rv->copy_fctx = bm_filectx_new_r(rv->copy_fctx, rv,
-                settings->copy[i]);
-        }
-    }
+    rv->copy_fctx = list_copy_files(rv);
 
     return rv;
 }
@@ -340,8 +347,9 @@ bm_ctx_reload(bm_ctx_t **ctx)
     for (bc_slist_t *tmp = (*ctx)->pages_fctx; tmp != NULL; tmp = tmp->next)
         bm_filectx_reload((bm_filectx_t*) tmp->data);
 
-    for (bc_slist_t *tmp = (*ctx)->copy_fctx; tmp != NULL; tmp = tmp->next)
-        bm_filectx_reload((bm_filectx_t*) tmp->data);
+    // directories may have new files, or files may be gone
+    bc_slist_free_full((*ctx)->copy_fctx, (bc_free_func_t) bm_filectx_free);
+    (*ctx)->copy_fctx = list_copy_files(*ctx);
 
     return true;
 }
-- 
2.43.0


From 6852eed3d702cb23c86b28ca505e7dbd22c29e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 39/73] fix: fail if the files to copy do not exist or can't be
 listed

---
 src/blogc-make/ctx.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 7b97a39..a438e3b 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -76,8 +76,9 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
     if (S_ISDIR(buf.st_mode)) {
         DIR *dir = opendir(f);
         if (dir == NULL) {
+            // let the copy rule bail out
             free(f);
-            return l;
+            return bc_slist_append(l, bm_filectx_new(ctx, filename, NULL, &buf));
         }
 
         struct dirent *e;
@@ -168,8 +169,18 @@ list_copy_files(bm_ctx_t *ctx)
         return NULL;
 
     bc_slist_t *rv = NULL;
-    for (size_t i = 0; ctx->settings->copy[i] != NULL; i++)
-        rv = bm_filectx_new_r(rv, ctx, ctx->settings->copy[i]);
+    for (size_t i = 0; ctx->settings->copy[i] != NULL; i++) {
+        bm_filectx_t *fctx = bm_filectx_new(ctx, ctx->settings->copy[i], NULL,
+            NULL);
+        if (fctx->readable) {
+            bm_filectx_free(fctx);
+            rv = bm_filectx_new_r(rv, ctx, ctx->settings->copy[i]);
+        }
+        else {
+            // let the copy rule bail out
+            rv = bc_slist_append(rv, fctx);
+        }
+    }
     return rv;
 }
 
-- 
2.43.0


From 1074fe8f0ddb9786cd007c6b06478185efb80374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 40/73] fix: do not stop cleaning if an output file is listed
 more than once

---
 src/blogc-make/exec-native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..fa5ba2e 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -132,6 +132,10 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
     fflush(stdout);
 
     if (0 != unlink(dest->path)) {
+        // an output file may be listed more than once
+        if (errno == ENOENT)
+            return 0;
+
         fprintf(stderr, "blogc-make: error: failed to remove file (%s): %s\n",
             dest->path, strerror(errno));
         return 1;
-- 
2.43.0


From 5804eb79db73251ac76f2faa1570dc0da7479202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 41/73] fix: report read errors when copying and do not leave
 incomplete copies behind

---
 src/blogc-make/exec-native.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index fa5ba2e..b9b9b83 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -61,6 +61,11 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         return 1;
     }
 
+    // an incomplete file would be newer than its source, and then it would never
+    // be copied again. do not remove special files, though.
+    struct stat st;
+    bool regular = 0 == fstat(fd_to, &st) && S_ISREG(st.st_mode);
+
     ssize_t nread;
     char buffer[BC_FILE_CHUNK_SIZE];
     while (0 < (nread = read(fd_from, buffer, BC_FILE_CHUNK_SIZE))) {
@@ -72,6 +77,8 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
                     "destination file (%s): %s\n", dest->path, strerror(errno));
                 close(fd_from);
                 close(fd_to);
+                if (regular)
+                    unlink(dest->path);
                 return 1;
             }
             nread -= nwritten;
@@ -79,10 +86,25 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         } while (nread > 0);
     }
 
+    int rv = 0;
+
+    if (nread < 0) {
+        fprintf(stderr, "blogc-make: error: failed to read source file to copy "
+            " (%s): %s\n", source->path, strerror(errno));
+        rv = 1;
+    }
+
     close(fd_from);
-    close(fd_to);
+    if (0 != close(fd_to) && rv == 0) {
+        fprintf(stderr, "blogc-make: error: failed to write to destination file "
+            "(%s): %s\n", dest->path, strerror(errno));
+        rv = 1;
+    }
 
-    return 0;
+    if (rv != 0 && regular)
+        unlink(dest->path);
+
+    return rv;
 }
 
 
-- 
2.43.0


From 695c1f2860a9a798f2a5c0f0168cbd115ff30ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 42/73] fix: do not leave incomplete output files behind when
 blogc fails

---
 src/blogc-make/exec.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 439c1df..2e38215 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -16,6 +16,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #include <errno.h>
 #include <fcntl.h>
@@ -365,8 +366,19 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
     char *err = NULL;
     bc_error_t *error = NULL;
 
+    struct stat before, after;
+    bool existed = 0 == stat(output->path, &before);
+
     int rv = bm_exec_command(cmd, input->str, &out, &err, &error);
 
+    // if blogc died while writing its output, the incomplete file would be newer
+    // than the sources, and then it would never be built again.
+    if ((error != NULL || rv != 0) && 0 == stat(output->path, &after) &&
+            S_ISREG(after.st_mode) && (!existed ||
+                before.st_mtim_tv_sec != after.st_mtim_tv_sec ||
+                before.st_mtim_tv_nsec != after.st_mtim_tv_nsec))
+        unlink(output->path);
+
     if (error != NULL) {
         bc_error_print(error, "blogc-make");
         free(cmd);
-- 
2.43.0


From 16e584fb962f0b56b7fc5d3d6bf0f2c950b16e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 43/73] fix: fail if it is not possible to find out how many
 pages a listing has

---
 src/blogc-make/ctx.c   | 1 +
 src/blogc-make/ctx.h   | 1 +
 src/blogc-make/exec.c  | 9 +++++++--
 src/blogc-make/rules.c | 8 +++++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index a438e3b..422d0b4 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -241,6 +241,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
             "BLOGC_RUNSERVER");
         rv->dev = false;
         rv->verbose = false;
+        rv->exec_failed = false;
     }
     else {
         bm_ctx_free_internal(base);
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 774601f..96f701d 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -44,6 +44,7 @@ typedef struct {
     bool dev;
     bool verbose;
     bool atom_template_tmp;
+    bool exec_failed;
 
     bm_settings_t *settings;
 
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 2e38215..c3fa04a 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -459,6 +459,7 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     int rv = bm_exec_command(cmd, input->str, &out, &err, &error);
 
     if (error != NULL) {
+        ctx->exec_failed = true;
         bc_error_print(error, "blogc-make");
         bc_error_free(error);
         bc_string_free(input, true);
@@ -469,8 +470,12 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     }
 
     if (rv != 0) {
-        if (rv != EX_CONFIG)
-            fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+        // the variable may be just undefined
+        if (rv != EX_CONFIG) {
+            ctx->exec_failed = true;
+            fprintf(stderr, "blogc-make: error: failed to get the value of %s: "
+                "%s\n", variable, err != NULL ? bc_str_strip(err) : "");
+        }
         bc_string_free(input, true);
         free(cmd);
         free(out);
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 8d67339..4c847c5 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -737,6 +737,10 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     }
     bc_slist_free_full(files, (bc_free_func_t) bm_filectx_free);
 
+    // some of the outputs are unknown
+    if (ctx->exec_failed)
+        rv = 1;
+
     if (!bm_exec_native_is_empty_dir(ctx->output_dir, NULL)) {
         fprintf(stderr, "blogc-make: warning: output directory is not empty!\n");
     }
@@ -979,11 +983,13 @@ bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
         return 1;
 
     bc_slist_t *outputs = NULL;
+    ctx->exec_failed = false;
     if (rule->outputlist_func != NULL) {
         outputs = rule->outputlist_func(ctx);
     }
 
-    int rv = rule->exec_func(ctx, outputs, args);
+    // without the complete list of outputs there is no way to execute the rule
+    int rv = ctx->exec_failed ? 1 : rule->exec_func(ctx, outputs, args);
 
     bc_slist_free_full(outputs, (bc_free_func_t) bm_filectx_free);
 
-- 
2.43.0


From 17480bc9e538a9b3042e70f6c8d22fc48fd01e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 44/73] fix: do not add an extra slash to the atom feed url if
 blog_prefix is empty

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 499d804..00e4c4e 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -56,7 +56,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     bc_string_t *atom_url = bc_string_new();
 
-    if (blog_prefix != NULL) {
+    if (blog_prefix != NULL && blog_prefix[0] != '\0') {
         bc_string_append_c(atom_url, '/');
         bc_string_append(atom_url, blog_prefix);
     }
-- 
2.43.0


From d717d473b5c3d7ed38813a0590518120f544b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 45/73] fix: report incomplete writes of the temporary atom
 template

---
 src/blogc-make/atom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 00e4c4e..6003c79 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,9 +115,11 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    ssize_t written = write(fd, content, strlen(content));
+    if (written != strlen(content)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
-            "Failed to write to temporary atom template: %s", strerror(errno));
+            "Failed to write to temporary atom template: %s",
+            written == -1 ? strerror(errno) : "incomplete write");
         free(content);
         close(fd);
         unlink(fname);
-- 
2.43.0


From 70a16f97bd8815183d40dd525756972c2c78c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 46/73] fix: do not leave an incomplete output file behind on
 write errors

---
 src/blogc/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 1c5f39a..3b7ec65 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -378,11 +378,16 @@ main(int argc, char **argv)
         write_failed = fputs(out, fp) == EOF;
 
     if (!write_to_stdout) {
+        struct stat st;
+        bool regular = 0 == fstat(fileno(fp), &st) && S_ISREG(st.st_mode);
         if (fclose(fp) != 0)
             write_failed = true;
         if (write_failed) {
             fprintf(stderr, "blogc: error: failed to write output file (%s): "
                 "%s\n", output, strerror(errno));
+            // do not leave an incomplete page behind
+            if (regular)
+                remove(output);
             rv = 1;
         }
     }
-- 
2.43.0


From b095f1227bea415390da60ddc6d19f07002f55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:12 +0000
Subject: [PATCH 47/73] fix: do not use stat buffer out of its scope when
 creating file contexts

---
 src/blogc-make/ctx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 422d0b4..f38fcfd 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -37,9 +37,9 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
     rv->short_path = bc_strdup(filename);
     rv->slug = bc_strdup(slug);
 
-    if (st == NULL) {
-        struct stat buf;
+    struct stat buf;
 
+    if (st == NULL) {
         if (0 != stat(f, &buf)) {
             rv->tv_sec = 0;
             rv->tv_nsec = 0;
-- 
2.43.0


From 4bb072345b10f0e1a532db21d7540bc4806fa606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:24 +0000
Subject: [PATCH 48/73] fix: report errors when reading the list of sources
 from standard input

---
 src/blogc/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 3b7ec65..6b9076a 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -276,6 +276,13 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (ferror(stdin)) {
+            fprintf(stderr, "blogc: error: failed to read list of sources from "
+                "standard input\n");
+            free(input);
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
-- 
2.43.0


From e548d750ec13cc33ae87f1dcd758e0d6250793a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:28 +0000
Subject: [PATCH 49/73] fix: report errors when writing the Atom feed template
 to standard output

---
 src/blogc-make/rules.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 4c847c5..586cb1b 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -778,9 +778,11 @@ atom_dump_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     char *content = bm_atom_generate(ctx->settings);
     if (content == NULL)
         return 1;
-    printf("%s", content);
+    int rv = printf("%s", content) < 0 || fflush(stdout) != 0;
+    if (rv != 0)
+        fprintf(stderr, "blogc-make: error: failed to write to standard output\n");
     free(content);
-    return 0;
+    return rv;
 }
 
 
-- 
2.43.0


From 05969af9ef27f15e6afb88b716ebc59305632bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 50/73] fix: fail if a file in a directory to copy can't be
 accessed

---
 src/blogc-make/ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index f38fcfd..10c19c0 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -69,8 +69,9 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
 
     struct stat buf;
     if (0 != stat(f, &buf)) {
+        // let the copy rule bail out
         free(f);
-        return l;
+        return bc_slist_append(l, bm_filectx_new(ctx, filename, NULL, NULL));
     }
 
     if (S_ISDIR(buf.st_mode)) {
-- 
2.43.0


From 727119cdec8f5327108117a3c55f33066febeb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 51/73] fix: do not lose texts silently if memory is exhausted

---
 src/common/utils.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 92a1c9c..de38cba 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -123,9 +123,7 @@ bc_strdup(const char *s)
     if (s == NULL)
         return NULL;
     size_t l = strlen(s);
-    char *tmp = malloc(l + 1);
-    if (tmp == NULL)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     memcpy(tmp, s, l + 1);
     return tmp;
 }
@@ -137,9 +135,7 @@ bc_strndup(const char *s, size_t n)
     if (s == NULL)
         return NULL;
     size_t l = strnlen(s, n);
-    char *tmp = malloc(l + 1);
-    if (tmp == NULL)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     memcpy(tmp, s, l);
     tmp[l] = '\0';
     return tmp;
@@ -157,9 +153,7 @@ bc_strdup_vprintf(const char *format, va_list ap)
     va_end(ap2);
     if (l < 0)
         return NULL;
-    char *tmp = malloc(l + 1);
-    if (!tmp)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     int l2 = vsnprintf(tmp, l + 1, format, ap);
     if (l2 < 0) {
         free(tmp);
-- 
2.43.0


From 159335b32687296a17e4a450a40a3eb84f77509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 52/73] fix: report the failure if blogc fails without an error
 message

---
 src/blogc-make/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index c3fa04a..aa80779 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -389,6 +389,10 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
         return 1;
     }
 
+    if (rv != 0 && err == NULL && !ctx->verbose)
+        fprintf(stderr, "blogc-make: error: failed to build %s (status code: "
+            "%d)\n", output->short_path, rv);
+
     if (rv != 0 && ctx->verbose) {
         fprintf(stderr,
             "blogc-make: error: Failed to execute command.\n"
-- 
2.43.0


From 35d43d083d23ad3db49c1d602ae7dde206badeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 53/73] fix: do not serve files from directories whose names
 start with the document root

---
 src/blogc-runserver/httpd.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..40f9dda 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -53,6 +53,18 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static bool
+is_inside(const char *root, const char *path)
+{
+    size_t len = strlen(root);
+    if (0 != strncmp(root, path, len))
+        return false;
+    // "/srv/www-private" starts with "/srv/www", but is not inside of it.
+    return path[len] == '\0' || path[len] == '/' ||
+        (len > 0 && root[len - 1] == '/');
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -115,7 +127,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
-- 
2.43.0


From c8e302b2f2f221baa9492210ee9458a78f29c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 54/73] fix: do not serve index files from outside of the
 document root

---
 src/blogc-runserver/httpd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 40f9dda..619058f 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -156,7 +156,15 @@ handle_request(void *arg)
             add_slash = true;
 
         free(real_path);
-        real_path = found;
+        real_path = realpath(found, NULL);
+        free(found);
+
+        // the index may be a symbolic link
+        if (real_path == NULL || !is_inside(real_root, real_path)) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From 1425a4cb52f6ab17b74f4672d99e3a0f5d5d4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 55/73] fix: answer 404 to requests for paths that can't exist

---
 src/blogc-runserver/httpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 619058f..73df9c7 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -109,7 +109,7 @@ handle_request(void *arg)
     free(abs_path);
 
     if (real_path == NULL) {
-        if (errno == ENOENT) {
+        if (errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG) {
             status_code = 404;
             error(client_socket, 404, "Not Found");
         }
-- 
2.43.0


From fee47274b70a8bdfd03661ca0948f9b50a79b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 56/73] fix: reject requests for paths with null characters

---
 src/blogc-runserver/httpd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 73df9c7..1f06379 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -95,7 +95,9 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    char *path = br_urldecode(pieces2[0]);
+    // a path can't contain null characters
+    char *path = strstr(pieces2[0], "%00") == NULL ?
+        br_urldecode(pieces2[0]) : NULL;
     bc_strv_free(pieces2);
 
     if (path == NULL) {
-- 
2.43.0


From 85c18166eab55b4d9bf12690204c2408bd46e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 57/73] fix: keep the location of redirects encoded and on the
 same server

---
 src/blogc-runserver/httpd.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 1f06379..62d3b19 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -96,9 +96,8 @@ handle_request(void *arg)
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
     // a path can't contain null characters
-    char *path = strstr(pieces2[0], "%00") == NULL ?
-        br_urldecode(pieces2[0]) : NULL;
-    bc_strv_free(pieces2);
+    char *raw_path = pieces2[0];
+    char *path = strstr(raw_path, "%00") == NULL ? br_urldecode(raw_path) : NULL;
 
     if (path == NULL) {
         status_code = 400;
@@ -176,6 +175,12 @@ handle_request(void *arg)
     }
 
     if (add_slash) {
+        // the location is the path as requested, still encoded. if it starts
+        // with more than one slash it would be the address of another server.
+        const char *location = raw_path;
+        while (location[0] == '/' && location[1] == '/')
+            location++;
+
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
         char *tmp = bc_strdup_printf(
@@ -183,7 +188,7 @@ handle_request(void *arg)
             "Location: %s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
         if (tmp_len != write(client_socket, tmp, tmp_len)) {
@@ -226,6 +231,7 @@ point3:
     free(real_path);
 point2:
     free(path);
+    bc_strv_free(pieces2);
 point1:
     fprintf(stderr, "[Thread-%zu] %s - - \"%s\" %d\n", thread_id + 1,
         ip, conn_line, status_code);
-- 
2.43.0


From 02cc0dcb5b89c96f1c7e8ba5c71ba4b0a34a6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 58/73] fix: wait for the whole request line if it arrives in
 pieces

---
 src/blogc-runserver/httpd-utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..a826555 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <poll.h>
 #include <stdbool.h>
 #include <string.h>
 #include <unistd.h>
@@ -28,9 +29,11 @@ br_readline(int socket)
                 bc_string_append_c(rv, buffer[i]);
             }
         }
-        if (len < READLINE_BUFFER_SIZE) {
+        // the request may arrive in pieces: wait for more if we don't have
+        // the whole line yet, and just take what is already there otherwise.
+        struct pollfd pfd = {.fd = socket, .events = POLLIN};
+        if (poll(&pfd, 1, end ? 0 : -1) <= 0 || (pfd.revents & POLLNVAL))
             break;
-        }
     }
 
     return bc_string_free(rv, false);
-- 
2.43.0


From 30a6ae036caa258c21eb817a399da7479708fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 59/73] fix: do not reset connections before the clients got
 the response

---
 src/blogc-runserver/httpd.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 62d3b19..130e755 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -6,6 +6,8 @@
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
+#include <poll.h>
 #include <sys/stat.h>
 #include <unistd.h>
 #include <sys/types.h>
@@ -53,6 +55,23 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static void
+close_socket(int socket)
+{
+    // closing the socket while there is still something to receive resets the
+    // connection, and the client may lose the response. give it some time to
+    // finish.
+    shutdown(socket, SHUT_WR);
+    char buffer[READLINE_BUFFER_SIZE];
+    time_t end = time(NULL) + 2;
+    struct pollfd pfd = {.fd = socket, .events = POLLIN};
+    while (time(NULL) < end && poll(&pfd, 1, 1000) > 0)
+        if (read(socket, buffer, READLINE_BUFFER_SIZE) <= 0)
+            break;
+    close(socket);
+}
+
+
 static bool
 is_inside(const char *root, const char *path)
 {
@@ -239,7 +258,7 @@ point1:
     bc_strv_free(pieces);
 point0:
     free(ip);
-    close(client_socket);
+    close_socket(client_socket);
     return NULL;
 }
 
-- 
2.43.0


From 42d756b0d6148ba776886afd955d63add2e29daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 60/73] fix: do not wait for a stalled client while there are
 unused threads

---
 src/blogc-runserver/httpd.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 130e755..9180ec4 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -27,15 +27,20 @@
 typedef struct {
     pthread_t thread;
     bool initialized;
+    bool running;
 } thread_data_t;
 
 typedef struct {
+    thread_data_t *thread;
     size_t thread_id;
     int socket;
     char *ip;
     const char *docroot;
 } request_data_t;
 
+static pthread_mutex_t threads_mutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t threads_cond = PTHREAD_COND_INITIALIZER;
+
 
 static void
 error(int socket, int status_code, const char *error)
@@ -88,6 +93,7 @@ static void*
 handle_request(void *arg)
 {
     request_data_t *req = arg;
+    thread_data_t *thread = req->thread;
     size_t thread_id = req->thread_id;
     int client_socket = req->socket;
     char *ip = req->ip;
@@ -259,6 +265,10 @@ point1:
 point0:
     free(ip);
     close_socket(client_socket);
+    pthread_mutex_lock(&threads_mutex);
+    thread->running = false;
+    pthread_cond_signal(&threads_cond);
+    pthread_mutex_unlock(&threads_mutex);
     return NULL;
 }
 
@@ -317,8 +327,10 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
     }
 
     thread_data_t threads[max_threads];
-    for (size_t i = 0; i < max_threads; i++)
+    for (size_t i = 0; i < max_threads; i++) {
         threads[i].initialized = false;
+        threads[i].running = false;
+    }
 
     int rv = 0;
 
@@ -415,7 +427,21 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
             goto cleanup;
         }
 
-        request_data_t *arg = malloc(sizeof(request_data_t));
+        // any thread that isn't busy with another client can be used
+        pthread_mutex_lock(&threads_mutex);
+        for (size_t i = 0; threads[current_thread].running; i++) {
+            if (i >= max_threads) {
+                pthread_cond_wait(&threads_cond, &threads_mutex);
+                i = 0;
+            }
+            if (++current_thread >= max_threads)
+                current_thread = 0;
+        }
+        threads[current_thread].running = true;
+        pthread_mutex_unlock(&threads_mutex);
+
+        request_data_t *arg = bc_malloc(sizeof(request_data_t));
+        arg->thread = &(threads[current_thread]);
         arg->thread_id = current_thread;
         arg->socket = client_socket;
         arg->ip = br_httpd_get_ip(ai_family, client_addr);
-- 
2.43.0


From 73c8e4a3b522ea354c776efab8ced8ccae7b10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 61/73] fix: do not stop the server if a connection can't be
 accepted

---
 src/blogc-runserver/httpd.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 9180ec4..7b134e1 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -422,7 +422,23 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
 
         int client_socket = accept(server_socket, client_addr, &addrlen);
         if (client_socket == -1) {
-            fprintf(stderr, "Failed to accept connection: %s\n", strerror(errno));
+            int tmp_errno = errno;
+            fprintf(stderr, "Failed to accept connection: %s\n",
+                strerror(tmp_errno));
+
+            // these are not problems of the server socket itself
+            if (tmp_errno == ECONNABORTED || tmp_errno == EINTR ||
+                tmp_errno == EPROTO)
+            {
+                continue;
+            }
+            if (tmp_errno == EMFILE || tmp_errno == ENFILE ||
+                tmp_errno == ENOBUFS || tmp_errno == ENOMEM)
+            {
+                // wait for other clients to release resources
+                poll(NULL, 0, 100);
+                continue;
+            }
             rv = 1;
             goto cleanup;
         }
-- 
2.43.0


From 4f671aba0e3db6478053a864621e00c5a96c4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 62/73] fix: do not crash if the path of a request is empty

---
 src/blogc-runserver/httpd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 7b134e1..ded8f53 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -120,9 +120,12 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    // a path can't contain null characters
+    // NULL if the request has an empty path. a path can't contain null
+    // characters.
     char *raw_path = pieces2[0];
-    char *path = strstr(raw_path, "%00") == NULL ? br_urldecode(raw_path) : NULL;
+    char *path = NULL;
+    if (raw_path != NULL && strstr(raw_path, "%00") == NULL)
+        path = br_urldecode(raw_path);
 
     if (path == NULL) {
         status_code = 400;
-- 
2.43.0


From b093b00fa42e84e93578e65948ff94543d13fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 63/73] fix: refuse unterminated and outside repository names
 in blogc-git-receiver

---
 src/blogc-git-receiver/shell-command-parser.c | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..8c346dd 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -16,6 +16,29 @@ typedef enum {
 } command_state_t;
 
 
+// a repository lives inside of the repositories directory: at least one path
+// component must name something, and no one can be a reference to the parent
+// directory.
+static bool
+is_valid_repo(const char *repo)
+{
+    bool rv = false;
+    if (repo == NULL)
+        return rv;
+    char **pieces = bc_str_split(repo, '/', 0);
+    for (size_t i = 0; pieces[i] != NULL; i++) {
+        if (0 == strcmp(pieces[i], "..")) {
+            rv = false;
+            break;
+        }
+        if (pieces[i][0] != '\0' && 0 != strcmp(pieces[i], "."))
+            rv = true;
+    }
+    bc_strv_free(pieces);
+    return rv;
+}
+
+
 char*
 bgr_shell_command_parse(const char *command)
 {
@@ -87,7 +110,8 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    // anything left open is not a quoted repository name
+    if (state == START_REPO && is_valid_repo(rv->str))
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 668e5352e8367113a1ec65928b7c60fafae9f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 64/73] fix: do not follow symlinks, nor give up, when removing
 directories in blogc-git-receiver

---
 src/blogc-git-receiver/pre-receive.c | 30 ++++++++++------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..0fefa7e 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -36,50 +36,42 @@ rmdir_recursive(const char *dir)
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
-        fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        exit(2);
+        fprintf(stderr, "warning: trying to remove invalid directory: %s\n", dir);
+        return;
     }
     DIR *d = opendir(dir);
     if (d == NULL) {
-        fprintf(stderr, "error: failed to open directory: %s\n",
+        fprintf(stderr, "warning: failed to open directory (%s): %s\n", dir,
             strerror(errno));
-        exit(2);
+        return;
     }
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
-            fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
-                e->d_name, strerror(errno));
-            free(f);
-            exit(2);
-        }
-        if (S_ISDIR(buf.st_mode)) {
+
+        // symbolic links are removed, what they point to is not ours.
+        if (0 == lstat(f, &buf) && S_ISDIR(buf.st_mode)) {
             rmdir_recursive(f);
         }
         else if (0 != unlink(f)) {
-            fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
+            fprintf(stderr, "warning: failed to remove file (%s): %s\n", f,
                 strerror(errno));
-            free(f);
-            exit(2);
         }
         free(f);
     }
     if (0 != closedir(d)) {
-        fprintf(stderr, "error: failed to close directory: %s\n",
+        fprintf(stderr, "warning: failed to close directory (%s): %s\n", dir,
             strerror(errno));
-        exit(2);
     }
     if (0 != rmdir(dir)) {
-        fprintf(stderr, "error: failed to remove directory: %s\n",
+        fprintf(stderr, "warning: failed to remove directory (%s): %s\n", dir,
             strerror(errno));
-        exit(2);
     }
 }
 
-- 
2.43.0


From b356cdf83658234a4fa96f17191977571c2ef552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 65/73] fix: replace the live symlink atomically, and only if
 it is a symlink

---
 src/blogc-git-receiver/pre-receive.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 0fefa7e..9181414 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -273,21 +273,28 @@ default_sym:
     free(build_cmd);
 
     char *htdocs_sym = realpath(sym, NULL);
-    if ((htdocs_sym != NULL) && (0 != unlink(sym))) {
-        fprintf(stderr, "error: failed to remove symlink (%s): %s\n", sym,
-            strerror(errno));
+
+    struct stat sym_stat;
+    if ((0 == lstat(sym, &sym_stat)) && !S_ISLNK(sym_stat.st_mode)) {
+        fprintf(stderr, "error: not a symlink: %s\n", sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
 
-    if (0 != symlink(output_dir, sym)) {
+    // the symlink is replaced at once, there is no moment without a website.
+    char *new_sym = bc_strdup_printf("%s.%ld", sym, (long) getpid());
+    unlink(new_sym);  // someone died before us
+    if ((0 != symlink(output_dir, new_sym)) || (0 != rename(new_sym, sym))) {
         fprintf(stderr, "error: failed to create symlink (%s): %s\n", sym,
             strerror(errno));
+        unlink(new_sym);
+        free(new_sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
+    free(new_sym);
 
     if (htdocs_sym != NULL)
         rmdir_recursive(htdocs_sym);
-- 
2.43.0


From d30d205e4d598416f2688f3a26959aa06ba6041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 66/73] fix: a failing git archive fails the deploy

---
 src/blogc-git-receiver/pre-receive.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 9181414..8011899 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -185,8 +185,11 @@ default_sym:
     }
     tmpdir = dir;
 
+    // not a pipe, because the exit status of git would be lost
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "git archive --format=tar -o \"%s/.git-archive.tar\" \"%s\" && "
+        "tar -x -C \"%s\" -f \"%s/.git-archive.tar\" && "
+        "rm -f \"%s/.git-archive.tar\"", tmpdir, ref, tmpdir, tmpdir, tmpdir);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
             "directory: %s\n", tmpdir);
-- 
2.43.0


From e5ba09b002309eeec87da000da9153a5fef31b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 67/73] fix: a build without output is not deployed

---
 src/blogc-git-receiver/pre-receive.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 8011899..6a45314 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -275,6 +275,13 @@ default_sym:
     }
     free(build_cmd);
 
+    struct stat output_stat;
+    if ((0 != stat(output_dir, &output_stat)) || !S_ISDIR(output_stat.st_mode)) {
+        fprintf(stderr, "error: nothing was built in: %s\n", output_dir);
+        rv = 1;
+        goto cleanup;
+    }
+
     char *htdocs_sym = realpath(sym, NULL);
 
     struct stat sym_stat;
-- 
2.43.0


From 7e9a54687df9e4a87d06436c90ba07635900d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 68/73] fix: only builds are removed after a deploy

---
 src/blogc-git-receiver/pre-receive.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 6a45314..076d2f7 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -76,6 +77,18 @@ rmdir_recursive(const char *dir)
 }
 
 
+static bool
+is_build(const char *dir)
+{
+    // builds are called HASH-TIMESTAMP, anything else wasn't created by us.
+    const char *name = strrchr(dir, '/');
+    name = name != NULL ? name + 1 : dir;
+    size_t len = strspn(name, "0123456789abcdef");
+    return len >= 40 && name[len] == '-' && name[len + 1] >= '0' &&
+        name[len + 1] <= '9';
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -306,7 +319,7 @@ default_sym:
     }
     free(new_sym);
 
-    if (htdocs_sym != NULL)
+    if ((htdocs_sym != NULL) && is_build(htdocs_sym))
         rmdir_recursive(htdocs_sym);
 
 cleanup2:
-- 
2.43.0


From 2fccd515a01889a18b5a44efa47cdcb246816f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 69/73] fix: a deleted branch is not deployed

---
 src/blogc-git-receiver/pre-receive.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 076d2f7..7ad50d1 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -89,6 +89,17 @@ is_build(const char *dir)
 }
 
 
+static char*
+lookup_branch(bc_trie_t *branches, const char *name)
+{
+    // a branch that is being deleted has an hash made of zeros
+    const char *ref = bc_trie_lookup(branches, name);
+    if (ref == NULL || ref[strspn(ref, "0")] == '\0')
+        return NULL;
+    return bc_strdup(ref);
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -175,10 +186,10 @@ default_sym:
         bc_trie_t *branches = bgr_pre_receive_parse(input, input_len);
 
         // try 'master' by default to avoid breaking existing setups
-        ref = bc_strdup(bc_trie_lookup(branches, "master"));
+        ref = lookup_branch(branches, "master");
         if (ref == NULL) {
             // try 'main'
-            ref = bc_strdup(bc_trie_lookup(branches, "main"));
+            ref = lookup_branch(branches, "main");
         }
 
         bc_trie_free(branches);
-- 
2.43.0


From 481ff2025fd1e8f6925371a2665ace9584cc33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 70/73] fix: never build in the directory of another build

---
 src/blogc-git-receiver/pre-receive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 7ad50d1..36b9e60 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -241,7 +241,7 @@ default_sym:
     output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
     free(buildsd);
 
-    if (0 == access(output_dir, F_OK)) {
+    while (0 == access(output_dir, F_OK)) {
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From ba3e11d3599e657e3691ee48bd6eb5fb0f93762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 71/73] fix: quote the mirror when pushing to it

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..99b4509 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From ed04283f7c6f3853d0f53aba7a44ddae980d4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 72/73] fix: rebuild what was built while the settings were
 changed

While watching, an output that is built after the settings file was edited,
but before it was read again, is newer than the settings file. It was built
with the old settings, and was never rebuilt.
---
 src/blogc-make/ctx.c   | 11 +++++++++++
 src/blogc-make/ctx.h   |  2 ++
 src/blogc-make/rules.c |  6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 10c19c0..8ce4490 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -36,6 +36,8 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
     rv->path = f;
     rv->short_path = bc_strdup(filename);
     rv->slug = bc_strdup(slug);
+    rv->since_sec = 0;
+    rv->since_nsec = 0;
 
     struct stat buf;
 
@@ -197,6 +199,9 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     if (*err != NULL)
         return NULL;
 
+    struct timespec now = {0, 0};
+    clock_gettime(CLOCK_REALTIME, &now);
+
     size_t content_len;
     char *content = bc_file_get_contents(abs_filename, true, &content_len,
         err);
@@ -251,6 +256,12 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     rv->settings = settings;
 
     rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
+    if (base != NULL) {
+        // when reloading, the existing outputs were built with the old
+        // settings, even if they are newer than the file.
+        rv->settings_fctx->since_sec = now.tv_sec;
+        rv->settings_fctx->since_nsec = now.tv_nsec;
+    }
     rv->root_dir = bc_strdup(dirname(abs_filename));
     free(abs_filename);
 
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 96f701d..606b712 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -34,6 +34,8 @@ typedef struct {
     char *slug;
     time_t tv_sec;
     long tv_nsec;
+    time_t since_sec;
+    long since_nsec;
     bool readable;
 } bm_filectx_t;
 
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 586cb1b..d323f70 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -1007,6 +1007,12 @@ bm_rule_need_rebuild(bc_slist_t *sources, bm_filectx_t *settings,
     if (output == NULL || !output->readable)
         return true;
 
+    // built before the settings were reloaded
+    if (settings != NULL && (settings->since_sec > output->tv_sec ||
+        (settings->since_sec == output->tv_sec &&
+         settings->since_nsec > output->tv_nsec)))
+        return true;
+
     bool rv = false;
 
     bc_slist_t *s = NULL;
-- 
2.43.0


From 2e2c59b4faade688a6a542a733933931cac4d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 73/73] fix: notice settings changed while they are read

The modification time was taken after reading, so a change made in between
was never noticed by the watcher.
---
 src/blogc-make/ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8ce4490..655af32 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -199,6 +199,10 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     if (*err != NULL)
         return NULL;
 
+    // the time is taken before reading, otherwise something that was changed
+    // while reading would look like read.
+    struct stat settings_stat;
+    bool settings_found = (0 == stat(abs_filename, &settings_stat));
     struct timespec now = {0, 0};
     clock_gettime(CLOCK_REALTIME, &now);
 
@@ -255,7 +259,8 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     }
     rv->settings = settings;
 
-    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
+    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL,
+        settings_found ? &settings_stat : NULL);
     if (base != NULL) {
         // when reloading, the existing outputs were built with the old
         // settings, even if they are newer than the file.
-- 
2.43.0

