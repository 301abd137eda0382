From bc29dd79895ea05ba147cfdc07375261480b1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 01/51] fix: reject string lengths that overflow the read
 buffer size

---
 src/nx_string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..5d2d3d0 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_string.h"
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -120,6 +121,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls > SIZE_MAX / sizeof(**s) - 1) /* no room for the terminator */
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
-- 
2.43.0


From ffe596a64cd10c33fbf14d323b5f48996116a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 02/51] fix: reject negative element count when reading a
 string array

---
 src/nx_string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..73122a4 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -222,6 +222,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Negative string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From 354c7b88530e00614795a4989b795529825a8387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:43 +0000
Subject: [PATCH 03/51] fix: do not read past the source length array when all
 sources are consumed

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 5d2d3d0..da193e7 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -222,7 +222,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From ebbde05386ad1b69128a84d63c6be88514326c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 04/51] fix: JSON false and null literals become false and null
 nodes

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From e2ec49513c7d82d167ef4064c48edb6be7f3ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 05/51] fix: decode the escaped slash the lexer accepts in
 strings

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index da193e7..108f558 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -172,6 +172,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From 48d13ff3a6f9633f66fc291d4723262b7d77a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 06/51] fix: lexer treats bytes above 127 as characters, not as
 end of input

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From ea4f53c6149d0b4a93a49e92c1bd5bc2aa052569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 07/51] fix: a negative JSON array position has no element

---
 src/nx_json_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..7c4e945 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -237,7 +237,7 @@ int nx_json_node_n_children(struct NXJSONNode *node)
 
 struct NXJSONNode *nx_json_array_get(struct NXJSONNode *jarray, int position, int type)
 {
-        if (!nx_json_node_is(jarray, NX_JNT_ARRAY))
+        if (!nx_json_node_is(jarray, NX_JNT_ARRAY) || position < 0)
             return NULL;
 
         struct NXJSONNode *n = jarray->down;
-- 
2.43.0


From 1f730371229ca756f599364d1276941fadf8902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:04 +0000
Subject: [PATCH 08/51] fix: JSON bundles of sizes and keypoint ids keep all 64
 bits

---
 src/nx_json_bundle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..473ba87 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -58,7 +58,7 @@ struct NXJSONNode *nx_json_bundle_int(int i)
 
 struct NXJSONNode *nx_json_bundle_size_t(size_t z)
 {
-        char *s = nx_fstr("%zd", z);
+        char *s = nx_fstr("%zu", z);
         struct NXJSONNode *n = nx_json_node_new_integer(s);
         nx_free(s);
         return n;
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -178,7 +178,7 @@ size_t nx_json_unbundle_size_t(struct NXJSONNode *node)
         NX_ASSERT_PTR(node);
         NX_ASSERT(nx_json_node_is_a(node, NX_JNT_INTEGER));
 
-        return (size_t)atol(nx_json_node_text(node));
+        return (size_t)strtoull(nx_json_node_text(node), NULL, 10);
 }
 
 float nx_json_unbundle_float(struct NXJSONNode *node)
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 9a1c5be8a1b01266ada4a6c1cee2795ecad7a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 09/51] fix: loading CSV with strings as factors visits every
 column

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From eb9fe31369edd20eed2440bfe2d277a8c6404454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 10/51] fix: data frame labels are quoted the way the CSV
 reader expects

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From b03d9a6635a8f516969ce2400186b0f569c20144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 11/51] fix: a data frame string may be set from its own
 current value

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..86071e9 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *elem_ptr = nx_strdup(value);
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = (void *)elem_ptr;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From 736c244848b4df99a248e7db32b7813ed6e086b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 12/51] fix: CSV integer detection uses the same base as the
 conversion

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..ec88df9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From 211e08aff7747e870770d272bd36cadc9ae11ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 13/51] fix: an empty line is a missing value in a
 single-column CSV

---
 src/nx_csv_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index ec88df9..b07c60a 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -308,7 +308,9 @@ static struct NXCSVRecord *nx_csv_parser_parse_record(struct NXCSVParser *cp, st
 {
         struct NXCSVRecord *r = nx_csv_record_new(data);
 
-        if (cp->token->type == NX_CTT_EOR) {
+        if (cp->token->type == NX_CTT_EOR && data->n_columns == 1) {
+                nx_csv_record_add_field_from_token(r, NULL);
+        } else if (cp->token->type == NX_CTT_EOR) {
                 NX_FATAL(NX_LOG_TAG, "Empty record %d while parsing CSV", data->size);
         } else if (cp->token->type == NX_CTT_COMMA) {
                 nx_csv_record_add_field_from_token(r, NULL);
-- 
2.43.0


From 2c6c336f18e13ed85c7f045fdf69c99feed8da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:15 +0000
Subject: [PATCH 14/51] fix: searching a string array skips elements that are
 not set

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 73122a4..6d4a2a5 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -179,7 +179,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] != NULL && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From b9933d22ccef88cbf7d43971a6cbcd761b4e3ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:11 +0000
Subject: [PATCH 15/51] fix: a string may be re-duplicated from its own current
 value

---
 src/nx_string.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 108f558..4b7832d 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -50,12 +50,9 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
+        char *cpy = (src == NULL) ? NULL : nx_strdup(src); /* src may be *dest */
         nx_free(*dest);
-
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
-- 
2.43.0


From c81733869ae4123ed4f53855ec012262ecdbb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 16/51] fix: option name hashing does not overflow a signed
 integer

---
 src/nx_options.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_options.c b/src/nx_options.c
index f4486db..9a2d848 100644
--- a/src/nx_options.c
+++ b/src/nx_options.c
@@ -756,12 +756,12 @@ int nx_options_hash_code(const char *key)
 {
         NX_ASSERT_PTR(key);
 
-        int hash = 0;
+        unsigned int hash = 0; /* wraps around on long names */
         while (*key != '\0') {
                 hash = hash * 31 + *key;
                 ++key;
         }
-        return hash;
+        return (int)hash;
 }
 
 void nx_options_free_rest(struct NXOptions *opt)
-- 
2.43.0


From 55b346499da99ab1f95d3893d3628228a3706efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 17/51] fix: adjacency list graphs count their edges

---
 src/nx_graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..a5bb994 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -150,10 +150,12 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         }
 
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
-        if (e)
+        if (e) {
                 e->weight = weight;
-        else
+        } else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From 9687df24570672d94edebc49bbbb8160dd91c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 18/51] fix: integer comparison does not overflow for distant
 values

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From c10e964a5e0687e5084a8d8fdf93f37ad2089fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 19/51] fix: averaging two integers for median and quartiles
 does not overflow

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From 6cf64b7d3433d5ea84d7084950ce9cc517e2b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:31 +0000
Subject: [PATCH 20/51] fix: closing a stream reports data that could not be
 flushed

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..8b7c4e8 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0) /* buffered data may be lost only now */
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0) /* buffered data may be lost only now */
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From b4ada4d63ceda154e74c6ae70f138c8d0b99e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:31 +0000
Subject: [PATCH 21/51] fix: reading a line at the end of input reports -1

---
 src/nx_io.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 8b7c4e8..ec47603 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -195,15 +195,14 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
+        if (c == EOF && idx == 0)
+                return -1;
+
         if (c == '\n') {
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
-                return -1;
-        } else {
-                return idx - 1;
-        }
+        return idx - 1;
 }
-- 
2.43.0


From 844564438af93b956143a7d9e98274f01e9de14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:14 +0000
Subject: [PATCH 22/51] fix: loading a PNM without aborting reads the header
 like the checked loader does

---
 src/nx_image_io_pnm.c | 55 ++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..b938f2f 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -158,6 +158,32 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         return NX_OK;
 }
 
+static NXResult read_pnm_attributes(FILE *pnm, int *width, int *height, int *levels)
+{
+        int c = fgetc(pnm);
+        while (c == ' ' || c == '\n' || c == '\t') {
+                c = fgetc(pnm);
+        }
+
+        while (c == '#') {
+                while (c != '\n') {
+                        c = fgetc(pnm);
+                        if (c == EOF)
+                                return NX_FAIL;
+                }
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
+        if (fscanf(pnm, "%d %d %d", width, height, levels) != 3)
+                return NX_FAIL;
+
+        // A single whitespace separates the header and the pixels
+        fgetc(pnm);
+
+        return NX_OK;
+}
+
 void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                         enum NXImageLoadMode mode)
 {
@@ -183,28 +209,12 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
-        int c = fgetc(pnm);
-        while (c == ' ' || c == '\n' || c == '\t') {
-                c = fgetc(pnm);
-        }
-
-        while (c == '#') {
-                while (c != '\n') {
-                        c = fgetc(pnm);
-                        if (c == EOF)
-                                NX_IO_FATAL(NX_LOG_TAG, "%s does not contain image data", filename);
-                }
-                c = fgetc(pnm);
-        }
-        ungetc(c, pnm);
-
         int pnm_width;
         int pnm_height;
         int pnm_levels;
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height, &pnm_levels) != NX_OK) {
                 NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
-        c = fgetc(pnm);
 
         enum NXImageType img_type;
         switch (mode) {
@@ -262,21 +272,12 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
         int pnm_height;
         int pnm_levels;
 
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height, &pnm_levels) != NX_OK) {
                 NX_IO_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
-                NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From 72a541360c36553c47835f63ab9dc005f3d3dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:14 +0000
Subject: [PATCH 23/51] fix: PNM headers with impossible sizes or sample depths
 are refused

---
 src/nx_image_io_pnm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b938f2f..b97e549 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_image_io_pnm.h"
 
+#include <limits.h>
 #include <stdlib.h>
 
 #include "virg/nexus/nx_log.h"
@@ -178,6 +179,12 @@ static NXResult read_pnm_attributes(FILE *pnm, int *width, int *height, int *lev
         if (fscanf(pnm, "%d %d %d", width, height, levels) != 3)
                 return NX_FAIL;
 
+        // Pixels are stored as bytes and the RGBA version must be addressable
+        if (*width < 0 || *height < 0 || *levels < 1 || *levels > 255
+            || *width > INT_MAX / 4
+            || (*height > 0 && 4 * *width > INT_MAX / *height))
+                return NX_FAIL;
+
         // A single whitespace separates the header and the pixels
         fgetc(pnm);
 
-- 
2.43.0


From b90601f916f593dd110a95437367f57e5b168500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 24/51] fix: converting a float image to bytes keeps its values

---
 src/nx_image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..b73bea7 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -409,8 +409,11 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 const float *rsrc = src->data.f32 + y * src->row_stride;
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
-                        int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        float value = rsrc[x] * 255.0f;
+                        if (value < 0.0f)
+                                value = 0.0f;
+                        else if (value > 255.0f)
+                                value = 255.0f;
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From b766c8ddf3df6208359dfbe8bc11fa85d2494248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 25/51] fix: image normalization finds the maximum wherever it
 is

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index b73bea7..3f5470f 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From 2b92a6c866ddb8f3e2005ea0381b4b2431c32102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 26/51] fix: scaling an image does not sample beyond its last
 row and column

---
 src/nx_image.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3f5470f..54cab0f 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -556,6 +556,7 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
@@ -563,13 +564,14 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        int step_x = (xpi + 1 < src->width) ? 1 : 0;
                         const uchar *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -642,6 +644,7 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
@@ -649,13 +652,14 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        int step_x = (xpi + 1 < src->width) ? 1 : 0;
                         const float *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 240d6ccfa7baf58e5c98a592e393f385f1df2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 27/51] fix: smoothed downsampling of images narrower than four
 pixels stays inside

---
 src/nx_image.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 54cab0f..fbfe6bb 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -835,11 +835,14 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 int dest_height = src->height;                          \
                 nx_image_resize(dest, dest_width, dest_height, 0, src->type, src->dtype); \
                                                                         \
+                if (dest->width == 0)                                   \
+                        return;                                         \
+                const int x2 = src->width > 2 ? 2 : 0;                  \
                 const float norm_f = 1.0f / (1 + 6 + 11 + 6 + 1);       \
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
-                        dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
+                        dest_row[0] = (2*src_row[x2] + 12*src_row[1]    \
                                        + 11 * src_row[0]) * norm_f;     \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 float sum = src_row[2*x-2] + src_row[2*x+2] \
@@ -847,6 +850,8 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                                         + 11 * src_row[2*x];            \
                                 dest_row[x] = sum * norm_f;             \
                         }                                               \
+                        if (dest->width == 1)                           \
+                                continue;                               \
                         int twodw = 2*dest->width;                      \
                         if (twodw == src->width)                        \
                                 dest_row[dest->width-1] = (src_row[twodw-4] \
@@ -889,13 +894,16 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 int dest_height = src->height / 2;                      \
                 nx_image_resize(dest, dest_width, dest_height, 0, src->type, src->dtype); \
                                                                         \
+                if (dest->height == 0)                                  \
+                        return;                                         \
+                const int y2 = src->height > 2 ? 2 : 0;                 \
                 const float norm_f = 1.0f / (1 + 6 + 11 + 6 + 1);       \
                 const int ss = src->row_stride;                         \
                 const int ds = dest->row_stride;                        \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
-                        dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
+                        dest_col[0] = (2*src_col[y2*ss] + 12 * src_col[ss] \
                                        + 11 * src_col[0]) * norm_f;     \
                         for (int y = 1; y < dest->height-1; ++y) {      \
                                 int yds = y*dest->row_stride;           \
@@ -904,6 +912,8 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                                         + 11 * src_col[2*y*ss];         \
                                 dest_col[yds] = sum * norm_f;           \
                         }                                               \
+                        if (dest->height == 1)                          \
+                                continue;                               \
                         const int dlast_col = (dest->height-1)*ds;      \
                         int twodh = 2*dest->height;                     \
                         if (twodh == src->height)                       \
-- 
2.43.0


From 0328d9f7235e427857cb55aeb0305ac1c4381ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 28/51] fix: derivatives of images a single pixel wide or high
 are zero

---
 src/nx_image.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index fbfe6bb..892d0a1 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1212,6 +1212,10 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                                                                         \
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
+                if (src->width < 2) {                                   \
+                        nx_image_set_zero(dest);                        \
+                        return;                                         \
+                }                                                       \
                                                                         \
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
@@ -1252,6 +1256,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
-- 
2.43.0


From 575b653e2ac6913d26bcf3a70a2a981f55d1a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 29/51] fix: the vertical derivative of the last row follows
 the source row stride

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 892d0a1..f98591b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1272,8 +1272,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 95c09ac7e49b9412f8e70ec018d289f9b329dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:25 +0000
Subject: [PATCH 30/51] fix: colour maps clamp values outside the unit interval

---
 src/nx_colorspace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_colorspace.c b/src/nx_colorspace.c
index cf94c13..ba6306e 100644
--- a/src/nx_colorspace.c
+++ b/src/nx_colorspace.c
@@ -120,6 +120,11 @@ static void interpolate_color_map_data(float *rgb, float value,
 void nx_color_map_apply(uchar* red, uchar* green, uchar* blue,
                         float value, enum NXColorMap map)
 {
+        if (value < 0.0f)
+                value = 0.0f;
+        else if (value > 1.0f)
+                value = 1.0f;
+
         float rgb[3];
         switch (map) {
         case NX_COLOR_MAP_VIRIDIS:
-- 
2.43.0


From a8cdb9ca835652a493a5217844814d14ae0b57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 31/51] fix: warps treat positions just left of or above the
 source as outside

---
 src/nx_image_warp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..525db1d 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -62,8 +62,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -161,8 +161,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -212,8 +212,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From 93e92429a3c233569b4e9675e5e0c2dfb8159c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 32/51] fix: mirrored warps reflect into the source at any
 distance

---
 src/nx_image_warp.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 525db1d..9747959 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -32,6 +32,17 @@
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+/* reflects a pixel index at both ends of [0, n-1] */
+static int nx_image_warp_mirror(int i, int n)
+{
+        const int PERIOD = n * 2 - 2;
+        if (PERIOD == 0)
+                return 0;
+
+        i = (i < 0 ? -i : i) % PERIOD;
+        return i < n ? i : PERIOD - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +53,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,20 +117,9 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
+                                for (int i = 0; i < 2; ++i) {
+                                        idx[i] = nx_image_warp_mirror(idx[i], src_w);
+                                        idy[i] = nx_image_warp_mirror(idy[i], src_h);
                                 }
                                 break;
                         }
-- 
2.43.0


From 21091e789d952ad93318ec1b697133aae58dbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 33/51] fix: rotating a float image by 45 degrees keeps
 fractional values

---
 src/nx_image_warp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 9747959..715c573 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -228,7 +228,7 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        float I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
 
                         drow[x] = I;
-- 
2.43.0


From d6bdfcf733088704ab4bd1352ef0e15b6222a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 34/51] fix: a degenerate source quadrilateral is reported by
 the four point estimate

---
 src/nx_homography.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..e14783a 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -157,7 +157,8 @@ double nx_homography_estimate_4pt(double *h, const int corr_ids[4], const struct
         }
 
         double hu[9];
-        nx_homography_estimate_unit(hu, x);
+        if (nx_homography_estimate_unit(hu, x) == 0.0)
+                return 0.0;
 
         double xp[8];
         for( int i = 0; i < 4; ++i ) {
-- 
2.43.0


From 9d7271860f04e731bafe97e1e9b547d6205b0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 35/51] fix: the skew check of a homography does not depend on
 its scale

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index e14783a..c51ce19 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From 3f710710481f370a24e72eb0b701b1b0776ac286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 36/51] fix: homography samples are four different matches

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index c51ce19..92c8f17 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -271,7 +271,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
-- 
2.43.0


From f2575e453f06628cfc286898a3507deeb4205362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 37/51] fix: RANSAC for homographies never uses an unset
 hypothesis

---
 src/nx_homography.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 92c8f17..a34df0e 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -308,9 +308,12 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0 || !nx_homography_check(h, max_abs_cos)) && --tries);
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            // a degenerate sample leaves h unset
+            n_inliers = 0;
+            if (det != 0.0)
+                    n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
             // update if we got sth. better than current best
             if (n_inliers > n_inliers_best) {
@@ -326,6 +329,12 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             }
         }
 
+        if (n_inliers_best == 0) {
+                for (int i = 0; i < n_corr; ++i)
+                        corr_list[i].is_inlier = NX_FALSE;
+                return 0;
+        }
+
         // reestimate with all inliers and relabel inlier until it does not improve much (by 5)
         memcpy(h, h_best, 9*sizeof(h[0]));
         n_inliers_best = nx_homography_mark_inliers(h_best, n_corr, corr_list, inlier_tolerance);
-- 
2.43.0


From a7eab779360b1468480472ef509b960460edac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 38/51] fix: normalising no matches or coincident points does
 not divide by zero

---
 src/nx_point_match_2d_stats.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..2ec2d73 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -58,6 +58,11 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
 {
         memset(stats, 0, sizeof(*stats));
 
+        if (n_corr <= 0) {
+                nx_point_match_2d_stats_reset(stats);
+                return;
+        }
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 stats->m[0] += corr->x[0];
@@ -85,6 +90,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // coincident points have no scale
+        if (stats->d <= 0.0)
+                stats->d = 1.0;
+        if (stats->dp <= 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From ecbf09666526756fc25aee035b16f855e5b0faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 39/51] fix: the residual of a minimal linear estimate is zero,
 not unset memory

---
 src/nx_epipolar.c   | 2 +-
 src/nx_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..2a16890 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -75,7 +75,7 @@ static inline void nx_fundamental_constraints_from_corr(double *rcons, const str
 static inline double nx_fundamental_svd_solve(double *F, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 }; // a minimal sample has only eight values
         nx_dsvd_us(&U[0], 9, &S[0], 9, n_corr, A, 9);
 
         F[0] = U[9*8+0];
diff --git a/src/nx_homography.c b/src/nx_homography.c
index a34df0e..c19547d 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -199,7 +199,7 @@ static inline void nx_homography_constraints_from_corr(double *rcons, const stru
 static inline double nx_homography_svd_solve(double *h, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 }; // a minimal sample has only eight values
         nx_dsvd_us(&U[0], 9, &S[0], 9, 2*n_corr, A, 9);
 
         h[0] = U[9*8+0];
-- 
2.43.0


From a29de2f58c289cd858652cd3989b518cd32a1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 40/51] fix: fundamental matrix samples are eight different
 matches

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 2a16890..bb6a2c5 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 18f9fcad5713d36c8afc175527c4782832796591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 41/51] fix: RANSAC for fundamental matrices never uses an
 unset hypothesis

---
 src/nx_epipolar.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index bb6a2c5..05f85fb 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -257,6 +257,12 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
                 }
         }
 
+        if (n_inliers_best == 0) {
+                for (int i = 0; i < n_corr; ++i)
+                        corr_list[i].is_inlier = NX_FALSE;
+                return 0;
+        }
+
         // reestimate with all inliers and relabel inlier until it does not
         // improve much (by 5)
         memcpy(F, F_best, 9*sizeof(F[0]));
-- 
2.43.0


From c208ca52b91991b7584449c8b18700186c6d0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 42/51] fix: the essential matrix uses the second camera's skew
 and principal point

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 05f85fb..b47b4d9 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -322,12 +322,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From fdc293a3459c4c4eb8ee24fdf65c4950c8c9fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:30 +0000
Subject: [PATCH 43/51] fix: USAC homography samples are four different matches

---
 src/nx_usac_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From f6c87c874766e43ff0b9fa947ddc498fc39ee483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:17 +0000
Subject: [PATCH 44/51] fix: single precision uniform samples stay below one

---
 src/nx_uniform_sampler.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..81d47f6 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -26,6 +26,7 @@
 #include "virg/nexus/nx_uniform_sampler.h"
 
 #include <stdlib.h>
+#include <float.h>
 #include <time.h>
 
 #include "virg/nexus/nx_alloc.h"
@@ -113,7 +114,10 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        float s = sfmt_genrand_real2(&sampler->state);
+
+        // rounding to single precision must not reach the open end
+        return s < 1.0f ? s : 1.0f - FLT_EPSILON / 2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From 51baaf35dfd96f642e1cc71f1ae9450ef8eed733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:17 +0000
Subject: [PATCH 45/51] fix: Gaussian samples are finite for every pair of
 uniform draws

---
 src/nx_gaussian_sampler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_gaussian_sampler.c b/src/nx_gaussian_sampler.c
index 0acab6b..24120e1 100644
--- a/src/nx_gaussian_sampler.c
+++ b/src/nx_gaussian_sampler.c
@@ -129,7 +129,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 common = sigma * sqrtf(-2.0f * logf(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -147,7 +147,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 *s_ptr = sigma * sqrtf(-2.0f * logf(s) / s) * v1 + mean;
         }
@@ -174,7 +174,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 common = sigma * sqrt(-2.0 * log(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -192,7 +192,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 *s_ptr = sigma * sqrt(-2.0 * log(s) / s) * v1 + mean;
         }
-- 
2.43.0


From fa40c1ba0439040d9b097c7b443e99b8804d10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 46/51] fix: USAC homography estimation runs as many iterations
 as it is allowed

---
 src/nx_usac_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index b5b3f2f..3fce203 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -178,7 +178,7 @@ NXBool nx_usac_homography_terminate(const double *best_model,
         }
 
         int n_inliers = (int)best_score;
-        return hdata->n_iterations >= hdata->max_n_iter
+        return hdata->n_iterations > hdata->max_n_iter
                 || n_inliers >= 200;
 
         // unused
-- 
2.43.0


From c7932ab18b761cfce75e7ff333ddf07c36c9e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 47/51] fix: USAC termination does not convert the initial
 score to an integer

---
 src/nx_usac_homography.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 3fce203..21f8dd0 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -177,9 +177,8 @@ NXBool nx_usac_homography_terminate(const double *best_model,
                 hdata->n_top_hypo = hdata->n_corr;
         }
 
-        int n_inliers = (int)best_score;
         return hdata->n_iterations > hdata->max_n_iter
-                || n_inliers >= 200;
+                || best_score >= 200.0;
 
         // unused
         (void)best_model;
-- 
2.43.0


From c349b15ef2b262ffe0209fb3060e753b9ec40bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:10 +0000
Subject: [PATCH 48/51] fix: image storage size is computed without integer
 overflow

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index f98591b..a437457 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -135,7 +135,7 @@ void nx_image_resize(struct NXImage *img, int width, int height, int row_stride,
         if (row_stride < rs)
                 row_stride = rs;
 
-        size_t length = row_stride * height;
+        size_t length = (size_t)row_stride * height;
         size_t n_bytes = nx_image_bytes_per_channel(dtype);
         nx_mem_block_resize(img->mem, length*n_bytes);
 
@@ -505,7 +505,7 @@ void nx_image_wrap(struct NXImage *img, void *data, int width, int height,
         NX_ASSERT(row_stride >= width);
 
         size_t n_bytes = nx_image_bytes_per_channel(dtype);
-        size_t sz = row_stride * height * n_bytes;
+        size_t sz = (size_t)row_stride * height * n_bytes;
         nx_mem_block_wrap(img->mem, data, sz, sz, own_memory);
 
         img->width = width;
-- 
2.43.0


From 374d9198ea74489c165cf2b19756565718a84f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 49/51] fix: BRIEF extractors are read with their own size and
 radius

---
 src/nx_brief_extractor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..4386371 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,7 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From 02213612f851ef03c29d1d6b48943f4b7c349364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 50/51] fix: BRIEF extractor streams with an impossible size
 are refused

---
 src/nx_brief_extractor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index 4386371..7b4758c 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,6 +373,9 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
+        if (radius < 1 || n_octets < 1 || n_octets > INT_MAX / 32)
+                return NX_FAIL;
+
         nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
-- 
2.43.0


From 5e889936cabc09070845b5aa6eb71e05fba4320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 51/51] fix: BRIEF test pairs can be drawn for every radius

---
 src/nx_brief_extractor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index 7b4758c..4015d12 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -147,6 +147,8 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
 
         int length = be->n_octets * 8;
         int radius = be->radius;
+        // Offsets are at most radius - 1, small patches do not have room for more
+        int min_d2 = radius > 3 ? NX_BRIEF_TEST_PAIR_MIN_DISTANCE2 : (radius - 1)*(radius - 1);
         for (int i = 0; i < length; ++i) {
                 int x0, y0;
                 x0 = 2*radius*(nx_uniform_sampler_sample_s(sampler) - 0.5f);
@@ -160,7 +162,7 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
                         int dx = x1 - x0;
                         int dy = y1 - y0;
                         d2 = dx*dx + dy*dy;
-                } while (d2 < NX_BRIEF_TEST_PAIR_MIN_DISTANCE2);
+                } while (d2 < min_d2);
 
                 be->offsets[4*i]   = x0;
                 be->offsets[4*i+1] = y0;
-- 
2.43.0

