From da15e36c75b731fd717012a86403aee71521f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:57 +0000
Subject: [PATCH 01/43] fix: close the CodeBlock attribute list once in the AST
 JSON

---
 src/ast_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index d7abf5f..c1f796f 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -266,7 +266,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         if (lang && strcmp(lang, "inc") == 0) {
             if (!apex_json_buf_append(b, "]\x2c[[\"inc\",\"yes\"]]],")) return 0;
         } else {
-            if (!apex_json_buf_append(b, "],[]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[]],")) return 0;
         }
         if (lit_len > 0) {
             char *lit_copy = (char *)malloc(lit_len + 1);
-- 
2.43.0


From 9dfb9f1243967546b2bd9d3e6a5d9423ba01fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:57 +0000
Subject: [PATCH 02/43] fix: close the OrderedList content array in the AST
 JSON

---
 src/ast_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index c1f796f..a9ac17b 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -324,7 +324,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             item = cmark_node_next(item);
         }
 
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, is_ordered ? "]]}" : "]}")) return 0;
         break;
     }
     case CMARK_NODE_BLOCK_QUOTE: {
-- 
2.43.0


From 768dade6227e1f87e47f600edeced2911a4ff772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:57 +0000
Subject: [PATCH 03/43] fix: Emph and Strong carry their inlines directly in
 the AST JSON

---
 src/ast_json.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index a9ac17b..63322a4 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -136,15 +136,15 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     case CMARK_NODE_EMPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_STRONG: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_LINK: {
@@ -658,20 +658,16 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
         } else if (strcmp(tag, "LineBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_LINEBREAK);
         } else if (strcmp(tag, "Emph") == 0 || strcmp(tag, "Strong") == 0) {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             cmark_node *wrapper = cmark_node_new(strcmp(tag, "Emph") == 0
                                                  ? CMARK_NODE_EMPH
                                                  : CMARK_NODE_STRONG);
             if (!wrapper) { free(tag); free(c_buf); ok = 0; break; }
-            json_skip_ws(&ccur);
-            if (*ccur.s != ']') {
-                cmark_node *child_first = parse_inlines_array(&ccur);
-                cmark_node *child = child_first;
-                while (child) {
-                    cmark_node *next = cmark_node_next(child);
-                    cmark_node_append_child(wrapper, child);
-                    child = next;
-                }
+            cmark_node *child_first = parse_inlines_array(&ccur);
+            cmark_node *child = child_first;
+            while (child) {
+                cmark_node *next = cmark_node_next(child);
+                cmark_node_append_child(wrapper, child);
+                child = next;
             }
             node = wrapper;
         } else if (strcmp(tag, "Code") == 0) {
-- 
2.43.0


From c63b49316434fd2be899637c0ba3fb45d0cd7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 04/43] fix: decode \uXXXX escapes in AST JSON strings instead
 of storing '?'

---
 src/ast_json.c | 68 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 63322a4..86cafdb 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -425,6 +425,45 @@ static int json_match_char(json_cursor *cur, char ch) {
     return 1;
 }
 
+/* Value of the four hex digits at s, or -1 */
+static int json_hex4(const char *s) {
+    int v = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = s[i];
+        int d;
+        if (c >= '0' && c <= '9') d = c - '0';
+        else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
+        else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
+        else return -1;
+        v = v * 16 + d;
+    }
+    return v;
+}
+
+/* Encode code point cp as UTF-8; returns the number of bytes written (1-4) */
+static size_t json_utf8(int cp, char *out) {
+    if (cp < 0x80) {
+        out[0] = (char)cp;
+        return 1;
+    }
+    if (cp < 0x800) {
+        out[0] = (char)(0xC0 + cp / 64);
+        out[1] = (char)(0x80 + cp % 64);
+        return 2;
+    }
+    if (cp < 0x10000) {
+        out[0] = (char)(0xE0 + cp / 4096);
+        out[1] = (char)(0x80 + cp / 64 % 64);
+        out[2] = (char)(0x80 + cp % 64);
+        return 3;
+    }
+    out[0] = (char)(0xF0 + cp / 262144);
+    out[1] = (char)(0x80 + cp / 4096 % 64);
+    out[2] = (char)(0x80 + cp / 64 % 64);
+    out[3] = (char)(0x80 + cp % 64);
+    return 4;
+}
+
 static char *json_parse_string(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s != '"') return NULL;
@@ -437,10 +476,12 @@ static char *json_parse_string(json_cursor *cur) {
 
     while (*cur->s && *cur->s != '"') {
         unsigned char c = (unsigned char)*cur->s;
+        int cp = -1; /* code point of a \uXXXX escape */
         if (c == '\\') {
             cur->s++;
             c = (unsigned char)*cur->s;
             if (!c) { free(out); return NULL; }
+            cur->s++; /* escaped character */
             switch (c) {
             case '"':  c = '"';  break;
             case '\\': c = '\\'; break;
@@ -451,25 +492,28 @@ static char *json_parse_string(json_cursor *cur) {
             case 'r':  c = '\r'; break;
             case 't':  c = '\t'; break;
             case 'u':
-                /* For simplicity, skip \uXXXX and store as '?' */
-                cur->s++;
-                for (int i = 0; i < 4 && *cur->s; i++) {
-                    cur->s++;
+                cp = json_hex4(cur->s);
+                if (cp < 0) { free(out); return NULL; }
+                cur->s += 4;
+                if (cp >= 0xD800 && cp <= 0xDBFF && cur->s[0] == '\\' && cur->s[1] == 'u') {
+                    int lo = json_hex4(cur->s + 2);
+                    if (lo >= 0xDC00 && lo <= 0xDFFF) {
+                        cp = 0x10000 + (cp - 0xD800) * 0x400 + (lo - 0xDC00);
+                        cur->s += 6;
+                    }
                 }
-                c = '?';
+                /* Lone surrogates and NUL cannot be represented */
+                if (cp == 0 || (cp >= 0xD800 && cp <= 0xDFFF)) cp = 0xFFFD;
                 break;
             default:
                 /* Unknown escape; keep as-is */
                 break;
             }
-            /* Advance past the escaped character (for \u we already advanced in the case) */
-            if (c != '?')
-                cur->s++;
         } else {
             cur->s++;
         }
 
-        if (len + 1 >= cap) {
+        if (len + 4 >= cap) {
             cap *= 2;
             char *nb = (char *)realloc(out, cap);
             if (!nb) {
@@ -478,7 +522,11 @@ static char *json_parse_string(json_cursor *cur) {
             }
             out = nb;
         }
-        out[len++] = (char)c;
+        if (cp >= 0) {
+            len += json_utf8(cp, out + len);
+        } else {
+            out[len++] = (char)c;
+        }
     }
 
     if (*cur->s != '"') {
-- 
2.43.0


From 4767f04a76d5e06afe541907f3d8bfb3aae442a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:17 +0000
Subject: [PATCH 05/43] fix: keep every inline when reading AST JSON back

---
 src/ast_json.c | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 86cafdb..b17fae4 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -625,8 +625,8 @@ static int json_skip_value(json_cursor *cur) {
     return 1;
 }
 
-/* Parse a Pandoc Inline array into a linked list of cmark nodes attached
- * under a temporary dummy parent; returns first child.
+/* Parse a Pandoc Inline array into cmark nodes attached under a temporary
+ * dummy parent; returns that parent (the caller frees it).
  */
 static cmark_node *parse_inlines_array(json_cursor *cur) {
     if (!json_match_char(cur, '[')) return NULL;
@@ -639,9 +639,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node *first = cmark_node_first_child(dummy);
-        cmark_node_free(dummy);
-        return first;
+        return dummy;
     }
 
     int ok = 1;
@@ -710,13 +708,14 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
                                                  ? CMARK_NODE_EMPH
                                                  : CMARK_NODE_STRONG);
             if (!wrapper) { free(tag); free(c_buf); ok = 0; break; }
-            cmark_node *child_first = parse_inlines_array(&ccur);
-            cmark_node *child = child_first;
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            cmark_node *child = inlines ? cmark_node_first_child(inlines) : NULL;
             while (child) {
                 cmark_node *next = cmark_node_next(child);
                 cmark_node_append_child(wrapper, child);
                 child = next;
             }
+            if (inlines) cmark_node_free(inlines);
             node = wrapper;
         } else if (strcmp(tag, "Code") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -733,9 +732,9 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
 
-            cmark_node *child_first = parse_inlines_array(&ccur);
+            cmark_node *inlines = parse_inlines_array(&ccur);
 
-            cmark_node *child = child_first;
+            cmark_node *child = inlines ? cmark_node_first_child(inlines) : NULL;
             while (child) {
                 cmark_node *next = cmark_node_next(child);
                 if (!cmark_node_append_child(dummy, child)) {
@@ -745,6 +744,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
                 }
                 child = next;
             }
+            if (inlines) cmark_node_free(inlines);
             node = NULL;
         } else if (strcmp(tag, "Math") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -834,18 +834,9 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
         return NULL;
     }
 
-    cmark_node *first = cmark_node_first_child(dummy);
-    if (first) {
-        /* Detach children without freeing */
-        cmark_node *child = first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_unlink(child);
-            child = next;
-        }
-    }
-    cmark_node_free(dummy);
-    return first;
+    /* Return the dummy: the caller moves its children and frees it (unlinking
+     * them here would clear their next pointers and drop all but the first) */
+    return dummy;
 }
 
 /* Parse a single Block object {"t": "...", "c": ...} (any key order, e.g. dkjson "c" before "t") */
@@ -902,13 +893,14 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     if (strcmp(tag, "Para") == 0) {
         cmark_node *para = cmark_node_new(CMARK_NODE_PARAGRAPH);
         if (!para) { free(tag); free(c_buf); return NULL; }
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
+        cmark_node *inlines = parse_inlines_array(&ccur);
+        cmark_node *child = inlines ? cmark_node_first_child(inlines) : NULL;
         while (child) {
             cmark_node *next = cmark_node_next(child);
             cmark_node_append_child(para, child);
             child = next;
         }
+        if (inlines) cmark_node_free(inlines);
         node = para;
     } else if (strcmp(tag, "Header") == 0) {
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
@@ -920,13 +912,14 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         cmark_node *heading = cmark_node_new(CMARK_NODE_HEADING);
         if (!heading) { free(tag); free(c_buf); return NULL; }
         cmark_node_set_heading_level(heading, (int)level);
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
+        cmark_node *inlines = parse_inlines_array(&ccur);
+        cmark_node *child = inlines ? cmark_node_first_child(inlines) : NULL;
         while (child) {
             cmark_node *next = cmark_node_next(child);
             cmark_node_append_child(heading, child);
             child = next;
         }
+        if (inlines) cmark_node_free(inlines);
         json_skip_ws(&ccur);
         if (*ccur.s == ']')
             ccur.s++;
-- 
2.43.0


From 0a9e498dcc8cf58c8afd504eb547c9d4a4f9a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:28 +0000
Subject: [PATCH 06/43] fix: read back the lists and block quotes the AST JSON
 writer emits

---
 src/ast_json.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index b17fae4..17c5c20 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -969,16 +969,19 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         free(lang);
     } else if (strcmp(tag, "BulletList") == 0 || strcmp(tag, "OrderedList") == 0) {
         int is_ordered = (strcmp(tag, "OrderedList") == 0);
+        long start = 1;
+        if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         if (is_ordered) {
+            /* c = [[start, style, delim], items] */
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-            long start = json_parse_int(&ccur);
+            start = json_parse_int(&ccur);
             if (start <= 0) start = 1;
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
+            if (!json_match_char(&ccur, ']')) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        } else {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         }
 
@@ -986,14 +989,13 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!list) { free(tag); free(c_buf); return NULL; }
         if (is_ordered) {
             cmark_node_set_list_type(list, CMARK_ORDERED_LIST);
+            cmark_node_set_list_start(list, (int)start);
         } else {
             cmark_node_set_list_type(list, CMARK_BULLET_LIST);
         }
 
-        if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
         json_skip_ws(&ccur);
         while (*ccur.s != ']') {
-            if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             cmark_node *item = cmark_node_new(CMARK_NODE_ITEM);
             if (!item) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             cmark_node *blocks = parse_blocks_array(&ccur);
@@ -1006,8 +1008,6 @@ static cmark_node *parse_block_object(json_cursor *cur) {
                 }
                 cmark_node_free(blocks);
             }
-            if (!json_match_char(&ccur, ']')) { cmark_node_free(item); cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-
             cmark_node_append_child(list, item);
 
             json_skip_ws(&ccur);
@@ -1021,10 +1021,8 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             }
         }
         if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
         node = list;
     } else if (strcmp(tag, "BlockQuote") == 0) {
-        if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         cmark_node *bq = cmark_node_new(CMARK_NODE_BLOCK_QUOTE);
         if (!bq) { free(tag); free(c_buf); return NULL; }
         cmark_node *blocks = parse_blocks_array(&ccur);
@@ -1037,7 +1035,6 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             }
             cmark_node_free(blocks);
         }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
         node = bq;
     } else if (strcmp(tag, "Div") == 0) {
         /* c = [Attr, blocks] – skip Attr, parse inner blocks and return chain so caller appends all */
-- 
2.43.0


From 97955188aabc332b58777aa0f8992958de7a262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:44 +0000
Subject: [PATCH 07/43] fix: read links and images back from AST JSON instead
 of dropping them

---
 src/ast_json.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/ast_json.c b/src/ast_json.c
index 17c5c20..ee0ad29 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -727,6 +727,32 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Link") == 0 || strcmp(tag, "Image") == 0) {
+            /* c = [Attr, inlines, [url, title]] */
+            cmark_node *inlines = NULL;
+            char *url = NULL;
+            char *title = NULL;
+            if (json_match_char(&ccur, '[') && json_skip_value(&ccur) &&
+                json_match_char(&ccur, ',') && (inlines = parse_inlines_array(&ccur)) &&
+                json_match_char(&ccur, ',') && json_match_char(&ccur, '[') &&
+                (url = json_parse_string(&ccur)) && json_match_char(&ccur, ',') &&
+                (title = json_parse_string(&ccur))) {
+                node = cmark_node_new(strcmp(tag, "Link") == 0 ? CMARK_NODE_LINK : CMARK_NODE_IMAGE);
+            }
+            if (node) {
+                cmark_node_set_url(node, url);
+                cmark_node_set_title(node, title);
+                cmark_node *child = cmark_node_first_child(inlines);
+                while (child) {
+                    cmark_node *next = cmark_node_next(child);
+                    cmark_node_append_child(node, child);
+                    child = next;
+                }
+            }
+            if (inlines) cmark_node_free(inlines);
+            free(url);
+            free(title);
+            if (!node) { free(tag); free(c_buf); ok = 0; break; }
         } else if (strcmp(tag, "Span") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
-- 
2.43.0


From 6c4bce107f5d592523754f2ae05682f5dad0be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:05 +0000
Subject: [PATCH 08/43] fix: keep the blocks of a Div when reading AST JSON

---
 src/ast_json.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index ee0ad29..524aeac 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -1068,6 +1068,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
         node = parse_blocks_array(&ccur);
+        if (!node) node = cmark_node_new(CMARK_NODE_DOCUMENT); /* empty Div */
         if (!json_match_char(&ccur, ']')) {
             if (node) cmark_node_free(node);
             free(tag);
@@ -1101,10 +1102,17 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
         json_skip_ws(cur);
         cmark_node *blk = parse_block_object(cur);
         if (!blk) { ok = 0; break; }
-        while (blk) {
-            cmark_node *next = cmark_node_next(blk);
+        if (cmark_node_get_type(blk) == CMARK_NODE_DOCUMENT) {
+            /* Div: splice its blocks in place of the wrapper */
+            cmark_node *child = cmark_node_first_child(blk);
+            while (child) {
+                cmark_node *next = cmark_node_next(child);
+                cmark_node_append_child(dummy, child);
+                child = next;
+            }
+            cmark_node_free(blk);
+        } else {
             cmark_node_append_child(dummy, blk);
-            blk = next;
         }
 
         json_skip_ws(cur);
-- 
2.43.0


From bc7d994300884144be76e25235e28ee2b873be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:05 +0000
Subject: [PATCH 09/43] fix: no signed overflow on long numbers in AST JSON

---
 src/ast_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 524aeac..d596442 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -548,7 +548,7 @@ static long json_parse_int(json_cursor *cur) {
     }
     long v = 0;
     while (*cur->s && isdigit((unsigned char)*cur->s)) {
-        v = v * 10 + (*cur->s - '0');
+        if (v < 100000000L) v = v * 10 + (*cur->s - '0'); /* saturate: no overflow on absurd numbers */
         cur->s++;
     }
     return neg ? -v : v;
-- 
2.43.0


From d4f558ba68936f737602bfb9a2e46848f0980cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:04 +0000
Subject: [PATCH 10/43] fix: pad the last base64 group by the bytes it holds

---
 src/apex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9ec4a63..fd538d8 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -94,6 +94,7 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
     size_t i = 0;
 
     while (i < len) {
+        size_t group = len - i; /* bytes left for this group */
         unsigned char byte1 = data[i++];
         unsigned char byte2 = (i < len) ? data[i++] : 0;
         unsigned char byte3 = (i < len) ? data[i++] : 0;
@@ -104,14 +105,14 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
         *out++ = base64_chars[(combined >> 12) & 0x3F];
 
         /* Check if we have at least 2 bytes (byte1 and byte2) */
-        if (i >= 2) {
+        if (group >= 2) {
             *out++ = base64_chars[(combined >> 6) & 0x3F];
         } else {
             *out++ = '=';
         }
 
         /* Check if we have all 3 bytes */
-        if (i >= 3) {
+        if (group >= 3) {
             *out++ = base64_chars[combined & 0x3F];
         } else {
             *out++ = '=';
-- 
2.43.0


From 72ba7f21169546157b37c2ecb44286932c2c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:16 +0000
Subject: [PATCH 11/43] fix: keep the document after an embedded image

---
 src/apex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apex.c b/src/apex.c
index fd538d8..e514dcc 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -405,6 +405,8 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
                             /* Calculate new size needed */
                             size_t new_len = before_src + strlen("src=\"") + strlen(data_url) + 1 + after_url + 1;
+                            /* Keep room for the text after the tag and the terminator too */
+                            new_len += strlen(img_end);
                             if (new_len > remaining) {
                                 size_t written = write - output;
                                 cap = (written + new_len + 1) * 2;
-- 
2.43.0


From de72c972c6a4b68b5a2d474b3e1e2c828216702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:36 +0000
Subject: [PATCH 12/43] fix: obfuscated mail links keep UTF-8 text and
 character references

---
 src/apex.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/apex.c b/src/apex.c
index e514dcc..c62184f 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -64,6 +64,20 @@ static char *apex_encode_hex_entities(const char *text, size_t len) {
 
     char *w = out;
     for (size_t i = 0; i < len; i++) {
+        /* Keep UTF-8 bytes and existing character references (&amp;) as they are:
+         * encoding their bytes one by one would change the decoded text */
+        size_t keep = (unsigned char)text[i] >= 0x80 ? 1 : 0;
+        if (text[i] == '&') {
+            size_t j = i + 1;
+            while (j < len && (isalnum((unsigned char)text[j]) || text[j] == '#')) j++;
+            if (j > i + 1 && j < len && text[j] == ';') keep = j - i + 1;
+        }
+        if (keep) {
+            memcpy(w, text + i, keep);
+            w += keep;
+            i += keep - 1;
+            continue;
+        }
         int written = snprintf(w, cap - (size_t)(w - out), "&#x%02X;", (unsigned char)text[i]);
         if (written <= 0 || (size_t)written >= cap - (size_t)(w - out)) {
             free(out);
-- 
2.43.0


From bbb76e9696f1ce9a6f74943af1a82b55d7e9691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:36 +0000
Subject: [PATCH 13/43] fix: no read past the end after an empty mail link at
 the end of the page

---
 src/apex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apex.c b/src/apex.c
index c62184f..969974c 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -212,6 +212,7 @@ static char *apex_obfuscate_email_links(const char *html) {
                 free(encoded_text);
                 continue;
             }
+            if (!*p) break;
         }
 
         /* Detect end of link */
-- 
2.43.0


From 781da2df079a2d4146f1635e52505857c69c20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 14/43] fix: header IDs: a truncated UTF-8 sequence no longer
 reads past the heading text

---
 src/extensions/header_ids.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 91683c2..5651c0a 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -134,11 +134,12 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                 else if ((c & 0xF8) == 0xF0) utf8_len = 4;  /* 4-byte sequence */
 
                 if (utf8_len > 0) {
-                    /* Copy the entire UTF-8 sequence */
-                    for (int i = 0; i < utf8_len && read[i] != '\0'; i++) {
-                        *write++ = read[i];
+                    /* Copy the entire UTF-8 sequence (or what is left of a truncated one) */
+                    int copied = 0;
+                    while (copied < utf8_len && read[copied] != '\0') {
+                        *write++ = read[copied++];
                     }
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                    read += copied - 1;  /* -1 because for loop will increment */
                     last_was_dash = false;
                     first_char = false;
                 } else {
@@ -199,9 +200,10 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                 else if ((c & 0xF0) == 0xE0) utf8_len = 3;  /* 3-byte sequence */
                 else if ((c & 0xF8) == 0xF0) utf8_len = 4;  /* 4-byte sequence */
 
-                if (utf8_len > 0) {
-                    /* Skip the entire UTF-8 sequence */
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                /* Skip the entire UTF-8 sequence, never past the end of the text
+                 * (the for loop will increment past the last byte) */
+                for (int i = 1; i < utf8_len && read[1] != '\0'; i++) {
+                    read++;
                 }
                 /* Otherwise skip the byte */
             }
-- 
2.43.0


From 6bfa42ea23c3a1336c6d2f20f1bc0cb9a7dcda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 15/43] fix: header IDs: reserve room for the text after an
 emoji name

---
 src/extensions/header_ids.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 5651c0a..caaea70 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -236,17 +236,19 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                             size_t name_len = strlen(emoji_name);
                             /* Ensure we have enough space */
                             size_t current_pos = write - id;
-                            size_t needed = current_pos + name_len + 1;
+                            /* The rest of the text still has to fit behind the name */
+                            size_t needed = current_pos + name_len + (len - (size_t)(read - text)) + 1;
                             if (needed > capacity) {
                                 /* Reallocate if needed */
-                                size_t old_pos = write - id;
                                 size_t new_cap = needed * 2;
                                 char *new_id = realloc(id, new_cap);
-                                if (new_id) {
-                                    id = new_id;
-                                    write = id + old_pos;
-                                    capacity = new_cap;
+                                if (!new_id) {
+                                    free(id);
+                                    return strdup("");
                                 }
+                                id = new_id;
+                                write = id + current_pos;
+                                capacity = new_cap;
                             }
                             /* Write emoji name */
                             memcpy(write, emoji_name, name_len);
-- 
2.43.0


From 8967b0fbad23b06d1b797490200c263f57d38ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 16/43] fix: header IDs: grow the heading text buffer by what a
 long literal needs

---
 src/extensions/header_ids.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index caaea70..6c03958 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -419,7 +419,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = (capacity + len) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -427,6 +427,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
@@ -438,7 +439,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = (capacity + len) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -446,6 +447,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
-- 
2.43.0


From a050ebfca05b9207ffb9e6a5e3552e4cc6a20c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 17/43] fix: metadata format() transform passes a
 document-supplied format string to snprintf only if it is one number format

---
 src/extensions/metadata.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a320234..68d53a6 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1184,6 +1184,29 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     return arr;
 }
 
+/**
+ * A format the format() transform may hand to snprintf: exactly one
+ * floating-point conversion (flags, width and precision allowed), no '*',
+ * and otherwise only text and "%%".
+ */
+static bool is_number_format(const char *fmt) {
+    int conversions = 0;
+    for (const char *p = fmt; *p; p++) {
+        if (*p != '%') continue;
+        p++;
+        if (*p == '%') continue;
+        while (*p && strchr("-+ #0", *p)) p++;
+        while (isdigit((unsigned char)*p)) p++;
+        if (*p == '.') {
+            p++;
+            while (isdigit((unsigned char)*p)) p++;
+        }
+        if (!*p || !strchr("aAeEfFgG", *p)) return false;
+        conversions++;
+    }
+    return conversions == 1;
+}
+
 /**
  * Apply a single transform to a value
  * Returns newly allocated string, or NULL on error
@@ -1886,7 +1909,7 @@ static char *apply_transform(const char *transform_name, const char *options,
 
         /* Try to parse as number for formatting */
         double num = 0.0;
-        if (sscanf(value, "%lf", &num) == 1) {
+        if (is_number_format(options) && sscanf(value, "%lf", &num) == 1) {
             char buffer[256];
             int written = snprintf(buffer, sizeof(buffer), options, num);
             if (written > 0 && written < (int)sizeof(buffer)) {
-- 
2.43.0


From 95d5e612907cb8b7a88f4d7fb35de00925605c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 18/43] fix: metadata truncate() transform with a negative
 length wrote outside its buffer

---
 src/extensions/metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 68d53a6..a56f9ca 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1724,6 +1724,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld,%63s", &max_len, suffix) >= 1 ||
             sscanf(options, "%ld", &max_len) == 1) {
             size_t len = strlen(value);
+            if (max_len < 0) max_len = 0;
             if ((long)len <= max_len) return strdup(value);
 
             size_t suffix_len = strlen(suffix);
-- 
2.43.0


From 55d5eb4ba03942b510fb71f7625bfc28c23c8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 19/43] fix: metadata repeat() transform with a huge count
 overflowed its buffer size

---
 src/extensions/metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a56f9ca..6df5db6 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1878,6 +1878,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld", &count) == 1 && count > 0) {
             size_t value_len = strlen(value);
             if (value_len == 0) return strdup("");
+            if ((size_t)count > (SIZE_MAX - 1) / value_len) return strdup(value);
 
             char *result = malloc(value_len * count + 1);
             if (!result) return NULL;
-- 
2.43.0


From 569ea5baf1c7106c6e53701b4b516bf2f40f4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 20/43] fix: signed overflow in metadata pad() and slice()
 transforms

---
 src/extensions/metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 6df5db6..28e58a8 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1349,7 +1349,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             if (start < 0) start = 0;
             if (start >= (long)arr->count) return strdup("");
             if (len < 0) len = (long)arr->count - start;
-            if (len > 0 && (size_t)(start + len) > arr->count) len = (long)arr->count - start;
+            if (len > (long)arr->count - start) len = (long)arr->count - start;
 
             /* Create new array with slice */
             apex_string_array *slice = calloc(1, sizeof(apex_string_array));
@@ -1939,7 +1939,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             if ((long)len >= width) return strdup(value);
 
             size_t pad_count = width - len;
-            char *result = malloc(width + 1);
+            char *result = malloc((size_t)width + 1);
             if (!result) return NULL;
 
             memset(result, pad_char, pad_count);
-- 
2.43.0


From a19207fbcb3db4883054d1239cb141aae082015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 21/43] fix: metadata substring(start) without an end dropped
 the last character

---
 src/extensions/metadata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 28e58a8..b4884ac 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1696,8 +1696,10 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (!options) return strdup(value);
 
         long start = 0, end = -1;
-        if (sscanf(options, "%ld,%ld", &start, &end) >= 1) {
+        int given = sscanf(options, "%ld,%ld", &start, &end);
+        if (given >= 1) {
             size_t len = strlen(value);
+            if (given < 2) end = (long)len;  /* No end given: up to the end */
             if (start < 0) start = len + start;  /* Negative index from end */
             if (end < 0) end = len + end;
             if (start < 0) start = 0;
-- 
2.43.0


From f4e17aab545576907407181de92f4fac5f14f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 22/43] fix: metadata escape transform turned each byte of a
 non-ASCII character into an entity of its own

---
 src/extensions/metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index b4884ac..4e4ef99 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1765,8 +1765,8 @@ static char *apply_transform(const char *transform_name, const char *options,
                 case '"': strcpy(out, "&quot;"); out += 6; break;
                 case '\'': strcpy(out, "&#39;"); out += 5; break;
                 default:
-                    if (c >= 32 && c < 127) {
-                        *out++ = (char)c;
+                    if (c >= 32 && c != 127) {
+                        *out++ = (char)c;  /* includes the bytes of UTF-8 characters */
                     } else {
                         /* Encode other characters as entities */
                         int written = snprintf(out, 16, "&#%u;", c);
-- 
2.43.0


From 0e4441dc2595c96c257c3f10a1a0f75311509f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 23/43] fix: metadata transforms after first or last worked on
 the whole array instead of the element

---
 src/extensions/metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 4e4ef99..fcf4d5f 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1282,6 +1282,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             *is_array = true;
         }
         apex_string_array *arr = *array_ptr;
+        *is_array = false;  /* the result is a single string */
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[0]);
     }
@@ -1296,6 +1297,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             *is_array = true;
         }
         apex_string_array *arr = *array_ptr;
+        *is_array = false;  /* the result is a single string */
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[arr->count - 1]);
     }
-- 
2.43.0


From 89b19dac018f3abd82cf297889fc0b09f8b7fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 24/43] fix: a second string transform after a one-element
 split discarded the result of the first

---
 src/extensions/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index fcf4d5f..dfb8d01 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1400,6 +1400,7 @@ static char *apply_transform(const char *transform_name, const char *options,
     if (*is_array) {
         /* Convert array to string first */
         apex_string_array *arr = *array_ptr;
+        *is_array = false;
         if (arr->count == 0) value = "";
         else if (arr->count == 1) value = arr->items[0];
         else {
@@ -1423,7 +1424,6 @@ static char *apply_transform(const char *transform_name, const char *options,
             }
             *p = '\0';
             value = joined;
-            *is_array = false;
         }
     }
 
-- 
2.43.0


From d46e4c997bb8358cf7bb8385adc59e02338d68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 25/43] fix: metadata replace(regex:...) looped forever on a
 pattern that matches the empty string

---
 src/extensions/metadata.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index dfb8d01..52a08d8 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1600,6 +1600,7 @@ static char *apply_transform(const char *transform_name, const char *options,
                     count++;
                     search_pos += matches[0].rm_eo;
                     if (*search_pos == '\0') break;
+                    if (matches[0].rm_so == matches[0].rm_eo) search_pos++;  /* empty match: step over one character */
                 }
 
                 if (count > 0) {
@@ -1623,6 +1624,8 @@ static char *apply_transform(const char *transform_name, const char *options,
                             out += repl_len;
 
                             search_pos += matches[0].rm_eo;
+                            if (*search_pos == '\0') break;
+                            if (matches[0].rm_so == matches[0].rm_eo) *out++ = *search_pos++;
                         }
 
                         /* Copy remaining text */
-- 
2.43.0


From 10d064b37290934fb8dafeea8e6fdbd1060e0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 26/43] fix: metadata split() looped forever on a pattern that
 matches the empty string

---
 src/extensions/metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 52a08d8..7207e6c 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1091,6 +1091,8 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     regmatch_t matches[1];
 
     while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
+        if (matches[0].rm_eo == 0) break;  /* an empty match separates nothing */
+
         /* Extract token before match */
         size_t token_len = (size_t)matches[0].rm_so;
         if (token_len > 0) {
-- 
2.43.0


From 5ccdc04f1411d543d9ff35f45f7be05b823611b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 27/43] fix: metadata join of fewer than two elements left the
 value an array for the next transform

---
 src/extensions/metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 7207e6c..2924731 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1243,6 +1243,8 @@ static char *apply_transform(const char *transform_name, const char *options,
         const char *delim = options && options[0] ? options : ", ";
         apex_string_array *arr = *array_ptr;
 
+        *is_array = false;  /* join converts the array back to a string */
+
         if (arr->count == 0) return strdup("");
         if (arr->count == 1) return strdup(arr->items[0]);
 
@@ -1269,8 +1271,6 @@ static char *apply_transform(const char *transform_name, const char *options,
         }
         *p = '\0';
 
-        /* Join converts array back to string */
-        *is_array = false;
         return result;
     }
 
-- 
2.43.0


From 2736e46a0b1c57aeba7fd3362b141fc0e68fe4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 28/43] fix: critic markup was dropped and the output buffer
 overrun when the HTML was longer than twice the text

---
 src/extensions/critic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions/critic.c b/src/extensions/critic.c
index b686951..fabc91b 100644
--- a/src/extensions/critic.c
+++ b/src/extensions/critic.c
@@ -278,7 +278,9 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t output_capacity = len * 2;  /* Generous estimate */
+    /* Markup takes at most 8 times its length as HTML ({~~a~>~~} is 9 bytes
+     * and becomes 65), plus the terminator */
+    size_t output_capacity = len * 8 + 1;
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
-- 
2.43.0


From 5e7e3e3b0a39814ff986f74b2c64d8c23f92ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 29/43] fix: highlights at the end of a short text lost their
 closing tag and overran the output buffer

---
 src/extensions/highlight.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index d09d1c3..232af9e 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -42,7 +42,8 @@ char *apex_process_highlights(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <mark> tags */
+    /* ==x== is 5 bytes and becomes 14; one more for the terminator */
+    size_t capacity = len * 3 + 1;
     char *output = malloc(capacity);
     if (!output) return NULL;
 
-- 
2.43.0


From 2d51ded0c9ddc2f2e3166825aa36b85382acc017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 30/43] fix: inserts lost text and overran the output buffer in
 short texts and after an attribute list

---
 src/extensions/insert.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 1a63432..96d6ee9 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -49,7 +49,8 @@ char *apex_process_inserts(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <ins> tags */
+    /* ++x++ is 5 bytes and becomes 12; one more for the terminator */
+    size_t capacity = len * 3 + 1;
     char *output = malloc(capacity);
     if (!output) return NULL;
 
@@ -134,8 +135,9 @@ char *apex_process_inserts(const char *text) {
                             /* Build ins tag with attributes */
                             char *attr_str = attributes_to_html(attrs);
                             if (attr_str) {
-                                /* Calculate space needed */
-                                size_t ins_open_len = 30 + strlen(attr_str) + content_len + 20;
+                                /* Calculate space needed, with room for the rest of the text */
+                                size_t ins_open_len = 30 + strlen(attr_str) + content_len + 20 +
+                                                      (len - (size_t)(ial_end - text)) * 3;
                                 if (remaining < ins_open_len) {
                                     size_t written = write - output;
                                     capacity = (written + ins_open_len + 1) * 2;
-- 
2.43.0


From 922c6ee7e2536e9901a744bca04414e2006cc91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:02 +0000
Subject: [PATCH 31/43] fix: highlight and insert scans read one byte past the
 end of the text

---
 src/extensions/highlight.c | 2 +-
 src/extensions/insert.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index 232af9e..d584814 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -83,7 +83,7 @@ char *apex_process_highlights(const char *text) {
          */
         bool preceded_by_equals = (read > text && read[-1] == '=');
         bool preceded_by_plus = (read > text && read[-1] == '+');
-        bool followed_by_plus = (read[2] == '+');
+        bool followed_by_plus = (read[1] && read[2] == '+');
         bool is_valid_highlight_start = (read[0] == '=' && read[1] == '=' &&
                                          read[2] != '=' && read[2] != '}' &&
                                          read[2] != '\0' && read[2] != '\n' &&
diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 96d6ee9..21b6832 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -83,8 +83,8 @@ char *apex_process_inserts(const char *text) {
          */
         bool preceded_by_plus = (read > text && read[-1] == '+');
         bool preceded_by_brace = (read > text && read[-1] == '{');
-        bool followed_by_plus = (read[2] == '+');
-        bool followed_by_brace = (read[2] == '}');
+        bool followed_by_plus = (read[1] && read[2] == '+');
+        bool followed_by_brace = (read[1] && read[2] == '}');
         bool is_valid_insert_start = (read[0] == '+' && read[1] == '+' &&
                                      read[2] != '+' && !followed_by_brace &&
                                      read[2] != '\0' && read[2] != '\n' &&
-- 
2.43.0


From f8431e54ae332b21ea946cf5dde6e9c04c483442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:02 +0000
Subject: [PATCH 32/43] fix: attributes of an insert were written without a
 space after markdown="span"

---
 src/extensions/insert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 21b6832..a5539f0 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -153,7 +153,7 @@ char *apex_process_inserts(const char *text) {
                                 }
 
                                 /* Write <ins markdown="span" ...> */
-                                int written = snprintf(write, remaining, "<ins markdown=\"span\"%s>", attr_str);
+                                int written = snprintf(write, remaining, "<ins markdown=\"span\"%s%s>", *attr_str ? " " : "", attr_str);
                                 if (written > 0) {
                                     if ((size_t)written >= remaining) {
                                         /* String was truncated - need more space */
@@ -169,7 +169,7 @@ char *apex_process_inserts(const char *text) {
                                         write = output + current_written;
                                         remaining = capacity - current_written;
                                         /* Retry with more space */
-                                        written = snprintf(write, remaining, "<ins markdown=\"span\"%s>", attr_str);
+                                        written = snprintf(write, remaining, "<ins markdown=\"span\"%s%s>", *attr_str ? " " : "", attr_str);
                                     }
                                     if (written > 0 && (size_t)written < remaining) {
                                         write += written;
-- 
2.43.0


From 9b6b7cd6efa7f6aa35b4b44d2e87f378e7d19523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 33/43] fix: special markers cut off the text after a page
 break, {index} was only found at the end of the text and then read past it

---
 src/extensions/special_markers.c | 36 +++++++++++++-------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f67c367..f313b39 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -17,8 +17,10 @@ char *apex_process_special_markers(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    /* Page break divs are ~64 bytes each, so need generous capacity */
-    size_t capacity = len * 4;  /* Room for expansion */
+    /* Room for the terminator and for 7 bytes per byte of text: ^ becomes 7 bytes
+     * and <!--PAUSE:X--> at most 5 times as long. Page breaks and index markers
+     * expand more and make their own room below. */
+    size_t capacity = len * 7 + 1;
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
@@ -79,10 +81,11 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                /* Expand buffer */
+            size_t rest = (len - (size_t)(read - text)) * 7;
+            if (repl_len + rest >= remaining) {
+                /* Expand buffer, keeping room for the rest of the text */
                 size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
+                capacity = (written + repl_len + rest + 100) * 2;
                 char *new_output = realloc(output, capacity);
                 if (!new_output) {
                     free(output);
@@ -133,10 +136,11 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                /* Expand buffer */
+            size_t rest = (len - (size_t)(read - text)) * 7;
+            if (repl_len + rest >= remaining) {
+                /* Expand buffer, keeping room for the rest of the text */
                 size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
+                capacity = (written + repl_len + rest + 100) * 2;
                 char *new_output = realloc(output, capacity);
                 if (!new_output) {
                     free(output);
@@ -157,25 +161,13 @@ char *apex_process_special_markers(const char *text) {
          * Replaced with <!--INDEX--> so the index extension inserts the index there.
          * The marker is always removed from the document (either replaced by the
          * index block or left as an invisible HTML comment when index is suppressed). */
-        if (strncmp(read, "{index}", 8) == 0) {
+        if (strncmp(read, "{index}", 7) == 0) {
             const char *replacement = "<!--INDEX-->";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return strdup(text);
-                }
-                output = new_output;
-                write = output + written;
-                remaining = capacity - written;
-            }
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
-            read += 8;
+            read += 7;
             continue;
         }
 
-- 
2.43.0


From 46d3993a959d3ecad3d2d8c45bd5224f0158c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 34/43] fix: an indented end-of-block marker on the first line
 was not recognised

---
 src/extensions/special_markers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f313b39..685fdd9 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -40,7 +40,7 @@ char *apex_process_special_markers(const char *text) {
             while (!line_start && before >= text && (*before == ' ' || *before == '\t')) {
                 before--;
             }
-            if (!line_start && before >= text && *before == '\n') {
+            if (!line_start && (before < text || *before == '\n')) {
                 line_start = true;
             }
 
-- 
2.43.0


From ae521c191aebd64e88cc34176add982afea85e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:24 +0000
Subject: [PATCH 35/43] fix: shifting headers by more than one level
 (mmd-merge) overran its buffer

---
 cli/main.c | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 253e626..272e73c 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1057,32 +1057,18 @@ static char *apex_cli_shift_headers(const char *content, int indent) {
     char *out = buffer;
     const char *in = content;
 
-    for (int level = 0; level < indent; level++) {
-        out = buffer;
-        in = (level == 0) ? content : buffer;
-
-        bool at_line_start = true;
-        while (*in) {
-            char c = *in;
-            if (at_line_start && c == '#') {
-                /* Duplicate initial '#' */
-                *out++ = '#';
-                *out++ = '#';
-                in++;
-                at_line_start = false;
-                continue;
-            }
-
-            *out++ = c;
-            if (c == '\n') {
-                at_line_start = true;
-            } else {
-                at_line_start = false;
-            }
-            in++;
-        }
-        *out = '\0';
-    }
+    bool at_line_start = true;
+    while (*in) {
+        char c = *in++;
+        if (at_line_start && c == '#') {
+            /* One more '#' per level, besides the one copied below */
+            memset(out, '#', (size_t)indent);
+            out += indent;
+        }
+        *out++ = c;
+        at_line_start = (c == '\n');
+    }
+    *out = '\0';
 
     return buffer;
 }
-- 
2.43.0


From 4122bace7d5053140fb56a3f641ed3ec5ff6491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:41 +0000
Subject: [PATCH 36/43] fix: reading a directory as a file overflowed a signed
 size

---
 cli/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index 272e73c..67828ee 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -945,7 +945,7 @@ static char *read_file(const char *filename, size_t *len) {
     }
 
     /* Allocate buffer */
-    char *buffer = malloc(file_size + 1);
+    char *buffer = malloc((size_t)file_size + 1);
     if (!buffer) {
         fclose(fp);
         fprintf(stderr, "Error: Memory allocation failed\n");
-- 
2.43.0


From 26f865fce4c305644b50e0b747233df01af0af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 37/43] fix: a CSV table with short rows overran its buffer

---
 src/extensions/includes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3bf9da1..dcd6401 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -370,8 +370,9 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         }
     }
 
-    /* Allocate output buffer: original size * 4 should be enough with extra alignment row */
-    char *output = malloc(len * 4 + 64);
+    /* Every row, and the separator row, has col_count cells (short rows are padded):
+     * at most 8 bytes of markup per cell besides the cell text, and "|" and newline per row */
+    char *output = malloc(((size_t)row_count + 1) * ((size_t)col_count * 8 + 2) + len + 1);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
-- 
2.43.0


From 54fb0a630a7e6a1ee207b97c197dd89edb46ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 38/43] fix: lines of an included range were dropped when the
 prefix used up a fixed allowance

---
 src/extensions/includes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index dcd6401..b8daf76 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -747,7 +747,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         /* Extract lines from start_line to end_line */
         line_num = 1;
         line_start = content;
-        size_t output_size = strlen(content) + 1024;
+        size_t output_size = strlen(content) + (size_t)total_lines * ((spec->prefix ? strlen(spec->prefix) : 0) + 1) + 1024;
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
@@ -802,7 +802,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         /* Extract lines */
         int line_num = 1;
         const char *line_start = content;
-        size_t output_size = strlen(content) + 1024;
+        size_t output_size = strlen(content) + (size_t)total_lines * ((spec->prefix ? strlen(spec->prefix) : 0) + 1) + 1024;
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
-- 
2.43.0


From 8d66d454d1ae9c2571a0987d4b86ff28f731f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 39/43] fix: an include address with an invalid pattern and a
 prefix recursed without end

---
 src/extensions/includes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index b8daf76..98ada6c 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -689,7 +689,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             /* No valid regex, return full content */
             if (compiled_start) regfree(&regex_start);
             if (compiled_end) regfree(&regex_end);
-            return spec->prefix ? extract_lines(content, spec) : strdup(content);
+            address_spec_t whole = { .end_line = -1, .prefix = spec->prefix };
+            return extract_lines(content, &whole);
         }
 
         /* Find line numbers matching regex patterns */
-- 
2.43.0


From 9e4eacecefedf9acdd342436e8d4a61c4dcd7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 40/43] fix: an include range open to the end dropped a last
 line without newline

---
 src/extensions/includes.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 98ada6c..4ed6094 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -695,7 +695,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         /* Find line numbers matching regex patterns */
         int start_line = 1;
-        int end_line = total_lines;
+        int end_line = total_lines + 1;  /* exclusive: to the end of the content */
         regmatch_t match;
         int line_num = 1;
         const char *line_start = content;
@@ -791,10 +791,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         }
 
         int end = spec->end_line;
-        if (end == -1) {
-            end = total_lines;
-        } else if (end > total_lines) {
-            end = total_lines;
+        if (end == -1 || end > total_lines) {
+            end = total_lines + 1;  /* exclusive: to the end of the content */
         }
         if (end < spec->start_line) {
             return strdup("");
-- 
2.43.0


From 9020b664a16191dbba638946c47ff5ed6790771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 41/43] fix: an include between two equal patterns was empty;
 matched lines leaked

---
 src/extensions/includes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 4ed6094..0e94489 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -723,10 +723,11 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
                 }
             }
 
-            /* Check end pattern (only if start found or no start pattern) */
-            if (compiled_end && (found_start || !compiled_start)) {
+            /* Check end pattern (only after the start line, or if no start pattern) */
+            if (compiled_end && ((found_start && line_num > start_line) || !compiled_start)) {
                 if (regexec(&regex_end, line, 1, &match, 0) == 0) {
                     end_line = line_num;
+                    free(line);
                     break;
                 }
             }
-- 
2.43.0


From a37273bcaed74aeddb2bd82a73af92225ac9f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 42/43] fix: a single-line include address included nothing

---
 src/extensions/includes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 0e94489..c977a00 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -16,6 +16,7 @@
 #include <strings.h>
 #include <regex.h>
 #include <glob.h>
+#include <limits.h>
 
 /**
  * Read file contents
@@ -579,7 +580,7 @@ static address_spec_t *parse_address_spec(const char *address_str) {
                 }
             } else {
                 /* Just N - single line */
-                spec->end_line = spec->start_line;
+                spec->end_line = spec->start_line < INT_MAX ? spec->start_line + 1 : -1;
             }
         }
     }
-- 
2.43.0


From febc5bce1d0d0e6634e28d61b5d377b2f87c0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:03 +0000
Subject: [PATCH 43/43] fix: an included file larger than the output buffer was
 dropped, and a full buffer overrun by its terminator

---
 src/extensions/includes.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index c977a00..949ea98 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1071,6 +1071,22 @@ static char *normalize_fence_delimiters(const char *text) {
     return output;
 }
 
+/**
+ * Make room for need more bytes and the terminator at *write_pos
+ */
+static bool include_reserve(char **output, size_t *capacity, char **write_pos, size_t *remaining, size_t need) {
+    if (need < *remaining) return true;
+    size_t used = (size_t)(*write_pos - *output);
+    size_t new_capacity = (*capacity + need) * 2;
+    char *grown = realloc(*output, new_capacity);
+    if (!grown) return false;
+    *output = grown;
+    *capacity = new_capacity;
+    *write_pos = grown + used;
+    *remaining = new_capacity - used;
+    return true;
+}
+
 /**
  * Process file includes in text
  */
@@ -1190,7 +1206,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (to_insert) {
                             size_t insert_len = strlen(to_insert);
-                            if (insert_len < remaining) {
+                            if (include_reserve(&output, &output_capacity, &write_pos, &remaining, insert_len)) {
                                 memcpy(write_pos, to_insert, insert_len);
                                 write_pos += insert_len;
                                 remaining -= insert_len;
@@ -1303,7 +1319,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (processed) {
                             size_t proc_len = strlen(processed);
-                            if (proc_len < remaining) {
+                            if (include_reserve(&output, &output_capacity, &write_pos, &remaining, proc_len)) {
                                 memcpy(write_pos, processed, proc_len);
                                 write_pos += proc_len;
                                 remaining -= proc_len;
@@ -1447,7 +1463,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 if (processed) {
                                     size_t proc_len = strlen(processed);
-                                    if (proc_len < remaining) {
+                                    if (include_reserve(&output, &output_capacity, &write_pos, &remaining, proc_len)) {
                                         memcpy(write_pos, processed, proc_len);
                                         write_pos += proc_len;
                                         remaining -= proc_len;
@@ -1477,7 +1493,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 const char *code_footer = "\n```\n";
 
                                 size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
-                                if (total_len < remaining) {
+                                if (include_reserve(&output, &output_capacity, &write_pos, &remaining, total_len)) {
                                     strcpy(write_pos, code_header);
                                     write_pos += strlen(code_header);
                                     strcpy(write_pos, extracted_content);
@@ -1492,7 +1508,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 char marker[1024];
                                 snprintf(marker, sizeof(marker), "<!--APEX_RAW_INCLUDE:%s-->", resolved_path);
                                 size_t marker_len = strlen(marker);
-                                if (marker_len < remaining) {
+                                if (include_reserve(&output, &output_capacity, &write_pos, &remaining, marker_len)) {
                                     memcpy(write_pos, marker, marker_len);
                                     write_pos += marker_len;
                                     remaining -= marker_len;
@@ -1519,7 +1535,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
         /* Not an include, copy character */
         if (!processed_include) {
-            if (remaining > 0) {
+            if (include_reserve(&output, &output_capacity, &write_pos, &remaining, 1)) {
                 *write_pos++ = *read_pos;
                 remaining--;
             }
-- 
2.43.0

