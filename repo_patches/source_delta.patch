From dda2b4ed0b558e2497cd81780c5c6e52dd99e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 001/128] fix: apop_data_get/set/ptr report out-of-bounds
 requests as documented

Get returns NaN, ptr returns NULL and set returns -1, rather than calling the GSL error
handler (by default, aborting); set no longer leaves its own GSL error handler installed on error.
---
 apop_data.m4.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..33ff78c 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -787,9 +787,12 @@ APOP_VAR_HEAD double * apop_data_ptr(apop_data *data, int row, int col, const ch
 APOP_VAR_ENDHEAD
     if (col == -1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NULL, 1, "You asked for the vector element (col=-1) but it is NULL. Returning NULL.");
+        Apop_stopif(row < 0 || row >= data->vector->size, return NULL, 1, "Row %i is outside the vector's bounds. Returning NULL.", row);
         return gsl_vector_ptr(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NULL, 1, "You asked for the matrix element (%i, %i) but the matrix is NULL Returning NULL..", row, col);
+        Apop_stopif(row < 0 || row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NULL, 1,
+                            "(%i, %i) is outside the matrix's bounds. Returning NULL.", row, col);
         return gsl_matrix_ptr(data->matrix, row,col);
     }
     return NULL;//the main function is blank.
@@ -835,35 +838,21 @@ APOP_VAR_HEAD double apop_data_get(const apop_data *data, size_t row, int col, c
 APOP_VAR_ENDHEAD
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NAN, 1,  "You asked for the vector element (col=-1) but it is NULL.");
+        Apop_stopif(row >= data->vector->size, return NAN, 1, "Row %zu is outside the vector's bounds. Returning NaN.", row);
         return gsl_vector_get(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NAN, 1, "You asked for the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NAN, 1,
+                            "(%zu, %i) is outside the matrix's bounds. Returning NaN.", row, col);
         return gsl_matrix_get(data->matrix, row, col);
     }
 }
 
-/* The only hint the GSL gives that something failed is that the error-handler is called.
-   The error handling function won't let you set an output to the function. So all we
-   can do is use a global variable.
-*/
-
-static threadlocal int error_for_set; //see apop_internal.h
-
-void apop_gsl_error_for_set(const char *reason, const char *file, int line, int gsl_errno){
-    Apop_notify(1, "%s: %s", file, reason);
-    Apop_maybe_abort(1);
-    error_for_set = -1;
-}
-
 /**  Set a data element.
 See \ref data_set_get "the set/get page" for details and examples. 
  
   \return 0=OK, -1=error: couldn't find row/column name, or you asked for a location outside the vector/matrix bounds.
 
-\li  The error codes for out-of-bounds errors are thread-safe iff you are have a
-C11-compliant compiler (thanks to the \c _Thread_local keyword) or a version of GCC with the \c __thread
-extension enabled.
-
 \li Set weights via <tt>gsl_vector_set(your_data->weights, row, val);</tt>.
 \li Set text elements via \ref apop_text_set.
 
@@ -901,16 +890,17 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(row >= data->vector->size, return -1, 1, "Row %zu is outside the vector's bounds. Making no changes.", row);
         gsl_vector_set(data->vector, row, val);
     } else {
         Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return -1, 1,
+                            "(%zu, %i) is outside the matrix's bounds. Making no changes.", row, col);
         gsl_matrix_set(data->matrix, row, col, val);
     }
-    Unset_gsl_handler
-    return error_for_set;
+    return 0;
 }
 
 /** A convenience function to add a named element to a data set.  Many of Apophenia's
-- 
2.43.0


From 0c28bb56191cfaeb987e8923d000ac8d5990235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 002/128] fix: apop_data_copy/memcpy copy the vector name and
 leave a missing title missing

The copy had no vector name, and the title "(null)"; overwritten names kept the hashes of the old ones.
---
 apop_data.m4.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 33ff78c..0633851 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -231,16 +231,25 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        if (in->names->title) {Asprintf(&out->names->title, "%s", in->names->title);}
+        if (in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
         for (int i=0; i< in->names->rowct; i++)
-            if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
+            if (i< out->names->rowct) {
+                Asprintf(out->names->row+i, "%s", in->names->row[i]);
+                if (out->names->rowhash && in->names->rowhash) out->names->rowhash[i] = in->names->rowhash[i];
+            }
             else  apop_name_add(out->names, in->names->row[i], 'r');
         for (int i=0; i< in->names->colct; i++)
-            if (i< out->names->colct) {Asprintf(out->names->col+i, "%s", in->names->col[i]);}
+            if (i< out->names->colct) {
+                Asprintf(out->names->col+i, "%s", in->names->col[i]);
+                if (out->names->colhash && in->names->colhash) out->names->colhash[i] = in->names->colhash[i];
+            }
             else  apop_name_add(out->names, in->names->col[i], 'c');
         for (int i=0; i< in->names->textct; i++)
-            if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
+            if (i< out->names->textct) {
+                Asprintf(out->names->text+i, "%s", in->names->text[i]);
+                if (out->names->texthash && in->names->texthash) out->names->texthash[i] = in->names->texthash[i];
+            }
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
     out->textsize[0] = in->textsize[0]; 
-- 
2.43.0


From a352dce1a3bba90baaba5c6633614026d6b92900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 003/128] fix: view macros handle several row names and
 expression arguments

---
 apop.m4.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..570f920 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -846,7 +846,7 @@ scope in which it is declared.
 /* Not (yet) for public use. */
 #define Apop_subvector(v, start, len) (                                          \
         ((v) == NULL || (v)->size < ((start)+(len)) || (start) < 0) ? NULL      \
-        : &(gsl_vector){.size=(len), .stride=(v)->stride, .data=(v)->data+(start*(v)->stride)})
+        : &(gsl_vector){.size=(len), .stride=(v)->stride, .data=(v)->data+((start)*(v)->stride)})
 /** \endcond */
 
 /** \def Apop_rs(d, row, len)
@@ -870,7 +870,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                 .colhash = (d)->names->colhash,                                  \
                 .text = (d)->names->text,                                        \
                 .colct = (d)->names->colct,                                      \
-                .rowct = (d)->names->row ? (GSL_MIN(1, GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
+                .rowct = (d)->names->row ? (GSL_MIN((int)(len), GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
                                           : 0,                                   \
                 .textct = (d)->names->textct }),                                 \
         .vector= Apop_subvector((d->vector), (rownum), (len)),                   \
@@ -910,7 +910,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                     .rowct = (d)->names->rowct,                                      \
                     .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - colnum, 0)))      \
                                               : 0,                                   \
-                    .textct = (d)->names->textct } : NULL \
+                    .textct = 0 } : NULL \
             })
 
 /** \def Apop_r(d, row)
-- 
2.43.0


From 21045a69ccaa2008b949cd6057e560550a637816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 004/128] fix: apop_data_memcpy checks the destination's text
 grid size

---
 apop_data.m4.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 0633851..2ff511c 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -252,8 +252,6 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             }
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
-- 
2.43.0


From b17fd94dbc51e173e4c175588f8e39252ff7d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 005/128] fix: apop_data_stack reports mismatched sizes as
 documented and pads names to full height

---
 apop_data.m4.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 2ff511c..294d217 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -379,6 +379,14 @@ APOP_VAR_ENDHEAD
     }
     Get_vmsizes(m1); //original sizes of vsize, msize1, msize2.
     if (m2->names && !out->names) out->names = apop_name_alloc();
+    Apop_stopif(out->matrix && m2->matrix && (posn=='r' ? out->matrix->size2 != m2->matrix->size2
+                                                        : out->matrix->size1 != m2->matrix->size1),
+                out->error='d'; return out, 0, "Can't stack a (%zu X %zu) matrix and a (%zu X %zu) matrix by %s.",
+                out->matrix->size1, out->matrix->size2, m2->matrix->size1, m2->matrix->size2, posn=='r' ? "rows" : "columns");
+    Apop_stopif(out->text && m2->text && (posn=='r' ? out->textsize[1] != m2->textsize[1]
+                                                    : out->textsize[0] != m2->textsize[0]),
+                out->error='d'; return out, 0, "Can't stack a (%zu X %zu) text grid and a (%zu X %zu) text grid by %s.",
+                out->textsize[0], out->textsize[1], m2->textsize[0], m2->textsize[1], posn=='r' ? "rows" : "columns");
     
     if (posn == 'c'){
         if (m2->vector && out->vector){
@@ -389,7 +397,7 @@ APOP_VAR_ENDHEAD
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            if (m2->names && m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
         }
     }
 
@@ -433,7 +441,7 @@ APOP_VAR_ENDHEAD
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
         int min = posn =='r' ? m1->names->rowct : m1->names->colct;
-        int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
+        int max = posn =='r' ? maxsize : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
             apop_name_add(out->names, "", posn); 
         apop_name_stack(out->names, m2->names, posn);
-- 
2.43.0


From f7f1986061b60383662a3197b6bcd729c98b15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 006/128] fix: apop_data_split handles vector-only and text
 data

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 294d217..52c8ff6 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -478,6 +478,7 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
     Apop_stopif(!in, return out, 1, "input was NULL; output will be an array of two NULLs.");
     gsl_vector v1, v2, w1, w2;
     gsl_matrix m1, m2;
+    Get_vmsizes(in); //maxsize
     int set_v1 = 1, set_v2 = 1,
         set_m1 = 1, set_m2 = 1,
         set_w1 = 1, set_w2 = 1,
@@ -488,7 +489,7 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
      if (r_or_c == 'r' || r_or_c == 'R') {
         if (splitpoint <=0)
             out[1]  = apop_data_copy(in);
-        else if (in->matrix && splitpoint >= in->matrix->size1)
+        else if (splitpoint >= maxsize)
             out[0]  = apop_data_copy(in);
         else {
             namev0  =
@@ -614,7 +615,7 @@ allocation:
         if (namec1 && out[1]) apop_name_stack(out[1]->names, in->names, 'c');
     }
     //finally, the text [split by rows only]
-    if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
+    if ((r_or_c=='r' || r_or_c=='R') && in->textsize[0] && in->textsize[1]){
         apop_name_stack(out[1]->names, in->names, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
-- 
2.43.0


From c002736c44bbeaaa1da922c4a18da055d3cb5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 007/128] fix: column removal keeps name hashes in step and
 sizes its list by columns

---
 apop_data.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 52c8ff6..16a7474 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -649,10 +649,13 @@ static void apop_name_rm_columns(apop_name *n, int *drop){
         free(n->col[i]);
     }
     free(n->col);
+    free(n->colhash);
     n->col = newname->col;
+    n->colhash = newname->colhash;
 
     //we need to free the newname struct, but leave the column intact.
     newname->col = NULL;
+    newname->colhash = NULL;
     newname->colct  = 0;
     apop_name_free(newname);
 }
@@ -738,7 +741,8 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     find each element of the list, using that "" as a stopper, and then call apop_data_rm_columns.*/
     Apop_stopif(!d, return NULL, 1, "You're asking me to prune a NULL data set; returning.");
     Apop_stopif(!d->matrix, return d, 1, "You're asking me to prune a data set with NULL matrix; returning.");
-    int rm_list[d->names->colct];
+    int rm_list[GSL_MAX(d->names->colct, d->matrix ? (int)d->matrix->size2 : 0) + 1];
+    for (int i=0; d->matrix && i < d->matrix->size2; i++) rm_list[i] = 1; //unnamed columns can't be kept.
     int keep_count = 0;
     char **name_step = colnames;
     //to throw errors for typos (and slight efficiency gains), I need an array of whether
-- 
2.43.0


From 4b28cbbe1b9f5182f9e49c1765689ccff38e2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 008/128] fix: apop_text_alloc allocates full rows when adding
 rows and dropping columns at once

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 16a7474..59b1c21 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1068,7 +1068,7 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
             Apop_stopif(!in->text, in->error='a'; return in,
                             0, "realloc failed setting up %zu rows. Probably out of memory.", row);
             for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
+                in->text[i] = malloc(sizeof(char*) * GSL_MAX(col, cols_now));
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
                 for (int j=0; j < cols_now; j++)
-- 
2.43.0


From 02d2c233adc290171cfb6775185a4c05103be84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 009/128] fix: apop_data_transpose gives text and matrix names
 their documented places

---
 apop_data.m4.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 59b1c21..713d317 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1092,6 +1092,20 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
     return in;
 }
 
+//The names of a transposed data set; see apop_data_transpose for the rules.
+static apop_name *transposed_names(apop_name *in, int has_matrix, int has_text){
+    apop_name *out = apop_name_alloc();
+    if (has_matrix){
+        apop_name_stack(out, in, 'r', 'c');
+        apop_name_stack(out, in, 'c', 'r');
+    }
+    if (has_text){
+        apop_name_stack(out, in, 't', 'r');
+        if (!out->rowct) apop_name_stack(out, in, 'r', 't');
+    }
+    return out;
+}
+
 /** Transpose the matrix and text elements of the input data set, including the row/column names. 
 
 The vector and weights elements of the input data set are completely ignored (but see
@@ -1126,6 +1140,7 @@ APOP_VAR_HEAD apop_data * apop_data_transpose(apop_data *in, char transpose_text
 APOP_VAR_ENDHEAD
     Apop_stopif(!in->matrix && !*in->textsize, return apop_data_alloc(), 
             1, "input data set has neither matrix nor text elements; returning an empty data set.");
+    int do_text = transpose_text=='y' && in->textsize[0] && in->textsize[1];
     apop_data *out = (inplace=='y') ? in
                                     : apop_data_alloc(0, in->matrix ? in->matrix->size2 : 0
                                                        , in->matrix ? in->matrix->size1 : 0);
@@ -1140,20 +1155,23 @@ APOP_VAR_ENDHEAD
                 in->matrix = outm;
             }
         }
-        if (out->names){
-            char **tmp = out->names->col;
-            out->names->col = out->names->row;
-            out->names->row = tmp;
-            int tmpct = out->names->colct;
-            out->names->colct = out->names->rowct;
-            out->names->rowct = tmpct;
+        if (in->names && (in->matrix || do_text)){
+            apop_name *n = transposed_names(in->names, !!in->matrix, do_text);
+            if (!do_text) apop_name_stack(n, in->names, 't');
+            n->title = in->names->title;
+            n->vector = in->names->vector;
+            in->names->title = in->names->vector = NULL;
+            apop_name_free(in->names);
+            in->names = n;
         }
     } else if (inplace!='y' && in->matrix){
         if (in->matrix) gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
-        apop_name_stack(out->names, in->names, 'r', 'c');
-        apop_name_stack(out->names, in->names, 'c', 'r');
+        if (in->names){
+            apop_name_free(out->names);
+            out->names = transposed_names(in->names, !!in->matrix, do_text);
+        }
     }
-    if (transpose_text!='y' || in->textsize[0] == 0 || in->textsize[1] == 0) return out;
+    if (!do_text) return out;
     if (inplace=='y'){
         size_t orows = in->textsize[0];
         size_t ocols = in->textsize[1];
@@ -1197,10 +1215,8 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
-    if (in->names && in->names->textct && !in->names->colct)
-        apop_name_stack(out->names, in->names, 't', 'r');
     return out;
 }
 
-- 
2.43.0


From 033a659578bf5b45aaffe936b25711885eba13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 010/128] fix: apop_data_rm_page handles untitled pages and
 frees the page

---
 apop_data.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 713d317..f51b4d3 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1387,7 +1387,7 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
@@ -1396,7 +1396,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From 750195138e63b1e17201b94bd52c22972ef38c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 011/128] fix: apop_name_copy leaves a missing title missing

---
 apop_data.m4.c | 2 +-
 apop_name.m4.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index f51b4d3..3d13872 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1164,7 +1164,7 @@ APOP_VAR_ENDHEAD
             apop_name_free(in->names);
             in->names = n;
         }
-    } else if (inplace!='y' && in->matrix){
+    } else {
         if (in->matrix) gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
         if (in->names){
             apop_name_free(out->names);
diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..601ca66 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -193,7 +193,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in->title) {Asprintf(&out->title, "%s", in->title);}
     return out;
 }
 
-- 
2.43.0


From 0e663606e1a7d5ba5daa0e74098d720da9e0e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 012/128] fix: Apop_cs returns NULL for a negative column

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 570f920..2eb03d1 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -889,7 +889,7 @@ The view is automatically allocated, and disappears as soon as the program leave
 \see Apop_c, Apop_cv, Apop_col_tv, Apop_col_t, Apop_mcv
 */
 #define Apop_cs(d, colnum, len) ( \
-            (!(d)||!(d)->matrix || (d)->matrix->size2 <= (colnum)+(len)-1)       \
+            (!(d)||!(d)->matrix || (colnum) < 0 || (d)->matrix->size2 <= (colnum)+(len)-1) \
              ? NULL                                                              \
              : &(apop_data){                                                     \
                 .vector= NULL,                                                   \
-- 
2.43.0


From e36e06cdc3aa08ad2e46fd9fff4ab30b52bc5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 013/128] fix: in-place listwise deletion of every row empties
 the input

---
 apop_missing_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 4a77ecc..d418bbd 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -70,6 +70,7 @@ APOP_VAR_ENDHEAD
             break;
         }
     if (!not_empty){
+        if (inplace=='y'|| inplace=='Y') apop_data_rm_rows(d, marked);
         free(marked);
         return NULL;
     }
-- 
2.43.0


From 3a3d64bdcb01146b1fc5dd6bbfc8dc4746661931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 014/128] fix: text unique elements are data, not a format

---
 apop_regression.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index ad892ab..a00a412 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -107,7 +107,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
     for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, telmts[j]);
+        apop_text_set(out, j, 0, "%s", telmts[j]);
     free(telmts);
     return out;
 }
-- 
2.43.0


From cbad706b4f43ad5b05b1c6011f7f4fbcb087ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 015/128] fix: sort order keeps ties, skips blanks, and applies
 descending order to every key

---
 apop_sort.m4.c | 69 ++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 4486e23..cf5d5a3 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -4,60 +4,44 @@ Copyright (c) 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 #include "apop_internal.h"
 #include <stdbool.h>
 
-static double find_smallest_larger_than(apop_data const *sort_order, double *x){
-    //the next column in the sort order is the one that is not NAN, greater than x, but smaller than all other candidate values.
-    double candidate_col=-100, candidate_val = INFINITY, v;
-    if (sort_order->vector && !isnan(v=gsl_vector_get(sort_order->vector, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -1;
+//Insert a column in the list after all those whose rank is less than or equal to its own.
+static void add_column(double rank, double col, double *ranks, double *so, int *ct){
+    if (isnan(rank)) return;
+    int i = (*ct)++;
+    for ( ; i > 0 && ranks[i-1] > rank; i--){
+        ranks[i] = ranks[i-1];
+        so[i] = so[i-1];
     }
-    if (sort_order->matrix)
-        for (int i=0; i< sort_order->matrix->size2; i++)
-            if (!isnan(v=gsl_matrix_get(sort_order->matrix, 0, i)) 
-                    && v > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i;
-            }
-    if (*sort_order->textsize)
-        for (int i=0; i< sort_order->textsize[1]; i++)
-            if (apop_opts.nan_string && strcmp(sort_order->text[0][i], apop_opts.nan_string)
-                    && (v=atof(sort_order->text[0][i])) > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i+0.5;
-            }
-    if (sort_order->weights && !isnan(v=gsl_vector_get(sort_order->weights, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -2;
-    }
-    if (sort_order->names->rowct)
-        if (apop_opts.nan_string && strcmp(*sort_order->names->row, apop_opts.nan_string)
-                && (v=atof(*sort_order->names->row)) > *x && v < candidate_val){
-            candidate_val = v;
-            candidate_col = 0.2;
-        }
+    ranks[i] = rank;
+    so[i] = col;
+}
 
-    *x = candidate_val;
-    return candidate_col;
+//Blanks and NaNs mean that the column isn't to be sorted.
+static double text_rank(char const *text){
+    return (!*text || (apop_opts.nan_string && !strcmp(text, apop_opts.nan_string))) ? NAN : atof(text);
 }
 
 static void generate_sort_order(apop_data const *data, apop_data const *sort_order, int cols_to_sort_ct, double *so){
 /* the internal rule is that the vector is -1, the weights vector is -2, the names are
  * 0.2, and the text cols are the column+0.5. How's that for arbitrary. */
+    int ctr=0;
     if (sort_order) {
-        double x = -INFINITY;
-        for (int i=0; i< cols_to_sort_ct-1; i++)
-            so[i] = find_smallest_larger_than(sort_order, &x);
+        double ranks[cols_to_sort_ct];
+        if (sort_order->vector) add_column(gsl_vector_get(sort_order->vector, 0), -1, ranks, so, &ctr);
+        if (sort_order->matrix) for(int i=0; i< sort_order->matrix->size2; i++)
+            add_column(gsl_matrix_get(sort_order->matrix, 0, i), i, ranks, so, &ctr);
+        if (*sort_order->textsize) for(int i=0; i< sort_order->textsize[1]; i++)
+            add_column(text_rank(sort_order->text[0][i]), i+0.5, ranks, so, &ctr);
+        if (sort_order->weights) add_column(gsl_vector_get(sort_order->weights, 0), -2, ranks, so, &ctr);
+        if (sort_order->names->rowct) add_column(text_rank(*sort_order->names->row), 0.2, ranks, so, &ctr);
     } else {
-        int ctr=0;
         if (data->vector) so[ctr++] = -1;
         if (data->matrix) for(int i=0; i<data->matrix->size2; i++) so[ctr++] = i;
         if (*data->textsize) for(int i=0; i< data->textsize[1]; i++) so[ctr++] = i+0.5;
         if (data->weights) so[ctr++] = -2;
         if (data->names->rowct) so[ctr++] = 0.2;
     }
-    so[cols_to_sort_ct-1] = -100;
+    so[ctr] = -100;
 }
 
 #include <gsl/gsl_sort_vector.h>
@@ -159,6 +143,7 @@ APOP_VAR_ENDHEAD
         generate_sort_order(out, sort_order, cols_to_sort_ct, so);
         col_order = so;
     }
+    if (*col_order == -100) return out; //no columns to sort by.
 
     bool is_text = ((int)*col_order != *col_order);
     bool is_name = (*col_order == 0.2);
@@ -209,7 +194,7 @@ APOP_VAR_ENDHEAD
             double this_val=0;
             if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
             if (last_val != this_val) bottom = i;
             last_val = this_val;
@@ -220,9 +205,9 @@ APOP_VAR_ENDHEAD
             char *this_val = i==height ? NULL : is_name ? out->names->row[i] : out->text[i][(int)(*col_order-0.5)];
             if ((i==height || strcasecmp(this_val, last_val)) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
-            if (this_val && strcmp(last_val, this_val)) bottom = i;
+            if (this_val && strcasecmp(last_val, this_val)) bottom = i;
             free(last_val);
             last_val = this_val ? strdup(this_val) : NULL;
         }
-- 
2.43.0


From c850249e37e8970b305fd39ae0f437a9b21d1ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 016/128] fix: stacking a vector by columns names the added
 column

---
 apop_data.m4.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3d13872..9e54935 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -392,8 +392,10 @@ APOP_VAR_ENDHEAD
         if (m2->vector && out->vector){
             gsl_matrix_view mview = gsl_matrix_view_vector(m2->vector, m2->vector->size, 1);
             out->matrix = apop_matrix_stack(out->matrix, &mview.matrix, posn, .inplace='y');
-            apop_name_stack(out->names, m2->names, 'c', 'v');
-            if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
+            if (m2->names && (m2->names->vector || m2->names->colct)){
+                for (int k = out->names->colct; k < msize2; k++) apop_name_add(out->names, "", 'c');
+                apop_name_add(out->names, m2->names->vector ? m2->names->vector : "v", 'c');
+            }
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
@@ -440,7 +442,7 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
+        int min = posn =='r' ? out->names->rowct : out->names->colct;
         int max = posn =='r' ? maxsize : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
             apop_name_add(out->names, "", posn); 
-- 
2.43.0


From 886d94836a950e354cc93ff9662c77e1d139b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 017/128] fix: text_paste prunes what the prune function
 selects

---
 apop_asst.m4.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..e2bf5a0 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -104,7 +104,8 @@ APOP_VAR_HEAD char *apop_text_paste(apop_data const *strings, char *between, cha
     apop_fn_riip apop_varad_var(prune, NULL);
     void *apop_varad_var(prune_parameter, NULL);
 APOP_VAR_ENDHEAD
-    char *prior_line=NULL, *oneline=NULL, *out = before ? strdup(before) : NULL;
+    char *out = before ? strdup(before) : NULL;
+    int has_prior = 0;
     for (int i=0; i< ((!strings || !*strings->textsize)? 0 : *strings->textsize); i++){
         free(oneline); oneline = NULL;
         for (int j=0; j< strings->textsize[1]; j++){
@@ -112,14 +113,12 @@ APOP_VAR_ENDHEAD
             apop_tack_on(&oneline, strings->text[i][j]);
             if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
         }
-        apop_tack_on(&out, prior_line);
-        if (prior_line && oneline) apop_tack_on(&out, between);
-        free(prior_line);
-        prior_line=oneline ? strdup(oneline): NULL;
-        //if (i <strings->textsize[0]-1)  apop_tack_on(&out, between);
-        //if (oneline)  apop_tack_on(&out, oneline);
+        if (!oneline) continue; //all pruned
+        if (has_prior) apop_tack_on(&out, between);
+        apop_tack_on(&out, oneline);
+        has_prior = 1;
+        free(oneline);
     }
-    apop_tack_on(&out, oneline); //the final one never got a chance to be prior_line
     apop_tack_on(&out, after);
     Apop_notify(3, "%s", out);
     return out;
-- 
2.43.0


From 21f563f005f6e8b6920e99f081d2d781c266e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 018/128] fix: apop_regex moves past empty matches

---
 apop_asst.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index e2bf5a0..b80f716 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -281,6 +281,7 @@ APOP_VAR_ENDHEAD
                 } //else matches nothing; apop_text_alloc already made this cell this NULL.
             }
             string += result[0].rm_eo; //end of whole match;
+            if (result[0].rm_eo == result[0].rm_so && *string) string++; //empty match; keep moving.
             matchrow++;
         }
     } while (substrings && found && string[0]!='\0');
-- 
2.43.0


From 7e8646d3705737e489c2d91ba89ab773530a241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 019/128] fix: text_fill uses strings verbatim and stops when
 they run out

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..5869888 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -932,7 +932,7 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
         for (int j=0; j< data->textsize[1]; j++)
-            apop_text_set(data, i, j, text[ctr++]);
+            if (ctr < textct) apop_text_set(data, i, j, "%s", text[ctr++]);
     return data;
 }
 
-- 
2.43.0


From 7450d77249f13760e28cd32cec44baa62f56c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 020/128] fix: pack and unpack treat info pages alike

---
 apop_asst.m4.c        |  6 +++---
 apop_conversions.m4.c | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index b80f716..4900ee6 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -107,11 +107,11 @@ APOP_VAR_ENDHEAD
     char *out = before ? strdup(before) : NULL;
     int has_prior = 0;
     for (int i=0; i< ((!strings || !*strings->textsize)? 0 : *strings->textsize); i++){
-        free(oneline); oneline = NULL;
+        char *oneline = NULL;
         for (int j=0; j< strings->textsize[1]; j++){
-            if (prune && !prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (prune && prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (oneline) apop_tack_on(&oneline, between_cols);
             apop_tack_on(&oneline, strings->text[i][j]);
-            if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
         }
         if (!oneline) continue; //all pruned
         if (has_prior) apop_tack_on(&out, between);
diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 5869888..fbd04fe 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -696,6 +696,12 @@ APOP_VAR_HEAD void apop_data_unpack(const gsl_vector *in, apop_data *d, char use
 APOP_VAR_ENDHEAD
     int offset = 0;
     gsl_vector vin, vout;
+    if (use_info_pages=='n'){
+        while (d && d->names && apop_regex(d->names->title, "^<.*>$"))
+            d = d->more;
+        Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
+                " me to use them) has no room for the input vector.");
+    }
     if(d->vector){
         vin = gsl_vector_subvector((gsl_vector *)in, 0, d->vector->size).vector;
         gsl_vector_memcpy(d->vector, &vin);
@@ -717,11 +723,11 @@ APOP_VAR_ENDHEAD
         vin = gsl_vector_subvector((gsl_vector *)in, offset, in->size - offset).vector;
         d = d->more;
         if (use_info_pages=='n')
-            while (d && apop_regex(d->names->title, "^<.*>$"))
+            while (d && d->names && apop_regex(d->names->title, "^<.*>$"))
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
-        apop_data_unpack(&vin, d);
+        apop_data_unpack(&vin, d, use_info_pages);
     }
 }
 
@@ -774,6 +780,10 @@ APOP_VAR_HEAD gsl_vector * apop_data_pack(const apop_data *in, gsl_vector *out,
 APOP_VAR_ENDHEAD
     size_t total_size = sizecount(in, (more_pages == 'y' || more_pages == 'Y'), (use_info_pages =='y' || use_info_pages =='Y'));
     if (!total_size) return NULL;
+    //if we got this far, there is a non-info page to be found.
+    if (!(use_info_pages =='y' || use_info_pages =='Y'))
+        while (in->names && apop_regex(in->names->title, "^<.*>$"))
+            in = in->more;
     int offset = 0;
     if (!out) out = gsl_vector_alloc(total_size);
     gsl_vector vout, vin;
@@ -795,9 +805,9 @@ APOP_VAR_ENDHEAD
         offset  += in->weights->size;
     }
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
-        while (use_info_pages=='n' && in->more && apop_regex(in->more->names->title, "^<.*>$"))
+        while (use_info_pages=='n' && in->more && in->more->names && apop_regex(in->more->names->title, "^<.*>$"))
             in = in->more;
-        if (in->more){
+        if (in->more && offset < out->size){
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
             apop_data_pack(in->more, &vout, more_pages, use_info_pages);
         }
-- 
2.43.0


From de214146353b3b6b4e1a23f1673b654e0e7ae8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 021/128] fix: apop_text_set rejects any out-of-range position

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 9e54935..1aecb72 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1006,7 +1006,7 @@ for (int n=0; n < 10; n++){
 */
 int apop_text_set(apop_data *in, const size_t row, const size_t col, const char *fmt, ...){
     Apop_stopif(!in, return -1, 0, "You asked me to write text to a NULL data set.");
-    Apop_stopif((in->textsize[0] < (int)row+1) || (in->textsize[1] < (int)col+1), return -1, 0, "You asked me to put the text "
+    Apop_stopif(row >= in->textsize[0] || col >= in->textsize[1], return -1, 0, "You asked me to put the text "
                             " '%s' at position (%zu, %zu), but the text array has size (%zu, %zu)\n", 
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
     if (in->text[row][col] != apop_nul_string) free(in->text[row][col]);
-- 
2.43.0


From 9645d7611f2f91bb76c69faa305d7231846ab44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 022/128] fix: apop_regex takes the number of groups from the
 compiled expression

---
 apop_asst.m4.c | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 4900ee6..b663af2 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -195,21 +195,6 @@ int apop_system(const char *fmt, ...){
     return out;
 }
 
-static int count_parens(const char *string){
-    int out = 0;
-    int last_was_backslash = 0;
-    for(const char *step =string; *step !='\0'; step++){
-        if (*step == '\\' && !last_was_backslash){
-            last_was_backslash = 1;
-            continue;
-        }
-        if (*step == ')' && !last_was_backslash)
-            out++;
-        last_was_backslash = 0;
-    }
-    return out;
-}
-
 /** Extract subsets from a string via regular expressions.
 
 This function takes a regular expression and repeatedly applies it to an input string. It returns the count of matches, and optionally returns the matches themselves organized into the \c text grid of an \ref apop_data set.
@@ -255,13 +240,13 @@ APOP_VAR_HEAD int  apop_regex(const char *string, const char* regex, apop_data *
     const char apop_varad_var(use_case, 'n');
 APOP_VAR_ENDHEAD
     regex_t re;
-    int matchcount=count_parens(regex);
     int found, found_ct=0;
-    regmatch_t result[matchcount+1];
     int compiled_ok = !regcomp(&re, regex, REG_EXTENDED 
                                             + (use_case=='y' ? 0 : REG_ICASE)
                                             + (substrings ? 0 : REG_NOSUB) );
     Apop_stopif(!compiled_ok, return -1, 0, "This regular expression didn't compile: \"%s\"", regex);
+    int matchcount = re.re_nsub;
+    regmatch_t result[matchcount+1];
 
     int matchrow = 0;
     if (substrings) *substrings = apop_data_alloc();
-- 
2.43.0


From b3815efe35f003108ca38cadc9a5e1a42be75709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 023/128] fix: error-returning macro reports the error given

---
 apop.m4.h        | 2 +-
 apop_data.m4.c   | 6 +++---
 apop_db.m4.c     | 4 ++--
 apop_db_mysql.c  | 2 +-
 apop_db_sqlite.c | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 2eb03d1..f720e4a 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,7 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error='E'; return out;}
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=*#E; return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
diff --git a/apop_data.m4.c b/apop_data.m4.c
index 1aecb72..c932da7 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -92,15 +92,15 @@ APOP_VAR_ENDHEAD
     }
     else vsize = size1;
     apop_data *setme = malloc(sizeof(apop_data));
-    Apop_stopif(!setme, apop_return_data_error('a'), 0, "malloc failed. Probably out of memory.");
+    Apop_stopif(!setme, apop_return_data_error(a), 0, "malloc failed. Probably out of memory.");
     *setme = (apop_data) { }; //init to zero/NULL.
     if (msize2 >0 && msize1 > 0){
         setme->matrix = gsl_matrix_calloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, apop_return_data_error('a'), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
+        Apop_stopif(!setme->matrix, apop_return_data_error(a), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_calloc(vsize);
-        Apop_stopif(!setme->vector, apop_return_data_error('a'), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
+        Apop_stopif(!setme->vector, apop_return_data_error(a), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
     setme->names = apop_name_alloc();
     return setme;
diff --git a/apop_db.m4.c b/apop_db.m4.c
index fe7243f..048e668 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -256,7 +256,7 @@ apop_data * apop_query_to_text(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_core(query, process_result_set_chars);
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, apop_return_data_error(d), 0, "Apophenia was compiled without mysql support.");
 #endif
     } else out = apop_sqlite_query_to_text(query);
     free(query);
@@ -324,7 +324,7 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         return apop_mysql_query_core(query, process_result_set_data);
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, apop_return_data_error(d), 0, "Apophenia was compiled without mysql support.");
 #endif
 
     //else
diff --git a/apop_db_mysql.c b/apop_db_mysql.c
index 81a4ff7..39ac4f8 100644
--- a/apop_db_mysql.c
+++ b/apop_db_mysql.c
@@ -163,7 +163,7 @@ static void * apop_mysql_query_core(char *query, void *(*callback)(MYSQL*, MYSQL
     Apop_mstopif(mysql_query (mysql_db, query), return NULL, "mysql_query() failed");
     MYSQL_RES *res_set = mysql_store_result (mysql_db);
     Apop_mstopif(!res_set, 
-        if (callback == process_result_set_data || callback==process_result_set_data) apop_return_data_error('q') 
+        if (callback == process_result_set_data || callback==process_result_set_data) apop_return_data_error(q) 
             else return NULL, 
             "mysql_store_result() failed");
     if (!res_set->row_count) goto done; //just a blank table.
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..a47f279 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -315,8 +315,8 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
 }
 
 apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
-    Apop_stopif(!intypes, apop_return_data_error('t'), 0, "You gave me NULL for the list of input types. I can't work with that.");
-    Apop_stopif(!query, apop_return_data_error('q'), 0, "You gave me a NULL query. I can't work with that.");
+    Apop_stopif(!intypes, apop_return_data_error(t), 0, "You gave me NULL for the list of input types. I can't work with that.");
+    Apop_stopif(!query, apop_return_data_error(q), 0, "You gave me a NULL query. I can't work with that.");
     char *err = NULL;
     apop_qt info = { };
     count_types(&info, intypes);
-- 
2.43.0


From b6199cca9b0a6bd530309506de673caf69fc917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 024/128] fix: multi-page printing to a file, and unopenable
 output files

---
 apop_output.m4.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3bbde30..51d5d9e 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -59,7 +59,7 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
     else *output_pipe = output_name
                         ? fopen(output_name, *output_append == 'a' ? "a" : "w")
                         : stdout;
-    Apop_stopif(!output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
+    Apop_stopif(!*output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
     return 0;
 }
 
@@ -331,10 +331,8 @@ APOP_VAR_ENDHEAD
         return;
     }
     apop_data_print_core(data, output_pipe, output_type);
-    if (data && data->more) {
-        output_append='a';
-        apop_data_print(data->more, Output_vars);
-    }
+    for (apop_data *page = data ? data->more : NULL; page; page = page->more)
+        apop_data_print_core(page, output_pipe, output_type);
     if (output_name)
         fclose(output_pipe);
 }
-- 
2.43.0


From c71087001a774f903570e67ffe09e7844a39149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 025/128] fix: text reading handles missing final newlines,
 short or empty files, quoted blanks, and row names without column names

---
 apop_conversions.m4.c | 91 ++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index fbd04fe..6ed05e8 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -478,13 +478,15 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
         if (len < bs) buffer[len]=(char)-1;
         *ptr=0;
     }
-    r = buffer[(*ptr)++];
-    return r == (char)-1 ? EOF : r;
+    r = buffer[*ptr];
+    if (r == (char)-1) return EOF; //and stay there.
+    (*ptr)++;
+    return r;
 }
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
     int c = get_next(buffer, ptr, f);
-    int is_delimiter = !!strchr(delimiters, c);
+    int is_delimiter = c && c!=EOF && strchr(delimiters, c);
     return (apop_char_info){.c=c, 
             .type = (c==' '||c=='\r' ||c=='\t' || c==0)? (is_delimiter ? 'W'  : 'w')
                     :is_delimiter    ? 'd'
@@ -531,7 +533,7 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 
         if (!infield){
             if (ci.type=='w') continue; //eat leading spaces.
-            if (ci.type=='r' || ci.type=='d'             //new field; if 'dnE', blank field. 
+            if (ci.type=='r' || ci.type=='d' || ci.type=='"' //new field; if 'dnE', blank field. 
                    || (strchr("nE", ci.type) && ct>0)){  //Blank fields only at end of lines that already have data; else all-blank line to ignore.
                 if (++ct > fn->textsize[0]) apop_text_alloc(fn, ct, 1);//realloc text portion.
                 Textrealloc(*fn->text[ct-1], 5);
@@ -562,20 +564,29 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
     return (line_parse_t) {.ct=ct, .eof= (ci.type == 'E')};
 }
 
+//The next line with anything on it; ct==0 iff there are none before the end of the file.
+static line_parse_t parse_a_nonblank_line(FILE *infile, char *buffer, size_t *ptr, apop_data *fn, int const *field_ends, char const *delimiters){
+    line_parse_t L;
+    do L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
+    while (!L.ct && !L.eof);
+    return L;
+}
+
 //On return, fn has copies of the field names, and add_this_line has the first data line.
-static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
+static line_parse_t get_field_names(int has_row_names, int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
-    if (has_col_names && field_names == NULL){
-        while (fn->textsize[0] ==0) parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
-        while (add_this_line->textsize[0] ==0) parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
-    } else{
-        while (add_this_line->textsize[0] ==0) 
-            parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
-        fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
+    line_parse_t L = {};
+    if (has_col_names && field_names == NULL)
+        L = parse_a_nonblank_line(infile, buffer, ptr, fn, field_ends, delimiters);
+    if (!L.eof) L = parse_a_nonblank_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+    else        L.ct = 0;
+    if (!(has_col_names && field_names == NULL) && L.ct > !!has_row_names){
+        fn	= apop_text_alloc(fn, L.ct - !!has_row_names, 1);
         for (int i=0; i< fn->textsize[0]; i++)
-            if (field_names) apop_text_set(fn, i, 0, field_names[i]);
+            if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
+    return L;
 }
 
 /** Read a delimited or fixed-wisdth text file into the matrix element of an \ref apop_data set.
@@ -621,37 +632,38 @@ APOP_VAR_ENDHEAD
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
-        L.ct = *add_this_line->textsize;
-        set = apop_data_alloc(0,1, L.ct - hasrows);
-	    set->names->colct = 0;
-	    set->names->col = malloc(sizeof(char*));
-        for (int j=0; j< L.ct - hasrows; j++)
+        L = get_field_names(hasrows, 1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        int colct = L.ct ? L.ct - hasrows : *field_names->textsize;
+        set = L.ct > hasrows ? apop_data_alloc(0, 1, colct) : apop_data_alloc();
+        for (int j=0; j< GSL_MIN(colct, *field_names->textsize); j++)
             apop_name_add(set->names, *field_names->text[j], 'c');
         apop_data_free(field_names);
     } 
 
     //Now do the body.
-	while(!set || !L.eof || L.ct){
+	while(!L.eof || L.ct){
         if (!L.ct) { //skip blank lines
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
         }
-        if (!set) set = apop_data_alloc(0, 1, L.ct-hasrows); //for .has_col_names=='n'.
+        if (!set) set = L.ct > hasrows ? apop_data_alloc(0, 1, L.ct-hasrows) : apop_data_alloc(); //for .has_col_names=='n'.
         row++;
-        int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
-        set->matrix = apop_matrix_realloc(set->matrix, row, cols);
-        Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+        int cols = set->matrix  ? set->matrix->size2 : 0;
+        if (cols){
+            set->matrix = apop_matrix_realloc(set->matrix, row, cols);
+            Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+            gsl_vector_set_all(Apop_rv(set, row-1), GSL_NAN); //lines may be short.
+        }
         if (hasrows) {
             apop_name_add(set->names, *add_this_line->text[0], 'r');
-            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; return set, 1,
+            Apop_stopif(L.ct-1 > cols, set->error='t'; goto done, 1,
                  "row %i (not counting rownames) has %i elements (not counting the rowname), "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far.", row, L.ct-1, set->matrix->size2);
-        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; return set, 1,
+                 "but I thought this was a data set with %i elements per row. "
+                 "Stopping the file read; returning what I have so far.", row, L.ct-1, cols);
+        } else Apop_stopif(L.ct > cols, set->error='t'; goto done, 1,
                  "row %i has %i elements, "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
+                 "but I thought this was a data set with %i elements per row. "
+                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, cols);
         for (int col=hasrows; col < L.ct; col++){
             char *thisstr = *add_this_line->text[col];
             if (strlen(thisstr)){
@@ -667,8 +679,10 @@ APOP_VAR_ENDHEAD
         if (L.eof) break;//hit when the last line has elements and is terminated by EOF.
         L=parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
+done:
     apop_data_free(add_this_line);
     if (strcmp(text_file,"-")) fclose(infile);
+    if (!set) set = apop_data_alloc(); //nothing in the file.
 	return set;
 }
 
@@ -1143,13 +1157,13 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1;
+      	 col_ct, ct = 0, rows = 0;
     FILE *infile;
     char buffer[bs];
     size_t ptr = bs;
     apop_data *add_this_line = apop_data_alloc();
     sqlite3_stmt *statement = NULL;
-    line_parse_t L = {1,0};
+    line_parse_t L;
         
     bool tab_exists = apop_table_exists(tabname);
     if (tab_exists){
@@ -1165,9 +1179,9 @@ APOP_VAR_ENDHEAD
     //get names and the first row.
     if (prep_text_reading(text_file, &infile)) return -1;
     apop_data *fn = apop_data_alloc();
-    get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
+    L = get_field_names(has_row_names=='y', has_col_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters);
-    col_ct = L.ct = *add_this_line->textsize;
+    col_ct = L.ct;
     Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
@@ -1183,7 +1197,8 @@ APOP_VAR_ENDHEAD
                 return -1, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
-	while(L.ct && !L.eof){
+	while(L.ct){
+        rows++;
         line_to_insert(L, add_this_line, tabname, statement, rows);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
@@ -1196,10 +1211,8 @@ APOP_VAR_ENDHEAD
             Apop_assert_c(!sqlite3_clear_bindings(statement), -1, apop_errorlevel, "SQLite error."); //needed for NULLs
 #endif
         }
-        do {
-            L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
-            rows ++;
-        } while (!L.ct && !L.eof); //skip blank lines
+        if (L.eof) break;
+        L = parse_a_nonblank_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
     apop_data_free(add_this_line);
 #if SQLITE_VERSION_NUMBER >= 3003009
-- 
2.43.0


From c304c6d4398af001925f31893084fbfdfd23f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 026/128] fix: a NaN read into a database is NULL, not the text
 0.0/0.0

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 6ed05e8..35d5537 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1034,7 +1034,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         else if (isinf(atof(astring))==-1)
 			out = strdup("-9e9999999");
         else if (gsl_isnan(atof(astring)))
-			out = strdup("0.0/0.0");
+			return NULL; //SQL's NaN is NULL.
         else if (astring[0]=='.')
 			Asprintf(&out, "0%s",astring);
 		else out = strdup(astring);
-- 
2.43.0


From 7c33ff6121c38aee3787d8ce817e63ff7481abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 027/128] fix: text lines with quotes or missing fields go into
 tables too wide for prepared statements

---
 apop_conversions.m4.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 35d5537..709e31e 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1022,10 +1022,14 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         /*do nothing.*/;
     if (*tail!='\0'){	//then it's not a number.
         if (!prepped_statements){
-            if (strchr(astring, '\''))
-                Asprintf(&out,"\"%s\"", astring);
-            else
-                Asprintf(&out,"'%s'", astring);
+            char *quoted = malloc(2*strlen(astring)+3), *q = quoted;
+            *q++ = '\'';
+            for (char const *c = astring; *c; c++){
+                if (*c=='\'') *q++ = '\''; //SQL's escape for a quote is to double it.
+                *q++ = *c;
+            }
+            *q++ = '\''; *q = '\0';
+            out = quoted;
         } else  out = strdup(astring);
 	} else {	    //number, maybe INF or NAN. Also, sqlite wants 0.1, not .1
 		assert(*astring!='\0');
@@ -1043,7 +1047,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
 }
 
 static void line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname, 
-                             sqlite3_stmt *p_stmt, int row){
+                             sqlite3_stmt *p_stmt, int row, int col_ct){
     if (!L.ct) return;
     int field = 1;
     char comma = ' ';
@@ -1065,6 +1069,8 @@ static void line_to_insert(line_parse_t L, apop_data const*addme, char const *ta
         free(prepped);
     }
     if (!p_stmt){
+        for (int col=L.ct; col < col_ct; col++) //the line is short
+            xprintf(&q, "%s, NULL", q);
         apop_query("%s)",q); 
         free (q);
     }
@@ -1199,7 +1205,7 @@ APOP_VAR_ENDHEAD
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
 	while(L.ct){
         rows++;
-        line_to_insert(L, add_this_line, tabname, statement, rows);
+        line_to_insert(L, add_this_line, tabname, statement, rows, col_ct);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
         if (use_sqlite_prepared_statements){
-- 
2.43.0


From 29b8274e77229783e82eb22aea67f4f91512963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 028/128] fix: refuse a text file that holds only row names

---
 apop_conversions.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 709e31e..9cf0598 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1189,6 +1189,7 @@ APOP_VAR_ENDHEAD
                                     add_this_line, fn, field_ends, delimiters);
     col_ct = L.ct;
     Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
+    Apop_stopif(!tab_exists && !*fn->textsize, return -1, 0, "no fields but row names in the input file (%s).", tabname);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
             return -1, 0, "Creating the table in the database failed.");
-- 
2.43.0


From 04cac5c940e7926b97086aa6130bf8762a1b7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 029/128] fix: text from a query is not a format string

---
 apop_db_sqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index a47f279..cc6428f 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -202,7 +202,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
             apop_name_add(d->names, argv[jj], 'r'); 
             ncshift ++;
         } else {
-            apop_text_set(d, rows, jj-ncshift, (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
+            apop_text_set(d, rows, jj-ncshift, "%s", (argv[jj]==NULL)? XN(apop_opts.nan_string): argv[jj]);
             //Asprintf(&(d->text[rows][jj-ncshift]), "%s", (argv[jj]==NULL)? "NaN": argv[jj]);
             if(addnames)
                 apop_name_add(d->names, column[jj], 't'); 
-- 
2.43.0


From 0606e1018c9a809b85f31dcbe1593ab5d6abd381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 030/128] fix: printing a vector to the database writes a table

---
 apop_output.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 51d5d9e..9935887 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -206,6 +206,11 @@ APOP_VAR_HEAD void apop_vector_print(gsl_vector *data, Output_declares){
     gsl_vector *apop_varad_var(data, NULL);
     Dispatch_output
 APOP_VAR_ENDHEAD
+    if (output_type == 'd'){
+        Apop_assert_c(data, , 1, "You sent me a NULL vector. No database table will be created.");
+        apop_data_print(&(apop_data){.vector=data}, Output_vars);
+        return;
+    }
 	print_core_v(data, apop_opts.output_delimiter, Output_vars);
  }
 
-- 
2.43.0


From f3b6428a2574cebed2e92fa32f7e759654e62200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 031/128] fix: data sets with row names, short parts, blanks,
 or very many columns are written whole to the database

---
 apop_db.m4.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 048e668..3dec2b0 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -485,28 +485,30 @@ static void add_a_number (char **q, char *comma, double v){
     if (gsl_isnan(v))
         qxprintf(q,"%s%c NULL ", *q, *comma);
     else if (isinf(v)==1)
-        qxprintf(q,"%s%c  'inf'", *q, *comma);
+        qxprintf(q,"%s%c  9e9999999", *q, *comma);
     else if (isinf(v)==-1)
-        qxprintf(q,"%s%c  '-inf' ", *q, *comma);
+        qxprintf(q,"%s%c  -9e9999999", *q, *comma);
     else
-        qxprintf(q,"%s%c %g ",*q ,*comma, v);
+        qxprintf(q,"%s%c %.17g ",*q ,*comma, v);
     *comma = ',';
 }
 
-static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
+static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, int use_row){
 #if SQLITE_VERSION_NUMBER < 3003009
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
     Get_vmsizes(set) //firstcol, msize1, maxsize
     for (size_t row=0; row < maxsize; row++){
         size_t field =1;
-        if (set->names && set->names->rowct>row){
-            if (!strlen(set->names->row[row])) field++; //leave NULL and cleared
-            Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
+        //Blanks or parts shorter than the rest are left NULL and cleared, but still take a field.
+        if (use_row){
+            if (row >= set->names->rowct || !strlen(set->names->row[row])) field++;
+            else Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
                     return -1, apop_errorlevel, 
                     "Something wrong with the row name for line %zu, [%s].\n" , row, set->names->row[row]);
         }
-        if (set->vector && set->vector->size > row)
+        if (set->vector && set->vector->size <= row) field++;
+        else if (set->vector)
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, -1)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the vector element on line %zu, [%g].\n" ,row,  apop_data_get(set, row, -1));
@@ -515,6 +517,7 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, col)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the matrix element %zu on line %zu, [%g].\n" ,col, row,  apop_data_get(set, row, col));
+        else field += msize2;
         if (*set->textsize > row)
             for (size_t col=0; col < set->textsize[1]; col++){
                 if (!strlen(set->text[row][col]) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
@@ -523,6 +526,7 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
                     return -1, apop_errorlevel, 
                     "Something wrong with a text element at row %zu, col %zu [%s].\n" , row, col, set->text[row][col]);
             }
+        else field += set->textsize[1];
         if (set->weights && set->weights->size > row)
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, gsl_vector_get(set->weights, row)),
                     return -1, apop_errorlevel, 
@@ -544,9 +548,9 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     int	i,j; 
     char *q;
     char comma = ' ';
+    Get_vmsizes(set) //firstcol, msize2, maxsize
     int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names
-                && ((set->matrix && set->names->rowct == set->matrix->size1)
-                    || (set->vector && set->names->rowct == set->vector->size));
+                && set->names->rowct && maxsize;
 
     if (!apop_opts.db_engine) get_db_type();
     if (apop_table_exists(tabname))
@@ -614,7 +618,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                 }
             for(i=0; i< set->textsize[1]; i++){
                 if(!set->names || set->names->textct <= i) qxprintf(&q, "%s%c\n tc%i ", q, comma, i);
-                else qxprintf(&q, "%s%c\n %s ", q, comma, set->names->text[i]);
+                else qxprintf(&q, "%s%c\n \"%s\" ", q, comma, set->names->text[i]);
                 comma = ',';
             }
             if (set->weights) qxprintf(&q, "%s%c\n \"weights\" numeric", q, comma);
@@ -624,8 +628,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         }
     }
 
-    Get_vmsizes(set) //firstcol, msize2, maxsize
-    int col_ct = (set->names ? !!set->names->rowct : 0) + set->textsize[1] + msize2 - firstcol + !!set->weights;
+    int col_ct = use_row + set->textsize[1] + msize2 - firstcol + !!set->weights;
     Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
@@ -633,31 +636,31 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
             return -1, 0, "Trouble preparing prepared statements.");
         Apop_stopif(
-            run_prepared_statements(set, statement), 
+            run_prepared_statements(set, statement, use_row), 
             return -1, 0, "error in insertions.");
     } else {
         for(i=0; i< maxsize; i++){
             comma = ' ';
             qxprintf(&q, "%s \n insert into %s values(",q, tabname);
             if (use_row){
-                char *fixed= prep_string_for_sqlite(0, set->names->row[i]);
-                qxprintf(&q, "%s %s ",q, fixed);
+                char *fixed= i < set->names->rowct ? prep_string_for_sqlite(0, set->names->row[i]) : NULL;
+                qxprintf(&q, "%s %s ",q, fixed ? fixed : "NULL");
                 free(fixed);
                 comma = ',';
             }
             if (set->vector)
-               add_a_number (&q, &comma, gsl_vector_get(set->vector,i));
+               add_a_number (&q, &comma, i < set->vector->size ? gsl_vector_get(set->vector,i) : GSL_NAN);
             if (set->matrix)
                 for(j=0; j< set->matrix->size2; j++)
-                   add_a_number (&q, &comma, gsl_matrix_get(set->matrix,i,j));
+                   add_a_number (&q, &comma, i < msize1 ? gsl_matrix_get(set->matrix,i,j) : GSL_NAN);
             for(j=0; j< set->textsize[1]; j++){
-                char *fixed= prep_string_for_sqlite(0, set->text[i][j]);
-                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "''");
+                char *fixed= i < set->textsize[0] ? prep_string_for_sqlite(0, set->text[i][j]) : NULL;
+                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "NULL");
                 free(fixed);
                 comma = ',';
             }
             if (set->weights)
-               add_a_number (&q, &comma, gsl_vector_get(set->weights,i));
+               add_a_number (&q, &comma, i < set->weights->size ? gsl_vector_get(set->weights,i) : GSL_NAN);
             qxprintf(&q,"%s);",q);
             apop_query("%s", q); 
             q[0]='\0';
-- 
2.43.0


From 6f18caf55c7a8c1776138ec0f24c484cb3a0c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 032/128] fix: crosstabs: restore options and report errors;
 names and values written exactly

---
 apop_conversions.m4.c | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 9cf0598..64b016a 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -133,8 +133,10 @@ APOP_VAR_ENDHEAD
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
     datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
-    Apop_stopif(datachars->error, free(Q); goto bailout, 0, "error from [%s].", Q);
+    Apop_stopif(!datachars, free(Q); apop_data_free(outdata); apop_opts.db_name_column = p; return NULL,
+                    2, "[%s] returned an empty table.", Q);
+    Apop_stopif(datachars->error, free(Q); outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
+    free(Q);
 
     //A bit inefficient, but well-encapsulated.
     //Pull the distinct (sorted) list of headers, copy into outdata->names.
@@ -154,7 +156,8 @@ APOP_VAR_ENDHEAD
 		j = find_cat_index(outdata->names->col, datachars->text[k][1], j, pre_d2->textsize[0]);
         Apop_stopif(i==-2 || j == -2, outdata->error='n'; goto bailout, 0, "Something went wrong in the crosstabbing; "
                                                  "couldn't find %s or %s.", datachars->text[k][0], datachars->text[k][1]);
-		gsl_matrix_set(out, i, j, atof(datachars->text[k][2]));
+        char const *val = datachars->text[k][2];
+		gsl_matrix_set(out, i, j, apop_opts.nan_string && !strcmp(val, apop_opts.nan_string) ? GSL_NAN : atof(val));
 	}
     bailout:
     apop_data_free(pre_d1);
@@ -165,6 +168,24 @@ APOP_VAR_ENDHEAD
 	return outdata;
 }
 
+//The string in single quotes, with SQL's escape for a quote, which is to double it.
+static char *sql_quote(char const *in){
+    char *out = malloc(2*strlen(in)+3), *o = out;
+    *o++ = '\'';
+    for ( ; *in; in++){
+        if (*in=='\'') *o++ = '\'';
+        *o++ = *in;
+    }
+    *o++ = '\''; *o = '\0';
+    return out;
+}
+
+static void insert_a_cell(char const *tabname, char const *row, char const *col, char const *value){
+    char *r = sql_quote(row), *c = sql_quote(col);
+    apop_query("INSERT INTO %s VALUES (%s, %s, %s)", tabname, r, c, value);
+    free(r); free(c);
+}
+
 /** See \ref apop_db_to_crosstab for the storyline; this is the complement, which takes a
   crosstab and writes its values to the database.
 
@@ -194,9 +215,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     apop_name *n = in->names;
     char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
-    int maxcol= GSL_MAX(msize2, in->textsize[1]);
-    char sparerow[msize1 > 0 ? (int)log10(msize1)+1 : 0];
-    char sparecol[maxcol > 0 ? (int)log10(maxcol)+1 : 0];
+    char sparerow[30], sparecol[30];
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
@@ -207,18 +226,20 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
         for (int j=0; j< msize2; j++){
             colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
             double x = gsl_matrix_get(in->matrix, i, j); 
-            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %g)", 
-                                                tabname, rowname, colname, x);
-            else apop_query("INSERT INTO %s VALUES ('%s', '%s', 0/0)", 
-                                        tabname, rowname, colname);
+            char val[40];
+            if (isnan(x))      strcpy(val, "NULL");
+            else if (isinf(x)) strcpy(val, x > 0 ? "9e9999999" : "-9e9999999");
+            else               snprintf(val, sizeof val, "%.17g", x);
+            insert_a_cell(tabname, rowname, colname, val);
         }
     }
     for (int i=0; i< in->textsize[0]; i++){
         rowname = (n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
         for (int j=0; j< in->textsize[1]; j++){
             colname = (n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
-            apop_query("INSERT INTO %s VALUES ('%s', '%s', '%s')", tabname, 
-                rowname, colname, in->text[i][j]);
+            char *val = sql_quote(in->text[i][j]);
+            insert_a_cell(tabname, rowname, colname, val);
+            free(val);
         }
     }
 	apop_query("commit");
@@ -1022,14 +1043,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         /*do nothing.*/;
     if (*tail!='\0'){	//then it's not a number.
         if (!prepped_statements){
-            char *quoted = malloc(2*strlen(astring)+3), *q = quoted;
-            *q++ = '\'';
-            for (char const *c = astring; *c; c++){
-                if (*c=='\'') *q++ = '\''; //SQL's escape for a quote is to double it.
-                *q++ = *c;
-            }
-            *q++ = '\''; *q = '\0';
-            out = quoted;
+            out = sql_quote(astring);
         } else  out = strdup(astring);
 	} else {	    //number, maybe INF or NAN. Also, sqlite wants 0.1, not .1
 		assert(*astring!='\0');
-- 
2.43.0


From e1706ee9b5bb4a46662da18fec6298f9cbc0620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 033/128] fix: a failed query into a vector returns NULL

---
 apop_db.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 3dec2b0..9b3a590 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -377,6 +377,8 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
 	d	= apop_query_to_data("%s", query);
     Restore_settings
     Apop_stopif(!d, return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(d->error, apop_data_free(d); return NULL, 0, "Query [%s] failed. Returning NULL.", query);
+    Apop_stopif(!d->matrix, apop_data_free(d); return NULL, 2, "Query [%s] turned up no columns. Returning NULL.", query);
     //else:
     out = gsl_vector_alloc(d->matrix->size1);
 	gsl_matrix_get_col(out, d->matrix, 0);
-- 
2.43.0


From d39160a4a2ad0d63c7055c3fb955c59cd6cc5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 034/128] fix: keep the query text until its error has been
 reported

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 9b3a590..01f8fb5 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -332,8 +332,8 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
 	if (db==NULL) apop_db_open(NULL);
     sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
-    free (query);
     ERRCHECK_SET_ERROR(qinfo.outdata)
+    free (query);
 	return qinfo.outdata;
 }
 
-- 
2.43.0


From 1bdeda12b5d4bee42126b28d53dd23e69208ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 035/128] fix: NULL row names, and mixed queries with too many
 or too few types

---
 apop_db.m4.c     |  2 +-
 apop_db_sqlite.c | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 01f8fb5..eba2e9b 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -292,7 +292,7 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
                  ? GSL_NAN : atof(argv[jj]);
             gsl_matrix_set(qi->outdata->matrix,qi->currentrow,jj-ncfound, valor);
         } else {
-            apop_name_add(qi->outdata->names, argv[jj], 'r');
+            apop_name_add(qi->outdata->names, argv[jj] ? argv[jj] : XN(apop_opts.nan_string), 'r');
             ncfound = 1;
         }
     (qi->currentrow)++;
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index cc6428f..d73beca 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -199,7 +199,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     apop_text_alloc(d, rows+1, cols);//doesn't move d.
     for (size_t jj=0; jj<argc; jj++)
         if (jj == qi->namecol){
-            apop_name_add(d->names, argv[jj], 'r'); 
+            apop_name_add(d->names, argv[jj] ? argv[jj] : XN(apop_opts.nan_string), 'r'); 
             ncshift ++;
         } else {
             apop_text_set(d, rows, jj-ncshift, "%s", (argv[jj]==NULL)? XN(apop_opts.nan_string): argv[jj]);
@@ -271,11 +271,8 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
     }
     if (!(in->d->names->colct + in->d->names->textct + (in->d->names->vector!=NULL)))
         addnames++;
-    if (in->d->textsize[1]){
-        in->d->textsize[0]         = in->thisrow;
-        in->d->text                = realloc(in->d->text, sizeof(char ***)*in->thisrow);
-        in->d->text[in->thisrow-1] = malloc(sizeof(char**) * in->d->textsize[1]);
-    }
+    if (in->intypes[3])
+        apop_text_alloc(in->d, in->thisrow, in->intypes[3]);
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
     for (i=in->current=0; i< argc; i++){
@@ -296,8 +293,7 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
             if(addnames)
                 apop_name_add(in->d->names, column[i], 'c'); 
         } else if (c=='t'||c=='T'){
-            Asprintf(&(in->d->text[in->thisrow-1][thistcol++]), "%s", 
-			                        argv[i] ? argv[i] : "NaN");
+            apop_text_set(in->d, in->thisrow-1, thistcol++, "%s", argv[i] ? argv[i] : "NaN");
             if(addnames)
                 apop_name_add(in->d->names, column[i], 't'); 
         } else if (c=='w'||c=='W'){
-- 
2.43.0


From 131476b0a1961f4796120d04a1d2ac77bed15321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 036/128] fix: closing a database that was never opened is not
 an error

---
 apop_db.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index eba2e9b..9b6bc57 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -180,8 +180,8 @@ APOP_VAR_END_HEAD
         {Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");}
 #endif
     else {
-        char *err, *query = "db close";//for errcheck.
-        if (vacuum==1 || vacuum=='v') {
+        char *err = NULL, *query = "db close";//for errcheck.
+        if (db && (vacuum==1 || vacuum=='v')) {
             sqlite3_exec(db, "VACUUM", NULL, NULL, &err);
             ERRCHECK
         }
-- 
2.43.0


From aac4efd37c5772ed3f3a8ff4a1b0c787e1b1287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 037/128] fix: a mixed query with text or surplus columns stays
 within its memory

---
 apop_db_sqlite.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index d73beca..9c12b3f 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -263,11 +263,6 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
                 : apop_data_alloc(in->intypes[1]);
         if (in->intypes[4])
             in->d->weights  = gsl_vector_alloc(1);
-        if (in->intypes[3]){
-            in->d->textsize[0]  = 1;
-            in->d->textsize[1]  = in->intypes[3];
-            in->d->text         = malloc(sizeof(char***));
-        }
     }
     if (!(in->d->names->colct + in->d->names->textct + (in->d->names->vector!=NULL)))
         addnames++;
@@ -276,7 +271,8 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
     for (i=in->current=0; i< argc; i++){
-        c   = in->instring[in->current++];
+        c   = in->instring[in->current];
+        if (c) in->current++; //else, more columns than types.
         if (c=='n'||c=='N'){
             apop_name_add(in->d->names, (argv[i]? argv[i] : "NaN")  , 'r'); 
             if(addnames)
-- 
2.43.0


From 468317230694e3133c2ec89e9ce8566f326ce531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 038/128] fix: an unbiased kurtosis

---
 apop_stats.m4.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..fee910c 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -41,20 +41,19 @@ double apop_vector_skew(const gsl_vector *in){
 	return apop_vector_skew_pop(in) * gsl_pow_2(in->size)/((in->size -1.)*(in->size -2.)); }
 
 /** Returns the sample fourth central moment of the data in the given
-vector. Corrections are made to produce an unbiased result as per <a
+vector. Corrections are made to produce an unbiased result; cf <a
 href="http://modelingwithdata.org/pdfs/moments.pdf">Appendix M</a> (PDF) of <em>Modeling
-with data</em>.
+with data</em>. With fewer than four observations there is no such estimate: \c NaN.
 
 \li This is an estimate of the fourth central moment without normalization. The kurtosis
     of a \f${\cal N}(0,1)\f$ is \f$3 \sigma^4\f$, not three, one, or zero.
 \see \ref apop_vector_kurtosis_pop
 */
 double apop_vector_kurtosis(const gsl_vector *in){
-    size_t n = in->size;
-    long double coeff0= n*n/(gsl_pow_3(n-1)*(gsl_pow_2(n)-3*n+3));
-    long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-    long double coeff2= n*(6*n-9);
-    return  coeff0 *(coeff1 * apop_vector_kurtosis_pop(in) - coeff2 * gsl_pow_2(apop_vector_var(in)*(n-1.)/n));
+    long double n = in->size;
+    Apop_stopif(n < 4, return GSL_NAN, 1, "There is no unbiased estimate with fewer than four observations. Returning NaN.");
+    return (n*(n*n-2*n+3) * apop_vector_kurtosis_pop(in) - 3*n*(2*n-3)*gsl_pow_2(apop_vector_var(in)*(n-1)/n))
+                / ((n-1)*(n-2)*(n-3));
 }
 
 static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int exponent, const char *fn_name){
-- 
2.43.0


From 32f6b28cd7872fb95eefe1cae5060496bbac5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 039/128] fix: maths functions in queries give NULL for NULL

---
 apop_db_sqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 9c12b3f..44e74e8 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -86,6 +86,7 @@ static void stdDevFinalize(sqlite3_context *context){
       double rCnt = p->cnt;
       sqlite3_result_double(context,
          sqrt((p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0)));
+    if (sqlite3_value_type(argv[0])==SQLITE_NULL || sqlite3_value_type(argv[1])==SQLITE_NULL) return; //NULL in, NULL out
     } else if (p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
@@ -140,7 +141,8 @@ static void rngFn(sqlite3_context *context, int argc, sqlite3_value **argv){
 }
 
 #define sqfn(name) static void name##Fn(sqlite3_context *context, int argc, sqlite3_value **argv){ \
-    sqlite3_result_double(context, name(sqlite3_value_double(argv[0]))); }
+    if (sqlite3_value_type(argv[0])!=SQLITE_NULL)                            \
+        sqlite3_result_double(context, name(sqlite3_value_double(argv[0]))); }
 
 sqfn(sqrt) sqfn(exp) sqfn(log) sqfn(log10) sqfn(sin) 
 sqfn(cos) sqfn(tan) sqfn(asin) sqfn(acos) sqfn(atan)
-- 
2.43.0


From e19a244e1ea7087461c75b8dac530b450f03ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 040/128] fix: aggregates in queries skip NULLs, keep their
 precision, and give the unbiased kurtosis

---
 apop_db_sqlite.c | 142 +++++++++++++++++------------------------------
 1 file changed, 50 insertions(+), 92 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 44e74e8..0ec4a6b 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -14,121 +14,79 @@ sqlite3	*db=NULL;	                //There's only one SQLite database handle. Her
 typedef struct StdDevCtx StdDevCtx;
 struct StdDevCtx {
     double avg;     /* avg of terms */
-    double avg2;    /* avg of the squares of terms */
-    double avg3;    /* avg of the cube of terms */
-    double avg4;    /* avg of the fourth-power of terms */
-    int cnt;        /* Number of terms counted */
+    double m2;      /* sum of squared deviations from the average */
+    double m3;      /* sum of cubed deviations */
+    double m4;      /* sum of deviations to the fourth power */
+    double cnt;     /* Number of terms counted */
 };
 /** \endcond */
 
-static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
-    if (argc<1) return;
+/* One step for all of the moments. Keep the running sums of powers of deviations from the
+   mean; differencing the raw moments loses all precision when the mean is large. NULLs
+   are not observations. */
+static void momentStep(sqlite3_context *context, int argc, sqlite3_value **argv){
+    if (argc<1 || sqlite3_value_type(argv[0])==SQLITE_NULL) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
-        double x = sqlite3_value_double(argv[0]);
-        double ratio = p->cnt/(p->cnt+1.0);
-        p->cnt++;
-        p->avg	*= ratio;
-        p->avg2	*= ratio;
-        p->avg += x/(p->cnt +0.0);
-        p->avg2 += gsl_pow_2(x)/(p->cnt +0.0);
-    }
-}
-
-static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
-    if (argc<1) return;
-    StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
-        double x = sqlite3_value_double(argv[0]);
-        double ratio =  p->cnt/(p->cnt+1.0);
-        p->cnt++;
-        p->avg	*= ratio;
-        p->avg2	*= ratio;
-        p->avg3	*= ratio;
-        p->avg += x/p->cnt;
-        p->avg2 += gsl_pow_2(x)/p->cnt;
-        p->avg3 += gsl_pow_3(x)/p->cnt;
-    }
-}
-
-static void fourStep(sqlite3_context *context, int argc, sqlite3_value **argv){
-    if( argc<1 ) return;
-    StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
-        double x = sqlite3_value_double(argv[0]);
-        p->cnt++;
-        p->avg = (x + p->avg * (p->cnt-1.))/p->cnt;
-        p->avg2 = (gsl_pow_2(x)+ p->avg2 * (p->cnt-1.))/p->cnt;
-        p->avg3 = (gsl_pow_3(x)+ p->avg3 * (p->cnt-1.))/p->cnt;
-        p->avg4 = (gsl_pow_4(x)+ p->avg4 * (p->cnt-1.))/p->cnt;
-    }
+    if (!p) return;
+    double n = ++p->cnt;
+    double delta = sqlite3_value_double(argv[0]) - p->avg;
+    double dn = delta/n;
+    double sq = delta*dn*(n-1);
+    p->avg += dn;
+    p->m4 += sq*dn*dn*(n*n-3*n+3) + 6*dn*dn*p->m2 - 4*dn*p->m3;
+    p->m3 += sq*dn*(n-2) - 3*dn*p->m2;
+    p->m2 += sq;
 }
 
 static void stdDevFinalizePop(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && p->cnt>1)
-      sqlite3_result_double(context, sqrt((p->avg2 - gsl_pow_2(p->avg))));
-    else if (p->cnt == 1)
-      	sqlite3_result_double(context, 0);
+    if (p && p->cnt>=1)
+        sqlite3_result_double(context, sqrt(p->m2/p->cnt));
 }
 
 static void varFinalizePop(sqlite3_context *context){
-  StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if( p && p->cnt>1 )
-        sqlite3_result_double(context, (p->avg2 - gsl_pow_2(p->avg)));
-    else if (p->cnt == 1)
-    	sqlite3_result_double(context, 0);
+    StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
+    if (p && p->cnt>=1)
+        sqlite3_result_double(context, p->m2/p->cnt);
 }
 
 static void stdDevFinalize(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if( p && p->cnt>1 ){
-      double rCnt = p->cnt;
-      sqlite3_result_double(context,
-         sqrt((p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0)));
-    if (sqlite3_value_type(argv[0])==SQLITE_NULL || sqlite3_value_type(argv[1])==SQLITE_NULL) return; //NULL in, NULL out
-    } else if (p->cnt == 1)
+    if (p && p->cnt>1)
+        sqlite3_result_double(context, sqrt(p->m2/(p->cnt-1)));
+    else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
 static void varFinalize(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if( p && p->cnt>1 ){
-      double rCnt = p->cnt;
-      sqlite3_result_double(context,
-         (p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0));
-    } else if (p->cnt == 1)
+    if (p && p->cnt>1)
+        sqlite3_result_double(context, p->m2/(p->cnt-1));
+    else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
 static void skewFinalize(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if( p && p->cnt>1 ){
-      double rCnt = p->cnt;
-      sqlite3_result_double(context,
-         (p->avg3*rCnt - 3*p->avg2*p->avg*rCnt 
-                        + 2*rCnt * gsl_pow_3(p->avg)) * rCnt/((rCnt-1.0)*(rCnt-2.0)));
-    } else if (p->cnt == 1)
+    if (p && p->cnt>2)
+        sqlite3_result_double(context, p->m3 * p->cnt/((p->cnt-1)*(p->cnt-2)));
+    else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
+//See apop_vector_kurtosis; NULL for two or three observations.
 static void kurtFinalize(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if( p && p->cnt>1 ){
-      double n = p->cnt;
-      double kurtovern = p->avg4 - 4*p->avg3*p->avg
-                        + 6 * p->avg2*gsl_pow_2(p->avg)
-                        - 3* gsl_pow_4(p->avg);
-      double var = p->avg2 - gsl_pow_2(p->avg);
-      long double coeff0= n*n/(gsl_pow_3(n)*(gsl_pow_2(n)-3*n+3));
-      long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-      long double coeff2= n*(6*n-9);
-      sqlite3_result_double(context, coeff0*(coeff1 * kurtovern + coeff2 * gsl_pow_2(var)));
-    } else if (p->cnt == 1)
+    if (p && p->cnt>3){
+        double n = p->cnt;
+        sqlite3_result_double(context, (n*(n*n-2*n+3)*(p->m4/n) - 3*n*(2*n-3)*gsl_pow_2(p->m2/n))
+                                                /((n-1)*(n-2)*(n-3)));
+    } else if (p && p->cnt == 1)
       sqlite3_result_double(context, 0);
 }
 
 static void powFn(sqlite3_context *context, int argc, sqlite3_value **argv){
+    if (sqlite3_value_type(argv[0])==SQLITE_NULL || sqlite3_value_type(argv[1])==SQLITE_NULL) return; //NULL in, NULL out
     double base = sqlite3_value_double(argv[0]);
     double exp  = sqlite3_value_double(argv[1]);
     sqlite3_result_double(context, pow(base, exp));
@@ -152,17 +110,17 @@ static int apop_sqlite_db_open(char const *filename){
     int status = sqlite3_open(filename ? filename : ":memory:", &db);
     Apop_stopif(status, db=NULL; return status,
             0, "The database %s didn't open.", filename ? filename : "in memory");
-	sqlite3_create_function(db, "stddev", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
-	sqlite3_create_function(db, "std", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
-	sqlite3_create_function(db, "stddev_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
-	sqlite3_create_function(db, "stddev_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
-	sqlite3_create_function(db, "var", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
-	sqlite3_create_function(db, "var_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
-	sqlite3_create_function(db, "var_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
-	sqlite3_create_function(db, "variance", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
-	sqlite3_create_function(db, "skew", 1, SQLITE_ANY, NULL, NULL, &threeStep, &skewFinalize);
-	sqlite3_create_function(db, "kurt", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
-	sqlite3_create_function(db, "kurtosis", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
+	sqlite3_create_function(db, "stddev", 1, SQLITE_ANY, NULL, NULL, &momentStep, &stdDevFinalize);
+	sqlite3_create_function(db, "std", 1, SQLITE_ANY, NULL, NULL, &momentStep, &stdDevFinalizePop);
+	sqlite3_create_function(db, "stddev_samp", 1, SQLITE_ANY, NULL, NULL, &momentStep, &stdDevFinalize);
+	sqlite3_create_function(db, "stddev_pop", 1, SQLITE_ANY, NULL, NULL, &momentStep, &stdDevFinalizePop);
+	sqlite3_create_function(db, "var", 1, SQLITE_ANY, NULL, NULL, &momentStep, &varFinalize);
+	sqlite3_create_function(db, "var_samp", 1, SQLITE_ANY, NULL, NULL, &momentStep, &varFinalize);
+	sqlite3_create_function(db, "var_pop", 1, SQLITE_ANY, NULL, NULL, &momentStep, &varFinalizePop);
+	sqlite3_create_function(db, "variance", 1, SQLITE_ANY, NULL, NULL, &momentStep, &varFinalizePop);
+	sqlite3_create_function(db, "skew", 1, SQLITE_ANY, NULL, NULL, &momentStep, &skewFinalize);
+	sqlite3_create_function(db, "kurt", 1, SQLITE_ANY, NULL, NULL, &momentStep, &kurtFinalize);
+	sqlite3_create_function(db, "kurtosis", 1, SQLITE_ANY, NULL, NULL, &momentStep, &kurtFinalize);
 	sqlite3_create_function(db, "ln", 1, SQLITE_ANY, NULL, &logFn, NULL, NULL);
 	sqlite3_create_function(db, "ran", 0, SQLITE_ANY, NULL, &rngFn, NULL, NULL);
 	sqlite3_create_function(db, "pow", 2, SQLITE_ANY, NULL, &powFn, NULL, NULL);
-- 
2.43.0


From e19b8a9bdf41501434b1870d84116d28422efc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 041/128] fix: weights that sum to one are not divided by the
 number of observations

---
 apop_stats.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index fee910c..22fe53b 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -66,8 +66,7 @@ static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int expo
         sumcu+= ww * gsl_pow_int(vv - mu, exponent); 
         wsum += ww; 
     }
-    double len = wsum < 1.1 ? w->size : wsum;
-    return sumcu/len;
+    return sumcu/wsum;
 }
 
 /** Returns the population skew \f$(\sum_i (x_i - \mu)^3/n))\f$ of the data in the given vector. Observations may be weighted.
@@ -520,7 +519,7 @@ APOP_VAR_END_HEAD
         wsum  += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len - gsl_pow_2(sum/len)) * len/(len -1.);
+    return (sumsq/wsum - gsl_pow_2(sum/wsum)) * len/(len -1.);
 }
 
 /** Find the sample covariance of a pair of vectors, with an optional weighting. This only
@@ -557,7 +556,7 @@ APOP_VAR_ENDHEAD
         wsum += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len  - sum1*sum2/gsl_pow_2(len)) *(len/(len-1));
+    return (sumsq/wsum  - sum1*sum2/gsl_pow_2(wsum)) *(len/(len-1));
 }
 
 /** Returns the sample variance/covariance matrix relating each column of the matrix to each other column.
-- 
2.43.0


From c69c266c3a89f8f0aa3f8a79104365167b6ec9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 042/128] fix: mapping over columns names the output's rows,
 not the input

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..fb1dd60 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -177,7 +177,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From d13be36dd8df1f5f805c1c9883d72f377575838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 043/128] fix: mapping over all pages without a result

---
 apop_mapply.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index fb1dd60..1dbf76d 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -210,7 +210,9 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        apop_data *more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (!out) return more; //inplace=='v': NULL, or a report of an error.
+        out->more = more;
         Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
-- 
2.43.0


From 233819eebc9b4af731458e34495d9088ba43feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 044/128] fix: vectors made by map are the size of what was
 mapped

---
 apop_mapply.m4.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 1dbf76d..4577753 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -154,16 +154,18 @@ APOP_VAR_ENDHEAD
     apop_data *out =   (inplace=='y') ? in
                      : (inplace=='v') ? NULL
                      : by_apop_rows ? apop_data_alloc(GSL_MAX(in->textsize[0], maxsize))
-                     : part == 'v' || (in->vector && ! in->matrix) ? apop_data_alloc(vsize)
+                     : part == 'v' ? apop_data_alloc(vsize)
                      : part == 'm' ? apop_data_alloc(msize1, msize2)
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
-                     : part == 'r' ? apop_data_alloc(maxsize)
+                     : part == 'r' ? apop_data_alloc(msize1)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
-    Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(maxsize), 2, 
-                            "No vector in your input data set for me to write outputs to; "
-                            "allocating one for you of size %i", maxsize);
+    int vectorized = (part=='c') ? msize2 : msize1;
+    Apop_stopif(inplace=='y' && !by_apop_rows && (part=='r'||part=='c') && in->matrix && vsize != vectorized, 
+                            gsl_vector_free(in->vector); in->vector=gsl_vector_alloc(vectorized), 2, 
+                            "No vector of the right size in your input data set for me to write outputs to; "
+                            "allocating one for you of size %i", vectorized);
     if (in->names && out && !(inplace=='y')){
-        if (part == 'v'  || (in->vector && ! in->matrix)) {
+        if (part == 'v'  || (part == 'a' && in->vector && ! in->matrix)) {
              apop_name_stack(out->names, in->names, 'v');
              apop_name_stack(out->names, in->names, 'r');
         }
-- 
2.43.0


From 40593894a47d97dec53870b6df0b1c8dd9b958f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 045/128] fix: adding the vector name or title of a set of
 names to itself read freed memory

---
 apop_name.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index 601ca66..cc0a53a 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -50,11 +50,13 @@ int apop_name_add(apop_name * n, char const *add_me, char type){
     if (!add_me)
         return -1;
 	if (type == 'h'){
+        if (add_me == n->title) return 1; //adding the title to itself.
         free(n->title);
         Asprintf(&n->title, "%s", add_me);
         return 1;
 	} 
 	if (type == 'v'){
+        if (add_me == n->vector) return 1; //stacking a list onto itself.
 		n->vector	= realloc(n->vector,  strlen(add_me) + 1);
 		strcpy(n->vector, add_me);
 		return 1;
-- 
2.43.0


From 5c725616fc8d5f3ea8631bc52f0c270ead64e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 046/128] fix: factors and dummies: inserted columns, removal,
 categories shared between data sets, parts to be allocated, unnamed text
 columns

---
 apop_regression.m4.c | 108 +++++++++++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index a00a412..cb9d726 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -87,6 +87,8 @@ gsl_vector * apop_vector_unique_elements(const gsl_vector *v){
   \see apop_vector_unique_elements
 */
 apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
+    Apop_stopif(!d || !d->textsize[0] || col >= d->textsize[1], apop_return_data_error(d),
+                    0, "You asked for text column %zu, but the data set doesn't have it.", col);
   char   **tval;
 
   //first element for free
@@ -115,11 +117,11 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
 static char *apop_get_factor_basename(apop_data *d, int col, char type){
     char *name;
     char *catname =   d->names == NULL ? NULL
-                    : type == 't' && d->names && d->names->textct > col ? d->names->text[col]
+                    : type == 't'                                       ? (d->names->textct > col ? d->names->text[col] : NULL)
                     : col == -1 && d->names && d->names->vector         ? d->names->vector
                     : col >=0 && d->names && d->names->colct > col      ? d->names->col[col]
                     : NULL;
-    if (catname){
+    if (catname && *catname){
         Asprintf(&name, "%s", catname);
         return name;
     }
@@ -188,6 +190,11 @@ apop_data * create_factor_list(apop_data *d, int col, char type){
     return factor_list;
 }
 
+static void add_zero_column(apop_data *d, size_t rows){
+    d->matrix = apop_matrix_realloc(d->matrix, rows, (d->matrix ? d->matrix->size2 : 0) + 1);
+    gsl_vector_set_zero(Apop_cv(d, d->matrix->size2-1));
+}
+
 /* Producing dummies consists of finding the index of element i, for all i, then
  setting (i, index) to one.
  Producing factors consists of finding the index and then setting (i, datacol) to index.
@@ -219,33 +226,33 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     for (size_t i=0; i< s; i++){
         if (type == 'd'){
             double val = apop_data_get(d, i, col);
-            size_t posn = (size_t)bsearch(&val, delmts->data, elmt_ctr, sizeof(double), compare_doubles);
+            //A list that came with the data may have been extended, and so needn't be sorted.
+            size_t posn = (size_t)lfind(&val, delmts->data, &elmt_ctr, sizeof(double), compare_doubles);
             if (posn )
                 index = (posn - (size_t)delmts->data)/sizeof(double);
             else {
                 index = elmt_ctr++;
+                *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
+                apop_text_set(*factor_list, index, 0, "%g", val);
+                delmts =
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 gsl_vector_set((*factor_list)->vector, index, val);
-                out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, elmt_ctr);
-                gsl_vector_set_zero(Apop_cv(out, index));
+                if (dummyfactor == 'd') add_zero_column(out, s);
             }
         } else {
-            size_t posn = (size_t)bsearch(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
+            size_t posn = (size_t)lfind(&(d->text[i][col]), *telmts->text, &elmt_ctr, sizeof(char**), strcmpwrap);
             if (posn)
                 index = (posn - (size_t)*telmts->text)/sizeof(char**);
             else {
                 index = elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
-                apop_text_set(*factor_list, index, 0, d->text[i][col]);
+                apop_text_set(*factor_list, index, 0, "%s", d->text[i][col]);
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 apop_data_set(*factor_list, index, -1, index);
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
-                apop_text_set(telmts, 0, index, d->text[i][col]);
-                if (dummyfactor == 'd'){
-                    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
-                    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-                }
+                apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
+                if (dummyfactor == 'd') add_zero_column(out, s);
             }
         }
         if (dummyfactor == 'd'){
@@ -260,18 +267,27 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     if (dummyfactor == 'd'){
         char *basename = apop_get_factor_basename(d, col, type);
         for (size_t i = (keep_first!='n') ? 0 : 1; i< elmt_ctr; i++){
-            char n[1000];
+            char *n;
             if (type =='d'){
-                sprintf(n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
+                Asprintf(&n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
             } else
-                sprintf(n, "%s", telmts->text[0][i]);
+                Asprintf(&n, "%s", telmts->text[0][i]);
             apop_name_add(out->names, n, 'c');
+            free(n);
         }
+        free(basename);
     }
     apop_data_free(telmts);
     return out;
 }
 
+static void rm_vector(apop_data *d){
+    gsl_vector_free(d->vector);
+    d->vector = NULL;
+    free(d->names->vector);
+    d->names->vector = NULL;
+}
+
 /** A utility to make a matrix of dummy variables. You give me a single
 vector that lists the category number for each item, and I'll produce
 a matrix with a single one in each row in the column specified.
@@ -334,9 +350,12 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error(d),
+        Apop_stopif((col == -1) && !d->vector, apop_return_data_error(d),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
+        Apop_stopif((col != -1) && !d->matrix, apop_return_data_error(d),
+                                0, "You asked for the matrix element %i "
+                                "but the data's matrix element is NULL.", col);
         Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error(d),
                                 0, "You asked for the matrix element %i "
                                 "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
@@ -346,32 +365,43 @@ APOP_VAR_ENDHEAD
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    size_t orig_size = d->matrix ? d->matrix->size1 : 0;
-    int rm_list[orig_size+1];
-    memset (rm_list, 0, (orig_size+1)*sizeof(int)); 
-    if (append =='i'){
-        apop_data **split = apop_data_split(d, col+1, 'c');
-        //stack names, then matrices
-        for (int i=0; i < d->names->colct; i++)
-            free(d->names->col[i]);
-        apop_name_stack(d->names, split[0]->names, 'c');
-        for (int k = d->names->colct; k < (split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
-            apop_name_add(d->names, "", 'c'); //pad so the name stacking is aligned (if needed)
+    if (append =='i' && type!='t' && d->matrix){
+        //pull the columns after the given one, stack the dummies, put those columns back.
+        int cols = d->matrix->size2;
+        int tail_list[cols], head_list[cols];
+        for (int i=0; i < cols; i++)
+            head_list[i] = !(tail_list[i] = (i > col || (i==col && remove!='n')));
+        if (remove!='n' && col >= 0) head_list[col] = 1;
+        for (int k = d->names->colct; k < cols && d->names->colct; k++)
+            apop_name_add(d->names, "", 'c'); //pad so the names are aligned (if needed)
+        apop_data tail = {.matrix = apop_matrix_copy(d->matrix), .names = apop_name_alloc()};
+        apop_name_stack(tail.names, d->names, 'c');
+        apop_data_rm_columns(&tail, head_list);
+        apop_data_rm_columns(d, tail_list);
+        if (remove!='n' && col == -1) rm_vector(d);
+        d->matrix = apop_matrix_stack(d->matrix, dummies->matrix, 'c', .inplace='y');
+        d->matrix = apop_matrix_stack(d->matrix, tail.matrix, 'c', .inplace='y');
+        int before = cols - (tail.matrix ? tail.matrix->size2 : 0) - (remove!='n' && col >= 0);
+        for (int k = d->names->colct; k < before; k++) apop_name_add(d->names, "", 'c');
         apop_name_stack(d->names, dummies->names, 'c');
-        apop_name_stack(d->names, split[1]->names, 'c');
-        gsl_matrix_free(d->matrix);
-        d->matrix = apop_matrix_stack(split[0]->matrix, dummies->matrix, 'c');
+        apop_name_stack(d->names, tail.names, 'c');
+        gsl_matrix_free(tail.matrix);
+        apop_name_free(tail.names);
         apop_data_free(dummies);
-        apop_data_free(split[0]);
-        apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
-        apop_data_free(split[1]);
         return d;
     }
     if (remove!='n' && type!='t'){
-        rm_list[col]=1;
-        apop_data_rm_columns(d, rm_list);
+        if (col == -1) rm_vector(d);
+        else {
+            int rm_list[d->matrix->size2];
+            memset (rm_list, 0, sizeof(rm_list));
+            rm_list[col]=1;
+            for (int k = d->names->colct; k < d->matrix->size2 && d->names->colct; k++)
+                apop_name_add(d->names, "", 'c');
+            apop_data_rm_columns(d, rm_list);
+        }
     }
-    if (append =='y' || append == 'e' || append ==1 || (append=='i' && type=='t')){
+    if (append =='y' || append == 'e' || append ==1 || append=='i'){
         d = apop_data_stack(d, dummies, 'c', .inplace='y');
         apop_data_free(dummies);
         return d;
@@ -441,9 +471,9 @@ APOP_VAR_ENDHEAD
                             "the matrix has only %zu elements.", incol, data->matrix->size2);
     }
     if (!data->vector && outcol == -1) //allocate a vector for the user.
-        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size2);
-    if (!data->matrix && outcol >= 0) //allocate a matrxi for the user.
-        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->matrix->size2, outcol+1);
+        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size1);
+    if (!data->matrix && outcol >= 0) //allocate a matrix for the user.
+        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->vector->size, outcol+1);
     apop_data *out;
     dummies_and_factors_core(data, incol, intype, 1, outcol, 'f', &out);
     return out;
-- 
2.43.0


From 57076f6f1dd2c81651c37c1dad2c02773c1f8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 047/128] fix: counting ranks ignored the minimum count of
 bins, and expanding a vector of counts crashed

---
 apop_conversions.m4.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 64b016a..a13327c 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -285,8 +285,9 @@ APOP_VAR_HEAD apop_data * apop_data_rank_compress (apop_data *in, int min_bins){
     int apop_varad_var(min_bins, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(in);
-    int upper_bound = GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
-                              in->vector ? gsl_vector_max(in->vector) : min_bins);
+    int upper_bound = min_bins;
+    if (in->matrix) upper_bound = GSL_MAX(upper_bound, gsl_matrix_max(in->matrix));
+    if (in->vector) upper_bound = GSL_MAX(upper_bound, gsl_vector_max(in->vector));
     apop_data *out = apop_data_calloc(1, upper_bound+1);
     for (int i=0; i< msize1; i++)
         for (int j=0; j< msize2; j++) 
@@ -305,16 +306,20 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
+    if (!in) return NULL;
     int total_ct = (in->matrix ? apop_matrix_sum(in->matrix) : 0)
                  + (in->vector ? apop_vector_sum(in->vector) : 0);
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
     int posn = 0;
-    for (int i=0; i< in->matrix->size1; i++)
+    for (int i=0; in->matrix && i< in->matrix->size1; i++)
         for (int k=0; k< in->matrix->size2; k++)
             for (int j=0; j< gsl_matrix_get(in->matrix, i, k); j++)
                 gsl_vector_set(out->vector, posn++, k); 
+    for (int k=0; in->vector && k< in->vector->size; k++)
+        for (int j=0; j< gsl_vector_get(in->vector, k); j++)
+            gsl_vector_set(out->vector, posn++, k);
     return out;
 }
 
-- 
2.43.0


From da7645748493e3a908ccb8312a52fe15cb365a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 048/128] fix: a moving average with a window wider than the
 vector asked for memory without end

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 74ac092..5a9a36f 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -368,13 +368,13 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
     int halfspan = bandwidth/2;
-    Apop_stopif((v->size - halfspan*2)<=0, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
         double *item = gsl_vector_ptr(vout, i);
         for (int j=-halfspan; j < halfspan+1; j ++)
             *item += gsl_vector_get(v, j+ i+ halfspan);
         *item /= halfspan*2 +1;
+    Apop_stopif(v->size <= (bandwidth/2)*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     }
     return vout;
 }
-- 
2.43.0


From 7c4a469cc1062d61ce96cbc733dbbe0a3f15962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 049/128] fix: the top bin, bins of constant columns, and the
 weights of a binned model

---
 apop_hist.m4.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 5a9a36f..9bf9f6e 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -38,6 +38,7 @@ APOP_VAR_ENDHEAD
     apop_data *outd = apop_model_draws(model, draws);
     apop_data *outbinned = apop_data_to_bins(outd, binspec, .bin_count=bin_count);
     apop_data_free(outd);
+    apop_data_pmf_compress(outbinned); //this adds the weights.
     apop_vector_normalize(outbinned->weights);
     return apop_estimate(outbinned, apop_pmf);
 } 
@@ -329,7 +330,7 @@ APOP_VAR_HEAD apop_data *apop_data_to_bins(apop_data const *indata, apop_data co
     int apop_varad_var(bin_count, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(indata); //firstcol, vsize, msize1, msize2
-    double binwidth, offset, max=0;
+    double binwidth, offset;
     apop_data *out = apop_data_alloc(vsize, msize1, msize2);
     apop_data const *bs = binspec ? binspec
                     : apop_data_add_page(out, 
@@ -338,20 +339,27 @@ APOP_VAR_ENDHEAD
     for (int j= firstcol; j< msize2; j++){
         gsl_vector *onecol = Apop_cv(out, j);
         gsl_vector *datacol = Apop_cv(indata, j);
+        double min = gsl_vector_min(datacol), max = gsl_vector_max(datacol);
         if (binspec){
            binwidth = apop_data_get(binspec, 0, j);
            offset = ((binspec->vector && binspec->vector->size==2 )
                    ||(binspec->matrix && binspec->matrix->size1==2)) ? apop_data_get(binspec, 1, j) : 0;
         } else {
             gsl_vector *abin = Apop_cv(bs, j);
-            max = gsl_vector_max(datacol);
-            gsl_vector_set(abin, 1, offset = gsl_vector_min(datacol));
-            gsl_vector_set(abin, 0, binwidth = (max - offset)/(bin_count ? bin_count : sqrt(datacol->size)));
+            gsl_vector_set(abin, 1, offset = min);
+            binwidth = (max - offset)/(bin_count ? bin_count : sqrt(datacol->size));
+            if (binwidth == 0) binwidth = 1; //all elements are equal, so any one bin will do.
+            gsl_vector_set(abin, 0, binwidth);
         }
         for (int i=0; i< onecol->size; i++){
             double val = gsl_vector_get(datacol, i);
-            double adjust = (close_top_bin=='y' && val == max && val!=offset) ? 2*GSL_DBL_EPSILON : 0;
-            gsl_vector_set(onecol, i, (floor((val-offset-adjust)/binwidth))*binwidth+offset);
+            double posn = (val-offset)/binwidth;
+            double bin = floor(posn);
+            if (close_top_bin=='y' && val == max && val != min){ //if it is on the edge of a bin, then it goes in the one below.
+                double edge = floor(posn + 0.5);
+                if (fabs(posn - edge) <= 2*GSL_DBL_EPSILON*fabs(posn)) bin = edge-1;
+            }
+            gsl_vector_set(onecol, i, bin*binwidth+offset);
         }
     }
     if (indata->weights) out->weights = apop_vector_copy(indata->weights);
@@ -367,6 +375,7 @@ APOP_VAR_ENDHEAD
 gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
+    Apop_stopif(v->size <= (bandwidth/2)*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     int halfspan = bandwidth/2;
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
@@ -374,7 +383,6 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
         for (int j=-halfspan; j < halfspan+1; j ++)
             *item += gsl_vector_get(v, j+ i+ halfspan);
         *item /= halfspan*2 +1;
-    Apop_stopif(v->size <= (bandwidth/2)*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     }
     return vout;
 }
-- 
2.43.0


From bdd573595160e4109cef9646276c01740de2c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 050/128] fix: the positive semidefinite test tested for
 positive definiteness

---
 apop_stats.m4.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 22fe53b..45f7019 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -828,10 +828,11 @@ static double biggest_elmt(gsl_matrix *d){
 
 A covariance matrix will always be PSD, so this function can tell you whether your matrix is a valid covariance matrix.
 
-Consider the 1x1 matrix in the upper left of the input, then the 2x2 matrix in the
-upper left, on up to the full matrix. If the matrix is PSD, then each of these has
-a positive determinant. This function thus calculates \f$N\f$ determinants for an
-\f$N\f$x\f$N\f$ matrix.
+For the semidefinite test, I check that no eigenvalue is negative (allowing for rounding
+error).  For the definite test, consider the 1x1 matrix in the upper left of the input,
+then the 2x2 matrix in the upper left, on up to the full matrix. If the matrix is positive
+definite, then each of these has a positive determinant. That test thus calculates
+\f$N\f$ determinants for an \f$N\f$x\f$N\f$ matrix.
 
 \param m The matrix to test. If \c NULL, I will return zero---not PSD.
 \param semi If anything but \c 's', check for positive definite, not semidefinite. (default 's')
@@ -845,11 +846,23 @@ APOP_VAR_HEAD int apop_matrix_is_positive_semidefinite(gsl_matrix *m, char semi)
     Apop_stopif(!m, return 0, 1, "You gave me a NULL matrix. I will take this as not positive semidefinite; returning zero.");
     char apop_varad_var(semi, 's');
 APOP_VAR_ENDHEAD
+    if (semi == 's'){
+        double biggest = biggest_elmt(m);
+        if (!gsl_finite(biggest)) return 0;
+        gsl_matrix *sym = gsl_matrix_alloc(m->size1, m->size1);
+        for (size_t i=0; i< m->size1; i++)
+            for (size_t j=0; j< m->size1; j++)
+                gsl_matrix_set(sym, i, j, (gsl_matrix_get(m, i, j) + gsl_matrix_get(m, j, i))/2);
+        gsl_vector *eigenvals = gsl_vector_alloc(m->size1);
+        gsl_eigen_symm_workspace *w = gsl_eigen_symm_alloc(m->size1);
+        gsl_eigen_symm(sym, eigenvals, w);
+        double smallest = gsl_vector_min(eigenvals);
+        gsl_eigen_symm_free(w); gsl_vector_free(eigenvals); gsl_matrix_free(sym);
+        return smallest >= -10 * GSL_DBL_EPSILON * m->size1 * biggest;
+    }
     for (int i=1; i<= m->size1; i++){
         gsl_matrix mv =gsl_matrix_submatrix (m, 0, 0, i, i).matrix;
-        double det = apop_matrix_determinant(&mv);
-        if ((semi == 'd' && det <0) || det <=0)
-            return 0;
+        if (!(apop_matrix_determinant(&mv) > 0)) return 0;
     }
     return 1;
 }
@@ -868,7 +881,7 @@ Copyright (2007) Jens Oehlschlägel [under the GPL].
 */
 double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     Apop_stopif(!m, return NAN, 0, "Got a NULL matrix. Returning NaN.");
-    if (apop_matrix_is_positive_semidefinite(m)) return 0; 
+    if (apop_matrix_is_positive_semidefinite(m, 'd')) return 0;
     double diffsize=0, dsize;
     apop_data *qdq; 
     gsl_matrix *d = apop_matrix_copy(m);
@@ -957,5 +970,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     apop_data_free(qdq); gsl_vector_free(diag);
     apop_data_free(eigenvecs); gsl_vector_free(eigenvals);
     gsl_matrix_sub(original, m);
-    return biggest_elmt(original)/origsize;
+    diffsize = biggest_elmt(original);
+    gsl_matrix_free(original);
+    return diffsize ? diffsize/origsize : 0;
 }
-- 
2.43.0


From 69ade705ec6db3bc345327ff8d7925d977c5e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 051/128] fix: determinants of singular and non-square
 matrices, handlers left by refused products and inverses, vectors of
 different sizes multiplied

---
 apop_linear_algebra.m4.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index e2f1c26..c057dd5 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -38,9 +38,9 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
-    Set_gsl_handler
-    Apop_stopif(in->size1 != in->size2, *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
+    Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
+    Set_gsl_handler
     int sign;
     double the_determinant = GSL_NAN;
 	gsl_matrix *invert_me = gsl_matrix_alloc(in->size1, in->size1);
@@ -51,8 +51,13 @@ double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, in
 		*out = gsl_matrix_alloc(in->size1, in->size1); //square.
 		Check_gsl_with_outmp(gsl_linalg_LU_invert(invert_me, perm, *out))
     }
-	if (calc_det)
-		the_determinant	= gsl_linalg_LU_det(invert_me, sign);
+    the_determinant = calc_det ? gsl_linalg_LU_det(invert_me, sign) : 0;
+    //Some versions of the GSL fill the elements after a zero pivot with NaNs.
+    for (size_t i=0; calc_det && i< in->size1; i++){
+        double pivot = gsl_matrix_get(invert_me, i, i);
+        if (!gsl_finite(pivot)) break;
+        if (pivot == 0) the_determinant = 0;
+    }
     done:
 	gsl_matrix_free(invert_me);
 	gsl_permutation_free(perm);
@@ -111,8 +116,9 @@ APOP_VAR_HEAD apop_data * apop_matrix_pca(gsl_matrix *data, int const dimensions
     gsl_matrix * apop_varad_var(data, NULL);
     Apop_stopif(!data, return NULL, 1, "NULL data input");
     int const apop_varad_var(dimensions_we_want, data->size2);
+    Apop_stopif(dimensions_we_want < 0 || dimensions_we_want > data->size2, apop_return_data_error(d), 0,
+            "You asked for %i dimensions from data with %zu columns.", dimensions_we_want, data->size2);
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     apop_data *pc_space	= apop_data_alloc(0, data->size2, dimensions_we_want);
     Apop_stopif(pc_space->error, return pc_space, 0, "Allocation error.");
 	pc_space->vector = gsl_vector_alloc(dimensions_we_want);
@@ -124,6 +130,7 @@ APOP_VAR_ENDHEAD
     gsl_matrix *square  	 = gsl_matrix_calloc(data->size2, data->size2);
     Apop_stopif(!eigenvectors || !dummy_v || !all_evalues || !square, pc_space->error='a'; return pc_space, 
                 0, "Allocation error setting up workspace for %zu dimensions.", data->size2);
+    Set_gsl_handler
     double eigentotals	= 0;
     for (int i=0; i< data->size2; i++)
         apop_vector_normalize(Apop_mcv(data, i), NULL, 'm');
@@ -385,7 +392,6 @@ APOP_VAR_HEAD apop_data * apop_dot(const apop_data *d1, const apop_data *d2, cha
     char apop_varad_var(form1, 0)
     char apop_varad_var(form2, 0)
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     int         uselm, userm;
     gsl_matrix  *lm = d1->matrix, 
                 *rm = d2->matrix;
@@ -410,6 +416,7 @@ APOP_VAR_ENDHEAD
         Apop_stopif(1, return NULL, 0, "The right data set has neither non-NULL "
                                   "matrix nor vector. Returning NULL.");
     }
+    Set_gsl_handler
     apop_data *out = apop_data_alloc();
     #define Dimcheck(lr, lc, rr, rc) Apop_stopif((lc)!=(rr), out->error='d'; goto done,\
         0, "mismatched dimensions: %zuX%zu dot %zuX%zu. %s", (lr), (lc), (rr), (rc),\
@@ -447,6 +454,7 @@ APOP_VAR_ENDHEAD
         out->vector = dot_for_apop_dot(lm, rv , lt);
         Apop_stopif(!out->vector, out->error='m'; goto done, 0, "GSL-level math error");
     } else if (!uselm && !userm){ 
+        Dimcheck((size_t)1, lv->size, rv->size, (size_t)1)
         double outd;
         Check_gsl_with_out(gsl_blas_ddot(lv, rv, &outd))
         out->vector = gsl_vector_alloc(1);
-- 
2.43.0


From 61dbc7b2584e2b5aabbfad4ab0d0fadf6cbeac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 052/128] fix: a matrix that is not symmetric was left as it
 was by the projection to semidefinite matrices

---
 apop_stats.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 45f7019..04e3476 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -881,7 +881,7 @@ Copyright (2007) Jens Oehlschlägel [under the GPL].
 */
 double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     Apop_stopif(!m, return NAN, 0, "Got a NULL matrix. Returning NaN.");
-    if (apop_matrix_is_positive_semidefinite(m, 'd')) return 0;
+    if (apop_matrix_is_positive_semidefinite(m, 'd') && apop_matrix_is_positive_semidefinite(m, 's')) return 0;
     double diffsize=0, dsize;
     apop_data *qdq; 
     gsl_matrix *d = apop_matrix_copy(m);
-- 
2.43.0


From 774424ffed091ab864f152b3abb219da53f8e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 053/128] fix: densities outside the support: the lognormal,
 exponential, gamma, beta, Zipf, Yule, multinomial and Dirichlet had NaN or a
 positive density there, and edges of the beta and gamma were NaN or skipped;
 the binomial was used for multinomials of n=2

---
 model/apop_beta.c                | 5 +++--
 model/apop_dirichlet.c           | 9 +++++++--
 model/apop_exponential.c         | 3 +++
 model/apop_gamma.c               | 3 ++-
 model/apop_multinomial.c         | 9 +++------
 model/apop_multivariate_normal.c | 4 ++--
 model/apop_normal.c              | 3 +++
 model/apop_poisson.c             | 2 +-
 model/apop_yule.c                | 5 ++---
 model/apop_zipf.c                | 5 ++++-
 10 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index a8b55bd..3bd7123 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -45,8 +45,9 @@ typedef struct{
 
 static double betamap(double x, void *abin) {
     ab_type *ab = abin; 
-    return (x < 0 || x > 1) ? 0
-                : (ab->alpha-1) * log(x) + (ab->beta-1) *log(1-x); 
+    return (x < 0 || x > 1) ? GSL_NEGINF //outside the support
+                : (ab->alpha==1 ? 0 : (ab->alpha-1) * log(x))
+                  + (ab->beta==1 ? 0 : (ab->beta-1) *log(1-x)); 
 }
 
 #define Get_ab(p) \
diff --git a/model/apop_dirichlet.c b/model/apop_dirichlet.c
index f77e6eb..9b214a2 100644
--- a/model/apop_dirichlet.c
+++ b/model/apop_dirichlet.c
@@ -11,9 +11,14 @@ Copyright (c) 2009 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 #include "apop_internal.h"
 
 static double dirichletlnmap(gsl_vector *v, void *pin) {
-    //we used gsl_matrix_row to get here==>guaranteed that v->stride==1.
     gsl_vector *params = pin;
-    return gsl_ran_dirichlet_lnpdf (params->size, params->data, v->data);
+    double out = gsl_sf_lngamma(apop_sum(params));
+    for (size_t i=0; i< params->size; i++){
+        double a = gsl_vector_get(params, i), x = gsl_vector_get(v, i);
+        if (x < 0) return GSL_NEGINF; //outside the support
+        out += (a==1 ? 0 : (a-1)*log(x)) - gsl_sf_lngamma(a);
+    }
+    return out;
 }
 
 static long double dirichlet_log_likelihood(apop_data *d, apop_model *p){
diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 2bc414b..8ed8bbb 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -27,8 +27,11 @@ static long double beta_greater_than_x_constraint(apop_data *data, apop_model *v
     return apop_linear_constraint(v->parameters->vector, .margin = 1e-3);
 }
 
+static double is_negative(double x){ return x < 0; }
+
 static long double exponential_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN);
+    if (apop_map_sum(d, is_negative)) return GSL_NEGINF; //outside the support
     Get_vmsizes(d) //tsize
     double mu = gsl_vector_get(p->parameters->vector, 0);
     double llikelihood = -((d->matrix ? apop_matrix_sum(d->matrix):0) + (d->vector ? apop_sum(d->vector) : 0))/ mu;
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 82c5e43..c8586e8 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -31,7 +31,8 @@ typedef struct {double a, b, ln_ga_plus_a_ln_b;} abstruct;
 
 static double apply_for_gamma(double x, void *abin) { 
     abstruct *ab = abin;
-    return x ? ((ab->a-1)*log(x) - x/ab->b - ab->ln_ga_plus_a_ln_b) : 0; 
+    if (x < 0) return GSL_NEGINF; //outside the support
+    return (ab->a==1 ? 0 : (ab->a-1)*log(x)) - x/ab->b - ab->ln_ga_plus_a_ln_b; 
 }
 
 static long double gamma_log_likelihood(apop_data *d, apop_model *p){
diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 36990f7..382c631 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -84,16 +84,14 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
     return apop_linear_constraint(b->parameters->vector, constr);
 }
 
-static double binomial_ll(gsl_vector *hits, void *paramv){
-    return log(gsl_ran_binomial_pdf(hits->data[1], ((gsl_vector*)paramv)->data[1], ((gsl_vector*)paramv)->data[0]));
-}
-
 static double multinomial_ll(gsl_vector *v, void *params){
     double *pv = ((apop_model*)params)->parameters->vector->data;
     size_t size = ((apop_model*)params)->parameters->vector->size;
     unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
-    for (size_t i=0; i < v->size; i ++)
+    for (size_t i=0; i < v->size; i ++){
+        if (gsl_vector_get(v, i) < 0) return GSL_NEGINF; //outside the support
         hv[i] = gsl_vector_get(v, i);
+    }
     return gsl_ran_multinomial_lnpdf(size, pv, hv);
 }
 
@@ -105,7 +103,6 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
                     "representing [n, p_1, (...)].");
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
-    if (n==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
 
     pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
     double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index dcbb656..76e1697 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -34,9 +34,9 @@ static long double apop_multinormal_ll(apop_data *data, apop_model * m){
     double ll = 0;
     determinant = apop_det_and_inv(m->parameters->matrix, &inverse, 1,1);
     Apop_stopif(isnan(determinant) || determinant == 0,
-        gsl_vector_free(x_minus_mu); return GSL_NEGINF, //tell maximizers to look elsewhere.
+        gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return GSL_NEGINF, //tell maximizers to look elsewhere.
          1, "the determinant of the given covariance is zero or NaN. Returning GSL_NEGINF."); 
-    Apop_stopif(determinant <= 0, return NAN, 0, "The determinant of the covariance matrix you gave me "
+    Apop_stopif(determinant <= 0, gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return NAN, 0, "The determinant of the covariance matrix you gave me "
             "is negative, but a covariance matrix must always be positive semidefinite "
             "(and so have nonnegative determinant). Maybe run apop_matrix_to_positive_semidefinite?");
     for (i=0; i< data->matrix->size1; i++){
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 54e4297..58fae38 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -168,8 +168,11 @@ static double lnx_minus_mu_squared(double x, void *mu_in){
 	return gsl_pow_2(log(x) - *(double *)mu_in);
 }
 
+static double not_positive(double x){ return x <= 0; }
+
 static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
     Nullcheck_mpd(d, params, GSL_NAN)
+    if (apop_map_sum(d, not_positive)) return GSL_NEGINF; //outside the support
     Get_vmsizes(d) //tsize
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index f2d50f8..ea35611 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -13,7 +13,7 @@
 
 static double apply_me(double x, void *in){
     if (x < 0) return -INFINITY;
-    if ((x - (int)x) > 1e-4) return -INFINITY;
+    if ((x - floor(x)) > 1e-4) return -INFINITY;
     double *ln_l = in;
     return x==0 ? 0 : *ln_l *x - gsl_sf_lngamma(x+1);
 }
diff --git a/model/apop_yule.c b/model/apop_yule.c
index f3470b5..5a1ecff 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -28,9 +28,8 @@ static long double yule_constraint(apop_data *returned_beta, apop_model *m){
 }
 
 static double apply_me(double pt, void *bb){
-    double ln_k = (pt>=1) 
-                   ? gsl_sf_lngamma(pt)
-                   : 0;
+    if (pt < 1) return GSL_NEGINF; //outside the support
+    double ln_k = gsl_sf_lngamma(pt);
     double ln_bb_k = gsl_sf_lngamma(pt+*(double*)bb);
     return ln_k - ln_bb_k;
 }
diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index 40d615a..1642fb0 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -28,12 +28,15 @@ static long double zipf_constraint(apop_data *returned_beta, apop_model *m){
     return apop_linear_constraint(m->parameters->vector, constraint, 1e-4);
 }
 
+static double below_one(double x){ return x < 1; }
+
 static long double zipf_log_likelihood(apop_data *d, apop_model *m){
     Nullcheck_mpd(d, m, GSL_NAN);
     Get_vmsizes(d) //tsize
     long double bb = apop_data_get(m->parameters, 0, -1);
-    Apop_stopif(isnan(bb) || bb < 1, return GSL_NAN, 0, "Zipf needs a parameter >=1; "
+    Apop_stopif(isnan(bb) || bb <= 1, return GSL_NAN, 0, "Zipf needs a parameter >1; "
                                               "got %Lg. Returning NaN.", bb); 
+    if (apop_map_sum(d, below_one)) return GSL_NEGINF; //outside the support
     double like = -apop_map_sum(d, log) * bb;
     like -= log(gsl_sf_zeta(bb)) * tsize;
     return like;
-- 
2.43.0


From 748751b2101ca1558806b503fbcdc1184a1ea615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 054/128] fix: the CDF of a binomial or lognormal at a negative
 point

---
 model/apop_multinomial.c | 1 +
 model/apop_normal.c      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 382c631..b30e2d8 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -36,6 +36,7 @@ static long double binomial_cdf(apop_data *d, apop_model *est){
     Nullcheck_mpd(d, est, GSL_NAN)
     Get_vmsizes(d); //firstcol
     double hitcount = apop_data_get(d, .col=firstcol);
+    if (hitcount < 0) return 0;
     double n = gsl_vector_get(est->parameters->vector, 0);
     double p = gsl_vector_get(est->parameters->vector, 1);
     return gsl_cdf_binomial_P(hitcount, p, n);
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 58fae38..3f51cc1 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -214,7 +214,7 @@ static long double lognormal_cdf(apop_data *d, apop_model *params){
     double val = apop_data_get(d, 0, vsize ? -1 : 0);
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
-    return gsl_cdf_lognormal_P(val, mu, sd);
+    return val <= 0 ? 0 : gsl_cdf_lognormal_P(val, mu, sd);
 }
 
 /* \adoc predict Returns the expeced value, \f$E(x) = e^(mu + sigma^2/2)\f$
-- 
2.43.0


From d6c5f425a5491a3a472ea632bca28812b373f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 055/128] fix: Zipf and Yule draws overflowed an int

---
 model/apop_yule.c |  2 +-
 model/apop_zipf.c | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/model/apop_yule.c b/model/apop_yule.c
index 5a1ecff..1b126ff 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -62,7 +62,7 @@ static void yule_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
 static int yule_rng( double *out, gsl_rng * r, apop_model *a){
 	double e1 = gsl_ran_exponential(r, 1);
 	double e2 = gsl_ran_exponential(r, 1);
-	int x = GSL_MAX((int) (- e1  / log(1 - exp(-e2 / (*a->parameters->vector->data -1)))), 0);
+	double x = GSL_MAX(floor(- e1  / log1p(- exp(-e2 / (*a->parameters->vector->data -1)))), 0);
 	*out =  x + 1;	//we rounded down to floor, but want ceil.
     return 0;
 }
diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index 1642fb0..4d09f41 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -48,18 +48,17 @@ From <a href="http://cgm.cs.mcgill.ca/~luc/mbookindex.html">Devroye (1986)</a>,
 static int zipf_rng(double *out, gsl_rng* r, apop_model *param){
     Nullcheck_mp(param, 1);
     double a = apop_data_get(param->parameters, 0, -1);
-    Apop_stopif(isnan(a) || a < 1, *out=GSL_NAN; return 1, 
-            0, "Zipf needs a parameter >=1; got %g. Setting *out to NAN.", a); 
-    int x;
-    long double u, v, t, 
+    Apop_stopif(isnan(a) || a <= 1, *out=GSL_NAN; return 1, 
+            0, "Zipf needs a parameter >1; got %g. Setting *out to NAN.", a); 
+    long double u, v, x, t_less_1,
             b    = powl(2, a-1), 
             ainv = -(1.0/(a-1));
     do {
-        u = gsl_rng_uniform(r);
+        u = gsl_rng_uniform_pos(r);
         v = gsl_rng_uniform(r);
-        x = powl(u, ainv);
-        t = powl((1.0 + 1.0/x), (a-1));
-    } while (v * x * (t-1.0)/(b-1) > t/b);
+        x = floorl(powl(u, ainv));
+        t_less_1 = expm1l((a-1) * log1pl(1.0/x));
+    } while (v * x * t_less_1/(b-1) > (t_less_1 + 1)/b);
     *out = x;
     return 0;
 }
-- 
2.43.0


From 85c1c1f9046784e0bbd1702c116a3687e86206c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 056/128] fix: poles of the multivariate gamma

---
 apop_stats.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 04e3476..792c17d 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -783,7 +783,8 @@ Because \f$\Gamma(x)\f$ is undefined for \f$x\in\{0, -1, -2, ...\}\f$, this func
 See also \ref apop_multivariate_lngamma, which is more numerically stable in most cases.
 */
 long double apop_multivariate_gamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    for (int i=1; i<=p; i++)
+        Apop_stopif(a+(1-i)/2. <=0 && a+(1-i)/2. == floor(a+(1-i)/2.), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for any j in 1...p [you sent a=%g, p=%i]", a, p);
     long double out = pow(M_PI, p*(p-1.)/4.);
     long double factor = 1;
     for (int i=1; i<=p; i++)
@@ -795,7 +796,8 @@ long double apop_multivariate_gamma(double a, int p){
  \ref apop_multivariate_gamma.
 */
 long double apop_multivariate_lngamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    for (int i=1; i<=p; i++)
+        Apop_stopif(a+(1-i)/2. <=0 && a+(1-i)/2. == floor(a+(1-i)/2.), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for any j in 1...p [you sent a=%g, p=%i]", a, p);
     long double out = M_LNPI * p*(p-1.)/4.;
     for (int i=1; i<=p; i++)
         out += gsl_sf_lngamma(a+(1-i)/2.);
-- 
2.43.0


From 49d93e0f822bc76c616891233c8a94c8b13fed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 057/128] fix: test p-values: no distribution named, tails of
 the Normal swapped, two tails of the uniform, default of the lognormal

---
 apop_tests.m4.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5f99135..0b9ff10 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -431,7 +431,8 @@ Here are the distributions you can use and their parameters.
 */
 APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1, double p2, char tail){
     double  apop_varad_var(statistic, 0);
-    char*  apop_varad_var(distribution, NULL);
+    char*  apop_varad_var(distribution, "normal");
+    if (!distribution) distribution = "normal";
     double apop_varad_var(p1, 0);
     double apop_varad_var(p2, 0);
     int is_chi = !strcasecmp(distribution, "chi squared")|| !strcasecmp(distribution, "chi")
@@ -439,7 +440,7 @@ APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1,
      Apop_stopif(!strcasecmp(distribution, "f") && (!p1 || !p2), return NAN, 0, "I need both a p1 and p2 parameter specifying the degrees of freedom.");
      Apop_stopif((!strcasecmp(distribution, "t") || !strcasecmp(distribution, "f") || is_chi)
              && !p1, return NAN, 0, "I need a p1 parameter specifying the degrees of freedom.");
-     if (!p2 && (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ))
+     if (!p2 && (!strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") || !strcasecmp(distribution, "lognormal")))
          p2 = 1;
      if (!p2 && p1 >= 0 && !strcasecmp(distribution, "uniform"))
          p2 = 1;
@@ -449,11 +450,11 @@ APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1,
 APOP_VAR_ENDHEAD
     //This is a long and boring function. I am aware that there are
     //clever way to make it shorter.
-     if (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ){
+     if (!strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ){
          if (tail == 'u')
-             return gsl_cdf_gaussian_Q(p1-statistic, p2);
+             return gsl_cdf_gaussian_Q(statistic-p1, p2);
          else if (tail == 'l')
-             return gsl_cdf_gaussian_P(p1-statistic, p2);
+             return gsl_cdf_gaussian_P(statistic-p1, p2);
          else
              return 2 * gsl_cdf_gaussian_Q(fabs(p1-statistic), p2);
      }
@@ -496,7 +497,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_flat_P(statistic, p1, p2);
          else
-             return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.), p1, p2);
+             return 2 * gsl_cdf_flat_Q((p1+p2)/2. + fabs(statistic - (p1+p2)/2.), p1, p2);
      }
     Apop_assert(0, "Sorry, but I don't recognize %s as a distribution", distribution);
 }
-- 
2.43.0


From 4167edefcff15982272d2ce1659fddccab8929ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 058/128] fix: harmonic numbers and per-thread random number
 generators read from tables another thread could be moving; every thread had
 the zeroth generator

---
 apop_asst.m4.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index b663af2..d9799e3 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -146,6 +146,7 @@ When reading the code, remember that the zeroth element holds the value for N=1,
     static int		 count	= 0;
     static long double ** precalced=NULL;
     int	old_len, i;
+    long double out;
     OMP_critical(generalized_harmonic)
     { //Due to memoization, this can't parallelize.
 	for (i=0; i< count; i++)
@@ -155,10 +156,10 @@ When reading the code, remember that the zeroth element holds the value for N=1,
 		count			++;
         i               = count - 1;
 		precalced 		= realloc(precalced, sizeof (long double*) * count);
-		lengths 		= realloc(lengths, sizeof (int*) * count);
+		lengths 		= realloc(lengths, sizeof (int) * count);
 		eses 			= realloc(eses, sizeof (double) * count);
 		precalced[i]	= malloc(sizeof(long double) * N);
-		lengths[i]	    = N;
+		lengths[i]	    = 1;
 		eses[i]		    = s;
 		precalced[i][0]	= 1;
 		old_len			= 1;
@@ -170,9 +171,11 @@ When reading the code, remember that the zeroth element holds the value for N=1,
 		precalced[i] = realloc(precalced[i], sizeof(long double) * N);
 		for (int j = old_len; j<N; j++)
 			precalced[i][j] = precalced[i][j-1] + 1/pow((j+1),s);
+		lengths[i] = N;
 	}
+    out = precalced[i][N-1];
     }
-	return 	precalced[i][N-1];
+	return out;
 }
 
 /** Call \c system(), but with <tt>printf</tt>-style arguments. E.g.,
@@ -343,14 +346,16 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static int rng_ct = -1;
 
     if (thread==-1){
-        #ifdef OpenMP
+        #ifdef _OPENMP
             thread = omp_get_thread_num();
         #else
             thread = 0;
         #endif
     }
 
+    gsl_rng *out;
     OMP_critical(rng_get_thread)
+    {
     if (thread > rng_ct)
         {
             rngs = realloc(rngs, sizeof(gsl_rng*)*(thread+1));
@@ -358,7 +363,9 @@ gsl_rng *apop_rng_get_thread_base(int thread){
                 rngs[i] = apop_rng_alloc(++apop_opts.rng_seed);
             rng_ct = thread;
         }
-    return rngs[thread];
+    out = rngs[thread];
+    }
+    return out;
 }
 
 /** Make a set of random draws from a model and write them to an \ref apop_data set.
-- 
2.43.0


From ff6dae8276187e788e5e8015aadfa69b7b2d3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 059/128] fix: adaptive rejection sampling used its default
 starting points after they were gone, ignored a bound of zero, copies shared
 the history of the search, and 1,000 rejections were reported as success

---
 apop_arms.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 0aad8e5..77c2274 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -27,6 +27,14 @@ int initial (apop_arms_settings* params, arms_state *state);
 Apop_settings_copy(apop_arms,
     out->state = malloc(sizeof(arms_state));
     *out->state = *in->state;
+    //the points link to each other; the copy's should link to the copy's.
+    out->state->p = malloc(in->npoint*sizeof(POINT));
+    memcpy(out->state->p, in->state->p, in->npoint*sizeof(POINT));
+    for (int i=0; i< in->state->cpoint; i++){
+        if (in->state->p[i].pl) out->state->p[i].pl = out->state->p + (in->state->p[i].pl - in->state->p);
+        if (in->state->p[i].pr) out->state->p[i].pr = out->state->p + (in->state->p[i].pr - in->state->p);
+    }
+    out->state->convex = &out->convex;
 )
 
 Apop_settings_free(apop_arms,
@@ -37,15 +45,19 @@ Apop_settings_free(apop_arms,
 )
 
 Apop_settings_init(apop_arms,
-    if ((in.xl || in.xr) && !in.xinit)
-        out->xinit = (double []) {in.xl+GSL_DBL_EPSILON, (in.xl+in.xr)/2., in.xr-GSL_DBL_EPSILON};
-    else{
-        //Apop_varad_set(xinit, ((double []) {0, 0.5, 1}));
-        Apop_varad_set(xinit, ((double []) {-1, 0, 1}));
+    double points[] = {-1, 0, 1};
+    int bounded = in.xl < in.xr; //both are given, though one may be zero.
+    if (bounded && !in.xinit){
+        points[0] = in.xl + GSL_MAX(GSL_DBL_EPSILON, (in.xr-in.xl)*1e-6);
+        points[1] = (in.xl+in.xr)/2.;
+        points[2] = in.xr - GSL_MAX(GSL_DBL_EPSILON, (in.xr-in.xl)*1e-6);
     }
+    Apop_varad_set(xinit, points);
     Apop_varad_set(ninit, 3);
-    Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
-    Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
+    if (!bounded){
+        Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
+        Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
+    }
     Apop_varad_set(convex, 0);
     Apop_varad_set(npoint, 100);
     Apop_varad_set(do_metro, 'y');
@@ -70,6 +82,7 @@ Apop_settings_init(apop_arms,
         assert(isfinite(out->state->metro_xprev));
         assert(isfinite(out->state->metro_yprev));
     }
+    out->xinit = in.xinit; //the default points are gone after this.
 )
 
 void distract_doxygen_arms(){/*Doxygen gets thrown by the settings macros. This decoy function is a workaround. */}
@@ -114,7 +127,8 @@ int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     Apop_notify(3, " point rejected.");
   } while (msamp < 1e3);
   Apop_notify(1, "I just rejected 1,000 samples. Something is wrong.");
-  return 0;
+  *out = GSL_NAN;
+  return 1;
 }
 
 int initial (apop_arms_settings* params,  arms_state *env){
@@ -268,6 +282,7 @@ assert(p->pl && p->pr);
 assert(isfinite(p->x));
 assert(p->pl && p->pr);
 Apop_notify(3, "tested (%g, %g); ", p->x, ynew);
+  if (ynew == GSL_NEGINF) return 0; //outside the support of the density.
   
   /* perform rejection test */
   if(params->do_metro != 'y' || (params->do_metro == 'y' && (y >= ynew))){
-- 
2.43.0


From 5556fbbc5968e12dc8dcddbb603299b5fae89aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 060/128] fix: error marks of apop_model_draws other than
 documented; GHgB3 draws overflowed an int

---
 apop_asst.m4.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index d9799e3..42a44e9 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -288,8 +288,9 @@ double apop_rng_GHgB3(gsl_rng * r, double* a){
     double aa = gsl_ran_gamma(r, a[0], 1),
 		   b  = gsl_ran_gamma(r, a[1], 1),
 		   c  = gsl_ran_gamma(r, a[2], 1);
-    int	p = gsl_ran_poisson(r, aa*b/c);
-	return p;
+    double mu = aa*b/c;
+    if (mu > 1e9) return floor(mu + gsl_ran_gaussian(r, sqrt(mu))); //too large for the GSL's unsigned int.
+	return gsl_ran_poisson(r, mu);
 }
 
 /** The Beta distribution is useful for modeling because it is bounded between zero and one, and can be either unimodal (if the variance is low) or bimodal (if the variance is high), and can have either a slant toward the bottom or top of the range (depending on the mean).
@@ -396,17 +397,17 @@ Here is a two-line program to draw a different set of ten Standard Normals on ev
 */
 APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_data *draws){
     apop_model * apop_varad_var(model, NULL);
-    Apop_stopif(!model, apop_return_data_error(n), 0, "Input model is NULL.");
-    Apop_stopif(!model->dsize, apop_return_data_error(n), 0, "Input model has dsize==0.");
+    Apop_stopif(!model, apop_return_data_error(m), 0, "Input model is NULL.");
+    Apop_stopif(!model->dsize, apop_return_data_error(m), 0, "Input model has dsize==0.");
     apop_data * apop_varad_var(draws, NULL);
     int apop_varad_var(count, 1000);
     if (draws) {
         Apop_stopif(!draws->matrix, draws->error='m'; return draws, 1, "Input data set's matrix is NULL.");
-        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; draws->error='m'; return draws,
+        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; return draws,
                 1, "Input data set's matrix column count is less than model->dsize.");
         count = draws->matrix->size1;
     } else
-        Apop_stopif(model->dsize<=0, apop_return_data_error(n), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
+        Apop_stopif(model->dsize<=0, apop_return_data_error(m), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
 APOP_VAR_ENDHEAD
     apop_data *out = draws ? draws : apop_data_alloc(count, model->dsize);
 
-- 
2.43.0


From 21b413305c552c58c259def81a7dbfd070fa7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 061/128] fix: a burn-in of a fractional number of steps left a
 row more or less than the draws; steps added to a chain had no weight

---
 apop_mcmc.m4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 54b461a..abae761 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -182,6 +182,10 @@ OMP_critical (metro_draw)
     while (!done){
         s->proposal_count++;
         earlier_draws->matrix = apop_matrix_realloc(earlier_draws->matrix, earlier_draws->matrix->size1+1, earlier_draws->matrix->size2);
+        if (earlier_draws->weights) {
+            earlier_draws->weights = apop_vector_realloc(earlier_draws->weights, earlier_draws->matrix->size1);
+            gsl_vector_set(earlier_draws->weights, earlier_draws->weights->size-1, 1);
+        }
         one_step(s->base_model->data, &(vv.vector), m, s, rng, &constraint_fails, 
                             earlier_draws, block, earlier_draws->matrix->size1-1);
         block = (block+1) % s->block_count;
@@ -298,8 +302,8 @@ APOP_VAR_END_HEAD
                 1, "Burn-in should be a fraction of the number of periods, "
                    "not a whole number of periods. Rescaling to burnin=%g."
                    , s->burnin/double_periods);
-		double integerpart_periods_cburnin = GSL_NAN; modf(double_periods*(1.0-s->burnin),&integerpart_periods_cburnin);
-		const size_t data_size1 = llround(integerpart_periods_cburnin);
+		double integerpart_periods_burnin = GSL_NAN; modf(double_periods*s->burnin,&integerpart_periods_burnin);
+		const size_t data_size1 = s->periods - lround(integerpart_periods_burnin); //same count as main_mcmc_loop
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
     if (!s->proposals){
@@ -326,7 +330,7 @@ APOP_VAR_END_HEAD
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
     Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
 
-    out->weights = gsl_vector_alloc(s->periods*(1-s->burnin));
+    out->weights = gsl_vector_alloc(data_size1);
     gsl_vector_set_all(out->weights, 1);
     outp = apop_estimate(out, apop_pmf);
     s->pmf = outp;
-- 
2.43.0


From da39604641bc26635100e7772749f16b0e9f7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 062/128] fix: threads shared the search history of adaptive
 rejection sampling

---
 apop_model.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index ad03cd3..8fc14ee 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -414,8 +414,12 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
     if (!r) r = apop_rng_get_thread(-1);
     if (m->draw)
         return m->draw(out, r, m); 
-    else if (m->dsize == 1)
-        return apop_arms_draw(out, r, m);
+    else if (m->dsize == 1){
+        int failed;
+        OMP_critical (arms_draw) //the history of the search is attached to the model.
+        failed = apop_arms_draw(out, r, m);
+        return failed;
+    }
     //Else, MCMC, possibly setting it up first.
     //generate a model with data/params reversed
     //estimate mcmc. Swapped model will be stored as settings->base_model.
-- 
2.43.0


From 3ba9d16252e96c94e50f7290cb17a79459b31ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 063/128] fix: draws from a kernel density over a vector were
 all around a made-up point, and threads moved each other's kernel

---
 model/apop_kerneld.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index f3c8d1b..0e728d0 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -145,12 +145,22 @@ static int kernel_draw(double *d, gsl_rng *r, apop_model *m){
     //randomly select a point, using the weights.
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
     apop_model *pmf = apop_settings_get(m, apop_kernel_density, base_pmf);
-    apop_data *point = apop_data_alloc(1, pmf->dsize);
-    Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
-    (ks->set_fn)(point, ks->kernel);
+    Get_vmsizes(pmf->data); //vsize, msize2
+    double drawn[msize2 + !!vsize];
+    Apop_stopif(apop_draw(drawn, r, pmf), return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
+    apop_data *point = apop_data_alloc(!!vsize, !!msize2, msize2); //same form as the rows of the base data.
+    if (vsize) gsl_vector_set(point->vector, 0, drawn[0]);
+    for (int i=0; i < msize2; i++) gsl_matrix_set(point->matrix, 0, i, drawn[i + !!vsize]);
+
     //Now draw from the distribution around that point.
-    Apop_stopif(apop_draw(d, r, ks->kernel), return 2, 0, "unable to draw from a single selected kernel.");
+    int failed;
+    OMP_critical(kernel_p_cdf)
+    {
+    (ks->set_fn)(point, ks->kernel);
+    failed = apop_draw(d, r, ks->kernel);
+    }
     apop_data_free(point);
+    Apop_stopif(failed, return 2, 0, "unable to draw from a single selected kernel.");
     return 0;
 }
 
-- 
2.43.0


From 2a8af2607d00fb036b71337b6b0e6a93dd5a862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 064/128] fix: a binomial draw wrote two numbers where one was
 promised; draws and likelihoods changed the parameters while running; draw
 size after estimation was the count of draws

---
 model/apop_multinomial.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index b30e2d8..2f23f4b 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -86,14 +86,13 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
 }
 
 static double multinomial_ll(gsl_vector *v, void *params){
-    double *pv = ((apop_model*)params)->parameters->vector->data;
-    size_t size = ((apop_model*)params)->parameters->vector->size;
+    gsl_vector *pv = params; //the probabilities
     unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
     for (size_t i=0; i < v->size; i ++){
         if (gsl_vector_get(v, i) < 0) return GSL_NEGINF; //outside the support
         hv[i] = gsl_vector_get(v, i);
     }
-    return gsl_ran_multinomial_lnpdf(size, pv, hv);
+    return gsl_ran_multinomial_lnpdf(pv->size, pv->data, hv);
 }
 
 static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
@@ -105,9 +104,10 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
 
-    pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
-    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
-    pv[0]=n;
+    gsl_vector *probs = apop_vector_copy(params->parameters->vector); //making the params a p-vector
+    gsl_vector_set(probs, 0, 1 - (apop_sum(params->parameters->vector)-n));
+    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=probs);
+    gsl_vector_free(probs);
     return out;
 }
 
@@ -127,17 +127,22 @@ static apop_model *multinomial_paramdist(apop_data *d, apop_model *m){
 
 static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
     Nullcheck_mp(est, 1);
-    double * p = est->parameters->vector->data;
-    //the trick where we turn the params into a p-vector
-    int N = p[0];
-
+    int N = est->parameters->vector->data[0];
     if (est->parameters->vector->size == 2) {
-        *out = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
-        out[1] = N-*out;
-        goto done;
+        int misses = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
+        if (est->dsize == 1) { //a Binomial: one number, the hits.
+            *out = N-misses;
+            return 0;
+        }
+        out[0] = misses;
+        out[1] = N-misses;
+        return 0;
     }
     //else, multinomial
     //cut/pasted/modded from the GSL. Copyright them.
+    //the trick where we turn the params into a p-vector (a copy, because other threads may be drawing from this model).
+    double p[est->parameters->vector->size];
+    for (int i = 0; i < est->parameters->vector->size; i++) p[i] = gsl_vector_get(est->parameters->vector, i);
     p[0] = 1 - (apop_sum(est->parameters->vector)-N);
     double sum_p = 0.0;
     int sum_n = 0;
@@ -149,8 +154,6 @@ static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
         sum_p += p[i];
         sum_n += out[i];
     }
-    done:
-    p[0] = N;
     return 0;
 }
 
@@ -182,7 +185,7 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
         sprintf(name, "p%i", i);
         apop_name_add(est->parameters->names, name, 'r');
     }
-    est->dsize = n;
+    if (est->dsize != 1) est->dsize = v->size; //one number for a Binomial; else one per bin
     make_covar(est);
     apop_data_add_named_elmt(est->info, "log likelihood", multinomial_log_likelihood(data, est));
 }
-- 
2.43.0


From 98ba582378fe2f779c85779d272fe2fd4595b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 065/128] fix: the last row of an unweighted PMF was never
 drawn; draws of rows with vector and matrix were misplaced

---
 model/apop_pmf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 792a18a..20e6170 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -139,7 +139,7 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
-        current = gsl_rng_uniform(r)* (maxsize-1);
+        current = gsl_rng_uniform(r)* maxsize;
     else {
         size_t size = m->data->weights->size;
         #pragma omp critical (pmfsetuptwo)
@@ -181,8 +181,8 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     if (outrow->vector)
         out[i++] = outrow->vector->data[0];
     if (outrow->matrix)
-        for( ; i < outrow->matrix->size2; i ++)
-            out[i] = gsl_matrix_get(outrow->matrix, 0, i);
+        for(int j=0; j < outrow->matrix->size2; j ++)
+            out[i++] = gsl_matrix_get(outrow->matrix, 0, j);
     return 0;
 }
 
@@ -290,6 +290,7 @@ static void pmf_prep(apop_data * data, apop_model *model){
     Get_vmsizes(data) //msize2, firstcol
     int width = msize2 ? msize2 : -firstcol;//use the vector only if there's no matrix.
     if (Apop_settings_get_group(model, apop_pmf) && Apop_settings_get(model, apop_pmf, draw_index)=='y' && !width) model->dsize=0;
+    if (model->dsize==-1 && vsize && msize2) model->dsize = msize2+1; //a draw has both the vector and matrix elements.
     apop_model_clear(data, model);
 }
 
-- 
2.43.0


From cc07fc265a99519120c9da77954ebd157aa1cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 066/128] fix: Normal estimation pools vector and matrix with
 one n-1 variance; covariance scaled by n

---
 apop_internal.h     |  1 +
 model/apop_normal.c | 16 ++++++----------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index 9993889..70ec90d 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -81,6 +81,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #endif
 
 #include "apop.h"
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //In apop_normal.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
 
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 3f51cc1..8ec07d6 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -64,13 +64,9 @@ void get_mu_var(apop_data *data, double *mu_out, double *var_out){
     *var_out = 0;
     if      (!vsize && !msize1) *var_out = 0;
     else if (vsize && !msize1)  *var_out = vvar;
-    else if (!vsize && msize1)  *var_out = mvar;
-    else {
-        long double vv=0;
-        for (int i=-1; i< msize2; i++)
-            vv += gsl_pow_2(apop_data_get(data, i) - *mu_out);
-        *var_out = vv/tsize;
-    }
+    else if (!vsize && msize1)  *var_out = mvar * tsize/(tsize-1.); //sample variance, as with the vector
+    else //one list of numbers that happens to be kept in two places
+        *var_out = apop_map_sum(data, .fn_dp=apply_me2, .param=mu_out)/(tsize-1.);
 }
 
 /* \adoc estimated_info Reports the log likelihood.*/
@@ -89,8 +85,8 @@ static void normal_estimate(apop_data * data, apop_model *est){
 	if (!p || p->want_cov=='y'){
         apop_data *cov = apop_data_get_page(est->parameters, "<Covariance>");
         if (!cov) cov = apop_data_add_page(est->parameters, apop_data_calloc(2, 2), "<Covariance>");
-        apop_data_set(cov, 0, 0, mean/tsize);
-        apop_data_set(cov, 1, 1, 2*gsl_pow_2(var)/(tsize-1));
+        apop_data_set(cov, 0, 0, var/tsize);
+        apop_data_set(cov, 1, 1, var/(2*(tsize-1.))); //var(σ²)=2σ⁴/(n-1), and the parameter is σ.
     }
     est->data = data;
     apop_data_add_named_elmt(est->info, "log likelihood", normal_log_likelihood(data, est));
@@ -127,7 +123,7 @@ apop_data * normal_predict(apop_data *dummy, apop_model *m){
     if (!cov) cov = apop_data_add_page(out, apop_data_alloc(1,1), "<Covariance>");
     if (m->data){
            Get_vmsizes(m->data) //tsize
-           cov->matrix->data[0] = m->parameters->vector->data[1]/ sqrt(tsize);
+           cov->matrix->data[0] = gsl_pow_2(m->parameters->vector->data[1])/tsize;
     } else cov->matrix->data[0] = 0;
     return out;
 }
-- 
2.43.0


From e8d264c61a6cd712bdd221afc07fab1212a0aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 067/128] fix: exponential estimation with both vector and
 matrix

---
 model/apop_exponential.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 8ed8bbb..04b7a61 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -53,8 +53,8 @@ static void exponential_estimate(apop_data * data,  apop_model *est){
     apop_score_vtable_add(exponential_dlog_likelihood, apop_exponential);
     apop_name_add(est->parameters->names, "μ", 'r');
     Get_vmsizes(data); //msize1, msize2, vsize, tsize
-    double mu =  (vsize ? vsize * apop_vector_mean(data->vector):0
-                + msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0)/tsize;
+    double mu =  ((vsize ? vsize * apop_vector_mean(data->vector) : 0)
+                + (msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix) : 0))/tsize;
 	gsl_vector_set(est->parameters->vector, 0, mu);
     apop_data_add_named_elmt(est->info, "log likelihood", exponential_log_likelihood(data, est));
 }
-- 
2.43.0


From 8d226c969198bd882597d527a1911697f912e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 068/128] fix: beta estimation uses the second moment
 documented; no abort outside the parameter space

---
 model/apop_beta.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 3bd7123..ef9b656 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -18,16 +18,10 @@ static long double beta_log_likelihood(apop_data *d, apop_model *p);
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void beta_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
-    Get_vmsizes(data) //vsize, msize1,...
-    double		mmean=0, mvar=0, vmean=0, vvar=0, alpha, beta;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1)
-        apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);	
-    double mean = mmean *(msize1*msize2/tsize) + vmean *(vsize/tsize);
-    double var = mvar *(msize1*msize2/tsize) + vvar *(vsize/tsize);
+    double mean, var, alpha, beta;
+    get_mu_var(data, &mean, &var);
+    Get_vmsizes(data) //tsize
+    var *= (tsize-1.)/tsize; //the data's second moment, never more than mean*(1-mean); the sample variance may be.
     apop_data_add_names(est->parameters, 'r', "α", "β");
     alpha   = gsl_pow_2(mean) * ((1-mean)/var - 1/mean);
     beta    = alpha * (1-mean)/mean;
@@ -59,6 +53,7 @@ static long double beta_log_likelihood(apop_data *d, apop_model *p){
     Get_vmsizes(d) //tsize
     Get_ab(p) //ab
     Apop_stopif(isnan(ab.alpha+ab.beta), return GSL_NAN, 0, "NaN α or β input.");
+    Apop_stopif(ab.alpha<=0 || ab.beta<=0, return GSL_NAN, 0, "α=%g and β=%g should both be positive.", ab.alpha, ab.beta);
 	return apop_map_sum(d, .fn_dp = betamap, .param=&ab) - gsl_sf_lnbeta(ab.alpha, ab.beta) * tsize;
 }
 
-- 
2.43.0


From 0d1df51ab5a754441427ed1ae7ee4150bbe5cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 069/128] fix: gamma estimation by the documented moments,
 reporting a log likelihood

---
 model/apop_gamma.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index c8586e8..ee2d526 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -95,17 +95,13 @@ static void gamma_prep(apop_data *data, apop_model *params){
       b = var/E
 */
 static void gamma_est(apop_data *data, apop_model *m){
-    Get_vmsizes(data)
-    double mmean=0, mvar=0, vmean=0, vvar=0;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1) apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);
-    double mean = mmean *(msize1*msize2/(tsize+0.0)) + vmean *(vsize/(tsize+0.0));
-    double var = mvar *(msize1*msize2/(tsize+0.0)) + vvar *(vsize/(tsize+0.0));
+    double mean, var;
+    get_mu_var(data, &mean, &var);
+    Get_vmsizes(data) //tsize
+    var *= (tsize-1.)/tsize; //the data's second moment
     apop_data_set(m->parameters, 0, .val=gsl_pow_2(mean)/var);
     apop_data_set(m->parameters, 1, .val=var/mean);
+    apop_data_add_named_elmt(m->info, "log likelihood", gamma_log_likelihood(data, m));
 }
 
 apop_model *apop_gamma = &(apop_model){"Gamma distribution", 2,0,0, .dsize=1, 
-- 
2.43.0


From 36c2f0e5123ad5a093bea0f01c77359d952dfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 070/128] fix: t estimation with vector plus matrix and from an
 estimated model; log density without aborts

---
 model/apop_t.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/model/apop_t.c b/model/apop_t.c
index 2da62c7..641207d 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -7,18 +7,13 @@ Copyright (c) 2009, 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 
 static void apop_t_estimate(apop_data *d, apop_model *m){
     Apop_stopif(!d, m->error='d'; return, 0, "No data with which to count df. (the default estimation method)");
-    Get_vmsizes(d); //vsize, msize1, msize2, tsize
-    double vmu = vsize ? apop_mean(d->vector) : 0;
-    double v_sum_sq = vsize ? apop_var(d->vector)*(vsize-1) : 0;
-    double m_sum_sq = 0;
-    double mmu = 0;
-   if (msize1) {
-       apop_matrix_mean_and_var(d->matrix, &mmu, &m_sum_sq);
-       m_sum_sq *= msize1*msize2-1;
-   }
-    apop_data_add_named_elmt(m->parameters, "μ", (vmu *vsize + mmu * msize1*msize2)/tsize);
-    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * (v_sum_sq + m_sum_sq)/(tsize-1))); 
-    apop_data_add_named_elmt(m->parameters, "df", tsize-1);
+    Get_vmsizes(d); //tsize
+    double mu, var;
+    get_mu_var(d, &mu, &var);
+    apop_data_add_names(m->parameters, 'r', "μ", "σ", "df");
+    apop_data_set(m->parameters, 0, -1, mu);
+    apop_data_set(m->parameters, 1, -1, sqrt(((tsize-3.)/(tsize-1)) * var));
+    apop_data_set(m->parameters, 2, -1, tsize-1);
     apop_data_add_named_elmt(m->info, "log likelihood", m->log_likelihood(d, m));
 }
 
@@ -26,7 +21,9 @@ static double one_t(double in, void *params){
     double mu = ((double*)params)[0];
     double sigma = ((double*)params)[1];
     double df = ((double*)params)[2];
-    return log(gsl_ran_tdist_pdf((in-mu)/sigma, df)); 
+    double z = (in-mu)/sigma;
+    //The log of gsl_ran_tdist_pdf, which aborts given the extreme df an optimizer may try.
+    return lgamma((df+1)/2) - lgamma(df/2) - log(M_PI*df)/2 - (df+1)/2 * log1p(z*z/df);
 }
 
 static long double apop_tdist_llike(apop_data *d, apop_model *m){ 
-- 
2.43.0


From 9fe3f70b36a312da2fd79098aba9dac06b95d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 071/128] fix: covariance of the Bernoulli p is over n

---
 model/apop_bernoulli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_bernoulli.c b/model/apop_bernoulli.c
index d759be8..aafd322 100644
--- a/model/apop_bernoulli.c
+++ b/model/apop_bernoulli.c
@@ -36,7 +36,7 @@ static void bernoulli_estimate(apop_data * data,  apop_model *est){
 	gsl_vector_set(est->parameters->vector, 0, p);
     apop_data_add_named_elmt(est->info, "log likelihood", bernoulli_log_likelihood(data, est));
     apop_data *cov = apop_data_add_page(est->parameters, apop_data_alloc(1,1), "<Covariance>");
-    apop_data_set(cov, 0,0, p*(1-p));
+    apop_data_set(cov, 0,0, p*(1-p)/n);
 }
 
 static long double bernoulli_constraint(apop_data *data, apop_model *inmodel){
-- 
2.43.0


From 75a50398dc15bfa60505aead24ab5d5cca0b50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 072/128] fix: Poisson score counts vector data

---
 model/apop_poisson.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index ea35611..8ebe40d 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -67,8 +67,7 @@ static void poisson_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_mod
     Get_vmsizes(d) //tsize
     Nullcheck_mpd(d, p, )
     double     lambda = apop_data_get(p->parameters);
-    gsl_matrix *data = d->matrix;
-    double     d_a = apop_matrix_sum(data)/lambda - tsize;
+    double     d_a = data_mean(d)*tsize/lambda - tsize;
     gsl_vector_set(gradient,0, d_a);
 }
 
-- 
2.43.0


From 5e55394bbc62a2e1a1f7b2c4fb6ed53912913c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 073/128] fix: multivariate Normal estimation reports the
 documented covariance, frees prepped parameters

---
 model/apop_multivariate_normal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index 76e1697..2c14ee1 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -54,10 +54,13 @@ static double a_mean(gsl_vector * in){ return apop_vector_mean(in); }
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>.  */ 
 static void multivariate_normal_estimate(apop_data * data, apop_model *p){
+    apop_data_free(p->parameters); //what apop_prep allocated
     p->parameters = apop_map(data, .fn_v=a_mean, .part='c'); 
     apop_data *cov =  apop_data_covariance(data);
     p->parameters->matrix =  cov->matrix;
-    cov->matrix = NULL; apop_data_free(cov);
+    cov->matrix = apop_matrix_copy(cov->matrix);
+    gsl_matrix_scale(cov->matrix, 1./data->matrix->size1);
+    apop_data_add_page(p->parameters, cov, "<Covariance>"); //of the means
     apop_data_add_named_elmt(p->info, "log likelihood", apop_multinormal_ll(data, p));
 }
 
-- 
2.43.0


From bb1d92400670df4ef6cfdd4c15b0fa29bb5d986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 074/128] fix: leak in multinomial estimation

---
 model/apop_multinomial.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 2f23f4b..9d6e62e 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -174,6 +174,7 @@ double avs(gsl_vector *v){return (double) apop_vector_sum(v);}
 static void multinomial_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     Get_vmsizes(data); //vsize, msize1
+    apop_data_free(est->parameters); //what apop_prep allocated
     est->parameters= apop_map(data, .fn_v=avs, .part='c');
     gsl_vector *v = est->parameters->vector;
     int n = apop_sum(v)/data->matrix->size1; //size of one row
-- 
2.43.0


From e84938a0a4b6e965c6f716c0a0e66db7f66fb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 075/128] fix: apop_estimate on an estimated model starts
 without the old data's info and covariance

---
 apop_model.m4.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 8fc14ee..1b6a601 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -228,6 +228,15 @@ MLE settings.
 */
 apop_model *apop_estimate(apop_data *d, apop_model *m){
     apop_model *out = apop_model_copy(m);
+    if (out->info && out->info->names->rowct){//The input is itself an estimate; don't mix its results with the new ones.
+        apop_data_free(out->info);
+        if (d) out->data = d;
+        if (out->parameters){
+            apop_data_rm_page(out->parameters, "<Covariance>");
+            apop_name_free(out->parameters->names);
+            out->parameters->names = apop_name_alloc();
+        }
+    }
     apop_prep(d, out);
     if (out->estimate) out->estimate(d, out); 
     else               apop_maximum_likelihood(d, out);
-- 
2.43.0


From a4fd8004ab2d95c12c7f0f7ee83eaad6b33e9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 076/128] fix: apop_linear_constraint returns the nearest
 admissible point, whatever was checked before

---
 apop_linear_constraint.m4.c | 151 ++++++------------------------------
 1 file changed, 25 insertions(+), 126 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 688242a..a517828 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -5,87 +5,12 @@ Copyright (c) 2007, 2009 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 */
 #include "apop_internal.h"
 
-static double magnitude(gsl_vector *v){
-    double out;
-    gsl_blas_ddot(v, v, &out);
-    return out;
-}
-
-static void find_nearest_point(gsl_vector *V, double k, gsl_vector *B, gsl_vector *out){
-    /* Find X such that BX =K and there is an S such that X + SB=V. */
-    double S=0; //S = (BV-K)/B'B.
-    gsl_blas_ddot(B, V, &S);
-    S   -= k;
-assert(!gsl_isnan(S));
-    S   /= magnitude(B);
-assert(!gsl_isnan(S));
-    gsl_vector_memcpy(out, B); //X = -SB +V
-    gsl_vector_scale(out, -S);
-    gsl_vector_add(out, V);
-assert(!gsl_isnan(gsl_vector_get(out,0)));
-}
-
-static int binds(gsl_vector const *v, double k, gsl_vector const *b, double margin){
+/* How far does v have to go along b to meet vb >= k, with the given margin? Zero or less if v already meets it. */
+static double shortfall(gsl_vector const *v, double k, gsl_vector const *b, double margin){
     double d;
     gsl_blas_ddot(v, b, &d);
-    return d < k + margin;
-}
-
-static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
-    double theta, costheta, dot, out;
-    gsl_blas_ddot(dimv, otherv, &dot);
-    costheta = dot/(magnitude(dimv)*magnitude(otherv));
-    theta = acos(costheta);
-    out = off_by/gsl_pow_2(sin(theta)); 
-    return out;
-}
-
-/* The hard part is when your candidate point does not satisfy other
-   constraints, so you need to translate the point until it meets the new hypersurface.
-   How far is that? Project beta onto the new surface, and find the
-   distance between that projection and the original surface. Then
-   translate beta toward the original surface by that amount. The
-   projection of the translated beta onto the new surface now also touches the old
-   surface.
-   */
-static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, gsl_vector *candidate, double margin){
-    double k, ck, off_by, s;
-    gsl_vector *pseudobeta        = NULL;
-    gsl_vector *pseudocandidate   = NULL;
-    gsl_vector *pseudocandidate2  = NULL;
-    gsl_vector *fix               = NULL;
-    gsl_vector *cc = Apop_rv(constraint, current);
-    ck = gsl_vector_get(constraint->vector, current);
-    find_nearest_point(beta, ck, cc, candidate);
-    for (size_t i=0; i< constraint->vector->size; i++){
-        if (i!=current){
-            gsl_vector *other = Apop_rv(constraint, i);
-            k   =apop_data_get(constraint, i, -1);
-            if (binds(candidate, k, other, margin)){
-                if (!pseudobeta){
-                    pseudobeta          = gsl_vector_alloc(beta->size);
-                    gsl_vector_memcpy(pseudobeta, beta);
-                    pseudocandidate     = gsl_vector_alloc(beta->size);
-                    pseudocandidate2    = gsl_vector_alloc(beta->size);
-                    fix                 = gsl_vector_alloc(beta->size);
-                }
-                find_nearest_point(pseudobeta, k, other, pseudocandidate);
-                find_nearest_point(pseudocandidate, ck, cc, pseudocandidate2);
-                off_by  = apop_vector_distance(pseudocandidate, pseudocandidate2);
-                s       = trig_bit(cc, other, off_by);
-                gsl_vector_memcpy(fix, cc);
-                gsl_vector_scale(fix, magnitude(cc));
-                gsl_vector_scale(fix, s);
-                gsl_vector_add(pseudobeta, fix);
-                find_nearest_point(pseudobeta, k, other, candidate);
-                gsl_vector_memcpy(pseudobeta, candidate);
-            } 
-        }
-    }
-    if (fix){ 
-        gsl_vector_free(fix); gsl_vector_free(pseudobeta);
-        gsl_vector_free(pseudocandidate); gsl_vector_free(pseudocandidate2);
-    }
+    double norm = gsl_blas_dnrm2(b);
+    return norm ? (k - d)/norm + margin : 0;
 }
 
 /** This is designed to be called from within the constraint method of your \ref
@@ -140,57 +65,31 @@ APOP_VAR_HEAD long double  apop_linear_constraint(gsl_vector *beta, apop_data *
         constraint = default_constraint;
     }
 APOP_VAR_ENDHEAD
-    static threadlocal gsl_vector *closest_pt = NULL;
-    static threadlocal gsl_vector *candidate  = NULL;
-    static threadlocal gsl_vector *fix        = NULL;
     int constraint_ct = constraint->matrix->size1;
-    int bindlist[constraint_ct];
-    int i, bound = 0;
-    /* For added efficiency, keep a scratch vector or two on hand. */
-    if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
-        closest_pt  = gsl_vector_calloc(beta->size);
-        candidate   = gsl_vector_alloc(beta->size);
-        fix         = gsl_vector_alloc(beta->size);
-        closest_pt->data[0] = GSL_NEGINF;
-    }
     /* Do any constraints bind?*/
-    memset(bindlist, 0, sizeof(int)*constraint_ct);
-    for (i=0; i< constraint_ct; i++){
-        gsl_vector *c = Apop_rv(constraint, i);
-        bound       +=
-        bindlist[i] = binds(beta, apop_data_get(constraint, i, -1), c, margin);
-    }
+    int bound = 0;
+    for (int i=0; i< constraint_ct && !bound; i++)
+        bound = shortfall(beta, apop_data_get(constraint, i, -1), Apop_rv(constraint, i), margin) > 0;
     if (!bound) return 0;   //All constraints met.
     gsl_vector *base_beta = apop_vector_copy(beta);
-    /* With only one constraint, it's easy. */
-    if (constraint->vector->size==1){
-        gsl_vector *c = Apop_rv(constraint, 0);
-        find_nearest_point(base_beta, constraint->vector->data[0], c, beta);
-        goto add_margin;
-    }
-    /* Finally, multiple constraints, at least one binding.
-       For each surface, pick a candidate point.
-       Check whether the point meets the other constraints. 
-            if not, translate to a new point that works.
-            [Do this by maintaining a pseudopoint that translates by the
-            necessary amount.]
-        Once you have a candidate point, compare its distance to the
-        current favorite; keep the best.
-     */
-    for (i=0; i< constraint_ct; i++)
-        if (bindlist[i]){
-            get_candiate(base_beta, constraint, i, candidate, margin);
-            if(apop_vector_distance(base_beta, candidate) < apop_vector_distance(base_beta, closest_pt))
-                gsl_vector_memcpy(closest_pt, candidate);
-        }
-    gsl_vector_memcpy(beta, closest_pt);
-add_margin:
-    for (i=0; i< constraint_ct; i++){
-        if(bindlist[i]){
-            gsl_vector_memcpy(fix, Apop_rv(constraint, i));
-            gsl_vector_scale(fix, magnitude(fix));
-            gsl_vector_scale(fix, margin);
-            gsl_vector_add(beta, fix);
+
+    /* Hildreth's method: move to each violated surface in turn, and when a later step
+       turns out to have made an earlier one too long, take back the excess, until nothing
+       moves. Given one constraint, or constraints on distinct elements, this is one step
+       per constraint, and the test that there is nothing left to do. */
+    double steps[constraint_ct];
+    memset(steps, 0, sizeof(steps));
+    double moved = 1;
+    for (int ctr=0; moved > 0 && ctr < 1e5; ctr++){
+        moved = 0;
+        for (int i=0; i< constraint_ct; i++){
+            gsl_vector *c = Apop_rv(constraint, i);
+            double step = shortfall(beta, apop_data_get(constraint, i, -1), c, margin);
+            if (step < -steps[i]) step = -steps[i];
+            if (!(fabs(step) > 1e-15 * (steps[i] + gsl_blas_dnrm2(beta)))) continue;
+            gsl_blas_daxpy(step/gsl_blas_dnrm2(c), c, beta);
+            steps[i] += step;
+            moved += fabs(step);
         }
     }
     long double out = apop_vector_distance(base_beta, beta);
-- 
2.43.0


From 280426a755c91e9fe3cf4f9be413aecca59362ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 077/128] fix: ML searches: report the log likelihood, status,
 and path at the parameters returned; restart; leaks

---
 apop_mle.m4.c | 111 ++++++++++++++++++++++++++++----------------------
 1 file changed, 62 insertions(+), 49 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7377bfb..02494af 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -26,14 +26,13 @@ typedef struct {
     grad_params *gp; //Used only by apop_internal_numerical_gradient.
     gsl_vector  *beta, *starting_pt;
     int         use_constraint;
-    double      best_ll;
     char        want_cov, want_predicted, want_tests, want_info;
     jmp_buf     bad_eval_jump;
     apop_data** path;
 }   infostruct;
 /** \endcond */ //End of Doxygen ignore.
 
-static apop_model * find_roots (infostruct p); //see end of file.
+static void find_roots (infostruct p); //see end of file.
 
 m4_define(<|default_delta|>,1e-3) //as a macro, we can put it in documentation
 
@@ -82,7 +81,7 @@ static double one_d(double b, void *in){
     apop_data_unpack(i->gp->beta, i->model->parameters);
 	if (i->model->constraint)
 		penalty	= i->model->constraint(i->data, i->model);
-	return (*(i->f))(i->data, i->model) + penalty;
+	return (*(i->f))(i->data, i->model) - penalty;
 }
 
 //Numeric first and second derivatives.
@@ -104,6 +103,8 @@ static void apop_internal_numerical_gradient(apop_fn_with_params ll,
 		gsl_deriv_central(&F, gsl_vector_get(beta,j), delta, &result, &err);
 		gsl_vector_set(out, j, result);
 	}
+    apop_data_unpack(beta, info->model->parameters); //undo the jiggling.
+    gsl_vector_free(i.gp->beta);
     gsl_vector_free(beta);
 }
 
@@ -198,7 +199,6 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(model->parameters) //tsize
     size_t betasize  = tsize;
     apop_data *out = apop_data_calloc(0, betasize, betasize);
-    gsl_vector *dscore = gsl_vector_alloc(betasize);
     apop_model_for_infomatrix_struct ms = { .base_model = model, .current_index = &k, };
     apop_model *m = apop_model_copy(apop_model_for_infomatrix);
     m->parameters = model->parameters;
@@ -206,7 +206,7 @@ APOP_VAR_ENDHEAD
     if (apop_settings_get_group(model, apop_mle))
         apop_settings_copy_group(m, model, "apop_mle");
     for (k=0; k< betasize; k++){
-        dscore = apop_numerical_gradient(data, m, delta);
+        gsl_vector *dscore = apop_numerical_gradient(data, m, delta);
         //We get two estimates of the (k,j)th element, which are often very close,
         //and take the mean.
         for (size_t j=0; j< betasize; j++){
@@ -215,6 +215,9 @@ APOP_VAR_ENDHEAD
         }
         gsl_vector_free(dscore);
     }
+    m->parameters = NULL; //belong to the input model
+    m->more = NULL;
+    apop_model_free(m);
     if (model->parameters->names->row){
         apop_name_stack(out->names, model->parameters->names, 'r');
         apop_name_stack(out->names, model->parameters->names, 'c', 'r');
@@ -253,7 +256,7 @@ APOP_VAR_ENDHEAD
     }
     apop_data *out = apop_data_alloc();
     out->matrix = apop_matrix_inverse(hessian->matrix);
-    gsl_matrix_scale(out->matrix, -1);
+    if (out->matrix) gsl_matrix_scale(out->matrix, -1);
     if (hessian->names->row){
         apop_name_stack(out->names, hessian->names, 'r');
         apop_name_stack(out->names, hessian->names, 'c');
@@ -310,10 +313,8 @@ static double negshell (const gsl_vector *beta, void * in){
     Apop_stopif(gsl_isnan(out), longjmp(i->bad_eval_jump, -1),
                 0, "I got a NaN in evaluating the objective function.%s", 
                     !i->model->constraint ? " Maybe add a constraint to your model?" : "");
-    if (i->path) tracepath(i->model->parameters->vector, -out, i->path);
+    if (i->path) tracepath(beta, -out, i->path);
     if (i->want_info =='y'){
-        //I report the log likelihood under the assumption that the final param set 
-        //matches the best ll evaluated.
         long double this_ll = i->model->log_likelihood? -out : log(-out); //negative negative llikelihood.
 
         if(gsl_isnan(this_ll)){
@@ -324,7 +325,6 @@ static double negshell (const gsl_vector *beta, void * in){
             Apop_stopif(1, apop_data_show(i->model->parameters); i->want_info='n',
                         1, "NaN resulted from the following value tried by the maximum likelihood system.");
         }
-        i->best_ll = GSL_MAX(i->best_ll, this_ll);
     }
     return out;
 }
@@ -392,7 +392,7 @@ void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll,
     }
 }
 
-static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
+static void auxinfo(infostruct *i, int status, int param_ct){
     apop_model *est = i->model; //just an alias.
     /* This catches too many near-misses
        if(est->constraint)
@@ -405,7 +405,8 @@ static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     }
     if (!est->info) est->info = apop_data_alloc();
     apop_data_add_named_elmt(est->info, "status", status);
-    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, ll, i->beta->size);
+    //Calculate at the parameters being reported, which may differ from those of the best evaluation.
+    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, apop_log_likelihood(i->data, est), param_ct);
 }
 
 static void apop_maximum_likelihood_w_d(apop_data * data, infostruct *i){
@@ -443,7 +444,8 @@ Inside the infostruct, you'll find these elements:
         .params	= i};
     ctrl_c = 0;
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fdfminimizer_free(s); return,
+                0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
     signal(SIGINT, mle_sigint);
     do { 	
@@ -467,8 +469,7 @@ Inside the infostruct, you'll find these elements:
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-    gsl_vector_free(i->beta);
-    auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    auxinfo(i, apopstatus, betasize);
 }
 
 /* See apop_maximum_likelihood_w_d for notes. */
@@ -484,12 +485,13 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     double size;
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
-    ctrl_c      =
-    apopstatus = 0; //assume failure until we score a success.
+    ctrl_c     = 0;
+    apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); return,
+                0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
     signal(SIGINT, mle_sigint);
@@ -523,7 +525,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     if (status == GSL_SUCCESS) apopstatus = 0;
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fminimizer_free(s);
-    auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    gsl_vector_free(ss);
+    auxinfo(i, apopstatus, betasize);
 }
 
 /*There is a basically standard location for the log likelihood. Search there, and if you don't
@@ -540,6 +543,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
     int iteration = 0;
     apop_mle_settings *mp = Apop_settings_get_group(est, apop_mle);
     double tol = mp->dim_cycle_tolerance;
+    double *start = mp->starting_pt;
     int betasize = info.beta->size;
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, 0);//so sub-estimations won't use this function.
     gsl_vector *paramv = apop_data_pack(est->parameters);
@@ -559,7 +563,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
             apop_maximum_likelihood(d, m_onedim);
             gsl_vector_set(info.beta, i, m_onedim->parameters->vector->data[0]);
             full_est = apop_model_fix_params_get_base(m_onedim);//points to est, but filled.
-            this_ll = get_ll(d, full_est);//only used on the last iteration.
+            this_ll = apop_log_likelihood(d, full_est);//only used on the last iteration.
             if (mp->verbose) printf("(%i):%g\t", i, this_ll), fflush(NULL);
             apop_model_free(m_onedim);
         }
@@ -568,7 +572,10 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
         Apop_settings_add(est, apop_mle, starting_pt, paramv->data);
     } while (fabs(this_ll - last_ll) > tol);
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, tol);
+    Apop_settings_set(est, apop_mle, starting_pt, start);
+    apop_data_unpack(paramv, est->parameters);
     gsl_vector_free(paramv);
+    auxinfo(&info, 0, betasize);
 }
 
 void get_desires(apop_model *m, infostruct *info){
@@ -657,6 +664,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
             !strcasecmp(mp->method, "Newton hybrid")||
             !strcasecmp(mp->method, "Newton hybrid no scale")) find_roots (info);
     else   /* Conjugate Gradient*/   apop_maximum_likelihood_w_d(data, &info);
+    gsl_vector_free(info.beta);
 }
 
 /** Maximum likelihod searches are not guaranteed to find a global optimum, and it can be
@@ -713,35 +721,33 @@ APOP_VAR_HEAD apop_model * apop_estimate_restart (apop_model *e, apop_model *cop
     double apop_varad_var(boundary, 1e8);
 APOP_VAR_ENDHEAD
     gsl_vector *v = NULL;
+    _Bool own_copy = !copy;
     if (!copy) copy = apop_model_copy(e);
     apop_mle_settings* prm0 = apop_settings_get_group(e, apop_mle);
     apop_mle_settings* prm = apop_settings_get_group(copy, apop_mle);
+    if (!prm) prm = Apop_model_add_group(copy, apop_mle);
             //copy off the old params; modify the starting pt, method, and scale
-    if (!strcmp(starting_pt, "es"))
-        v = apop_array_to_vector(prm0->starting_pt);
-    else if (!strcmp(starting_pt, "ns")){
-        int size =sizeof(prm->starting_pt)/sizeof(double);
-        v = apop_array_to_vector(prm->starting_pt, size);
-        prm0->starting_pt	= malloc(sizeof(double)*size);
-        memcpy(prm0->starting_pt, prm->starting_pt, sizeof(double)*size);
+    if (!strcmp(starting_pt, "es") || !strcmp(starting_pt, "ns")){
+        double *start = !strcmp(starting_pt, "ns") ? prm->starting_pt
+                                                   : (prm0 ? prm0->starting_pt : NULL);
+        v = apop_data_pack(e->parameters); //for the size
+        if (!start) gsl_vector_set_all(v, 1); //the default; see setup_starting_point.
+        else        memcpy(v->data, start, sizeof(double)*v->size);
     }
-    else if (!strcmp(starting_pt, "np")){
+    else if (!strcmp(starting_pt, "np"))
         v = apop_data_pack(copy->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
-    }
-    else if (e->parameters){//"ep" or default.
+    else //"ep" or default.
         v = apop_data_pack(e->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
-    }
-    Apop_stopif(!apop_vector_bounded(v, boundary), return e, 
+    Apop_stopif(!v || !apop_vector_bounded(v, boundary),
+                gsl_vector_free(v); if (own_copy) apop_model_free(copy); return e, 
                 0, "Your model has diverged (element(s) > %g);"
                    " returning your original model without restarting.", boundary);
+    prm->starting_pt = malloc(sizeof(double)*v->size);
+    memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
     gsl_vector_free(v);
         
     apop_model *newcopy = apop_estimate(e->data, copy);
-    apop_model_free(copy);
+    if (own_copy) apop_model_free(copy);
     //Now check whether the new output is better than the old
     if (apop_vector_bounded(newcopy->parameters->vector, boundary) 
             && get_ll(e->data, newcopy) > get_ll(e->data, e)){
@@ -873,16 +879,15 @@ static void apop_annealing(infostruct *i){
     }
     signal(SIGINT, NULL);
     apop_data_unpack(i->beta, i->model->parameters); 
-    apop_estimate_parameter_tests(i->model);
     apopstatus = 0;
 done:
-    if (mp->rng) r = NULL;
-    auxinfo(i->model->parameters, i, apopstatus, i->best_ll);
+    gsl_vector_free(i->starting_pt);
+    auxinfo(i, apopstatus, betasize);
 }
 
 /* This function calls the various GSL root-finding algorithms to find the zero of the score.
    Cut/pasted/modified from the GSL documentation.  */
-static apop_model * find_roots (infostruct p) {
+static void find_roots (infostruct p) {
     const gsl_multiroot_fsolver_type *T;
     gsl_multiroot_fsolver *s;
     apop_model *dist = p.model;
@@ -895,10 +900,13 @@ static apop_model * find_roots (infostruct p) {
         : !strcasecmp(mlep->method, "Newton hybrid no scale") ? gsl_multiroot_fsolver_hybrids
                                                    : gsl_multiroot_fsolver_hybrid;
     s = gsl_multiroot_fsolver_alloc (T, betasize);
-    gsl_multiroot_fsolver_set (s, &f, p.beta);
-    do {
+    //The solvers know nothing of constraints, and singular matrices and points where the
+    //functions aren't defined are an unsuccessful search, not a reason to halt the program.
+    gsl_error_handler_t *prior_handler = gsl_set_error_handler_off();
+    if (setjmp(p.bad_eval_jump)) goto done;
+    status = gsl_multiroot_fsolver_set (s, &f, p.beta);
+    if (!status) do {
         iter++;
-        if (setjmp(p.bad_eval_jump)) break;
         status = gsl_multiroot_fsolver_iterate (s);
         if (!mlep || mlep->verbose)
             printf ("iter = %3zu x = % .3f f(x) = % .3e\n", iter, gsl_vector_get (s->x, 0), gsl_vector_get (s->f, 0));
@@ -906,11 +914,16 @@ static apop_model * find_roots (infostruct p) {
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
-    if (GSL_SUCCESS) apopstatus = 0;
+    if (status == GSL_SUCCESS) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
-    apop_data_unpack(s->x, dist->parameters);
+done:
+    if (apop_vector_bounded(s->x)) apop_data_unpack(s->x, dist->parameters);
+    else {
+        apop_data_unpack(p.beta, dist->parameters);
+        apopstatus = -1;
+    }
+    if (dist->constraint && dist->constraint(p.data, dist)) apopstatus = -1;
     gsl_multiroot_fsolver_free (s);
-    gsl_vector_free (p.beta);
-    auxinfo(dist->parameters, &p, apopstatus, 0); //root-finders don't store best val.
-    return dist;
+    auxinfo(&p, apopstatus, betasize);
+    gsl_set_error_handler(prior_handler);
 }
-- 
2.43.0


From 64f6f6b6a027af96d585c9dbb5fb5f2b5931328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 078/128] fix: apop_linear_constraint: no stale point from
 earlier calls, signed shifts along unit vectors

---
 apop_linear_constraint.m4.c | 147 ++++++++++++++++++++++++++++++------
 1 file changed, 122 insertions(+), 25 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index a517828..6a2af60 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -5,12 +5,83 @@ Copyright (c) 2007, 2009 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 */
 #include "apop_internal.h"
 
-/* How far does v have to go along b to meet vb >= k, with the given margin? Zero or less if v already meets it. */
-static double shortfall(gsl_vector const *v, double k, gsl_vector const *b, double margin){
+static double magnitude(gsl_vector *v){
+    double out;
+    gsl_blas_ddot(v, v, &out);
+    return out;
+}
+
+static void find_nearest_point(gsl_vector *V, double k, gsl_vector *B, gsl_vector *out){
+    /* Find X such that BX =K and there is an S such that X + SB=V. */
+    double S=0; //S = (BV-K)/B'B.
+    gsl_blas_ddot(B, V, &S);
+    S   -= k;
+assert(!gsl_isnan(S));
+    S   /= magnitude(B);
+assert(!gsl_isnan(S));
+    gsl_vector_memcpy(out, B); //X = -SB +V
+    gsl_vector_scale(out, -S);
+    gsl_vector_add(out, V);
+assert(!gsl_isnan(gsl_vector_get(out,0)));
+}
+
+static int binds(gsl_vector const *v, double k, gsl_vector const *b, double margin){
     double d;
     gsl_blas_ddot(v, b, &d);
-    double norm = gsl_blas_dnrm2(b);
-    return norm ? (k - d)/norm + margin : 0;
+    return d < k + (margin ? margin * gsl_blas_dnrm2(b) : 0);
+}
+
+static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
+    double dot;
+    gsl_blas_ddot(dimv, otherv, &dot);
+    double sinsq = 1 - gsl_pow_2(dot)/(magnitude(dimv)*magnitude(otherv));
+    return sinsq > 1e-12 ? off_by/sinsq : 0; //parallel surfaces: no shift along one will reach the other.
+}
+
+/* The hard part is when your candidate point does not satisfy other
+   constraints, so you need to translate the point until it meets the new hypersurface.
+   How far is that? Project beta onto the new surface, and find the
+   distance between that projection and the original surface. Then
+   translate beta toward the original surface by that amount. The
+   projection of the translated beta onto the new surface now also touches the old
+   surface.
+   */
+static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, gsl_vector *candidate, double margin){
+    double k, ck, off_by, s, cnorm, ccdot;
+    gsl_vector *pseudobeta        = NULL;
+    gsl_vector *pseudocandidate   = NULL;
+    gsl_vector *fix               = NULL;
+    gsl_vector *cc = Apop_rv(constraint, current);
+    ck = gsl_vector_get(constraint->vector, current);
+    find_nearest_point(beta, ck, cc, candidate);
+    for (size_t i=0; i< constraint->vector->size; i++){
+        if (i!=current){
+            gsl_vector *other = Apop_rv(constraint, i);
+            k   =apop_data_get(constraint, i, -1);
+            if (binds(candidate, k, other, margin)){
+                if (!pseudobeta){
+                    pseudobeta          = gsl_vector_alloc(beta->size);
+                    gsl_vector_memcpy(pseudobeta, beta);
+                    pseudocandidate     = gsl_vector_alloc(beta->size);
+                    fix                 = gsl_vector_alloc(beta->size);
+                }
+                find_nearest_point(pseudobeta, k, other, pseudocandidate);
+                gsl_blas_ddot(pseudocandidate, cc, &ccdot);
+                cnorm   = gsl_blas_dnrm2(cc);
+                off_by  = (ck - ccdot)/cnorm; //positive iff short of the original surface
+                s       = trig_bit(cc, other, off_by);
+                gsl_vector_memcpy(fix, cc);
+                gsl_vector_scale(fix, s/cnorm);
+                gsl_vector_add(pseudobeta, fix);
+                find_nearest_point(pseudobeta, k, other, candidate);
+                gsl_vector_memcpy(pseudobeta, candidate);
+            } 
+        }
+    }
+    if (fix){ 
+        gsl_vector_free(fix); gsl_vector_free(pseudobeta);
+        gsl_vector_free(pseudocandidate);
+    }
 }
 
 /** This is designed to be called from within the constraint method of your \ref
@@ -65,31 +136,57 @@ APOP_VAR_HEAD long double  apop_linear_constraint(gsl_vector *beta, apop_data *
         constraint = default_constraint;
     }
 APOP_VAR_ENDHEAD
+    static threadlocal gsl_vector *closest_pt = NULL;
+    static threadlocal gsl_vector *candidate  = NULL;
+    static threadlocal gsl_vector *fix        = NULL;
     int constraint_ct = constraint->matrix->size1;
+    int bindlist[constraint_ct];
+    int i, bound = 0;
+    /* For added efficiency, keep a scratch vector or two on hand. */
+    if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
+        gsl_vector_free(closest_pt); gsl_vector_free(candidate); gsl_vector_free(fix);
+        closest_pt  = gsl_vector_calloc(beta->size);
+        candidate   = gsl_vector_alloc(beta->size);
+        fix         = gsl_vector_alloc(beta->size);
+    }
+    gsl_vector_set_all(closest_pt, GSL_NEGINF); //no candidate yet.
     /* Do any constraints bind?*/
-    int bound = 0;
-    for (int i=0; i< constraint_ct && !bound; i++)
-        bound = shortfall(beta, apop_data_get(constraint, i, -1), Apop_rv(constraint, i), margin) > 0;
+    memset(bindlist, 0, sizeof(int)*constraint_ct);
+    for (i=0; i< constraint_ct; i++){
+        gsl_vector *c = Apop_rv(constraint, i);
+        bound       +=
+        bindlist[i] = binds(beta, apop_data_get(constraint, i, -1), c, margin);
+    }
     if (!bound) return 0;   //All constraints met.
     gsl_vector *base_beta = apop_vector_copy(beta);
-
-    /* Hildreth's method: move to each violated surface in turn, and when a later step
-       turns out to have made an earlier one too long, take back the excess, until nothing
-       moves. Given one constraint, or constraints on distinct elements, this is one step
-       per constraint, and the test that there is nothing left to do. */
-    double steps[constraint_ct];
-    memset(steps, 0, sizeof(steps));
-    double moved = 1;
-    for (int ctr=0; moved > 0 && ctr < 1e5; ctr++){
-        moved = 0;
-        for (int i=0; i< constraint_ct; i++){
-            gsl_vector *c = Apop_rv(constraint, i);
-            double step = shortfall(beta, apop_data_get(constraint, i, -1), c, margin);
-            if (step < -steps[i]) step = -steps[i];
-            if (!(fabs(step) > 1e-15 * (steps[i] + gsl_blas_dnrm2(beta)))) continue;
-            gsl_blas_daxpy(step/gsl_blas_dnrm2(c), c, beta);
-            steps[i] += step;
-            moved += fabs(step);
+    /* With only one constraint, it's easy. */
+    if (constraint->vector->size==1){
+        gsl_vector *c = Apop_rv(constraint, 0);
+        find_nearest_point(base_beta, constraint->vector->data[0], c, beta);
+        goto add_margin;
+    }
+    /* Finally, multiple constraints, at least one binding.
+       For each surface, pick a candidate point.
+       Check whether the point meets the other constraints. 
+            if not, translate to a new point that works.
+            [Do this by maintaining a pseudopoint that translates by the
+            necessary amount.]
+        Once you have a candidate point, compare its distance to the
+        current favorite; keep the best.
+     */
+    for (i=0; i< constraint_ct; i++)
+        if (bindlist[i]){
+            get_candiate(base_beta, constraint, i, candidate, margin);
+            if(apop_vector_distance(base_beta, candidate) < apop_vector_distance(base_beta, closest_pt))
+                gsl_vector_memcpy(closest_pt, candidate);
+        }
+    gsl_vector_memcpy(beta, closest_pt);
+add_margin:
+    for (i=0; i< constraint_ct; i++){
+        if(bindlist[i]){
+            gsl_vector_memcpy(fix, Apop_rv(constraint, i));
+            gsl_vector_scale(fix, margin/gsl_blas_dnrm2(fix));
+            gsl_vector_add(beta, fix);
         }
     }
     long double out = apop_vector_distance(base_beta, beta);
-- 
2.43.0


From e237ac792ceec028843c89bbf920d98d46dd50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 079/128] fix: apop_estimate_coefficient_of_determination:
 weighted SST, adjusted R squared

---
 apop_regression.m4.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index cb9d726..66755fa 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -19,7 +19,6 @@ void apop_estimate_parameter_tests (apop_model *est){
     apop_data_add_named_elmt(est->info, "df", df);
 
     apop_data *one_elmt = apop_data_calloc(1, 1);
-    gsl_vector *param_v = apop_data_pack(est->parameters);
     for (size_t i=0; i< est->parameters->vector->size; i++){
         Apop_settings_add_group(est, apop_pm, .index=i);
         apop_model *m = apop_parameter_model(est->data, est);
@@ -30,7 +29,6 @@ void apop_estimate_parameter_tests (apop_model *est){
         apop_data_set(ep, i, .colname="confidence", .val=conf);
         apop_data_set(ep, i, .colname="p value",    .val=1-conf);
     }
-    gsl_vector_free(param_v);
     apop_data_free(one_elmt);
 }
 
@@ -520,7 +518,7 @@ following entries (in the vector element):
 \li  \f$ SST \equiv \sum (Y_i - \bar Y) ^2 \f$
 \li  \f$ SSE \equiv \sum \epsilon ^2       \f$
 \li  \f$ R^2 \equiv 1 - {SSE\over SST}     \f$
-\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k-1)}(1-R^2)     \f$
+\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k)}(1-R^2)     \f$
 
 Internally allocates (and frees) a vector the size of your data set.
 
@@ -567,9 +565,12 @@ apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
         gsl_vector_free(v_times_w);
     }
     gsl_vector *vv = Apop_cv(expected, 0);
-    sst = apop_vector_var(vv, m->data->weights) * (vv->size-1);
+    double mean = apop_vector_mean(vv, weights);
+    sst = 0;
+    for (size_t i=0; i< obs; i++)
+        sst += (weights ? gsl_vector_get(weights, i) : 1) * gsl_pow_2(gsl_vector_get(vv, i) - mean);
     rsq = 1. - (sse/sst);
-    adjustment  = ((obs -1.) /(obs - indep_ct)) * (1.-rsq) ;
+    adjustment  = ((obs -1.) /(obs - indep_ct -1.)) * (1.-rsq) ;
     apop_data_add_named_elmt(out, "R squared", rsq);
     apop_data_add_named_elmt(out, "R squared adj", 1 - adjustment);
     apop_data_add_named_elmt(out, "SSE", sse);
-- 
2.43.0


From bdbb90314362530e3a7ea58d6eb8b78ac52752a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 080/128] fix: apop_parameter_model/apop_predict dispatch: hash
 precedence

---
 apop.m4.h       | 4 ++--
 apop_model.m4.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index f720e4a..e50c7f0 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -533,11 +533,11 @@ typedef void (*apop_score_type)(apop_data *d, gsl_vector *gradient, apop_model *
 make_vtab_fns(apop_score)
 
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate : 27))
 make_vtab_fns(apop_parameter_model)
 
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate : 27))
 make_vtab_fns(apop_predict)
 
 typedef void (*apop_model_print_type)(apop_model *params, FILE *out);
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 1b6a601..617352c 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -359,7 +359,7 @@ The default is via resampling as above, but special-case calculations for certai
 
 \code
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + (m1).estimate ? (size_t)(m1).estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + ((m1).estimate ? (size_t)(m1).estimate : 27))
 \endcode
 */ 
 apop_model *apop_parameter_model(apop_data *d, apop_model *m){
@@ -489,7 +489,7 @@ There may be a second page (i.e., a \ref apop_data set attached to the <tt>->mor
 
 \code
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + (m1).estimate ? (size_t)(m1).estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + ((m1).estimate ? (size_t)(m1).estimate : 27))
 \endcode
 */
 apop_data *apop_predict(apop_data *d, apop_model *m){
-- 
2.43.0


From 92b47262406d0e4572dcefcfb7a22cad9e74049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 081/128] fix: probit/logit: outcome categories looked up by
 code; multinomial probit's columns; draws

---
 model/apop_probit.c | 125 ++++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 68 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 8cddb54..ebbb229 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -44,7 +44,12 @@ static void probit_prep(apop_data *d, apop_model *m){
     apop_data *factor_list = get_category_table(d);
     apop_score_vtable_add(probit_dlog_likelihood, apop_probit);
     //apop_score_vtable_add(logit_dlog_likelihood, apop_logit);
+    int will_shuffle = !d->vector;
     apop_ols->prep(d, m);//also runs the default apop_model_clear.
+    if (will_shuffle && !d->names->vector){ //then the factors are now for the (unnamed) vector.
+        free(factor_list->names->title);
+        factor_list->names->title = strdup("<categories for vector>");
+    }
     int count = factor_list->textsize[0];
     m->parameters = apop_data_alloc(d->matrix->size2, count-1);
     apop_name_stack(m->parameters->names, d->names, 'r', 'c');
@@ -97,32 +102,25 @@ static long double biprobit_log_likelihood(apop_data *d, apop_model *p){
 	return total_prob;
 }
 
-static threadlocal double val;
-static double unordered(double in){ return in == val; }
-
 // This is just a for loop that runs a probit on each column.
 static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN)
     gsl_vector *val_vector = get_category_table(d)->vector;
     if (val_vector->size==2) return biprobit_log_likelihood(d, p);
     //else, multinomial loop
-    static threadlocal apop_model *spare_probit = NULL;
-    if (!spare_probit){
-        spare_probit = apop_model_copy(apop_probit);
-        spare_probit->parameters = apop_data_alloc();
-    }
-    Staticdef(apop_data *, working_data, apop_data_alloc());
-    working_data->matrix = d->matrix;
-    gsl_vector *original_outcome = d->vector;
+    apop_data working_data = *d;
+    apop_model spare_probit = *p;
+    apop_data spare_params = {};
+    spare_probit.parameters = &spare_params;
     double ll = 0;
-    double *vals = val_vector->data;
     for(size_t i=0; i < p->parameters->matrix->size2; i++){
-        val = vals[i];
-        working_data->vector = apop_vector_map(original_outcome, unordered);
-        spare_probit->parameters->matrix = apop_vector_to_matrix(Apop_cv(p->parameters, 1));
-        ll  += apop_log_likelihood(working_data, spare_probit);
-        gsl_vector_free(working_data->vector); //yup. It's inefficient.
-        gsl_matrix_free(spare_probit->parameters->matrix);
+        working_data.vector = gsl_vector_alloc(d->vector->size);
+        for (size_t j=0; j< d->vector->size; j++)
+            gsl_vector_set(working_data.vector, j, gsl_vector_get(d->vector, j)==i+1); //the numeraire, zero, has no column.
+        spare_params.matrix = apop_vector_to_matrix(Apop_cv(p->parameters, i));
+        ll  += biprobit_log_likelihood(&working_data, &spare_probit);
+        gsl_vector_free(working_data.vector); //yup. It's inefficient.
+        gsl_matrix_free(spare_params.matrix);
     }
 	return ll;
 }
@@ -203,16 +201,12 @@ static void logit_prep(apop_data *d, apop_model *m){
     apop_predict_vtable_add(multilogit_expected, apop_logit);
 }
 
-static size_t find_index(double in, double *m, size_t max){
-    size_t i = 0;
-    while (in !=m[i] && i<max) i++;
-    return i;
-}
-
-double one_logit_row(apop_data *thisobservation, void *factor_list){
-    //get the $x\beta_j$ numerator for the appropriate choice:
-    size_t index   = find_index(gsl_vector_get(thisobservation->vector, 0), 
-                                factor_list, thisobservation->matrix->size2);
+double one_logit_row(apop_data *thisobservation, void *unused){
+    //get the $x\beta_j$ numerator for the appropriate choice. The data has been
+    //coded (see the prep routine), so the outcome is the index.
+    double outcome = gsl_vector_get(thisobservation->vector, 0);
+    if (!(outcome >= 0 && outcome <= thisobservation->matrix->size2)) return GSL_NEGINF;
+    size_t index = outcome;
     Apop_row_v(thisobservation, 0, thisrow);
     double num = (index==0) ? 0 : gsl_vector_get(thisrow, index-1);
 
@@ -233,9 +227,8 @@ static long double multilogit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck(d->matrix, GSL_NAN)
     //Find X\beta_i for each row of X and each column of \beta.
     apop_data  *xbeta = apop_dot(d, p->parameters);
-    double* factor_list = get_category_table(p->data)->vector->data;
     xbeta->vector = d->vector; //we'll need this in one_logit_row
-    long double ll = apop_map_sum(xbeta, .fn_rp = one_logit_row, .param=factor_list);
+    long double ll = apop_map_sum(xbeta, .fn_rp = one_logit_row);
     xbeta->vector = NULL;
     apop_data_free(xbeta);
 	return ll;
@@ -288,45 +281,41 @@ static void logit_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
 }
 */
 
-//Should this be available everywhere?
-static size_t get_draw_size(apop_model *in){
-    Get_vmsizes(in->data); //msize2, firstcol
-    size_t datasize = (in->dsize == -1)
-                        ? msize2-firstcol
-                        : in->dsize;
-    Apop_assert(datasize > 0, "I don't know the size of the X "
-                              "vector to draw for drawing your logit. "
-                              "See the apop_ols RNG documentation for details.");
-    return datasize;
-}
-
 static int logit_rng(double *out, gsl_rng *r, apop_model *m){
-    //X is drawn from the input distribution, then Y = X\beta + epsilon
-    apop_lm_settings *olp = apop_settings_get_group(m, apop_lm);
-    if (!olp) olp=Apop_model_add_group(m, apop_lm
-                                , .input_distribution= apop_estimate(m->data, apop_pmf));
-
-    size_t datasize = get_draw_size(olp->input_distribution);
-    apop_data *x = apop_data_alloc(datasize);
-    apop_draw(x->vector->data, r, olp->input_distribution);
-
-    apop_data *xbeta = apop_dot(x, m->parameters);
-    apop_data *zero = apop_data_calloc(1);
-    apop_data *xbeta_w_numeraire = apop_data_stack(zero, xbeta, 'r');
-    apop_data_free(xbeta);
-    apop_data_free(zero);
-    apop_vector_exp(xbeta_w_numeraire->vector);
-    apop_vector_normalize(xbeta_w_numeraire->vector);
-    xbeta_w_numeraire->weights = xbeta_w_numeraire->vector;
-    xbeta_w_numeraire->vector = NULL;
-
-    Staticdef(apop_model*, a_pmf, apop_model_copy(apop_pmf))
-    a_pmf->dsize = 0; //so draws produce a row number
-    a_pmf->data = xbeta_w_numeraire;
-    Apop_stopif(apop_draw(out, r, a_pmf), return 1, 
-                        0, "Couldn't draw from a PMF populated using X'β.");
-    if (m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
-    apop_data_free(x);
+    //X is drawn from the input distribution, then the category has odds exp(X\beta)
+    Nullcheck_mp(m, 1);
+    apop_lm_settings *olp;
+    #pragma omp critical (logit_rng_setup)
+    {
+    olp = apop_settings_get_group(m, apop_lm);
+    if (!olp && m->data){ //draw from the input data, without the outcome.
+        apop_data *inputs = apop_data_alloc();
+        inputs->matrix = m->data->matrix;
+        inputs->weights = m->data->weights;
+        olp = Apop_model_add_group(m, apop_lm, .input_distribution= apop_estimate(inputs, apop_pmf));
+    }
+    }
+    Apop_stopif(!olp, return 1, 0, "No apop_lm settings group attached, and no data to use as the input distribution.");
+
+    gsl_matrix *params = m->parameters->matrix;
+    double x[params->size1], odds[params->size2+1];
+    Apop_stopif(olp->input_distribution->dsize != params->size1
+             || apop_draw(x, r, olp->input_distribution), return 1,
+                0, "Couldn't draw %zu inputs from the distribution of the input data.", params->size1);
+
+    odds[0] = 0; //the numeraire
+    double max = 0, total = 0;
+    for (size_t j=0; j < params->size2; j++){
+        odds[j+1] = 0;
+        for (size_t i=0; i < params->size1; i++) odds[j+1] += x[i] * gsl_matrix_get(params, i, j);
+        if (odds[j+1] > max) max = odds[j+1];
+    }
+    for (size_t j=0; j <= params->size2; j++) total += odds[j] = exp(odds[j]-max);
+    double u = gsl_rng_uniform(r) * total;
+    size_t choice = 0;
+    while (choice < params->size2 && u >= odds[choice]) u -= odds[choice++];
+    out[0] = choice;
+    if (m->dsize>1) memcpy(out+1, x, GSL_MIN(params->size1, m->dsize-1) * sizeof(double));
     return 0;
 }
 
-- 
2.43.0


From 4dd44fca51f521837ad38ea08d064edcd5ef09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 082/128] fix: OLS/WLS/IV: weighted likelihood and residuals,
 wanted parts honored, IV names and weights

---
 model/apop_ols.c | 217 +++++++++++++++++++++++------------------------
 1 file changed, 108 insertions(+), 109 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 1d032b2..621ed5b 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -68,13 +68,24 @@ Apop_settings_init(apop_lm,
        out->input_distribution = apop_model_copy(apop_improper_uniform);
 )
 
+//If there is an apop_parts_wanted group, use it; else use the (deprecated) switches in the apop_lm group.
+static int want_cov(apop_model *m){
+    apop_parts_wanted_settings *pwant = apop_settings_get_group(m, apop_parts_wanted);
+    apop_lm_settings *p = apop_settings_get_group(m, apop_lm);
+    return pwant ? (pwant->covariance=='y' || pwant->tests=='y') : (p && p->want_cov=='y');
+}
+
+static int want_predicted(apop_model *m){
+    apop_parts_wanted_settings *pwant = apop_settings_get_group(m, apop_parts_wanted);
+    apop_lm_settings *p = apop_settings_get_group(m, apop_lm);
+    return pwant ? pwant->predicted=='y' : (p && p->want_expected_value=='y');
+}
+
 //shift first col to depvar, rename first col "one".
 static void prep_names (apop_model *e){
-    apop_lm_settings *p = apop_settings_get_group(e, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(e, apop_parts_wanted);
     apop_data *predicted = apop_data_get_page(e->info, "<Predicted>");
     if (predicted){
-        apop_name_add(predicted->names, (e->data->names->colct ? e->data->names->col[0] : "Observed"), 'c');
+        apop_name_add(predicted->names, "Observed", 'c');
         apop_name_add(predicted->names, "Predicted", 'c');
         apop_name_add(predicted->names, "Residual", 'c');
     }
@@ -84,12 +95,10 @@ static void prep_names (apop_model *e){
         apop_name_add(e->parameters->names, "parameters", 'v');
         for(int i=0; i< e->data->names->colct; i++)
             apop_name_add(e->parameters->names, e->data->names->col[i], 'r');
-        if ((pwant && pwant->covariance) || (!pwant && p && p->want_cov== 'y')){
-            apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
-            if (cov && e->data->names){
-                apop_name_stack(cov->names, e->data->names, 'c');
-                apop_name_stack(cov->names, e->data->names, 'r', 'c');
-            }
+        apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
+        if (cov){
+            apop_name_stack(cov->names, e->data->names, 'c');
+            apop_name_stack(cov->names, e->data->names, 'r', 'c');
         }
 	}
 }
@@ -112,11 +121,14 @@ static void ols_prep(apop_data *d, apop_model *m){
     apop_parameter_model_vtable_add(ols_param_models, apop_ols);
     apop_predict_vtable_add(ols_predict, apop_ols);
     apop_model_print_vtable_add(ols_print, apop_ols);
+    apop_parameter_model_vtable_add(ols_param_models, apop_iv);
+    apop_predict_vtable_add(ols_predict, apop_iv);
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
     Apop_stopif(!d || (!d->vector && !d->matrix), m->error='d'; return, 0, "No data for regression.");
     ols_shuffle(d);
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
+    if (m->dsize==-1 && d->matrix) m->dsize = d->matrix->size2 + 1; //draws are the outcome, then the inputs.
     apop_prep(d, m);
     m->prep = mpt;
 }
@@ -162,24 +174,27 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
     for(size_t i=0; i< data->size1; i++){
         apop_data *justarow = Apop_r(d, i);
         justarow->vector = NULL;
+        justarow->weights = NULL;
         x_prob = (input_distribution)
                     ? apop_p(justarow, input_distribution) //probably improper uniform, and so just 1 anyway.
                     : 1;
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
-        ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* weight * x_prob);
+        if (!weight) continue;
+        double s = sigma/sqrtl(weight); //with weights, the variance of one observation's error is sigma^2/weight.
+        double e = gsl_vector_get(errors, i)/s;
+        ll += logl(x_prob) - log(s) - e*e/2 - log(2*M_PI)/2;
     }
+    gsl_vector_free(errors);
     return ll;
 }
 
 /* $\partial {\cal N}(x\beta - y)/\partial \beta_i = \sum{x_i} \partial {\cal N}(K)/\partial K$ (at $K=x\beta -y$) */
 static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){ 
     Nullcheck_mpd(d, p, ); Nullcheck(d->matrix, );
-  long double sigma, actual, weight;
+  long double actual, weight, wtotal=0, ssq=0, scale=0;
   double expected;
   gsl_matrix *data	= d->matrix;
   gsl_vector *errors = gsl_vector_alloc(data->size1);
-  gsl_vector *normscore = gsl_vector_alloc(2);
-  apop_data  *subdata  = apop_data_alloc(1,1);
 	for(size_t i=0;i< data->size1; i++){
         gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
         if (d->vector){ //then this has been prepped
@@ -190,26 +205,32 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
         }
         gsl_vector_set(errors, i, expected-actual);
     }
-    sigma   = sqrt(apop_vector_var(errors));
-    apop_model *norm = apop_model_set_parameters(apop_normal, 0.0, sigma);
+    apop_data *err = apop_data_get_page(p->parameters, "<Error variance>");
+    double sigma_sq = err ? apop_data_get(err) : apop_vector_var(errors);
+    if (!err){ //then the variance is itself a function of the parameters.
+        for(size_t i=0;i< data->size1; i++){
+            weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
+            wtotal += weight > 0;
+            ssq += weight * gsl_pow_2(gsl_vector_get(errors, i));
+        }
+        scale = (ssq/sigma_sq - wtotal)/(sigma_sq * (data->size1-1.));
+    }
+    double mean = apop_vector_mean(errors);
     gsl_vector_set_all(gradient, 0);
 	for(size_t i=0;i< data->size1; i++){
-        apop_data_set(subdata, 0, 0, gsl_vector_get(errors, i));
-        apop_score(subdata, normscore, norm);
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
-        for(size_t j=0; j< data->size2; j++)
-            *gsl_vector_ptr(gradient, j) += weight * apop_data_get(d, i, j) * gsl_vector_get(normscore, 0);
+        double e = gsl_vector_get(errors, i);
+        for(size_t j=0; j< data->size2; j++){
+            double x = (!d->vector && j==0) ? 1 : apop_data_get(d, i, j);
+            *gsl_vector_ptr(gradient, j) += x * (scale*(e-mean) - weight*e/sigma_sq);
+        }
 	} 
     gsl_vector_free(errors);
-    apop_model_free(norm);
 }
 
 //xpx may be destroyed by the HH transformation.
 static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
-    apop_lm_settings   *p =  apop_settings_get_group(out, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(out, apop_parts_wanted);
-	if ( (pwant && pwant->covariance!='y' && pwant->predicted != 'y') 
-       ||(!pwant && p && p->want_cov!='y' && p->want_expected_value != 'y')){	
+	if (!want_cov(out) && !want_predicted(out)){
 		//then don't calculate (X'X)^{-1}
 		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
 		return;
@@ -223,17 +244,21 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     apop_data_free(out->parameters);
     out->parameters = apop_dot(cov, xpy);               // \beta=(X'X)^{-1}X'Y
     apop_data *error = apop_dot(data, out->parameters); // X\beta ==predicted (not yet error)
-	gsl_vector_sub(error->vector, y_data);              // X'\beta - Y == error
-    gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
+	gsl_vector_sub(error->vector, y_data);              // X'\beta - Y
+    gsl_vector_scale(error->vector, -1);                // Y - X'\beta == error
+    gsl_vector *weighted = apop_vector_copy(error->vector);
+    if (data->weights) gsl_vector_mul(weighted, data->weights);
+    gsl_blas_ddot(weighted, error->vector, &s_sq);      // e'e, or e'We
+    gsl_vector_free(weighted);
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
-	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
+	if (want_predicted(out)){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
         gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
         gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
         gsl_vector *predicted = Apop_cv(predicted_page, 1);
         gsl_vector_memcpy(predicted, y_data);
-        gsl_vector_add(predicted, error->vector); //pred = y_data + error
+        gsl_vector_sub(predicted, error->vector); //pred = y_data - error
     }
     apop_data_free(error);
     if (apop_data_get_page(out->parameters, "<Covariance>"))
@@ -283,11 +308,24 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     double sigma_sq = apop_data_get(m->info, .rowname="SSE")/m->data->matrix->size1;
     out[0] += gsl_ran_gaussian(r, sqrt(sigma_sq));
 
-    if (m->dsize > 1) memcpy(out+1, tempdata->data, sizeof(double)*tempdata->size);
+    if (m->dsize > 1) memcpy(out+1, tempdata->data, sizeof(double)*GSL_MIN(tempdata->size, m->dsize-1));
     gsl_vector_free(tempdata);
     return 0;
 }
 
+//If there are weights, return a copy whose rows are multiplied by the root of each weight; else return the input itself.
+static apop_data *weight_by_root(apop_data *in){
+    if (!in->weights) return in;
+    apop_data *out = apop_data_copy(in);
+    for (size_t i=0; i< out->weights->size; i++){
+        double *w = gsl_vector_ptr(out->weights, i);
+        *w = sqrt(*w);
+    }
+    for (int i = -1; i < (int)out->matrix->size2; i++)
+        gsl_vector_mul(Apop_cv(out, i), out->weights);
+    return out;
+}
+
 /* \adoc estimated_data You can specify whether the data is modified with an \ref apop_lm_settings group. Else, left unchanged.
 
 \adoc estimated_info Reports log likelihood, and runs \ref apop_estimate_coefficient_of_determination 
@@ -307,48 +345,35 @@ Given your estimate \c est, the zeroth element is one of <br>
 static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     Apop_stopif(ep->error, return, 0, "Not estimating the model due to a previous error");
-    apop_data *set;
     apop_lm_settings *olp =  apop_settings_get_group(ep, apop_lm);
     apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) 
         olp = Apop_model_add_group(ep, apop_lm);
     ep->data = inset;
-    set = olp->destroy_data ? inset : apop_data_copy(inset); 
-    
-    gsl_vector *weights = olp->destroy_data      //this may be NULL.
-                           ? ep->data->weights 
-                           : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (size_t i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
-
-    if ((pwant &&pwant->predicted) || (!pwant && olp && olp->want_expected_value=='y'))
-        apop_data_add_page(ep->info, apop_data_alloc(0, set->matrix->size1, 3), "<Predicted>");
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
-        apop_data_add_page(ep->parameters, apop_data_alloc(0, set->matrix->size2, set->matrix->size2), "<Covariance>");
-    if (weights)
-        for (int i = -1; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
+
+    if (want_predicted(ep))
+        apop_data_add_page(ep->info, apop_data_alloc(0, inset->matrix->size1, 3), "<Predicted>");
+    if (want_cov(ep))
+        apop_data_add_page(ep->parameters, apop_data_alloc(0, inset->matrix->size2, inset->matrix->size2), "<Covariance>");
+    apop_data *set = weight_by_root(inset);
 
     apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
     apop_data *xpy_d = apop_dot(set, set, .form1='t', .form2='v'); //(X'y)
-    xpxinvxpy(set, xpx_d->matrix, xpy_d, ep);
+    xpxinvxpy(inset, xpx_d->matrix, xpy_d, ep);
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
+    if (set != inset) apop_data_free(set);
 
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
+    if (pwant ? pwant->tests=='y' : want_cov(ep))
         apop_estimate_parameter_tests(ep);
 
-    add_info_criteria(ep->data, ep, ep, apop_log_likelihood(ep->data, ep), set->matrix->size2); //in apop_mle.c
+    add_info_criteria(ep->data, ep, ep, apop_log_likelihood(ep->data, ep), inset->matrix->size2); //in apop_mle.c
 
-    apop_data *r_sq = apop_estimate_coefficient_of_determination(ep); //Add R^2-type info to info page.
-    apop_data_stack(ep->info, r_sq, .inplace='y');
-
-    apop_data_free(r_sq);
-    if (!olp->destroy_data){
-        if (weights) gsl_vector_free(weights);
-        apop_data_free(set);
+    if (want_predicted(ep)){
+        apop_data *r_sq = apop_estimate_coefficient_of_determination(ep); //Add R^2-type info to info page.
+        apop_data_stack(ep->info, r_sq, .inplace='y');
+        apop_data_free(r_sq);
     }
 }
 
@@ -372,7 +397,8 @@ apop_model *ols_param_models(apop_data *d, apop_model *m){
         int i = settings->index;
         double mu = apop_data_get(m->parameters, i, -1);
         double sigma = sqrt(apop_data_get(m->parameters, i, i, .page="<Covariance>"));
-        int df = apop_data_get(m->info, .rowname="df");
+        int df = apop_data_get_page(m->info, "<test info>") ? apop_data_get(m->info, .rowname="df")
+                                     : GSL_MAX((int)m->data->matrix->size1 - (int)m->parameters->vector->size, 1);
         return apop_model_set_parameters(apop_t_distribution, mu, sigma, df);
     }
     //else run the default
@@ -449,72 +475,45 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     apop_lm_settings   *olp =  apop_settings_get_group(ep, apop_lm);
     apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) olp = Apop_model_add_group(ep, apop_lm);
-    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)) 
+    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)){
         apop_ols->estimate(inset, ep);
+        return;
+    }
     ep->data = inset;
     if (ep->parameters) apop_data_free(ep->parameters);
     ep->parameters = apop_data_alloc(inset->matrix->size2);
-    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
-    apop_data *z = prep_z(inset, olp->instruments);
-    
-    gsl_vector *weights = olp->destroy_data      //the weights may be NULL.
-                             ? ep->data->weights 
-                             : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (int i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
-
-    if ((pwant && pwant->predicted) || (!pwant && olp && olp->want_expected_value))
-        apop_data_add_page(ep->info, apop_data_alloc(set->matrix->size1, 3), "<Predicted>");
-    prep_names(ep);
-    if (weights){
-        gsl_vector_mul(set->vector, weights);
-        for (int i = 0; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
-    }
+    apop_data *unweighted_z = prep_z(inset, olp->instruments);
+    apop_data *set = weight_by_root(inset);
+    apop_data *z = weight_by_root(unweighted_z);
+
+    if (want_predicted(ep))
+        apop_data_add_page(ep->info, apop_data_alloc(inset->matrix->size1, 3), "<Predicted>");
 
     apop_data *zpx = apop_dot(z, set, .form1='t');
     apop_data *zpy = apop_dot(z, set, .form1='t', .form2='v'); //z'y
 
     xpxinvxpy(inset, zpx->matrix, zpy, ep);
 
-    //covariance matrix right now is sigma (Z'X)^-1. We need
-    //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
-
-    apop_data *zpz = apop_dot(z, z, .form1='t');
-    apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
-    apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
     apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
-    apop_data *cov = apop_dot(halfcov, zpz_xpzinv);
-    apop_data_rm_page(ep->parameters, "<Covariance>");
-    apop_data_add_page(ep->parameters, cov, "<Covariance>");
-
-    gsl_matrix_free(zpxinv.matrix);
-    apop_data_free(zpx);
-    apop_data_free(zpy);
-    apop_data_free(zpz);
-
-
-/*
-    apop_data *zpxinv = apop_matrix_to_data(apop_matrix_inverse(zpx->matrix));
-    ep->parameters = apop_dot(zpxinv, zpy);
-    //cov = sigma^2 (Z'X)^-1 Z'Z (X'Z)^-1
-    */
-
-    /*
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y')){
+    if (halfcov){
+        //covariance matrix right now is sigma (Z'X)^-1. We need
+        //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
         apop_data *zpz = apop_dot(z, z, .form1='t');
-        apop_data *zpz_zpxinv = apop_dot(zpz, zpxinv, .form2='t');
-        apop_data_add_page(ep->parameters, apop_dot(zpx, zpz_zpxinv)
-                , "<Covariance>");
-        apop_data_free(zpz); apop_data_free(zpz_zpxinv);
+        apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
+        apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
+        apop_data *cov = apop_dot(halfcov, zpz_xpzinv);
+        apop_data_rm_page(ep->parameters, "<Covariance>");
+        apop_data_add_page(ep->parameters, cov, "<Covariance>");
+        gsl_matrix_free(zpxinv.matrix);
+        apop_data_free(zpz_xpzinv);
+        apop_data_free(zpz);
     }
-    */
-
-    apop_data_free(zpx);// apop_data_free(zpxinv);
+    prep_names(ep);
+    apop_data_free(zpx);
     apop_data_free(zpy);
-
-    if (!olp->destroy_data) apop_data_free(set);
+    if (z != unweighted_z) apop_data_free(z);
+    apop_data_free(unweighted_z);
+    if (set != inset) apop_data_free(set);
 }
 
 apop_model *apop_iv = &(apop_model){.name="instrumental variables", .vsize = -1, .dsize=-1,
-- 
2.43.0


From 62ea7268c3d6469aecfafaf55498a403f9a5f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 083/128] fix: apop_kl_divergence: unsynced PMFs give -inf and
 not NaN; repeated rows; models with no settings

---
 apop_stats.m4.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 792c17d..dcccdea 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -738,19 +738,22 @@ APOP_VAR_ENDHEAD
     Apop_notify(3, "p(from)\tp(to)\tfrom*log(from/to)\n");
     if (from->p == apop_pmf->p){
         apop_data *p = from->data;
-        apop_pmf_settings *settings = Apop_settings_get_group(from, apop_pmf);
         Get_vmsizes(p); //maxsize
+        double total = p->weights ? apop_sum(p->weights) : maxsize;
         OMP_for_reduce (+:div,    int i=0; i < maxsize; i++){
-            double pi = p->weights ? gsl_vector_get(p->weights, i)/settings->total_weight : 1./maxsize;
-            if (!pi){
+            double rowmass = (p->weights ? gsl_vector_get(p->weights, i) : 1)/total;
+            if (!rowmass){
                 Apop_notify(3, "0\t--\t0");
                 continue;
             } //else:
-            double qi = apop_p(Apop_r(p, i), to);
-            Apop_notify(3,"%g\t%g\t%g", pi, qi, pi ? pi * log(pi/qi):0);
-            Apop_stopif(!qi, div+=GSL_NEGINF; break, 1, "The PMFs aren't synced: from-distribution has a value where "
+            apop_data *onerow = Apop_r(p, i);
+            double pi = apop_p(onerow, from); //more than rowmass if the row is repeated.
+            double qi = apop_p(onerow, to);
+            double val = qi ? rowmass * log(pi/qi) : GSL_NEGINF;
+            Apop_notify(3,"%g\t%g\t%g", pi, qi, val);
+            Apop_stopif(!qi, , 1, "The PMFs aren't synced: from-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
-            div += pi * log(pi/qi);
+            div += val;
         }
     } else { //the version with the RNG.
         Apop_stopif(!from->dsize, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
@@ -764,7 +767,7 @@ APOP_VAR_ENDHEAD
             double val = pi ? log(pi/qi): 0; //each row already has probability p_i
             Apop_notify(3,"%g\t%g\t%g", pi, qi, val);
             div += val;
-            Apop_stopif(!qi, break, 1, "From-distribution has a value where "
+            Apop_stopif(!qi, , 1, "From-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
         }
         div /= draw_ct; //div is an expected value of ln(pi/qi)
-- 
2.43.0


From 0f4ebf6584f68c99bfc9f374ec3ce7bd9fddc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 084/128] fix: apop_pmf: CDF is cumulative once, repeated rows
 add up, stale CMF after re-estimation, exact entropy

---
 model/apop_pmf.c | 97 +++++++++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 20e6170..a0e496a 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -57,7 +57,11 @@ equally probable.
 #include "apop_internal.h"
 
 Apop_settings_copy(apop_pmf,
-    (*out->cmf_refct)++;
+    if (in->cmf) (*out->cmf_refct)++;
+    else { //the copy will set up its own.
+        out->cmf_refct = malloc(sizeof(int));
+        *out->cmf_refct = 1;
+    }
 )
 
 Apop_settings_free(apop_pmf,
@@ -82,6 +86,15 @@ static void estim (apop_data *d, apop_model *out){
 
     apop_pmf_settings *settings = Apop_settings_get_group(out, apop_pmf);
     if (!settings) settings = Apop_model_add_group(out, apop_pmf);
+    else if (settings->cmf) { //left from an earlier estimation; copies may share it.
+        if (*settings->cmf_refct == 1) gsl_vector_free(settings->cmf);
+        else {
+            (*settings->cmf_refct)--;
+            settings->cmf_refct = malloc(sizeof(int));
+            *settings->cmf_refct = 1;
+        }
+        settings->cmf = NULL;
+    }
     if (d->weights) {
         settings->total_weight = apop_sum(d->weights);
         Apop_stopif(!isfinite(settings->total_weight),
@@ -103,7 +116,8 @@ static void setup_cmf(apop_model *m){
     //Now make sure the last entry is one.
     Apop_stopif(cdf->data[maxsize-1]==0 || isnan(cdf->data[maxsize-1]), m->error='f'; return,
             0, "Bad density in the PMF.");
-    gsl_vector_scale(cdf, 1./cdf->data[maxsize-1]);
+    double total = cdf->data[maxsize-1];
+    for (int i=0; i< maxsize; i++) cdf->data[i] /= total;
     Apop_stopif(!isfinite(cdf->data[maxsize-1]), m->error='f';  return,
             0, "Bad density in the PMF.");
 }
@@ -146,29 +160,14 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(m->error=='f', *out=GSL_NAN; return 1, 0, "Zero or NaN density in the PMF.");
         double draw = gsl_rng_uniform(r);
-        //do a binary search for where draw is in the CDF.
+        //binary search for the first row whose cumulative density is above the draw.
         double *cdf = settings->cmf->data; //alias.
-        size_t top = size-1, bottom = 0; 
-        current = (top+bottom)/2.;
-        if (current==0){//array of size one or two
-            if (size!=1) 
-                if (cdf[0] < draw)
-                    current = 1;
-        } else while (!(cdf[current]>=draw && cdf[current-1] < draw)){
-            if (cdf[current] < draw){ //step up
-                bottom = current;
-                if (current == top-1)
-                    current ++;
-                else
-                    current = (bottom + top)/2.;
-            } else if (cdf[current-1] >= draw){ //step down
-                top = current;
-                if (current == bottom+1)
-                    current --;
-                else
-                    current = (bottom + top)/2.;
-            }
-            if (current==0 && cdf[0] >= draw) break;
+        size_t top = size-1;
+        current = 0;
+        while (current < top){
+            size_t mid = current + (top-current)/2;
+            if (cdf[mid] > draw) top = mid;
+            else                 current = mid+1;
         }
     }
     //Done searching. Current should now be the right row index.
@@ -222,35 +221,52 @@ static int are_equal(apop_data *left, apop_data *right){
     return 1;
 }
 
-static int find_in_data(apop_data *searchme, apop_data *findme){//findme is one row tall.
+//Find the first match at or after row start. findme is one row tall.
+static int find_in_data(apop_data *searchme, apop_data *findme, int start){
     Get_vmsizes(searchme)
-    for(int i=0; i < GSL_MAX(vsize, GSL_MAX(searchme->textsize[0], msize1)); i++)
+    for(int i=start; i < GSL_MAX(vsize, GSL_MAX(searchme->textsize[0], msize1)); i++)
         if (are_equal(findme, Apop_r(searchme, i)))
             return i;
     return -1;
 }
 
 static long double pmf_p(apop_data *d, apop_model *m){
-    apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
     Nullcheck_d(d, GSL_NAN) 
     Nullcheck_m(m, GSL_NAN) 
-    int model_pmf_length;
+    Nullcheck_d(m->data, GSL_NAN) 
+    long double total;
     {
         Get_vmsizes(m->data);//maxsize
-        model_pmf_length = maxsize;
+        total = m->data->weights ? apop_sum(m->data->weights) : maxsize;
     }
     Get_vmsizes(d)//maxsize
     long double p = 1;
     for (int i=0; i< maxsize; i++){
-        int elmt = find_in_data(m->data, Apop_r(d, i));
-        if (elmt == -1) return 0; //Can't find one observation: prob=0;
-        p *= m->data->weights
-                 ? m->data->weights->data[elmt] /settings->total_weight 
-                 : 1./model_pmf_length; //no weights means any known event is equiprobable
+        apop_data *onerow = Apop_r(d, i);
+        long double mass = 0; //The data needn't be compressed, so add up all matching rows.
+        for (int elmt=-1; (elmt = find_in_data(m->data, onerow, elmt+1)) != -1; )
+            mass += m->data->weights
+                     ? gsl_vector_get(m->data->weights, elmt)
+                     : 1; //no weights means any known row is equiprobable
+        if (!mass) return 0; //Can't find one observation: prob=0;
+        p *= mass/total;
     }
     return p;
 }
 
+static long double pmf_entropy(apop_model *m){
+    Nullcheck_m(m, GSL_NAN) 
+    Nullcheck_d(m->data, GSL_NAN) 
+    Get_vmsizes(m->data);//maxsize
+    long double total = m->data->weights ? apop_sum(m->data->weights) : maxsize;
+    long double out = 0;
+    for (int i=0; i< maxsize; i++){
+        double w = m->data->weights ? gsl_vector_get(m->data->weights, i) : 1;
+        if (w) out -= w/total * logl(pmf_p(Apop_r(m->data, i), m));
+    }
+    return out;
+}
+
 /* \adoc    CDF  <em>Assuming the data is sorted in a meaningful manner</em>, find the total mass up to a given data point.
 
 That is, a CDF only makes sense if the data space is totally ordered. The sorting you
@@ -268,17 +284,21 @@ call. I.e., if you choose to use \ref apop_data_sort or \ref apop_data_sort on
 your data, do it before the first draw or CDF calculation.
  */
 static long double pmf_cmf(apop_data *d, apop_model *m){
+    Nullcheck_d(d, GSL_NAN) 
+    Nullcheck_m(m, GSL_NAN) 
+    Nullcheck_d(m->data, GSL_NAN) 
     Get_vmsizes(m->data); //maxsize
-    int elmt = find_in_data(m->data, Apop_r(d, 0));
+    apop_data *onerow = Apop_r(d, 0);
+    int elmt = -1; //the last match, in case of repeated rows.
+    for (int next=-1; (next = find_in_data(m->data, onerow, next+1)) != -1; ) elmt = next;
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
-    if (!m->data->weights) return (elmt+0.0)/maxsize;
+    if (!m->data->weights) return (elmt+1.0)/maxsize;
     else {
         apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
         if (!settings) settings = Apop_model_add_group(m, apop_pmf);
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(m->error=='f', return GSL_NAN, 0, "Zero or NaN density in the PMF.");
-        gsl_vector_view v = gsl_vector_subvector(settings->cmf, 0, elmt+1);
-        return apop_sum(&v.vector);
+        return gsl_vector_get(settings->cmf, elmt);
     }
 }
 
@@ -287,6 +307,7 @@ static void pmf_print(apop_model *est, FILE *out){ apop_data_print(est->data, .o
 static void pmf_prep(apop_data * data, apop_model *model){
     if (model->data) return; //already prepped, and reprep is a no-op.
     apop_model_print_vtable_add(pmf_print, apop_pmf);
+    apop_entropy_vtable_add(pmf_entropy, apop_pmf);
     Get_vmsizes(data) //msize2, firstcol
     int width = msize2 ? msize2 : -firstcol;//use the vector only if there's no matrix.
     if (Apop_settings_get_group(model, apop_pmf) && Apop_settings_get(model, apop_pmf, draw_index)=='y' && !width) model->dsize=0;
-- 
2.43.0


From 93f9a8ab6e7a7b2bace8e357c3cc362ee1cbfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 085/128] fix: apop_cdf: redo the draws when the parameters
 change; copies keep count of their own draws

---
 apop.m4.h       |  1 +
 apop_model.m4.c | 46 ++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index e50c7f0..4000d3f 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1286,6 +1286,7 @@ typedef struct {
     gsl_rng *rng; /**< For random draw methods. See \ref apop_rng_get_thread on the default. */
     gsl_matrix *draws_made; /**< A store of random draws used to calcuate the CDF. Need only be generated once, and so stored here. */
     int *draws_refcount; /**< For internal use.*/
+    gsl_vector *drawn_at; /**< The parameters used to make the draws. For internal use. */
 } apop_cdf_settings;
 
 
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 617352c..a629097 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -514,6 +514,31 @@ static int lte(gsl_vector *v, gsl_vector *ref){
     return 1;
 }
 
+static int same_vector(gsl_vector const *a, gsl_vector const *b){
+    if (!a || !b) return a==b;
+    if (a->size != b->size) return 0;
+    for (size_t i=0; i< a->size; i++){
+        double x = gsl_vector_get(a, i), y = gsl_vector_get(b, i);
+        if (x != y && !(gsl_isnan(x) && gsl_isnan(y))) return 0;
+    }
+    return 1;
+}
+
+/* Copies of a model share the draws made before the copying. */
+static void cdf_drop_draws(apop_cdf_settings *cs){
+    if (cs->draws_made){
+        if (!--*cs->draws_refcount){
+            gsl_matrix_free(cs->draws_made);
+            free(cs->draws_refcount);
+        }
+        cs->draws_refcount = malloc(sizeof(int));
+        *cs->draws_refcount = 1;
+    }
+    cs->draws_made = NULL;
+    gsl_vector_free(cs->drawn_at);
+    cs->drawn_at = NULL;
+}
+
 /** Input a one-row data point/vector and a model; returns the area of the model's PDF beneath the given point.
 
 By default, make random draws from the PDF and return the percentage of those
@@ -543,14 +568,18 @@ double apop_cdf(apop_data *d, apop_model *m){
     if (!cs) cs = Apop_model_add_group(m, apop_cdf);
     long int tally = 0; 
     
+    if (m->dsize == -1) apop_prep(d, m);
     gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
+    gsl_vector *now = m->parameters ? apop_data_pack(m->parameters, NULL, .more_pages='y', .use_info_pages='n') : NULL;
+    if (cs->draws_made && !same_vector(now, cs->drawn_at)) cdf_drop_draws(cs); //draws from other parameters.
     if (!cs->draws_made){
-        if (m->dsize == -1) apop_prep(d, m);
-        Apop_stopif(m->dsize==0, return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
+        Apop_stopif(m->dsize==0, gsl_vector_free(ref); gsl_vector_free(now); return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
         cs->draws_made = gsl_matrix_alloc(cs->draws, m->dsize);
         for (int i=0; i< cs->draws; i++)
             apop_draw((Apop_mrv(cs->draws_made, i))->data, cs->rng, m);
-    }
+        gsl_vector_free(cs->drawn_at);
+        cs->drawn_at = now;
+    } else gsl_vector_free(now);
     for (int i=0; i< cs->draws_made->size1; i++)
         tally += lte(Apop_mrv(cs->draws_made, i), ref);
     gsl_vector_free(ref);
@@ -565,10 +594,15 @@ Apop_settings_init(apop_cdf,
 )
 
 Apop_settings_free(apop_cdf,
-    if (in->draws_made && !--*in->draws_refcount)
-        gsl_matrix_free(in->draws_made);
+    cdf_drop_draws(in);
+    free(in->draws_refcount);
 )
 
 Apop_settings_copy(apop_cdf,
-    ++*out->draws_refcount;
+    if (in->draws_made) ++*out->draws_refcount;
+    else {
+        out->draws_refcount = malloc(sizeof(int));
+        *out->draws_refcount = 1;
+    }
+    if (in->drawn_at) out->drawn_at = apop_vector_copy(in->drawn_at);
 )
-- 
2.43.0


From 2c59733a428c87f96513ff9f5f372c483424a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 086/128] fix: apop_model_fix_params: many-page parameters,
 constraints keep the fixed ones fixed

---
 transform/apop_fix_params.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 53bbccb..858f764 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -102,13 +102,14 @@ static void pack(apop_data *in, apop_model *m){
     //real param set --> predict table 
    apop_fix_params_settings *mset = Apop_settings_get_group(m, apop_fix_params);
    apop_data *predict = mset->predict;
+    int this_page_ct = 0;
     for(int i =0; i< predict->matrix->size1; i++){
+        int p = apop_data_get(predict, .row=i, .colname="page");
+        for ( ; this_page_ct != p; this_page_ct++) //entries are in sequential order, but may skip pages.
+            in = in->more;
         apop_data_set(predict, .row =i, .colname="value", .val=apop_data_get(in, 
                                                         apop_data_get(predict, .row=i, .colname="row"),
                                                         apop_data_get(predict, .row=i, .colname="col")));
-        if (i< mset->ct-1 && apop_data_get(predict, .row= i+1, .colname="page") 
-                                != apop_data_get(predict, .row= i, .colname="page"))
-            in = in->more;
     }
    Apop_col_tv(mset->predict, "value", p_in_tab);
    if (m->parameters) //empty only during set_starting_point
@@ -137,8 +138,14 @@ static long double fix_params_p(apop_data *d, apop_model *fixed_model){
 static long double fix_params_constraint(apop_data *data, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
     unpack(base_model->parameters, fixed_model);
+    apop_data *before = apop_data_copy(base_model->parameters);
     long double out = base_model->constraint(data, base_model);
-    if (out) pack(base_model->parameters, fixed_model);
+    if (out) { //take the shifted free parameters, but the fixed ones are fixed.
+        pack(base_model->parameters, fixed_model);
+        apop_data_memcpy(base_model->parameters, before);
+        unpack(base_model->parameters, fixed_model);
+    }
+    apop_data_free(before);
     return out;
 }
 
@@ -182,8 +189,12 @@ static apop_model *fixed_param_model = &(apop_model){"Fill me", .estimate=fixed_
 void set_starting_point(apop_data * in_params, apop_model * model_out, double *start, apop_data *predict_tab){
     //reshape the starting_pt to the shape of typical params
     apop_data *param_cp = apop_data_copy(in_params);
-    Get_vmsizes(in_params);//tsize
-    gsl_vector_view v = gsl_vector_view_array(start, tsize);
+    int size = 0;
+    for (apop_data *page = in_params; page; page = page->more){
+        Get_vmsizes(page);//tsize
+        size += tsize;
+    }
+    gsl_vector_view v = gsl_vector_view_array(start, size);
     apop_data_unpack(&(v.vector), param_cp);
 
     pack(param_cp, model_out); //write to the fill tab.
-- 
2.43.0


From 4a9708bdbcfb36011a56e18d3c6647163811763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 087/128] fix: apop_model_mixture: weights in the log
 likelihood, parameters reach draws and constraint, copies

---
 transform/apop_mixture.c | 69 +++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 663ed6b..7663dfd 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -99,6 +99,10 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 Apop_settings_copy(apop_mixture,
     (*out->cmf_refct)++;
     out->next_weights = apop_vector_copy(in->next_weights);
+    if (in->param_sizes){
+        out->param_sizes = malloc(sizeof(int)*in->model_count);
+        memcpy(out->param_sizes, in->param_sizes, sizeof(int)*in->model_count);
+    }
 )
 
 Apop_settings_free(apop_mixture,
@@ -167,7 +171,11 @@ static void mixture_prep(apop_data * data, apop_model *model){
         model->parameters->vector = apop_vector_stack(model->parameters->vector, v, .inplace='y');
         gsl_vector_free(v);
     }
-    if (!model->dsize) model->dsize = (*ms->model_list)->dsize;
+    if (!model->dsize || model->dsize==-1) { //set iff all components agree.
+        model->dsize = (*ms->model_list)->dsize;
+        for (apop_model **m = ms->model_list; *m; m++)
+            if ((*m)->dsize != model->dsize) {model->dsize = 0; break;}
+    }
     if (!model->vsize) model->vsize = model->parameters->vector->size;
 }
 
@@ -179,11 +187,11 @@ void unpack(apop_model *min){
     //here, pre-calced weights are overwritten.
     if (posn && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N') && ms->next_weights)
         gsl_vector_memcpy(ms->weights, Apop_rs(min->parameters, 0, posn)->vector);
-    for (apop_model **m = ms->model_list; *m; m++){
+    for (apop_model **m = ms->model_list; *m; m++, i++){
         if (!ms->param_sizes[i]) continue; //NULL params
         gsl_vector v = gsl_vector_subvector(min->parameters->vector, posn, ms->param_sizes[i]).vector;
         apop_data_unpack(&v, (*m)->parameters);
-        posn+=ms->param_sizes[i++];
+        posn+=ms->param_sizes[i];
     }
 }
 
@@ -218,12 +226,12 @@ let ll_M be the max LL. then
 One of the terms in the sum is exp(0)=1. The others are all less than one, and so we
 are guaranteed no overflow. If any of them underflow, then that term must not have
 been very important for the sum.
+
+Below, we only need ratios of such sums, so there is no need to multiply by exp(llM).
 */
-static long double sum_exp_vector(gsl_vector const *onerow){
+static long double sum_exp_vector(gsl_vector const *onerow, double best){
     long double rowtotal = 0;
-    double best = gsl_vector_max(onerow);
     for (int j=0; j<onerow->size; j++) rowtotal += exp(gsl_vector_get(onerow, j)-best);
-    rowtotal *= exp(best);
     return rowtotal;
 }
 
@@ -235,9 +243,10 @@ static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_data *lls = get_lls(d, model_in);
 
     //reweight by last round's lambda 
+    double total_weight = apop_sum(ms->weights);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
-        gsl_vector_add_constant(onecol, gsl_vector_get(ms->weights, i));
+        gsl_vector_add_constant(onecol, log(gsl_vector_get(ms->weights, i)/total_weight));
     }
 
 //OK, now we need the λs, and then the max ll for each observation
@@ -247,42 +256,50 @@ Draw probabilities are p₁/Σp p₂/Σp p₃/Σp (see equation (2) of the above
 But I have logs, and want to stay in log-format for as long as possible, to prevent undeflows and loss of precision.
 */
     long double total_ll=0;
-    gsl_vector *ps = gsl_vector_alloc(lls->matrix->size2);
-    gsl_vector *cp = gsl_vector_alloc(lls->matrix->size2);
     for (int i=0; i< lls->matrix->size1; i++){
         Apop_row_v(lls, i, onerow);
-        total_ll += gsl_vector_max(onerow);
-        for (int j=0; j < onerow->size; j++){
-            gsl_vector_memcpy(cp, onerow);
-            gsl_vector_add_constant(cp, -gsl_vector_get(onerow, j));
-            gsl_vector_set(ps, j, 1./sum_exp_vector(cp));
+        double best = gsl_vector_max(onerow);
+        total_ll += best;
+        if (best == GSL_NEGINF) { //impossible under all models; learn nothing from this one.
+            gsl_vector_memcpy(onerow, ms->weights);
+            gsl_vector_scale(onerow, 1/total_weight);
+            continue;
         }
-        gsl_vector_memcpy(onerow, ps);
+        long double sum = sum_exp_vector(onerow, best);
+        for (int j=0; j < onerow->size; j++)
+            gsl_vector_set(onerow, j, exp(gsl_vector_get(onerow, j) - best)/sum);
 
         Apop_stopif(fabs(apop_sum(onerow) - 1) > 1e-3, /*Warn user, but continue.*/, 0,
                 "One of the probability calculations is off: the total for the odds of drawing "
                 "from the %i mixtures is %g but should be 1.", 
                 ms->model_count, fabs(apop_sum(onerow) - 1));
     }
-    gsl_vector_free(cp);
-    gsl_vector_free(ps);
 
     if (!ms->next_weights) ms->next_weights = gsl_vector_alloc(ms->weights->size);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
         gsl_vector_set(ms->next_weights, i, apop_sum(onecol)/lls->matrix->size1);
     }
+    apop_data_free(lls);
     return total_ll;
 }
 
+//The weights may have been changed since the CMF was set up.
+static void mixture_cmf_check(apop_mixture_settings *ms){
+    if (ms->cmf && !apop_vector_distance(ms->cmf->data->weights, ms->weights)) return;
+    apop_model *out = apop_model_copy(apop_pmf);
+    out->data = apop_data_alloc();
+    out->data->weights = apop_vector_copy(ms->weights);
+    Apop_model_add_group(out, apop_pmf, .draw_index='y');
+    ms->cmf = out; //An earlier CMF may be in use by a copy of this model.
+}
+
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
     OMP_critical (mixdraw)
-    if (!ms->cmf){
-        ms->cmf = apop_model_copy(apop_pmf);
-        ms->cmf->data = apop_data_alloc();
-        ms->cmf->data->weights = apop_vector_copy(ms->weights);
-        Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y');
+    {
+    unpack(m);
+    mixture_cmf_check(ms);
     }
     double index; 
     Apop_stopif(apop_draw(&index, r, ms->cmf), return 1, 
@@ -305,14 +322,14 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     unpack(model_in);
     //check all component models.
     for (apop_model **m = ms->model_list; *m; m++)
-        penalty += (*m)->constraint(data, *m);
+        if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
-        int posn=0, i=0;
-        for (apop_model **m = ms->model_list; *m; m++){
+        int posn=ms->weights->size, i=0;
+        for (apop_model **m = ms->model_list; *m; m++, i++){
             if (!ms->param_sizes[i]) continue; //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
             apop_data_pack((*m)->parameters, &v);
-            posn+=ms->param_sizes[i++];
+            posn+=ms->param_sizes[i];
         }
     }
     if (ms->next_weights && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N')){
-- 
2.43.0


From 4b93e4fed7d906b7bdd9a3639e94bdec5a4c4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 088/128] fix: apop_model_dconstrain: copies and changed
 parameters reach the base model, failed draws

---
 transform/apop_dconstrain.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index ff3b9e5..34da91c 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -59,9 +59,11 @@ Apop_settings_init(apop_dconstrain,
     if (!in.scaling) out->scaling = get_scaling;
 )
 
-Apop_settings_copy(apop_dconstrain, in->refct++;)
-Apop_settings_free(apop_dconstrain, in->refct--;
-        if(!in->refct) gsl_vector_free(in->last_params);
+Apop_settings_copy(apop_dconstrain,
+    out->last_params = apop_vector_copy(in->last_params);
+)
+Apop_settings_free(apop_dconstrain,
+    gsl_vector_free(in->last_params);
 )
 
 static void dc_prep(apop_data *d, apop_model *m){
@@ -77,12 +79,20 @@ static void dc_prep(apop_data *d, apop_model *m){
     m->dsize=cs->base_model->dsize;
 }
 
+//The parameters are normally a pointer to the base model's, but not if this model is a copy.
+static void sync_params(apop_dconstrain_settings *cs, apop_model *m){
+    if (!m->parameters || !cs->base_model || m->parameters == cs->base_model->parameters) return;
+    if (!cs->base_model->parameters) cs->base_model->parameters = m->parameters;
+    else apop_data_memcpy(cs->base_model->parameters, m->parameters);
+}
+
 /* \adoc RNG Draw from the base model; if the draw is outside the constraint, throw it out and try again. */
 static int dc_rng(double *out, gsl_rng *r, apop_model *m){
     Get_set(m, 1)
     gsl_matrix_view mv;
+    sync_params(cs, m);
     do {
-        apop_draw(out, r, cs->base_model);
+        Apop_stopif(apop_draw(out, r, cs->base_model), return 1, 0, "Draw from the base model failed.");
         mv = gsl_matrix_view_array(out, 1, cs->base_model->dsize);
     } while (!cs->constraint(&(apop_data){.matrix=&(mv.matrix)}, cs->base_model));
     return 0;
@@ -119,6 +129,7 @@ static bool is_stale(apop_dconstrain_settings *cs, apop_model *m){ //do I need t
 static long double dc_ll(apop_data *indata, apop_model* m){
     Get_set(m, GSL_NAN)
     Apop_stopif(!cs->base_model, return GSL_NAN, 0, "No base model.");
+    sync_params(cs, m);
     double any_outside = apop_map_sum(indata, .fn_rp=constr, .param=cs);
     if (any_outside) return -INFINITY;
 
-- 
2.43.0


From 10d7b04f71fb0699a7a3625271600a6f11846d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 089/128] fix: apop_model_coordinate_transform: changed
 parameters reach the base model

---
 transform/apop_coordinate_transform.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transform/apop_coordinate_transform.c b/transform/apop_coordinate_transform.c
index cc682b5..52c1294 100644
--- a/transform/apop_coordinate_transform.c
+++ b/transform/apop_coordinate_transform.c
@@ -39,6 +39,11 @@ static long double ct_ll(apop_data *indata, apop_model* mj){
     Apop_stopif(!cs->jacobian_to_base, return GSL_NAN, 0, "No Jacobian for the reverse transformation function, "
                                                           "and using numeric derivatives is not yet implemented.");
 
+    //The parameters are normally a pointer to the base model's, but not if this model is a copy.
+    if (mj->parameters && mj->parameters != cs->base_model->parameters){
+        if (!cs->base_model->parameters) cs->base_model->parameters = mj->parameters;
+        else apop_data_memcpy(cs->base_model->parameters, mj->parameters);
+    }
     apop_data *rev = cs->transformed_to_base(indata);
     double ll = apop_log_likelihood(rev, cs->base_model);
     apop_data_free(rev);
-- 
2.43.0


From 9d582e390cc52d384b24b9151d112a6321ff995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 090/128] fix: apop_model_cross: rows of draws, NULL data, one
 or no models, estimated parts keep their data

---
 transform/apop_cross.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index 9bcaeed..1a22d3d 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -41,27 +41,23 @@ typedef struct {
 
 /* A model must accept data in the form of each observation being a single row of
    data---i.e., each row is what you'd get from apop_draw.
-    If the length of the data matrix is longer than the first model's stated msize2,
-    then we have to unpack the draw into two new apop_data sets.
+    If there is no second page, but the data matrix has the width of a draw from both
+    models, then we have to unpack the draws into two new apop_data sets.
 */
-twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
+static twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
+    int len1 = s->model1->dsize;
     twop_s out = (twop_s){
-        .d1 = (s->model1 ? apop_data_alloc(s->model1->vsize, s->model1->msize1, s->model1->msize2) : NULL),
-        .d2 = (s->model2 ? apop_data_alloc(s->model2->vsize, s->model2->msize1, s->model2->msize2) : NULL),
+        .d1 = apop_data_alloc(d->matrix->size1, len1),
+        .d2 = apop_data_alloc(d->matrix->size1, d->matrix->size2 - len1),
         .need_to_free=1};
-    int len1 = s->model1->vsize + s->model1->msize1 * s->model1->msize2;
-    for (int i=0; i< d->matrix->size1; i++){
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), 0, len1), Apop_r(out.d1, i));
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), len1, d->matrix->size1), Apop_r(out.d2, i));
-      }
+    gsl_matrix_memcpy(out.d1->matrix, Apop_subm(d->matrix, 0, 0, d->matrix->size1, len1));
+    gsl_matrix_memcpy(out.d2->matrix, Apop_subm(d->matrix, 0, len1, d->matrix->size1, d->matrix->size2 - len1));
     return out;
 }
 
 static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
     twop_s out = {.d1=d, .d2=d};
     if (splitpage) {
-        if (d->matrix && (d->matrix->size2 > s->model1->msize2))
-            return unpack_a_draw(d, s);
         apop_data *ctr = d;
         if (!ctr ||(ctr->names && ctr->names->title && !strcasecmp(ctr->names->title, splitpage))){
             out.d1 = NULL;
@@ -70,6 +66,9 @@ static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
         }
         for ( ; ctr->more && (!ctr->more->names || !ctr->more->names->title || strcasecmp(ctr->more->names->title, splitpage)); ) 
             ctr = ctr->more; 
+        if (!ctr->more && d->matrix && s->model1->dsize > 0 && s->model2->dsize > 0
+                       && d->matrix->size2 == s->model1->dsize + s->model2->dsize)
+            return unpack_a_draw(d, s);
         out.d2 = ctr->more;
         out.dangly_bit = ctr;
         ctr->more = NULL; //the only change to the original data set.
@@ -106,6 +105,7 @@ static void cross_est(apop_data *d, apop_model *m){
     s->model1 = apop_estimate(datas.d1, s->model1);
     s->model2 = apop_estimate(datas.d2, s->model2);
 
+    datas.need_to_free = 0; //The estimated models point to their data.
     repaste(datas);
 }
 
@@ -141,9 +141,9 @@ apop_model *apop_cross = &(apop_model){"Cross product of models", .p=cross_p, .l
 
 apop_model *apop_model_cross_base(apop_model *mlist[]){
     apop_model_print_vtable_add(cross_print, apop_cross);
-    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='i', 
+    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='n'; return oute,
                             0, "No inputs. Returning blank model with outmodel->error=='n'.");
-    Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
+    Apop_stopif(!mlist[1], return apop_model_copy(mlist[0]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
     Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2);
-- 
2.43.0


From 4eb20dfef6406987517f3d5e0a6d710c5633b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 091/128] fix: apop_update: multi-parameter priors, no
 constraint, lists of points as priors, conjugates count every observation

---
 apop_update.m4.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index edf0617..be45b98 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -25,11 +25,15 @@ static long double product_ll(apop_data *d, apop_model *m){
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
     gsl_vector_free(v);
-    return apop_log_likelihood(m->parameters, pl[0]) + apop_log_likelihood(d, pl[1]);
+    //To the prior, all the parameters together are one observation.
+    gsl_matrix_view mv = gsl_matrix_view_vector(m->parameters->vector, 1, m->parameters->vector->size);
+    apop_data onerow = {.matrix=&mv.matrix};
+    return apop_log_likelihood(m->parameters->vector->size == 1 ? m->parameters : &onerow, pl[0]) + apop_log_likelihood(d, pl[1]);
 }
 
 static long double product_constraint(apop_data *data, apop_model *m){
     apop_model **pl = m->more;
+    if (!pl[1]->constraint) return 0;
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
     gsl_vector_free(v);
@@ -49,7 +53,7 @@ static apop_model *betabinom(apop_data *data, apop_model *prior, apop_model *lik
         double p = likelihood->parameters->vector->data[1];
         *gsl_vector_ptr(outp->parameters->vector, 0) += n*p;
         *gsl_vector_ptr(outp->parameters->vector, 1) += n*(1-p);
-    } else {
+    } else if (data) {
         gsl_vector *hits = Apop_cv(data, 1);
         gsl_vector *misses = Apop_cv(data, 0);
         *gsl_vector_ptr(outp->parameters->vector, 0) += apop_sum(hits);
@@ -63,7 +67,7 @@ double countup(double in){return in!=0;}
 static apop_model *betabernie(apop_data *data, apop_model *prior, apop_model *likelihood){
     apop_model *outp = apop_model_copy(prior);
     Get_vmsizes(data);//tsize
-    double sum = apop_map_sum(data, .fn_d=countup, .part='a');
+    double sum = data ? apop_map_sum(data, .fn_d=countup, .part='a') : 0;
     *gsl_vector_ptr(outp->parameters->vector, 0) += sum;
     *gsl_vector_ptr(outp->parameters->vector, 1) += tsize - sum;
     return outp;
@@ -71,25 +75,25 @@ static apop_model *betabernie(apop_data *data, apop_model *prior, apop_model *li
 
 static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *likelihood){
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //maxsize
-    *gsl_vector_ptr(outp->parameters->vector, 0) += maxsize;
+    Get_vmsizes(data); //tsize, vsize, msize1
+    *gsl_vector_ptr(outp->parameters->vector, 0) += tsize;
     apop_data_set(outp->parameters, 1, .val=1./
                           (1./apop_data_get(outp->parameters, 1) 
-                        + (data->matrix ? apop_matrix_sum(data->matrix) : 0)
-                        + (data->vector ? apop_sum(data->vector) : 0)));
+                        + (msize1 ? apop_matrix_sum(data->matrix) : 0)
+                        + (vsize ? apop_sum(data->vector) : 0)));
     return outp;
 }
 
 static apop_model *gammapoisson(apop_data *data, apop_model *prior, apop_model *likelihood){
     /* Posterior alpha = alpha_0 + sum x; posterior beta = beta_0/(beta_0*n + 1) */
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //vsize, msize1,maxsize
+    Get_vmsizes(data); //vsize, msize1, tsize
     *gsl_vector_ptr(outp->parameters->vector, 0) +=
                          (vsize  ? apop_sum(data->vector): 0) +
                          (msize1 ? apop_matrix_sum(data->matrix): 0);
 
     double *beta = gsl_vector_ptr(outp->parameters->vector, 1);
-    *beta = *beta/(*beta * maxsize + 1);
+    *beta = *beta/(*beta * tsize + 1);
     return outp;
 }
 
@@ -111,8 +115,14 @@ likelihood. If you give me a parametrized normal, with no data, then I'll take t
         var_like = gsl_pow_2(likelihood->parameters->vector->data[1]);
         n        = 1;
     } else {
-        n = data->matrix->size1 * data->matrix->size2;
-        apop_matrix_mean_and_var(data->matrix, &mu_like, &var_like);
+        Get_vmsizes(data); //vsize, msize1, tsize, firstcol
+        if (!tsize) return outp; //no data, so the posterior is the prior.
+        n = tsize;
+        mu_like = ((vsize ? apop_sum(data->vector) : 0) + (msize1 ? apop_matrix_sum(data->matrix) : 0))/n;
+        var_like = 0;
+        for (int i=0; i< vsize; i++) var_like += gsl_pow_2(gsl_vector_get(data->vector, i) - mu_like)/n;
+        for (int i=0; i< msize1; i++)
+            for (int j=0; j< msize2; j++) var_like += gsl_pow_2(gsl_matrix_get(data->matrix, i, j) - mu_like)/n;
     }
     gsl_vector_set(outp->parameters->vector, 0, (mu_pri/var_pri + n*mu_like/var_like)/(1/var_pri + n/var_like));
     gsl_vector_set(outp->parameters->vector, 1, pow((1/var_pri + n/var_like), -.5));
@@ -131,7 +141,7 @@ the posterior.  If you expect MCMC to run, you may add an \ref apop_mcmc_setting
 group to your prior to control the details of the search. See also the \ref
 apop_model_metropolis documentation.
 
-\li If the prior does not have a \c p or \c log_likelihood but does have a \c draw
+\li If the prior is an \ref apop_pmf, or does not have a \c p or \c log_likelihood but does have a \c draw
 element, then make draws from the prior and weight them by the \c p given by the
 likelihood distribution. This is not a rejection sampling method, so the burnin
 is ignored.
@@ -211,7 +221,9 @@ APOP_VAR_END_HEAD
                    (tsize > prior->dsize) ?  
                         " Perhaps use apop_model_fix_params to reduce the "
                         "likelihood's parameter count?" : "");
-    if (prior->p || prior->log_likelihood){
+    //The odds of an arbitrary parameter under a list of points, like an earlier posterior,
+    //are almost surely zero, so there is no searching there; draw from the list instead.
+    if ((prior->p || prior->log_likelihood) && prior->p != apop_pmf->p){
         apop_model *p = apop_model_copy(product);
         //pending revision, a memory leak:
         p->more = malloc(sizeof(apop_model*)*2);
-- 
2.43.0


From 30877a16a0797026688dfbfc6a180fe6eccf129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 092/128] fix: apop_mcmc: own proposals, starting point,
 information pages, error mark

---
 apop_mcmc.m4.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index abae761..528424f 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -10,7 +10,9 @@
 
 static void step_to_vector(double const *d, apop_mcmc_proposal_s *ps, apop_mcmc_settings *ms){
     apop_model *m = ps->proposal;
-    memcpy(m->parameters->vector->data, d, sizeof(double)*m->parameters->vector->size);
+    int block = ps - ms->proposals;
+    size_t len = GSL_MIN(ms->block_starts[block+1] - ms->block_starts[block], m->parameters->vector->size);
+    memcpy(m->parameters->vector->data, d, sizeof(double)*len);
 
     ps->adapt_fn(ps, ms);
 }
@@ -63,14 +65,13 @@ Apop_settings_free(apop_mcmc,
         }
 )
 
-static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc_settings *settings){
+static void setup_normal_proposals(apop_mcmc_proposal_s *s, gsl_vector const *start){
+    int tsize = start->size;
     apop_model *mvn =  apop_model_copy(apop_multivariate_normal);
     mvn->parameters = apop_data_alloc(tsize, tsize, tsize);
-    gsl_vector_set_all(mvn->parameters->vector, 1);
+    gsl_vector_memcpy(mvn->parameters->vector, start);
     gsl_matrix_set_identity(mvn->parameters->matrix);
     s->proposal = mvn;
-    s->step_fn = settings->base_step_fn;
-    s->adapt_fn = settings->base_adapt_fn;
 }
 
 static void set_block_count_and_block_starts(apop_data *in, 
@@ -81,12 +82,14 @@ static void set_block_count_and_block_starts(apop_data *in,
         s->block_starts[1] = total_len;
     } else if (s->gibbs_chunks =='b') {
         s->block_count = 0;
+        #define is_info(d) ((d)->names && apop_regex((d)->names->title, "^<.*>$")) //apop_data_pack skips these.
         for (apop_data *d = in; d; d=d->more)
-            s->block_count += !!d->vector + !!d->matrix + !!d->weights;
+            if (!is_info(d)) s->block_count += !!d->vector + !!d->matrix + !!d->weights;
 
         s->block_starts = calloc(s->block_count+1, sizeof(size_t));
         int this=1, ctr=0;
         for (apop_data *d = in; d; d=d->more){
+            if (is_info(d)) continue;
             #define markit(test, value) if (test)  \
                 s->block_starts[this++] = ctr += value; 
 
@@ -135,6 +138,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
         apop_data_unpack(draw, m->parameters); //keep the last success in m->parameters.
     }
     if (out_row>=0) gsl_vector_memcpy(Apop_rv(out, out_row), draw);
+    gsl_vector_free(clean_copy);
 }
 
 
@@ -306,23 +310,24 @@ APOP_VAR_END_HEAD
 		const size_t data_size1 = s->periods - lround(integerpart_periods_burnin); //same count as main_mcmc_loop
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
-    if (!s->proposals){
+    //if s->start_at =='p', we already have m->parameters in drawv.
+    if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
+
+    if (!s->block_starts)
         set_block_count_and_block_starts(m->parameters, s, drawv->size);
+    if (!s->proposals){
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
-        for (int i=0; i< s->block_count; i++){
-            apop_mcmc_proposal_s *p = s->proposals+i;
-            setup_normal_proposals(p, s->block_starts[i+1]-s->block_starts[i], s);
-            if (!p->proposal->parameters) {
-                apop_prep(NULL, p->proposal+i);
-                if(p->proposal->parameters->matrix) gsl_matrix_set_all(p->proposal->parameters->matrix, 1);
-                if(p->proposal->parameters->vector) gsl_vector_set_all(p->proposal->parameters->vector, 1);
-            }
+    }
+    for (int i=0; i< s->block_count; i++){
+        apop_mcmc_proposal_s *p = s->proposals+i;
+        if (!p->proposal){
+            gsl_vector_view start = gsl_vector_subvector(drawv, s->block_starts[i], s->block_starts[i+1]-s->block_starts[i]);
+            setup_normal_proposals(p, &start.vector);
         }
+        if (!p->step_fn) p->step_fn = s->base_step_fn;
+        if (!p->adapt_fn) p->adapt_fn = s->base_adapt_fn;
     }
-
-    //if s->start_at =='p', we already have m->parameters in drawv.
-    if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
     int constraint_fails = 0;
 
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
@@ -333,6 +338,7 @@ APOP_VAR_END_HEAD
     out->weights = gsl_vector_alloc(data_size1);
     gsl_vector_set_all(out->weights, 1);
     outp = apop_estimate(out, apop_pmf);
+    if (constraint_fails) outp->error = 'c';
     s->pmf = outp;
     s->base_model = m;
     outp->draw = apop_model_metropolis_draw;
-- 
2.43.0


From 7277f21f3f8d573685a0fe3b2d8d94bc578660c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 093/128] fix: apop_t_test, apop_f_test, chi-squared and ANOVA:
 textbook statistics, contrasts left as they were

---
 apop_tests.m4.c | 109 ++++++++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 55 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 0b9ff10..8ac7bee 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -59,8 +59,8 @@ apop_data *	apop_t_test(gsl_vector *a, gsl_vector *b){
            b_avg = apop_vector_mean(b),
     b_var = b_count > 1 ? apop_vector_var(b): 0,
     stat = (a_avg - b_avg)/ sqrt(
-                        (b_count > 1 ? b_var/(b_count-1) : 0) 
-                        + (a_count > 1 ? a_var/(a_count-1) : 0) 
+                        (b_count > 1 ? b_var/b_count : 0) 
+                        + (a_count > 1 ? a_var/a_count : 0) 
                         );
     if (apop_opts.verbose >=1){
         printf("1st avg: %g; 1st std dev: %g; 1st count: %i.\n", a_avg, sqrt(a_var), a_count);
@@ -95,7 +95,7 @@ apop_data * apop_paired_t_test(gsl_vector *a, gsl_vector *b){
     int count = a->size; 
     double avg = apop_vector_mean(diff),
     var = apop_vector_var(diff),
-    stat = avg/ sqrt(var/(count-1));
+    stat = avg/ sqrt(var/count);
     gsl_vector_free(diff);
     Apop_notify(2, "avg diff: %g; diff std dev: %g; count: %i; t-statistic: %g.\n", avg, sqrt(var), count, stat);
     return produce_t_test_output(count-1, stat, avg);
@@ -144,7 +144,7 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
     if (!contrast) contrast = apop_data_alloc(), free_data=1;
     if (!contrast->matrix) {
         int size = est->parameters->vector->size;
-        contrast->matrix= gsl_matrix_calloc(size - 1, size);
+        contrast->matrix= gsl_matrix_calloc(size - 1, size), free_matrix=1;
         for (int i=1; i< size; i++)
             apop_data_set(contrast, i-1, i, 1);
     }
@@ -152,8 +152,8 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
 
     apop_data *out = apop_f_test_base(est, contrast);
     if (free_data) {apop_data_free(contrast); return out;}
-    if (free_matrix) gsl_matrix_free(contrast->matrix);
-    if (free_vector) gsl_vector_free(contrast->vector);
+    if (free_matrix) {gsl_matrix_free(contrast->matrix); contrast->matrix = NULL;}
+    if (free_vector) {gsl_vector_free(contrast->vector); contrast->vector = NULL;}
     return out;
 APOP_VAR_ENDHEAD
     apop_data *out = apop_data_alloc();
@@ -168,19 +168,14 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(est->data); //msize1, msize2
     int data_df = msize1 - contrast_ct;
 
-    //Find (\underbar x)'(\underbar x), where (\underbar x) = the data with means removed
-    long double means[msize2];
-    for (int i=1; i< msize2; i++)
-        means[i] = apop_vector_mean(Apop_cv(est->data, i));
-    means[0]=0;// don't screw with the ones column.
     apop_data *xpx = apop_data_alloc(msize2, msize2);
     Apop_stopif(xpx->error, apop_data_free(xpx); out->error='a'; return out, 0, "allocation error");
     for (int i=0; i< msize2; i++)
         for (int j=0; j< msize2; j++){ //at this loop, we calculate one cell in the dot prouct
             long double total = 0;
             for (int c=0; c<msize1; c++)
-                total +=  (gsl_matrix_get(est->data->matrix, c, i) - means[i])
-                         *(gsl_matrix_get(est->data->matrix, c, j) - means[j]);
+                total += (long double)gsl_matrix_get(est->data->matrix, c, i)
+                                    * gsl_matrix_get(est->data->matrix, c, j);
             apop_data_set(xpx, i, j, total);
         }
 
@@ -216,7 +211,11 @@ APOP_VAR_ENDHEAD
     return out;
 }
 
-static double one_chi_sq(apop_data *d, int row, int col, int n){
+static double one_chi_sq(apop_data *d, int row, int col, double n){
+    if (d->matrix->size1 == 1 || d->matrix->size2 == 1){ //a list: are all cells equally likely?
+        double expected = n/(d->matrix->size1 * d->matrix->size2);
+        return gsl_pow_2(apop_data_get(d, row, col) - expected)/expected;
+    }
     double rowexp  = apop_vector_sum(Apop_rv(d, row))/n;
     double colexp  = apop_vector_sum(Apop_cv(d, col))/n;
     double observed = apop_data_get(d, row, col);
@@ -236,10 +235,10 @@ apop_data * apop_test_anova_independence(apop_data *d){
     Apop_stopif(!d || !d->matrix, return NULL, 0, "You sent me data with no matrix element. Returning NULL.");
     double total = 0;
     //You can have a one-column or one-row matrix if you want; else df = (rows-1)*(cols-1)
-    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
+    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1-1
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
-    int n = apop_matrix_sum(d->matrix);
+    double n = apop_matrix_sum(d->matrix);
     for (size_t row=0; row <d->matrix->size1; row++)
         for (size_t col=0; col <d->matrix->size2; col++)
             total += one_chi_sq(d, row, col, n);
@@ -252,6 +251,15 @@ apop_data * apop_test_anova_independence(apop_data *d){
 }
 
 
+static void set_f_ratio(apop_data *out, int row, int residual_row){
+    double df = apop_data_get(out, row, 1), residual_df = apop_data_get(out, residual_row, 1);
+    double f = apop_data_get(out, row, 2)/apop_data_get(out, residual_row, 2);
+    double pval = (df > 0 && residual_df > 0) ? gsl_cdf_fdist_Q(f, df, residual_df) : GSL_NAN;
+    apop_data_set(out, row, 3, f);
+    apop_data_set(out, row, 4, pval);
+    apop_data_set(out, row, 5, 1-pval); //confidence
+}
+
 static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     //ANOVA has always just been a process of filling in a form, and
     //that's what this function does.
@@ -267,29 +275,31 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_name_add(out->names, "total", 'r');
  
     //total sum of squares:
-    apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
-    apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
-    double total_df = apop_data_get(tss, 0, 1);
-    apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
-
-    //within group sum of squares:
-    apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
+    apop_data* tss = apop_query_to_data("select var_pop(%s), count(%s), avg(%s) from %s", data, data, data, table);
+    Apop_stopif(!tss || tss->error, apop_data_free(tss); apop_data_free(out); apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(%s) from %s' failed. Does that look right to you?", data, data, table);
+    double count = apop_data_get(tss, 0, 1);
+    double mean = apop_data_get(tss, 0, 2);
+    apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*count); //total sum of squares
+    apop_data_set(out, 2, 1, count-1); //total df.
+
+    //sum of squares of the group means around the overall mean:
+    apop_data* wss = apop_query_to_data("select avg(%s), count(%s) from %s where %s is not null group by %s", data, data, table, data, grouping);
+    Apop_stopif(!wss || wss->error, apop_data_free(tss); apop_data_free(wss); apop_data_free(out); apop_return_data_error('q'), 0, "Grouping %s by %s failed. Does that look right to you?", table, grouping);
     double group_df = wss->matrix->size1-1;
-    apop_data_set(out, 0, 0, apop_data_get(wss, 0, 0)*group_df); //within sum of squares
+    double group_ss = 0;
+    for (int i=0; i< wss->matrix->size1; i++)
+        group_ss += gsl_pow_2(apop_data_get(wss, i, 0) - mean) * apop_data_get(wss, i, 1);
+    apop_data_set(out, 0, 0, group_ss);
     apop_data_set(out, 0, 1, group_df);
 
-    //residuals are just total-wss
-    apop_data_set(out, 1, 0, apop_data_get(out, 2, 0) - apop_data_get(out, 0,0)); //residual sum of squares
-    double residual_df = total_df - group_df;
-    apop_data_set(out, 1, 1, residual_df); //residual df
+    //residuals are just the total less the part due to the groups
+    apop_data_set(out, 1, 0, apop_data_get(out, 2, 0) - group_ss); //residual sum of squares
+    double residual_df = count - 1 - group_df;
+    apop_data_set(out, 1, 1, residual_df);
 
-    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS within
+    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS of the groups
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
-
-    apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), group_df, residual_df));//pval
-    apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
+    set_f_ratio(out, 0, 1);
 
     apop_data_free(tss);
     apop_data_free(wss);
@@ -313,7 +323,7 @@ APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, ch
     char *apop_varad_var(data, NULL)
     Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
     char *apop_varad_var(grouping1, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
+    Apop_stopif(!grouping1, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
     char *apop_varad_var(grouping2, NULL)
 APOP_VAR_ENDHEAD
     apop_data *first = apop_anova_one_way(table, data, grouping1);
@@ -335,26 +345,15 @@ APOP_VAR_ENDHEAD
     gsl_matrix_set_row(out->matrix, 2, interrow);
     gsl_matrix_set_row(out->matrix, 4, Apop_rv(first, 2));
     
-    //residuals are just total-wss
-    apop_data_set(out, 3, 0, apop_data_get(out, 4, 0) 
-            - gsl_vector_get(firstrow, 0) - gsl_vector_get(secondrow, 0) - gsl_vector_get(interrow, 0)); //residual sum of squares
-    double residual_df = apop_data_get(out, 4, 1) 
-            - gsl_vector_get(firstrow, 1) - gsl_vector_get(secondrow, 1) - gsl_vector_get(interrow, 1); //residual df
-    apop_data_set(out, 3, 1, residual_df);
-
-    apop_data_set(out, 3, 2, apop_data_get(out, 3, 0)/apop_data_get(out, 3, 1));//mean SS residual
-
-    apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
-    apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
-
-    apop_data_set(out, 1, 3, apop_data_get(out, 1, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 1, 4, gsl_cdf_fdist_P(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
-    apop_data_set(out, 1, 5, 1- apop_data_get(out, 1, 4));//confidence
-
-    apop_data_set(out, 2, 3, apop_data_get(out, 2, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 2, 4, gsl_cdf_fdist_P(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
-    apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
+    //the groupings' interaction is what they explain together beyond what each explains alone.
+    apop_data_set(out, 2, 0, gsl_vector_get(interrow, 0) - gsl_vector_get(firstrow, 0) - gsl_vector_get(secondrow, 0));
+    apop_data_set(out, 2, 1, gsl_vector_get(interrow, 1) - gsl_vector_get(firstrow, 1) - gsl_vector_get(secondrow, 1));
+    apop_data_set(out, 2, 2, apop_data_get(out, 2, 0)/apop_data_get(out, 2, 1));
+
+    //residuals are what is not explained by the groupings together
+    for (int i=0; i< 3; i++)
+        apop_data_set(out, 3, i, apop_data_get(interaction, 1, i));
+    for (int i=0; i< 3; i++) set_f_ratio(out, i, 3);
 
     free(joined);
     apop_data_free(first);
-- 
2.43.0


From 8c4134556ba011e4fdd21b8fde1437ef644f82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 094/128] fix: goodness of fit and Kolmogorov-Smirnov:
 unweighted data, counts, distances of step functions

---
 apop_hist.m4.c | 55 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 9bf9f6e..9dd7b28 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -61,11 +61,13 @@ been drawn from the \c expected distribution.
 \li If an observation row has weight zero, I skip it. if <tt>apop_opts.verbose >=1 </tt> I will show a warning.
 */
 apop_data *apop_histograms_test_goodness_of_fit(apop_model *observed, apop_model *expected){
-    int df = observed->data->weights->size;
-    double diff = 0;
-    for (int i=0; i< observed->data->weights->size; i++){
-        double obs_val = gsl_vector_get(observed->data->weights, i);
-        double exp_val = apop_p(Apop_r(observed->data, i), expected);
+    Get_vmsizes(observed->data); //maxsize
+    gsl_vector *w = observed->data->weights; //if NULL, one observation per row.
+    int df = maxsize;
+    double diff = 0, total = w ? apop_sum(w) : maxsize;
+    for (int i=0; i< maxsize; i++){
+        double obs_val = w ? gsl_vector_get(w, i) : 1;
+        double exp_val = total * apop_p(Apop_r(observed->data, i), expected);
         if (exp_val == 0){
             diff = GSL_POSINF; 
             break;
@@ -78,7 +80,7 @@ apop_data *apop_histograms_test_goodness_of_fit(apop_model *observed, apop_model
     }
     //Data gathered. Now output
     apop_data   *out    = apop_data_alloc();
-    double      toptail = gsl_cdf_chisq_Q(diff, df-1);
+    double      toptail = df > 1 ? gsl_cdf_chisq_Q(diff, df-1) : GSL_NAN;
     Asprintf(&out->names->title, "Goodness-of-fit test via Chi-squared statistic");
     apop_data_add_named_elmt(out, "Chi squared statistic", diff);
     apop_data_add_named_elmt(out, "df", df-1);
@@ -213,6 +215,25 @@ static double psmirnov2x(double x, int m, int n) {
     return u[n];
 }
 
+static bool one_column(apop_data const *d){
+    return !!d->vector + (d->matrix ? d->matrix->size2 : 0) == 1;
+}
+
+static double column_elmt(apop_data const *d, size_t i){
+    return d->vector ? gsl_vector_get(d->vector, i) : gsl_matrix_get(d->matrix, i, 0);
+}
+
+//The share of the data at or below x.
+static double step_function(apop_data const *d, size_t size, double x){
+    long double below = 0, total = 0;
+    for (size_t i=0; i< size; i++){
+        double w = d->weights ? gsl_vector_get(d->weights, i) : 1;
+        total += w;
+        if (column_elmt(d, i) <= x) below += w;
+    }
+    return below/total;
+}
+
 /** Run the Kolmogorov-Smirnov test to determine whether two distributions are identical.
 
 \param m1 A sorted PMF model. I.e., a model estimated via something like 
@@ -248,13 +269,27 @@ apop_data *apop_test_kolmogorov(apop_model *m1, apop_model *m2){
     {Get_vmsizes(m1->data); maxsize1 = maxsize;} //copy one of the macro's variables 
     {Get_vmsizes(m2->data); maxsize2 = maxsize;} //to the full function's scope.
     double largest_diff = GSL_NEGINF;
-    double sum = 0;
+    double sum = 0, total = m1->data->weights ? apop_sum(m1->data->weights) : 1;
+    if (m2_is_pmf && one_column(m1->data) && one_column(m2->data)){
+        //The points of each are typically not points of the other, so use the step functions, not apop_cdf.
+        for (size_t i=0; i< maxsize1; i++){
+            double x = column_elmt(m1->data, i);
+            largest_diff = GSL_MAX(largest_diff, fabs(step_function(m1->data, maxsize1, x) - step_function(m2->data, maxsize2, x)));
+        }
+        for (size_t i=0; i< maxsize2; i++){
+            double x = column_elmt(m2->data, i);
+            largest_diff = GSL_MAX(largest_diff, fabs(step_function(m1->data, maxsize1, x) - step_function(m2->data, maxsize2, x)));
+        }
+    } else
     for (size_t i=0; i< maxsize1; i++){
         apop_data *arow = Apop_r(m1->data, i);
-        sum += m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1./maxsize1;
-        largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m2)));
+        double cdf = apop_cdf(arow, m2);
+        if (!m2_is_pmf) //distance from the bottom of the step
+            largest_diff = GSL_MAX(largest_diff, fabs(sum-cdf));
+        sum += m1->data->weights ? gsl_vector_get(m1->data->weights, i)/total : 1./maxsize1;
+        largest_diff = GSL_MAX(largest_diff, fabs(sum-cdf));
     }
-    if (m2_is_pmf){
+    if (m2_is_pmf && !(one_column(m1->data) && one_column(m2->data))){
         double sum = 0;
         for (size_t i=0; i< maxsize2; i++){     //There could be matched data rows to m1, so there is redundancy.
             apop_data *arow = Apop_r(m2->data, i);   // Feel free to submit a smarter version.
-- 
2.43.0


From 3fa9b392c8ad75ae3892ec4c320c6262359034e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 095/128] fix: vtables: no read past the end on dropping,
 tables safe to use while another thread adds one

---
 apop_vtables.c | 83 ++++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 47 deletions(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index da4a4b1..fac95f9 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -2,15 +2,6 @@
 #include <string.h>
 #include "apop_internal.h" //just for OMP_critical
 
-#ifdef _OPENMP
-#include <omp.h>
-#define lock omp_set_lock(&v->mutex);
-#define unlock omp_unset_lock(&v->mutex);
-#else
-#define lock 
-#define unlock 
-#endif
-
 /** \cond doxy_ignore */
 typedef struct {
     size_t hash;
@@ -22,13 +13,9 @@ typedef struct {
     unsigned long int hashed_name;
     int elmt_ct;
     apop_vtable_elmt_s *elmts;
-#ifdef _OPENMP
-    omp_lock_t mutex;
-#endif
 } apop_vtable_s;
 
 apop_vtable_s *vtable_list;
-int ignore_me;
 /** \endcond */ //End of Doxygen ignore.
 
 //The Dan J Bernstein string hashing algorithm.
@@ -46,73 +33,75 @@ static apop_vtable_s *find_tab(unsigned long h, int *ctr){
     return v;
 }
 
-//return 0 = found; removed
-//return 1 = not found; no-op
-int apop_vtable_drop(char const *tabname, unsigned long hash){
-    if (!vtable_list) return 1;
-    unsigned long h = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(h, &ignore_me);
+/* The list of tables moves when a table is added, so all use of it happens in one critical section. */
 
-    lock
+static int vtable_drop(char const *tabname, unsigned long hash){
+    if (!vtable_list) return 1;
+    int ignore_me;
+    apop_vtable_s *v = find_tab(apop_settings_hash(tabname), &ignore_me);
     for (int i=0; i< v->elmt_ct; i++)
         if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i));
+            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
             v->elmt_ct--;
-            unlock
             return 0;
         }
-    unlock
     return 1;
 }
 
-int apop_vtable_add(char const *tabname, void *fn_in, unsigned long hash){
+//return 0 = found; removed
+//return 1 = not found; no-op
+int apop_vtable_drop(char const *tabname, unsigned long hash){
+    int out;
+    OMP_critical (apop_vtables)
+    out = vtable_drop(tabname, hash);
+    return out;
+}
+
+static int vtable_add(char const *tabname, void *fn_in, unsigned long hash){
     if (!vtable_list){vtable_list = calloc(1, sizeof(apop_vtable_s));}
 
     unsigned long h = apop_settings_hash(tabname);
     int ctr;
-    apop_vtable_s *v;
-
+    apop_vtable_s *v = find_tab(h, &ctr);
 
     //add a table if need be.
-    OMP_critical (new_vtable)
-    {
-    v = find_tab(h, &ctr);
-
     if (!v->hashed_name){
         vtable_list = realloc(vtable_list, (ctr+2)* sizeof(apop_vtable_s));
         vtable_list[ctr] = (apop_vtable_s){.elmts=calloc(1, sizeof(apop_vtable_elmt_s))};
         vtable_list[ctr+1] = (apop_vtable_s){ };
-        #ifdef _OPENMP
-            omp_init_lock(&vtable_list[ctr].mutex);
-            omp_set_lock(&vtable_list[ctr].mutex);
-        #endif
         vtable_list[ctr].name = tabname;
         vtable_list[ctr].hashed_name = h;
         v = vtable_list+ctr;
-        unlock
-    }
     }
 
-    lock
     //If this hash is already present, don't re-add. 
-    for (int i=0; i< v->elmt_ct; i++) if (hash == v->elmts[i].hash) {unlock; return 0;}
+    for (int i=0; i< v->elmt_ct; i++) if (hash == v->elmts[i].hash) return 0;
 
     //insert
     v->elmts = realloc(v->elmts, (++(v->elmt_ct))* sizeof(apop_vtable_elmt_s));
     v->elmts[v->elmt_ct-1] = (apop_vtable_elmt_s){.hash=hash, .fn=fn_in};
-    unlock
     return 0;
 }
 
-void *apop_vtable_get(char const *tabname, unsigned long hash){
-    if (!vtable_list) return NULL;
-    unsigned long thash = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(thash, &ignore_me);
-    if (!v->hashed_name) return NULL;
+int apop_vtable_add(char const *tabname, void *fn_in, unsigned long hash){
+    int out;
+    OMP_critical (apop_vtables)
+    out = vtable_add(tabname, fn_in, hash);
+    return out;
+}
 
-    lock
+static void *vtable_get(char const *tabname, unsigned long hash){
+    if (!vtable_list) return NULL;
+    int ignore_me;
+    apop_vtable_s *v = find_tab(apop_settings_hash(tabname), &ignore_me);
     for (int i=0; i< v->elmt_ct; i++)
-        if (hash == v->elmts[i].hash) {unlock; return v->elmts[i].fn;}
-    unlock
+        if (hash == v->elmts[i].hash) return v->elmts[i].fn;
     return NULL;
 }
+
+void *apop_vtable_get(char const *tabname, unsigned long hash){
+    void *out;
+    OMP_critical (apop_vtables)
+    out = vtable_get(tabname, hash);
+    return out;
+}
-- 
2.43.0


From 7fe32dd8bf63b8a9052511a6a4ecc800ce816910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 096/128] fix: Apop_settings_set marks the error and does not
 use the group that is not there

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 4000d3f..30be055 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1119,7 +1119,7 @@ apop_model *optimal_mix = apop_estimate(input_data, mix); //Everything is set up
         type ## _settings *apop_tmp_settings = apop_settings_get_grp(model, #type, 'c');  \
         Apop_stopif(!apop_tmp_settings, (model)->error='s', 0, "You're trying to modify a setting in " \
                         #model "'s setting group of type " #type " but that model doesn't have such a group."); \
-    apop_tmp_settings->setting = (data);                \
+    if (apop_tmp_settings) apop_tmp_settings->setting = (data);                \
     } while (0);
 
 /** \cond doxy_ignore */
-- 
2.43.0


From 5cc50e35029ae9de8275cad12c5c770b41c7ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 097/128] fix: apop_rake: cells off the margins, nudged
 starting tables, more than six variables, wrong contrasts, convergence mark,
 working tables

---
 apop_rake.m4.c | 55 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 7b0e800..f06d72d 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -1,6 +1,9 @@
 //#define __USE_POSIX //for strtok_r
 #include "apop_internal.h"
 #include <stdbool.h>
+#ifdef _OPENMP
+#include <omp.h>
+#endif
 #include <gsl/gsl_sort_vector.h>
 void xprintf(char **q, char *format, ...); //in apop_conversions.c
 
@@ -69,7 +72,10 @@ mnode_t **index_generate(apop_data const *in, apop_data const *in2){
     mnode_t **mnodes = malloc(sizeof(mnode_t*)*(margin_ct+1));
     //allocate every node
     for(size_t i=0; i < margin_ct; i ++){
-        gsl_vector *vals = apop_vector_unique_elements(Apop_cv(in, i));
+        //All values that either table takes: those only in the fit table have a margin total of zero.
+        gsl_vector *both = apop_vector_stack(apop_vector_copy(Apop_cv(in, i)), Apop_cv(in2, i), 'y');
+        gsl_vector *vals = apop_vector_unique_elements(both);
+        gsl_vector_free(both);
         mnodes[i] = malloc(sizeof(mnode_t)*(vals->size+1));
         for(size_t j=0; j < vals->size; j ++)
             mnodes[i][j] = (mnode_t) {.val = gsl_vector_get(vals, j),
@@ -85,7 +91,7 @@ mnode_t **index_generate(apop_data const *in, apop_data const *in2){
         for(size_t j=0; j < in->matrix->size1; j++)
             Apop_stopif(index_add_node(mnodes, i, j, apop_data_get(in, j, i), true) == -1, return mnodes,
             0, "I can't find a value, %g, that should've already been inserted.", apop_data_get(in, j, i));
-        for(size_t j=0; j < in2->matrix->size1; j++) //these values may not be present, in which case ignore them.
+        for(size_t j=0; j < in2->matrix->size1; j++)
             index_add_node(mnodes, i, j, apop_data_get(in2, j, i), false);
     }
     return mnodes;
@@ -322,7 +328,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     }
     cleanup(index, rakeinfos,contrast_ct);
     gsl_vector_free(previous);
-    Apop_stopif(k == maxit, fit->error='c', 0, "Maximum number of iterations reached.");
+    Apop_stopif(k > maxit, fit->error='c', 0, "Maximum number of iterations reached.");
 }
 
 char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
@@ -343,14 +349,17 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
         Apop_stopif(apop_opts.db_engine=='m', apop_return_data_error(y),
                     0, "I need a list of the full set of variable "
                        "names sent as .varlist= (char *[]){\"var1\", \"var2\",...}");
-        //use SQLite's table_info, then shift the second col to the first.
-        all_vars_d = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        //use SQLite's table_info, whose second col is the names.
+        apop_data *info = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        Apop_stopif(!info || info->error, apop_data_free(info); apop_return_data_error(y), 0, "Trouble getting the list of variables.");
+        all_vars_d = apop_text_alloc(NULL, 1, info->textsize[0]);
         int ctr=0;
-        for (int i=0; i< all_vars_d->textsize[0]; i++)
-            if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
-                 && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, all_vars_d->text[i][1]);
+        for (int i=0; i< info->textsize[0]; i++)
+            if (info->text[i][1] && (count_col ? strcmp(info->text[i][1], count_col) : 1)
+                 && (init_count_col ? strcmp(info->text[i][1], init_count_col): 1))
+                    apop_text_set(all_vars_d, 0, ctr++, info->text[i][1]);
         apop_text_alloc(all_vars_d, 1, ctr);
+        apop_data_free(info);
         *var_ct = ctr;
     } else {
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
@@ -394,7 +403,7 @@ int find_in_allvars(char const *in, apop_data const *allvars){
 static int setup_nonzero_contrast(char const *margin_table, 
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
-              double nudge, char const * structural_zeros, bool have_init_table){
+              double nudge, char const * structural_zeros, char const *init_table){
     char *q;
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
@@ -416,9 +425,9 @@ static int setup_nonzero_contrast(char const *margin_table,
                   q, (!contrast_ct && i==0) ? "" : "natural join",
                   allvars->text[0][i],  margin_table);
     if (structural_zeros) xprintf(&q, "%s where not (%s)\n", q, structural_zeros);
-    if (have_init_table){
-        //Keep out margins with values for now; join them in below.
-        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
+    if (init_table){
+        //Keep out cells with values for now; join them in below.
+        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, init_table);
     }
 	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
     free(q);
@@ -546,7 +555,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
 APOP_VAR_ENDHEAD
-    #ifdef OpenMP
+    #ifdef _OPENMP
         int run_number = omp_get_thread_num();
     #else
         int run_number = 0;
@@ -555,6 +564,11 @@ APOP_VAR_ENDHEAD
 	apop_data **contras = generate_list_of_contrasts(contrasts, contrast_ct);
     apop_data *all_vars_d = get_var_list(margin_table, count_col, init_count_col, var_list, &var_ct);
     Apop_stopif(all_vars_d->error, return all_vars_d, 0, "Trouble setting up the list of variables.");
+    for (int i=0; i< contrast_ct; i++){
+        Apop_stopif(!contras[i] || !contras[i]->textsize[0], apop_return_data_error(i), 0, "Contrast %i has no variables.", i);
+        for (int j=0; j< contras[i]->textsize[0]; j++)
+            Apop_stopif(find_in_allvars(contras[i]->text[j][0], all_vars_d)==-1, apop_return_data_error(i), 0, "Error setting up contrasts");
+    }
     int tt = all_vars_d->textsize[0]; all_vars_d->textsize[0] = 1; //mask all but the first row
     char *list_of_fields = apop_text_paste(all_vars_d, .between=", ");
 
@@ -569,6 +583,8 @@ APOP_VAR_ENDHEAD
                  0, "Couldn't calculate the set of nonzero cells.");
     }
 
+    #define drop_working_table if (!init_table || nudge) apop_query("drop table apop_zerocontrasts_%i", run_number)
+
     char *initt=NULL; //handle structural zeros via subquery
     //note that margin data may have invalid rows.
     if (init_table){
@@ -598,11 +614,11 @@ APOP_VAR_ENDHEAD
         xprintf(&format, "m%s", format);
     apop_data *d, *contrast_grid;
     d = apop_query_to_mixed_data(format, "%s", marginq);
-    Apop_stopif(!d || d->error, apop_return_data_error(q),
+    Apop_stopif(!d || d->error, drop_working_table; apop_return_data_error(q),
             0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
     free(marginq);
 
-    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error(q),
+    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), drop_working_table; apop_return_data_error(q),
             0, "This query:\n%s\ngenerated a blank or broken table.", pre_init_q);
 
     apop_data *fit;
@@ -610,8 +626,8 @@ APOP_VAR_ENDHEAD
         fit = (nudge) 
                ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
                : apop_query_to_mixed_data(format, "%s", init_q);
-        Apop_stopif(!fit, apop_return_data_error(q), 0, "Query returned a blank table.");
-        Apop_stopif(fit->error, apop_return_data_error(q), 0, "Query error.");
+        Apop_stopif(!fit, drop_working_table; apop_return_data_error(q), 0, "Query returned a blank table.");
+        Apop_stopif(fit->error, drop_working_table; apop_return_data_error(q), 0, "Query error.");
     } else {
         fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
@@ -633,7 +649,8 @@ APOP_VAR_ENDHEAD
     
     all_vars_d->textsize[0] = tt;
     apop_data_free(all_vars_d);
-    if (!init_table || nudge) apop_query("drop table apop_zerocontrasts_%i", run_number);
+    drop_working_table;
+    #undef drop_working_table
 	apop_data_free(contrast_grid);
 	return fit;
 }
-- 
2.43.0


From 1d4a52e9c7b4fc629e2f0aa19bbd4d6528c0f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 098/128] fix: apop_parameter_model: standard deviation for the
 Normal, sizes when the parameters include a matrix

---
 apop_model.m4.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index a629097..caad442 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -369,24 +369,24 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
     apop_parameter_model_type pm = apop_parameter_model_vtable_get(m);
     if (pm) return pm(d, m);
     else if (d){
-        Get_vmsizes(m->parameters);//vsize, msize1, msize2
         apop_model *out = apop_model_copy(apop_multivariate_normal);
-        out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1+msize2;
         out->parameters = apop_bootstrap_cov(d, m, settings->rng, settings->draws);
         out->parameters->vector = apop_data_pack(m->parameters);
+        out->msize1 = out->vsize = out->msize2 = out->dsize = out->parameters->vector->size;
         if (settings->index == -1)
             return out;
         else {
             apop_model *out2 = apop_model_set_parameters(apop_normal, 
                     apop_data_get(out->parameters, settings->index, -1), //mean
-                    apop_data_get(out->parameters, settings->index, settings->index)//var
+                    sqrt(apop_data_get(out->parameters, settings->index, settings->index))//std dev
                     );
             apop_model_free(out);
             return out2;
         }
     } //else
-    Get_vmsizes(m->parameters);//vsize, msize1, msize2
-    apop_data *param_draws = apop_data_alloc(0, settings->draws, vsize+msize1+msize2);
+    gsl_vector *packed = apop_data_pack(m->parameters);
+    apop_data *param_draws = apop_data_alloc(0, settings->draws, packed->size);
+    gsl_vector_free(packed);
     for (int i=0; i < settings->draws; i++){
         apop_model *mm = apop_estimate (NULL, m);//If you're here, d==NULL.
         apop_data_pack(mm->parameters, Apop_rv(param_draws, i));
-- 
2.43.0


From bad3090a01f6274a56e3c6d3f3e3473273d170a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 099/128] fix: bootstrap with NaNs, its error return and its
 column names; jackknife of one observation; input's names untouched while
 resampling

---
 apop_bootstrap.m4.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index cf6cff4..6e99ba1 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -40,7 +40,7 @@ using that slightly shortened data set. Then, find the covariance matrix of the
 \param in	    The data set. An \ref apop_data set where each row is a single data point.
 \param model    An \ref apop_model, that will be used internally by \ref apop_estimate.
             
-\exception out->error=='n'   \c NULL input data.
+\exception out->error=='n'   \c NULL input data, or fewer than two observations.
 \return         An \c apop_data set whose matrix element is the estimated covariance matrix of the parameters.
 \see apop_bootstrap_cov
 
@@ -50,8 +50,10 @@ For example:
 apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     Apop_stopif(!in, apop_return_data_error(n), 0, "The data input can't be NULL.");
     Get_vmsizes(in); //msize1, msize2, vsize
-    apop_model *e = apop_model_copy(model);
     int i, n = GSL_MAX(msize1, GSL_MAX(vsize, in->textsize[0]));
+    Apop_stopif(n < 2, apop_return_data_error(n), 0, "The jackknife leaves out an observation at a time, "
+                                                     "so it needs at least two; you gave me %i.", n);
+    apop_model *e = apop_model_copy(model);
     apop_model *overall_est = e->parameters ? e : apop_estimate(in, e);//if not estimated, do so
     gsl_vector *overall_params = apop_data_pack(overall_est->parameters);
     gsl_vector_scale(overall_params, n); //do it just once.
@@ -59,14 +61,15 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
 
     //Copy the original, minus the first row.
     apop_data *subset = apop_data_copy(Apop_rs(in, 1, n-1));
-    apop_name *tmpnames = in->names; 
-    in->names = NULL;  //save on some copying below.
+    apop_data *nameless = &(apop_data){ }; //save on some copying below.
+    *nameless = *in;
+    nameless->names = NULL;
 
     apop_data *array_of_boots = apop_data_alloc(n, overall_params->size);
 
     for(i = -1; i< n-1; i++){
         //Get a view of row i, and copy it to position i-1 in the short matrix.
-        if (i >= 0) apop_data_memcpy(Apop_r(subset, i), Apop_r(in, i));
+        if (i >= 0) apop_data_memcpy(Apop_r(subset, i), Apop_r(nameless, i));
         apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
         gsl_vector_memcpy(pseudoval, overall_params);// *n above.
@@ -76,7 +79,6 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
         apop_model_free(est);
         gsl_vector_free(estp);
     }
-    in->names = tmpnames;
     apop_data *out = apop_data_covariance(array_of_boots);
     gsl_matrix_scale(out->matrix, 1./(n-1.));
     apop_data_free(subset);
@@ -136,34 +138,39 @@ APOP_VAR_ENDHEAD
     //prevent and infinite regression of covariance calculation.
     Apop_model_add_group(e, apop_parts_wanted); //default wants for nothing.
     size_t i, nan_draws=0;
-    apop_name *tmpnames = (data && data->names) ? data->names : NULL; //save on some copying below.
-    if (data && data->names) data->names = NULL;
+    apop_data *nameless = &(apop_data){ }; //save on some copying below.
+    if (data) *nameless = *data;
+    nameless->names = NULL;
+    if (boot_store) *boot_store = NULL;
 
     int height = GSL_MAX(msize1, GSL_MAX(vsize, (data?(*data->textsize):0)));
 	for (i=0; i<iterations && nan_draws < iterations; i++){
 		for (size_t j=0; j< height; j++){       //create the data set
 			size_t randrow	= gsl_rng_uniform_int(rng, height);
-            apop_data_memcpy(Apop_r(subset, j), Apop_r(data, randrow));
+            apop_data_memcpy(Apop_r(subset, j), Apop_r(nameless, randrow));
 		}
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        if (!gsl_isnan(apop_sum(estp))){
-            if (i==0){
+        int has_nan = 0;
+        for (size_t j=0; j< estp->size && !has_nan; j++) has_nan = gsl_isnan(gsl_vector_get(estp, j));
+        if (has_nan && ignore_nans=='y'){
+            i--; //if i is zero, the increment undoes the wrap-around.
+            nan_draws++;
+        } else {
+            if (!array_of_boots){
                 array_of_boots	      = apop_data_alloc(iterations, estp->size);
-                apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'v');
-                apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'c');
-                apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'r');
+                //One name per column, where one list of names covers all of the parameters.
+                apop_name *pnames = est->parameters->names;
+                char source = !pnames ? 0 : pnames->rowct == estp->size ? 'r' 
+                              : pnames->colct == estp->size ? 'c' : (pnames->vector && estp->size==1) ? 'v' : 0;
+                if (source) apop_name_stack(array_of_boots->names, pnames, 'c', source);
             }
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
-        } else if (ignore_nans=='y'){
-            i--; 
-            nan_draws++;
         }
         apop_model_free(est);
         gsl_vector_free(estp);
 	}
-    if(data) data->names = tmpnames;
     apop_data_free(subset);
     apop_model_free(e);
     int set_error=0;
@@ -171,7 +178,7 @@ APOP_VAR_ENDHEAD
                 1, "I ran into %i NaNs and no not-NaN estimations, and so stopped. "
                        , iterations);
     Apop_stopif(nan_draws == iterations,  set_error++;
-            apop_matrix_realloc(array_of_boots->matrix, i, array_of_boots->matrix->size2),
+            array_of_boots->matrix = apop_matrix_realloc(array_of_boots->matrix, i, array_of_boots->matrix->size2),
                 1, "I ran into %i NaNs, and so stopped. Returning results based "
                        "on %zu bootstrap iterations.", iterations, i);
 	summary	= apop_data_covariance(array_of_boots);
-- 
2.43.0


From b66b96baff66e0f86b1836490344d1922fcfc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 100/128] fix: the jackknife variance is the variance of the
 pseudovalues over n

---
 apop_bootstrap.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index 6e99ba1..b29c7a3 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -80,7 +80,7 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
         gsl_vector_free(estp);
     }
     apop_data *out = apop_data_covariance(array_of_boots);
-    gsl_matrix_scale(out->matrix, 1./(n-1.));
+    gsl_matrix_scale(out->matrix, 1./n);
     apop_data_free(subset);
     gsl_vector_free(pseudoval);
     apop_data_free(array_of_boots);
-- 
2.43.0


From e1bd5033ac63a3d26cad61f0ba055590679b54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 101/128] fix: the jackknife and bootstrap hand copies of the
 data to models that rearrange what they are given

---
 apop_bootstrap.m4.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index b29c7a3..57b0df8 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -54,7 +54,9 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     Apop_stopif(n < 2, apop_return_data_error(n), 0, "The jackknife leaves out an observation at a time, "
                                                      "so it needs at least two; you gave me %i.", n);
     apop_model *e = apop_model_copy(model);
-    apop_model *overall_est = e->parameters ? e : apop_estimate(in, e);//if not estimated, do so
+    //Models may rearrange the data they are given (e.g., apop_ols), so they only get copies.
+    apop_data *working = e->parameters ? NULL : apop_data_copy(in);
+    apop_model *overall_est = e->parameters ? e : apop_estimate(working, e);//if not estimated, do so
     gsl_vector *overall_params = apop_data_pack(overall_est->parameters);
     gsl_vector_scale(overall_params, n); //do it just once.
     gsl_vector *pseudoval = gsl_vector_alloc(overall_params->size);
@@ -70,13 +72,15 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     for(i = -1; i< n-1; i++){
         //Get a view of row i, and copy it to position i-1 in the short matrix.
         if (i >= 0) apop_data_memcpy(Apop_r(subset, i), Apop_r(nameless, i));
-        apop_model *est = apop_estimate(subset, e);
+        apop_data *work_subset = apop_data_copy(subset);
+        apop_model *est = apop_estimate(work_subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
         gsl_vector_memcpy(pseudoval, overall_params);// *n above.
         gsl_vector_scale(estp, n-1);
         gsl_vector_sub(pseudoval, estp);
         gsl_matrix_set_row(array_of_boots->matrix, i+1, pseudoval);
         apop_model_free(est);
+        apop_data_free(work_subset);
         gsl_vector_free(estp);
     }
     apop_data *out = apop_data_covariance(array_of_boots);
@@ -86,6 +90,7 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     apop_data_free(array_of_boots);
     if (e!=overall_est)
         apop_model_free(overall_est);
+    apop_data_free(working);
     apop_model_free(e);
     gsl_vector_free(overall_params);
     return out;
@@ -150,7 +155,8 @@ APOP_VAR_ENDHEAD
             apop_data_memcpy(Apop_r(subset, j), Apop_r(nameless, randrow));
 		}
 		//get the parameter estimates.
-		apop_model *est = apop_estimate(subset, e);
+        apop_data *work_subset = apop_data_copy(subset); //the model may rearrange its data.
+		apop_model *est = apop_estimate(work_subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
         int has_nan = 0;
         for (size_t j=0; j< estp->size && !has_nan; j++) has_nan = gsl_isnan(gsl_vector_get(estp, j));
@@ -169,6 +175,7 @@ APOP_VAR_ENDHEAD
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
         }
         apop_model_free(est);
+        apop_data_free(work_subset);
         gsl_vector_free(estp);
 	}
     apop_data_free(subset);
-- 
2.43.0


From daf234a5c2f70ce97b88fd982ef9b6bb99b82a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 102/128] fix: threads no longer leave the library's GSL error
 handler in place; regressions on singular data are marked, not a crash

---
 apop_data.m4.c           |  4 ++--
 apop_internal.h          |  3 +++
 apop_linear_algebra.m4.c | 20 ++++++++++++++++++--
 apop_mle.m4.c            |  6 ++++--
 model/apop_ols.c         | 30 +++++++++++++++++++++++++-----
 5 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c932da7..ba1d67e 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -4,8 +4,8 @@ The apop_data structure joins together a gsl_matrix, apop_name, and a table of s
 
 #include "apop_internal.h"
 //apop_gsl_error is in apop_linear_algebra.c
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+#define Set_gsl_handler apop_gsl_handler_set(apop_gsl_error);
+#define Unset_gsl_handler apop_gsl_handler_unset();
 
 /** Allocate an \ref apop_data structure.
  
diff --git a/apop_internal.h b/apop_internal.h
index 70ec90d..68a6469 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -36,11 +36,14 @@ void xprintf(char **q, char *format, ...);
 #define Asprintf(...) Apop_stopif(asprintf(__VA_ARGS__)==-1, , 0, "Error printing to a string.")
 
 #include <sqlite3.h>
+#include <gsl/gsl_errno.h>
 #include <stddef.h>
 int apop_use_sqlite_prepared_statements(size_t col_ct);
 int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3_stmt **statement);
 char *prep_string_for_sqlite(int prepped_statements, char const *astring);//apop_conversions.c
 void apop_gsl_error(char const *reason, char const *file, int line, int gsl_errno); //apop_linear_algebra.c
+void apop_gsl_handler_set(gsl_error_handler_t *h);
+void apop_gsl_handler_unset();
 
 //For when we're forced to use a global variable.
 #undef threadlocal
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index c057dd5..e2aad55 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -11,11 +11,27 @@ void apop_gsl_error(const char *reason, const char *file, int line, int gsl_errn
     Apop_notify(1, "%s: %s", file, reason);
     Apop_maybe_abort(1);
 }
+/* The GSL has one error handler for the whole program, so if every function restored the
+handler it found, two threads could leave one of ours in place for good. The first one
+in puts away the user's handler and the last one out restores it.*/
+static gsl_error_handler_t *users_handler;
+static int handler_depth;
+
+void apop_gsl_handler_set(gsl_error_handler_t *h){
+    OMP_critical(apop_gsl_handler)
+    if (!handler_depth++) users_handler = gsl_set_error_handler(h);
+}
+
+void apop_gsl_handler_unset(){
+    OMP_critical(apop_gsl_handler)
+    if (!--handler_depth) gsl_set_error_handler(users_handler);
+}
+
 #define Checkgsl(...) if (__VA_ARGS__) {goto done;}
 #define Check_gsl_with_out(...) if (__VA_ARGS__) {out->error='m'; goto done;}
 #define Check_gsl_with_outmp(...) if (__VA_ARGS__) {gsl_matrix_free(*out); *out=NULL; goto done;}
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+#define Set_gsl_handler apop_gsl_handler_set(apop_gsl_error);
+#define Unset_gsl_handler apop_gsl_handler_unset();
 
 /**
 Calculate the determinant of a matrix, its inverse, or both, via LU decomposition. The \c in matrix is not destroyed in the process.
diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 02494af..8783d93 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -887,6 +887,8 @@ done:
 
 /* This function calls the various GSL root-finding algorithms to find the zero of the score.
    Cut/pasted/modified from the GSL documentation.  */
+static void quiet_gsl_error(char const *reason, char const *file, int line, int gsl_errno){ }
+
 static void find_roots (infostruct p) {
     const gsl_multiroot_fsolver_type *T;
     gsl_multiroot_fsolver *s;
@@ -902,7 +904,7 @@ static void find_roots (infostruct p) {
     s = gsl_multiroot_fsolver_alloc (T, betasize);
     //The solvers know nothing of constraints, and singular matrices and points where the
     //functions aren't defined are an unsuccessful search, not a reason to halt the program.
-    gsl_error_handler_t *prior_handler = gsl_set_error_handler_off();
+    apop_gsl_handler_set(quiet_gsl_error);
     if (setjmp(p.bad_eval_jump)) goto done;
     status = gsl_multiroot_fsolver_set (s, &f, p.beta);
     if (!status) do {
@@ -925,5 +927,5 @@ done:
     if (dist->constraint && dist->constraint(p.data, dist)) apopstatus = -1;
     gsl_multiroot_fsolver_free (s);
     auxinfo(&p, apopstatus, betasize);
-    gsl_set_error_handler(prior_handler);
+    apop_gsl_handler_unset();
 }
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 621ed5b..25fe953 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -228,17 +228,35 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
     gsl_vector_free(errors);
 }
 
-//xpx may be destroyed by the HH transformation.
-static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
+//No unique solution: the parameters are NaN, and the model is marked.
+static int singular_xpx(apop_model *out){
+    out->error = 'm';
+    if (out->parameters && out->parameters->vector) gsl_vector_set_all(out->parameters->vector, GSL_NAN);
+    apop_data *cov = apop_data_get_page(out->parameters, "<Covariance>");
+    if (cov && cov->matrix) gsl_matrix_set_all(cov->matrix, GSL_NAN);
+    apop_data *pred = apop_data_get_page(out->info, "<Predicted>");
+    if (pred && pred->matrix) gsl_matrix_set_all(pred->matrix, GSL_NAN);
+    Apop_notify(1, "X'X is singular, so there are no unique regression coefficients. Setting them to NaN and out->error='m'.");
+    return 1;
+}
+
+//xpx may be destroyed by the HH transformation. Returns nonzero iff there is no unique solution.
+static int xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
 	if (!want_cov(out) && !want_predicted(out)){
 		//then don't calculate (X'X)^{-1}
-		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
-		return;
+        apop_gsl_handler_set(apop_gsl_error);
+		int failed = gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
+        apop_gsl_handler_unset();
+		return failed ? singular_xpx(out) : 0;
 	} //else:
     double s_sq;
     gsl_vector const *y_data = data->vector; //just an alias
     apop_data *cov = apop_data_alloc();
     double det = apop_det_and_inv(xpx, &cov->matrix, 1, 1);// not yet cov, just (X'X)^-1.
+    if (!cov->matrix || det == 0){
+        apop_data_free(cov);
+        return singular_xpx(out);
+    }
     if (det < 1e-4) Apop_notify(1, "Determinant of X'X is small (%g), so matrix is near singular. "
                         "Expect the covariance matrix [based on (X'X)^-1] to be garbage.", det);
     apop_data_free(out->parameters);
@@ -265,6 +283,7 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
         apop_data_rm_page(out->parameters, "<Covariance>");
     apop_data_add_page(out->parameters, cov, "<Covariance>");
     apop_data_add_page(out->parameters, apop_data_falloc((1), s_sq), "<Error variance>");
+    return 0;
 }
 
 /* \adoc    RNG  Linear models are typically only partially defined probability models. For
@@ -359,11 +378,12 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
 
     apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
     apop_data *xpy_d = apop_dot(set, set, .form1='t', .form2='v'); //(X'y)
-    xpxinvxpy(inset, xpx_d->matrix, xpy_d, ep);
+    int failed = xpxinvxpy(inset, xpx_d->matrix, xpy_d, ep);
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
     if (set != inset) apop_data_free(set);
+    if (failed) return;
 
     if (pwant ? pwant->tests=='y' : want_cov(ep))
         apop_estimate_parameter_tests(ep);
-- 
2.43.0


From 8c4a3b50486ad25ae6ee86fe47d9158f00542c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 103/128] fix: numerical derivatives of models whose parameters
 are on more than one page

---
 apop_mle.m4.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 8783d93..7feeb73 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -86,6 +86,13 @@ static double one_d(double b, void *in){
 
 //Numeric first and second derivatives.
 
+static size_t packed_size(apop_data *params){
+    gsl_vector *v = apop_data_pack(params);
+    size_t out = v ? v->size : 0;
+    gsl_vector_free(v);
+    return out;
+}
+
 /* For each element of the parameter set, jiggle it to find its
  gradient. Return a vector as long as the parameter list. */
 static void apop_internal_numerical_gradient(apop_fn_with_params ll, 
@@ -134,10 +141,9 @@ APOP_VAR_HEAD gsl_vector * apop_numerical_gradient(apop_data *data, apop_model *
         delta = mp ? mp->delta : default_delta;
     }
 APOP_VAR_ENDHEAD
-    Get_vmsizes(model->parameters); //tsize
     apop_fn_with_params ll = model->log_likelihood ? model->log_likelihood : model->p;
     Apop_stopif(!ll, return NULL, 0, "Input model has neither p nor log_likelihood method. Returning NULL.");
-    gsl_vector *out = gsl_vector_calloc(tsize);
+    gsl_vector *out = gsl_vector_calloc(packed_size(model->parameters));
     infostruct i = (infostruct) {.model = model, .data = data};
     apop_internal_numerical_gradient(ll, &i, out, delta);
     return out;
@@ -156,10 +162,10 @@ static long double apop_fn_for_infomatrix(apop_data *d, apop_model *m){
     apop_model *mm = settings->base_model;
     apop_score_type ms = apop_score_vtable_get(mm);
     if (ms){
-        Get_vmsizes(mm->parameters); //tsize
-        if (!v || v->size != tsize){
+        size_t betasize = packed_size(mm->parameters);
+        if (!v || v->size != betasize){
             if (v) gsl_vector_free(v);
-            v = gsl_vector_alloc(tsize);
+            v = gsl_vector_alloc(betasize);
         }
         ms(d, v, mm);
         return gsl_vector_get(v, *settings->current_index);
@@ -196,8 +202,7 @@ APOP_VAR_HEAD apop_data * apop_model_hessian(apop_data * data, apop_model *model
     }
 APOP_VAR_ENDHEAD
     int k;
-    Get_vmsizes(model->parameters) //tsize
-    size_t betasize  = tsize;
+    size_t betasize  = packed_size(model->parameters);
     apop_data *out = apop_data_calloc(0, betasize, betasize);
     apop_model_for_infomatrix_struct ms = { .base_model = model, .current_index = &k, };
     apop_model *m = apop_model_copy(apop_model_for_infomatrix);
-- 
2.43.0


From 1eaf53533fb46731f2541388eac9ce96cd37a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 104/128] fix: apop_linear_constraint: a margin moves every
 border inward by the same distance

---
 apop_linear_constraint.m4.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 6a2af60..56b76c5 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -25,10 +25,16 @@ assert(!gsl_isnan(S));
 assert(!gsl_isnan(gsl_vector_get(out,0)));
 }
 
-static int binds(gsl_vector const *v, double k, gsl_vector const *b, double margin){
+//The border, moved inward by the margin.
+static double border(apop_data *constraint, int i, double margin){
+    double k = gsl_vector_get(constraint->vector, i);
+    return margin ? k + margin * gsl_blas_dnrm2(Apop_rv(constraint, i)) : k;
+}
+
+static int binds(gsl_vector const *v, double k, gsl_vector const *b){
     double d;
     gsl_blas_ddot(v, b, &d);
-    return d < k + (margin ? margin * gsl_blas_dnrm2(b) : 0);
+    return d < k;
 }
 
 static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
@@ -52,13 +58,13 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
     gsl_vector *pseudocandidate   = NULL;
     gsl_vector *fix               = NULL;
     gsl_vector *cc = Apop_rv(constraint, current);
-    ck = gsl_vector_get(constraint->vector, current);
+    ck = border(constraint, current, margin);
     find_nearest_point(beta, ck, cc, candidate);
     for (size_t i=0; i< constraint->vector->size; i++){
         if (i!=current){
             gsl_vector *other = Apop_rv(constraint, i);
-            k   =apop_data_get(constraint, i, -1);
-            if (binds(candidate, k, other, margin)){
+            k   = border(constraint, i, margin);
+            if (binds(candidate, k, other)){
                 if (!pseudobeta){
                     pseudobeta          = gsl_vector_alloc(beta->size);
                     gsl_vector_memcpy(pseudobeta, beta);
@@ -138,16 +144,14 @@ APOP_VAR_HEAD long double  apop_linear_constraint(gsl_vector *beta, apop_data *
 APOP_VAR_ENDHEAD
     static threadlocal gsl_vector *closest_pt = NULL;
     static threadlocal gsl_vector *candidate  = NULL;
-    static threadlocal gsl_vector *fix        = NULL;
     int constraint_ct = constraint->matrix->size1;
     int bindlist[constraint_ct];
     int i, bound = 0;
     /* For added efficiency, keep a scratch vector or two on hand. */
     if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
-        gsl_vector_free(closest_pt); gsl_vector_free(candidate); gsl_vector_free(fix);
+        gsl_vector_free(closest_pt); gsl_vector_free(candidate);
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
-        fix         = gsl_vector_alloc(beta->size);
     }
     gsl_vector_set_all(closest_pt, GSL_NEGINF); //no candidate yet.
     /* Do any constraints bind?*/
@@ -155,15 +159,15 @@ APOP_VAR_ENDHEAD
     for (i=0; i< constraint_ct; i++){
         gsl_vector *c = Apop_rv(constraint, i);
         bound       +=
-        bindlist[i] = binds(beta, apop_data_get(constraint, i, -1), c, margin);
+        bindlist[i] = binds(beta, border(constraint, i, margin), c);
     }
     if (!bound) return 0;   //All constraints met.
     gsl_vector *base_beta = apop_vector_copy(beta);
     /* With only one constraint, it's easy. */
     if (constraint->vector->size==1){
         gsl_vector *c = Apop_rv(constraint, 0);
-        find_nearest_point(base_beta, constraint->vector->data[0], c, beta);
-        goto add_margin;
+        find_nearest_point(base_beta, border(constraint, 0, margin), c, beta);
+        goto done;
     }
     /* Finally, multiple constraints, at least one binding.
        For each surface, pick a candidate point.
@@ -181,14 +185,7 @@ APOP_VAR_ENDHEAD
                 gsl_vector_memcpy(closest_pt, candidate);
         }
     gsl_vector_memcpy(beta, closest_pt);
-add_margin:
-    for (i=0; i< constraint_ct; i++){
-        if(bindlist[i]){
-            gsl_vector_memcpy(fix, Apop_rv(constraint, i));
-            gsl_vector_scale(fix, margin/gsl_blas_dnrm2(fix));
-            gsl_vector_add(beta, fix);
-        }
-    }
+done: ;
     long double out = apop_vector_distance(base_beta, beta);
     gsl_vector_free(base_beta);
     return out;
-- 
2.43.0


From e126f1329aec9d3b3cf813097a7ee0abda65b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 105/128] fix: settings groups told apart by their names, not
 by the hash alone

---
 apop_settings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_settings.c b/apop_settings.c
index a671d89..0720fe4 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -30,7 +30,7 @@ void apop_settings_remove_group(apop_model *m, char *delme){
     unsigned long delme_hash = apop_settings_hash(delme);
  
     while (m->settings[i].name[0] !='\0'){
-        if (m->settings[i].name_hash == delme_hash){
+        if (m->settings[i].name_hash == delme_hash && !strncmp(m->settings[i].name, delme, 100)){
             ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
             for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
                 m->settings[j-1] = m->settings[j];
@@ -70,7 +70,7 @@ void * apop_settings_get_grp(apop_model *m, char *type, char fail){
     int i;
     unsigned long type_hash = apop_settings_hash(type);
     for (i=0; m->settings[i].name[0] !='\0'; i++)
-       if (type_hash == m->settings[i].name_hash)
+       if (type_hash == m->settings[i].name_hash && !strncmp(m->settings[i].name, type, 100))
            return m->settings[i].setting_group;
     Apop_assert(fail != 'f', "I couldn't find the settings group %s in the given model.", type);
     return NULL; //else, just return NULL and let the caller sort it out.
@@ -96,7 +96,7 @@ void apop_settings_copy_group(apop_model *outm, apop_model *inm, char *copyme){
     int i;
     unsigned long type_hash = apop_settings_hash(copyme);
     for (i=0; inm->settings[i].name[0] !='\0'; i++)//retrieve the index.
-       if (type_hash == inm->settings[i].name_hash)
+       if (type_hash == inm->settings[i].name_hash && !strncmp(inm->settings[i].name, copyme, 100))
            break;
     void *gnew = (inm->settings[i].copy) 
                     ? ((void *(*)(void*))inm->settings[i].copy)(g)
-- 
2.43.0


From dcbd53d3f14c222550d4475f8e4f35bbbc590775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 106/128] fix: loess: the predictors are sorted before their
 spread is trimmed

---
 model/apop_loess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8f06449..3ad6498 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2961,7 +2961,7 @@ static  char    *surf_stat;
 
 int comp(const void *d1_in, const void *d2_in) {
     const double *d1 = d1_in;
-    const double *d2 = d1_in;
+    const double *d2 = d2_in;
         if(*d1 < *d2)
                 return(-1);
         else if(*d1 == *d2)
-- 
2.43.0


From 3a5d51afd8cfd34517e14ef22d0cef6f1a6b6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 107/128] fix: loess: median absolute residual of an even
 number of observations

---
 model/apop_loess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 3ad6498..5a7c826 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2645,7 +2645,7 @@ static void lowesw_(double *res, integer *n, double *rw, integer *pi) {
 /*     partial sort to find 6*mad */
     find_kth_smallest(1, *n, nh, 1, &rw[1], &pi[1]);
     if (*n - nh + 1 < nh) {
-        find_kth_smallest(1, 1, 2, 1, &rw[1], &pi[1]);
+        find_kth_smallest(1, nh-1, nh-1, 1, &rw[1], &pi[1]);
         cmad = (rw[pi[nh]] + rw[pi[nh - 1]]) * 3;
     } else
         cmad = rw[pi[nh]] * 6;
-- 
2.43.0


From f6eb488e6ed99bef75ebb9b1a2f0ffb3c6b7a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 108/128] fix: loess: .normalize='n' turns normalization off

---
 model/apop_loess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 5a7c826..0ed25a5 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3091,7 +3091,7 @@ static void loess_(double *y, double *x_, long *size_info, double *weights,
 		robust[i] = 1;
         for(i = 0; i < (N * D); i++)
                 x_tmp[i] = x_[i];
-	if((*normalize) && (D > 1)) {
+	if(*normalize && *normalize != 'n' && (D > 1)) {
 		int cut = ceil(0.100000000000000000001 * N);
 		for(i = 0; i < D; i++) {
 			k = i * N;
-- 
2.43.0


From 1d7895700642a7524c576b31fec12bd8c3f59ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 109/128] fix: loess: the parametric and drop_square settings
 are used

---
 model/apop_loess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 0ed25a5..42e3b80 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3563,8 +3563,10 @@ Apop_settings_init(apop_loess,
             lo->in.y[j] = gsl_vector_get(col,j);
     }
     matrix_to_FORTRAN(in.data->matrix, lo->in.x, startat);
-	for(int i = 0; i < 8; i++)
-        lo->model.parametric[i] = lo->model.drop_square[i] = 0;
+	for(int i = 0; i < 8; i++){
+        lo->model.parametric[i] = in.lo_s.model.parametric[i];
+        lo->model.drop_square[i] = in.lo_s.model.drop_square[i];
+    }
 )
 
 apop_data * loess_predict (apop_data *in, apop_model *m){
-- 
2.43.0


From b7b60a92ed8e8e3463aeb82572f567c61aa6171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 110/128] fix: loess: every settings group holds copies of its
 data, and copies of it can be freed

---
 model/apop_loess.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 42e3b80..6482bd5 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3488,7 +3488,22 @@ void loess(struct loess_struct *lo) ;
 void loess_setup( double  *x, double *y, long n, long p, struct  loess_struct *lo) ;
 
 
-Apop_settings_copy(apop_loess, )
+//Each settings group holds its own copies of the data and the results.
+#define lo_dup(item, ct) if (in->lo_s.item) {                                   \
+        out->lo_s.item = malloc(GSL_MAX((ct),1) * sizeof(*in->lo_s.item));      \
+        memcpy(out->lo_s.item, in->lo_s.item, (ct) * sizeof(*in->lo_s.item)); }
+
+Apop_settings_copy(apop_loess,
+    long n = in->lo_s.in.n;
+    long p = in->lo_s.in.p;
+    long max_kd = n > 200 ? n : 200;
+    lo_dup(in.y, n) lo_dup(in.x, n*p) lo_dup(in.weights, n)
+    lo_dup(out.fitted_values, n) lo_dup(out.fitted_residuals, n)
+    lo_dup(out.pseudovalues, n) lo_dup(out.diagonal, n)
+    lo_dup(out.robust, n) lo_dup(out.divisor, p)
+    lo_dup(kd_tree.parameter, 7) lo_dup(kd_tree.a, max_kd) lo_dup(kd_tree.xi, max_kd)
+    lo_dup(kd_tree.vert, p*2) lo_dup(kd_tree.vval, (p+1)*max_kd)
+)
 Apop_settings_free(apop_loess, loess_free_mem(&(in->lo_s));)
 
 void matrix_to_FORTRAN(gsl_matrix *inmatrix, double *outFORTRAN, int start_col){
@@ -3546,16 +3561,13 @@ Apop_settings_init(apop_loess,
     };
     Apop_varad_set(ci_level, 0.95);
     struct loess_struct *lo = &(out->lo_s);
-    if (in.data->weights)
-        lo->in.weights = in.data->weights->data;
-    else {
-        lo->in.weights = malloc(n * sizeof(double));
-        for (int i = 0; i < n; i++) 
-            lo->in.weights[i] = 1;
-    }
+    lo->in.weights = malloc(n * sizeof(double));
+    for (int i = 0; i < n; i++) 
+        lo->in.weights[i] = in.data->weights ? gsl_vector_get(in.data->weights, i) : 1;
     int startat = 0;
     if (in.data->vector) //OK, then that's the dependent var.
-        memcpy(lo->in.y, in.data->vector->data, n*sizeof(double));
+        for (int i = 0; i < n; i++)
+            lo->in.y[i] = gsl_vector_get(in.data->vector, i);
     else {  //use the first col as the dep. var.
         startat =1;
         gsl_vector *col = Apop_cv(in.data, 0);
-- 
2.43.0


From 8a13f5513e98b35b84a628dffa99e0ba7172f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 111/128] fix: loess: prediction leaves the model as it was,
 and weights each observation once

---
 model/apop_loess.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 6482bd5..fc58437 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2908,9 +2908,6 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
         for(j = 0; j < N; j++)
             x[k + j] = x_tmp[p + j];
     }
-	for(i = 0; i < N; i++)
-		lo->out.robust[i] *= lo->in.weights[i];
-
     pre->fit = malloc(M * sizeof(double));
 	pre->residual_scale = lo->out.s;
 	pre->df = (lo->out.one_delta * lo->out.one_delta) / lo->out.two_delta;
-- 
2.43.0


From a8d2fe0979c6bd2776d651b1a2eadd89ce6183ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 112/128] fix: loess: standard errors of predictions with
 weights, or of many points

---
 model/apop_loess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index fc58437..c84c618 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2911,7 +2911,7 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
     pre->fit = malloc(M * sizeof(double));
 	pre->residual_scale = lo->out.s;
 	pre->df = (lo->out.one_delta * lo->out.one_delta) / lo->out.two_delta;
-    double L[N * M];
+    double *L = want_cov ? malloc(N * M * sizeof(double)) : NULL;
 	if(!strcmp(lo->control.surface, "direct")) {
         if(want_cov)
             loess_dfitse(lo->in.y, x, x_evaluate, lo->in.weights, lo->out.robust, !strcmp(lo->model.family, "gaussian"), 
@@ -2935,8 +2935,8 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
             k = i * M;
             for(j = 0; j < M; j++) {
                 p = k + j;
-                L[p] /= lo->in.weights[i];
                 L[p] *= L[p]; //i.e., square
+                if (L[p]) L[p] /= lo->in.weights[i]; //the variance of an observation is sigma^2/weight.
             }
 		}
 		for(i = 0; i < M; i++) {
@@ -2946,6 +2946,7 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
 			pre->se_fit[i] = lo->out.s * sqrt(tmp);
 		}
 	}
+    free(L);
 }
 
 void pred_free_mem(struct	pred_struct	*pre){
-- 
2.43.0


From 87fce84de41456384c742ed8234ef8d4bb842f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 113/128] fix: loess: quantiles of the t distribution for
 confidence limits

---
 model/apop_loess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index c84c618..94b785c 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3299,7 +3299,7 @@ double ibeta(double x, double a, double b) {
                     pn[i] /= IBETA_SMALL;
     } while (fabs(next-prev) > DOUBLE_EPS*prev);
     factor = a*log(x) + (b-1)*log(1-x);
-    factor -= tgammal(a+1) + tgammal(b) - tgammal(a+b);
+    factor -= lgammal(a+1) + lgammal(b) - lgammal(a+b);
     I = exp(factor) * next;
     return(flipped ? 1-I : I);
 }
@@ -3385,7 +3385,7 @@ static double invibeta_quick(double p, double a, double b) {
     x = a + b;
     m = a / x;
     s = sqrt((a*b) / (x*x*(x+1)));
-    return(GSL_MAX(0.0, GSL_MAX(1.0, invigauss_quick(p)*s + m)));
+    return(GSL_MAX(0.0, GSL_MIN(1.0, invigauss_quick(p)*s + m)));
 }
 
 /*
-- 
2.43.0


From 17a76232b268e3f77b3a614fc7e5dabcd19a28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 114/128] fix: loess: prediction for data whose dependent
 variable is in the vector

---
 model/apop_loess.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 94b785c..be11cf6 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3581,15 +3581,19 @@ Apop_settings_init(apop_loess,
 
 apop_data * loess_predict (apop_data *in, apop_model *m){
     //Massage inputs to FORTRAN's format
-    double *eval_here = malloc(sizeof(double)*in->matrix->size1*(in->matrix->size2-1));
-    matrix_to_FORTRAN(in->matrix, eval_here, 1);
+    int p = Apop_settings_get(m, apop_loess, lo_s.in.p);
+    int startat = in->vector ? 0 : 1; //as with the input format
+    Apop_stopif(in->matrix->size2 != p + startat, in->error='d'; return in, 0,
+            "The model has %i explanatory variables, but the data to predict from has %i.", p, (int)in->matrix->size2 - startat);
+    double *eval_here = malloc(sizeof(double)*in->matrix->size1*p);
+    matrix_to_FORTRAN(in->matrix, eval_here, startat);
     int want_cov = Apop_settings_get(m, apop_loess, want_predict_ci)=='y';
     struct pred_struct pred = (struct pred_struct){ };
 
     predict(eval_here, in->matrix->size1, &(Apop_settings_get(m, apop_loess, lo_s)), &pred, want_cov);
 
     //Massage FORTRAN's output to Apophenia's formats
-    gsl_vector* firstcol = Apop_cv(in, 0);
+    gsl_vector* firstcol = in->vector ? in->vector : Apop_cv(in, 0);
     gsl_vector_view v = gsl_vector_view_array(pred.fit, firstcol->size);
     gsl_vector_memcpy(firstcol, &(v.vector));
     apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
-- 
2.43.0


From 5bf9891f5c2c9c0edf733a4533a2c5f49cf22e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 115/128] fix: loess: the <Confidence> page holds what its
 columns are named for

---
 model/apop_loess.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index be11cf6..538bfa6 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3558,6 +3558,7 @@ Apop_settings_init(apop_loess,
         .kd_tree.vval =  malloc((p + 1) * max_kd * sizeof(double)),
     };
     Apop_varad_set(ci_level, 0.95);
+    Apop_varad_set(want_predict_ci, 'y');
     struct loess_struct *lo = &(out->lo_s);
     lo->in.weights = malloc(n * sizeof(double));
     for (int i = 0; i < n; i++) 
@@ -3596,20 +3597,22 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     gsl_vector* firstcol = in->vector ? in->vector : Apop_cv(in, 0);
     gsl_vector_view v = gsl_vector_view_array(pred.fit, firstcol->size);
     gsl_vector_memcpy(firstcol, &(v.vector));
-    apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
-    apop_name_add(ci->names, "standard error", 'c');
-    apop_name_add(ci->names, "lower CI", 'c');
-    apop_name_add(ci->names, "upper CI", 'c');
 
     if (want_cov){
+        apop_data_rm_page(in, "<Confidence>"); //if there is one from a prior prediction.
+        apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
+        apop_name_add(ci->names, "standard error", 'c');
+        apop_name_add(ci->names, "lower CI", 'c');
+        apop_name_add(ci->names, "upper CI", 'c');
+
         //Find confidence intervals. Used to be in loess's pointwise().
         double coverage = Apop_settings_get(m, apop_loess, ci_level);
         double t_dist = qt(1 - (1 - coverage)/2, pred.df);
         for(int i = 0; i < in->matrix->size1; i++) {
             double limit = pred.se_fit[i] * t_dist;
-            apop_data_set(ci, i, 0, limit);
-            apop_data_set(ci, i, 1, pred.fit[i] + limit);
-            apop_data_set(ci, i, 2, pred.fit[i] - limit);
+            apop_data_set(ci, i, 0, pred.se_fit[i]);
+            apop_data_set(ci, i, 1, pred.fit[i] - limit);
+            apop_data_set(ci, i, 2, pred.fit[i] + limit);
         }	
     }
 
-- 
2.43.0


From 0d86bd57492ed0d50d39348ae436fad57f5b1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 116/128] fix: loess: the log likelihood finds the residuals of
 the estimated model

---
 model/apop_loess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 538bfa6..f4f4557 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3627,7 +3627,8 @@ static double onerow(gsl_vector *v, void *sd){
 
 //Assumes one gaussian, unweighted.
 static long double loess_ll(apop_data *d, apop_model *m){
-    apop_data *exp = apop_data_get_page(d, "<Predicted>");
+    apop_data *exp = apop_data_get_page(m->info, "<Predicted>");
+    Apop_stopif(!exp, return GSL_NAN, 0, "No <Predicted> page; please estimate the model first.");
     Apop_col_tv(exp, "residual", residuals);
     double sd = sqrt(apop_vector_var(residuals));
     return apop_map_sum(exp, .param=&sd, .part='r', .fn_vp= onerow);
-- 
2.43.0


From 4cfb58e08e278e07ac5a040dc345640fe3644f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 117/128] fix: loess: estimation with the data set it is given,
 not another one in the settings

---
 model/apop_loess.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index f4f4557..9beb6a0 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3635,8 +3635,13 @@ static long double loess_ll(apop_data *d, apop_model *m){
 }
 
 static void apop_loess_est(apop_data *d, apop_model *out){
-    if (!Apop_settings_get_group(out, apop_loess))
+    apop_loess_settings *s = Apop_settings_get_group(out, apop_loess);
+    if (!s)
         Apop_model_add_group(out, apop_loess, .data=d);
+    else if (s->data != d){ //then the data in the group isn't the data to be estimated.
+        apop_loess_settings prior = *s;
+        Apop_model_add_group(out, apop_loess, .data=d, .lo_s=prior.lo_s, .want_predict_ci=prior.want_predict_ci, .ci_level=prior.ci_level);
+    }
     out->data = d;
     loess(&Apop_settings_get(out, apop_loess, lo_s));
 
-- 
2.43.0


From 67a9811ea1b33605418933560afbbf636ff94658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 118/128] fix: loess: the observed column is named for the
 dependent variable

---
 model/apop_loess.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 9beb6a0..e4640fe 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3649,7 +3649,9 @@ static void apop_loess_est(apop_data *d, apop_model *out){
     //Also, it wouldn't be 14 lines.
     apop_data *expect = apop_data_add_page(out->info, apop_data_alloc(d->matrix->size1, 3), "<Predicted>");
     if (!out->info) out->info = expect;
-    apop_name_add(expect->names, (out->data->names->colct ? out->data->names->col[0] : "Expected"), 'c');
+    char *yname = d->vector ? d->names->vector
+                : d->names->colct ? d->names->col[0] : NULL;
+    apop_name_add(expect->names, (yname ? yname : "Expected"), 'c');
     apop_name_add(expect->names, "Predicted", 'c');
     apop_name_add(expect->names, "Residual", 'c');
     gsl_vector *v = gsl_vector_alloc(d->matrix->size1);
-- 
2.43.0


From 0ae7e0d562e0ca06f507a984bdb6f8ea12585458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 119/128] fix: loess: prediction ends when the degrees of
 freedom are not positive

---
 model/apop_loess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index e4640fe..73f3a12 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3474,6 +3474,7 @@ static double invibeta(double p,double  a,double  b) {
 }
 
 static double qt(double p, double df) {
+  if (!(df > 0)) return GSL_NAN; //too few observations for an approximation of the df.
   double t = invibeta(fabs(2*p-1), 0.5, df/2);
     return((p>0.5?1:-1) * sqrt(t*df/(1-t)));
 }
-- 
2.43.0


From 90040b938ed1d58b283d300f87c2ded7ab8ae4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 120/128] fix: loess: blending looks for neighbours across the
 edge of its own axis

---
 model/apop_loess.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 73f3a12..ccaf837 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -1720,14 +1720,14 @@ void hermite_prep(double h, double *phi0, double *phi1, double *psi0, double *ps
     *psi1 = h * h * (h - 1);
 }
 
-int xibar_search(const integer *a, const integer t[], const double* xi, const double xibar, integer nt){
+int xibar_search(const integer *a, const integer t[], const double* xi, const double xibar, integer nt, integer axis){
     int m = nt -1;
     int done;
     while (1){
         if (m == 0)
             done = TRUE_;
         else {
-            if (a[t[m - 1]] == 2)
+            if (a[t[m - 1]] == axis)
                 done = xi[t[m - 1]] == xibar;
             else
                 done = FALSE_;
@@ -1815,7 +1815,7 @@ static double ehg128_(double *z__, integer *d__, integer *ncmax, integer *vc,
         for (i11 = 0; i11 <= *d__; ++i11) 
             g1[i11] = vval[i11 + c__[j * c_dim1 + 4] * vval_dim1];
         xibar = v[ur + (v_dim1 << 1)];
-        m= xibar_search(a, t, xi, xibar, nt);
+        m= xibar_search(a, t, xi, xibar, nt, 2);
         if (m >= 1) {
             m = hi[t[m - 1]];
             while (a[m] != 0)
@@ -1847,7 +1847,7 @@ static double ehg128_(double *z__, integer *d__, integer *ncmax, integer *vc,
         for (i11 = 0; i11 <= *d__; ++i11)
             g1[i11] = vval[i11 + c__[j * c_dim1 + 2] * vval_dim1];
         xibar = v[ll + (v_dim1 << 1)];
-        m= xibar_search(a, t,  xi, xibar, nt);
+        m= xibar_search(a, t, xi, xibar, nt, 2);
         if (m >= 1) {
             m = lo[t[m - 1]];
             while  (a[m] != 0)
@@ -1879,7 +1879,7 @@ static double ehg128_(double *z__, integer *d__, integer *ncmax, integer *vc,
         for (i11 = 0; i11 <= *d__; ++i11)
             g1[i11] = vval[i11 + c__[j * c_dim1 + 4] * vval_dim1];
         xibar = v[ur + v_dim1];
-        m= xibar_search(a, t,  xi, xibar, nt);
+        m= xibar_search(a, t, xi, xibar, nt, 1);
         if (m >= 1) {
             m = hi[t[m - 1]];
             while (a[m] != 0)
@@ -1911,7 +1911,7 @@ static double ehg128_(double *z__, integer *d__, integer *ncmax, integer *vc,
         for (i11 = 0; i11 <= *d__; ++i11)
             g1[i11] = vval[i11 + c__[j * c_dim1 + 3] * vval_dim1];
         xibar = v[ll + v_dim1];
-        m = xibar_search(a, t,  xi, xibar, nt);
+        m = xibar_search(a, t, xi, xibar, nt, 1);
         if (m >= 1) {
             m = lo[t[m - 1]];
             while (a[m] != 0)
-- 
2.43.0


From 88c95b3441a85b93c1aa692e7a74388a156cf6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 121/128] fix: parameter tests of a model whose parameters are
 in a matrix read a NULL vector

---
 apop_regression.m4.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 66755fa..9fc4659 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -8,18 +8,21 @@
 void apop_estimate_parameter_tests (apop_model *est){
     Nullcheck_p(est, )
     if (!est->data) return;
-    apop_data *ep = apop_data_add_page(est->info, apop_data_alloc(est->parameters->vector->size, 2), "<test info>");
+    gsl_vector *packed = apop_data_pack(est->parameters); //the parameters may be in the matrix.
+    size_t param_ct = packed->size;
+    gsl_vector_free(packed);
+    apop_data *ep = apop_data_add_page(est->info, apop_data_alloc(param_ct, 2), "<test info>");
     apop_name_add(ep->names, "p value", 'c');
     apop_name_add(ep->names, "confidence", 'c');
-    apop_name_stack(ep->names, est->parameters->names, 'r', 'r');
+    if (!est->parameters->matrix) apop_name_stack(ep->names, est->parameters->names, 'r', 'r');
     Get_vmsizes(est->data); //msize1, vsize
     int df = msize1 ? msize1 : vsize;
-    df -= est->parameters->vector->size;
+    df -= param_ct;
     df  = df < 1 ? 1 : df; //some models aren't data-oriented.
     apop_data_add_named_elmt(est->info, "df", df);
 
     apop_data *one_elmt = apop_data_calloc(1, 1);
-    for (size_t i=0; i< est->parameters->vector->size; i++){
+    for (size_t i=0; i< param_ct; i++){
         Apop_settings_add_group(est, apop_pm, .index=i);
         apop_model *m = apop_parameter_model(est->data, est);
 
-- 
2.43.0


From 2b2e1c7042c6b29139cf7552d40ee033ee05ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 122/128] fix: logit: predicted odds overflowed to NaN for
 scores past 709

---
 model/apop_probit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index ebbb229..33d97c5 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -171,21 +171,21 @@ static apop_data *multilogit_expected(apop_data *in, apop_model *m){
         double oneterm;
         int bestindex = 0;
         double bestscore = 0;
-        gsl_vector_set(outrow, 0, 1);
         for (size_t j=0; j < params->size2+1; j ++){
             if (j == 0){
                 oneterm = 0;
-                gsl_vector_set(outrow, j, 1);
             } else {
                 gsl_vector *p = Apop_cv(m->parameters, j-1);
                 gsl_blas_ddot(observation, p, &oneterm);
-                gsl_vector_set(outrow, j, exp(oneterm));
             }
+            gsl_vector_set(outrow, j, oneterm);
             if (oneterm > bestscore){
                 bestindex = j;
                 bestscore = oneterm;
             }
         }
+        gsl_vector_add_constant(outrow, -bestscore); //the ratios are the same, and exp won't overflow.
+        apop_vector_exp(outrow);
         double total = apop_sum(outrow);
         gsl_vector_scale(outrow, 1/total);
         apop_data_set(out, i, -1, bestindex);
-- 
2.43.0


From 2d666d934de98e0d5a4fd10bd7baf4e0a3d9215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 123/128] fix: rake: rows of the starting table with the first
 variable missing were not counted

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index f06d72d..777f5cd 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -596,7 +596,7 @@ APOP_VAR_ENDHEAD
     if (init_table){
         char *countstr;
         if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
-        else                Asprintf(&countstr, "count(%s)", **all_vars_d->text);
+        else                countstr = strdup("count(*)"); //count(var) skips missing categories.
         Asprintf(&init_q, "select %s, %s from %s group by %s", 
                            list_of_fields, countstr, initt, list_of_fields);
         free(countstr);
-- 
2.43.0


From 50b662119e92caed52e3505326429794a2563b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:12 +0000
Subject: [PATCH 124/128] fix: Fisher's exact test of an invalid table reported
 uninitialized probabilities

---
 apop_fexact.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_fexact.c b/apop_fexact.c
index 3e218c8..0227498 100644
--- a/apop_fexact.c
+++ b/apop_fexact.c
@@ -1892,7 +1892,8 @@ For example:
 \include test_fisher.c
 */
 apop_data *apop_test_fisher_exact(apop_data *intab){
-    double  prt, pre,
+    double  prt     = GSL_NAN, //in case of an error before these are calculated.
+            pre     = GSL_NAN,
             expect  = -1,
             percent = 80,
             emin    = 1;
-- 
2.43.0


From bac4f7647f2304ac06006d6f4011aa97a2085924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:54 +0000
Subject: [PATCH 125/128] fix: printing a least-squares model moved its page of
 predictions to the end

---
 model/apop_ols.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 25fe953..0e6321d 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -431,9 +431,12 @@ apop_model *ols_param_models(apop_data *d, apop_model *m){
 void ols_print(apop_model *m, FILE *ap){
     fprintf(ap, "Parameters:\n");
     apop_data_print(m->parameters, .output_pipe=(ap? ap : stdout));
-    apop_data *predict = apop_data_rm_page(m->info, "<Predicted>", .free_p='n');
+    //skip over the predicted page, and leave it in its place.
+    apop_data *predict = apop_data_get_page(m->info, "<Predicted>"), *prior = m->info;
+    while (predict && prior && prior->more != predict) prior = prior->more;
+    if (predict && prior) prior->more = predict->more;
     apop_data_print(m->info, .output_pipe=(ap? ap : stdout));
-    if (predict) apop_data_add_page(m->info, predict, predict->names->title);
+    if (predict && prior) prior->more = predict;
 }
 
 apop_model *apop_ols = &(apop_model){.name="Ordinary Least Squares", .vsize = -1, .dsize=-1, .estimate=apop_estimate_OLS, 
-- 
2.43.0


From 71e141c027429c68f43cb506451ab5053e286abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 126/128] fix: the documented prediction of the lognormal model
 was never registered

---
 model/apop_normal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 8ec07d6..ec7db3f 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -242,6 +242,7 @@ static int lognormal_rng(double *out, gsl_rng *r, apop_model *p){
 
 static void lognormal_prep(apop_data *data, apop_model *params){
     apop_score_vtable_add(lognormal_dlog_likelihood, apop_lognormal);
+    apop_predict_vtable_add(lognormal_predict, apop_lognormal);
     apop_model_clear(data, params);
 }
 
-- 
2.43.0


From 1ded1fe9a541273344be08b6c230940555847b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 127/128] fix: OLS log likelihood used the residuals at the
 estimate after the parameters had changed

---
 model/apop_ols.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 0e6321d..615bc6e 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -146,26 +146,18 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
   apop_lm_settings *lms = Apop_settings_get_group(p, apop_lm);
   apop_model *input_distribution = lms ? lms->input_distribution : NULL;
   gsl_matrix *data = d->matrix;
-  gsl_vector *errors;
-
-    apop_data *pred = apop_data_get_page(p->info, "<Predicted>");
-    if (pred && d==p->data){ //use already-stored errors for this data set.
-        gsl_vector *as_errors = Apop_cv(pred, 2);
-				errors = gsl_vector_calloc(data->size1);
-				for (size_t i=0;i< GSL_MIN(as_errors->size,data->size1); i++)
-					gsl_vector_set(errors, i, gsl_vector_get(as_errors, i));
-    } else {
-        errors = gsl_vector_alloc(data->size1);
-        for (size_t i=0;i< data->size1; i++){
-            gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
-            if (d->vector){ //then this has been prepped
-                actual = apop_data_get(d,i, -1);
-            } else {
-                actual = gsl_matrix_get(data,i, 0);
-                expected += gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
-            }
-            gsl_vector_set(errors, i, expected-actual);
+  gsl_vector *errors = gsl_vector_alloc(data->size1);
+
+    //The <Predicted> page holds the errors at the estimated parameters, but those may have changed since.
+    for (size_t i=0;i< data->size1; i++){
+        gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
+        if (d->vector){ //then this has been prepped
+            actual = apop_data_get(d,i, -1);
+        } else {
+            actual = gsl_matrix_get(data,i, 0);
+            expected += gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
         }
+        gsl_vector_set(errors, i, expected-actual);
     }
 
     apop_data *err = apop_data_get_page(p->parameters, "<Error variance>");
-- 
2.43.0


From 91968e6ca39cf65ccbc1fc3bfd8e41325d523c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 128/128] fix: apop_draw via Markov chain: keep the chain apart
 from the model's own apop_mcmc settings

---
 apop_model.m4.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index caad442..cb8d1a9 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -404,7 +404,23 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
 }
 
 extern apop_model *apop_swap_model; //apop_missing_data.c
-int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *params);//apop_update.c
+
+//A Markov chain over a model's data space. A model's own apop_mcmc group describes a search over its parameters.
+typedef struct {
+    apop_model *chain;
+} apop_draw_chain_settings;
+
+Apop_settings_declarations(apop_draw_chain)
+Apop_settings_init(apop_draw_chain, )
+Apop_settings_copy(apop_draw_chain, out->chain = NULL; ) //the chain draws for one model; copies start their own.
+Apop_settings_free(apop_draw_chain,
+    if (in->chain){
+        apop_model *swapped = Apop_settings_get(in->chain, apop_mcmc, base_model);
+        apop_data_free(in->chain->data);
+        apop_model_free(in->chain);
+        apop_model_free(swapped);
+    }
+)
 
 /** Draw from a model. 
 
@@ -432,19 +448,23 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
     //Else, MCMC, possibly setting it up first.
     //generate a model with data/params reversed
     //estimate mcmc. Swapped model will be stored as settings->base_model.
+    apop_model *chain;
     OMP_critical (apop_draw)
-    if (!Apop_settings_get_group(m, apop_mcmc)){
+    {
+    apop_draw_chain_settings *dc = Apop_settings_get_group(m, apop_draw_chain);
+    if (!dc) dc = Apop_model_add_group(m, apop_draw_chain);
+    if (!dc->chain){
         apop_model *swapped = apop_model_copy(apop_swap_model);
         swapped->more = m;
         swapped->msize1 = 1;
         swapped->msize2 = m->dsize;
         swapped->data = m->parameters;
         Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
-        apop_model *est = apop_model_metropolis(m->parameters, r, swapped); //leak.
-        m->draw = apop_model_metropolis_draw;
-        apop_settings_copy_group(m, est, "apop_mcmc");
+        dc->chain = apop_model_metropolis(m->parameters, r, swapped);
+    }
+    chain = dc->chain;
     }
-    return apop_draw(out, r, m);
+    return apop_draw(out, r, chain);
 }
 
 /** Allocate and initialize the \c parameters, \c info, and other requisite parts of a \ref apop_model.
-- 
2.43.0

