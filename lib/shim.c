#include <fcntl.h>
#include <unistd.h>
/* Thin C layer between the Python harness and Apophenia: building and dumping data sets, and one
   function per call that is only reachable through a macro (optional-argument functions, views,
   settings groups). No expectations live here: oracles are in Python. */
#include <apop.h>
#include <math.h>
#include <stdio.h>
#include <string.h>

/////// building and dumping
typedef struct { char *s; size_t n, cap; } sbuf;
static void sput(sbuf *b, char const *x, size_t l){
    if (b->n + l + 1 > b->cap){ b->cap = (b->n + l + 1)*2 + 256; b->s = realloc(b->s, b->cap); }
    memcpy(b->s + b->n, x, l); b->n += l; b->s[b->n] = 0;
}
#define P(x) sput(b, (x), strlen(x))
static void snum(sbuf *b, double d){
    char t[64];
    if (isnan(d)) P("NaN");
    else if (isinf(d)) P(d>0 ? "Infinity" : "-Infinity");
    else { snprintf(t, sizeof t, "%.17g", d); P(t); }
}
static void sint(sbuf *b, long i){ char t[32]; snprintf(t, sizeof t, "%ld", i); P(t); }
static void sstr(sbuf *b, char const *s){
    if (!s) { P("null"); return; }
    P("\"");
    for (; *s; s++){
        unsigned char c = *s; char t[8];
        if (c < 32 || c > 126 || c=='"' || c=='\\') { snprintf(t, sizeof t, "\\u%04x", c); P(t); }
        else sput(b, s, 1);
    }
    P("\"");
}
static void sstrs(sbuf *b, char **s, int ct){
    P("[");
    for (int i=0; i< ct; i++){ if (i) P(","); sstr(b, s[i]); }
    P("]");
}
static void svec(sbuf *b, gsl_vector const *v){
    if (!v) { P("null"); return; }
    P("[");
    for (size_t i=0; i< v->size; i++){ if (i) P(","); snum(b, gsl_vector_get(v, i)); }
    P("]");
}
static void smat(sbuf *b, gsl_matrix const *m){
    if (!m) { P("null"); return; }
    P("[");
    for (size_t i=0; i< m->size1; i++){
        if (i) P(",");
        P("[");
        for (size_t j=0; j< m->size2; j++){ if (j) P(","); snum(b, gsl_matrix_get(m, i, j)); }
        P("]");
    }
    P("]");
}
static void sdata(sbuf *b, apop_data const *d, int pages){
    if (!d) { P("null"); return; }
    P("{\"v\":"); svec(b, d->vector);
    P(",\"m\":"); smat(b, d->matrix);
    P(",\"mc\":"); sint(b, d->matrix ? (long)d->matrix->size2 : -1);
    P(",\"w\":"); svec(b, d->weights);
    P(",\"err\":"); { char t[2] = {d->error, 0}; sstr(b, t); }
    P(",\"ts\":["); sint(b, d->textsize[0]); P(","); sint(b, d->textsize[1]); P("]");
    P(",\"t\":");
    if (!d->text) P("null");
    else {
        P("[");
        for (size_t i=0; i< d->textsize[0]; i++){ if (i) P(","); sstrs(b, d->text[i], d->textsize[1]); }
        P("]");
    }
    P(",\"n\":");
    if (!d->names) P("null");
    else {
        P("{\"title\":"); sstr(b, d->names->title);
        P(",\"v\":"); sstr(b, d->names->vector);
        P(",\"r\":"); sstrs(b, d->names->row, d->names->rowct);
        P(",\"c\":"); sstrs(b, d->names->col, d->names->colct);
        P(",\"t\":"); sstrs(b, d->names->text, d->names->textct);
        P("}");
    }
    P(",\"more\":");
    if (pages) sdata(b, d->more, pages); else P("null");
    P("}");
}
static sbuf outbuf;
char *sh_dump(apop_data const *d, int pages){ outbuf.n = 0; sput(&outbuf, "", 0); sdata(&outbuf, d, pages); return outbuf.s; }
char *sh_dump_vec(gsl_vector const *d){ outbuf.n = 0; sput(&outbuf, "", 0); svec(&outbuf, d); return outbuf.s; }
char *sh_dump_mat(gsl_matrix const *d){ outbuf.n = 0; sput(&outbuf, "", 0); smat(&outbuf, d); return outbuf.s; }

gsl_vector *sh_vec(int n, double *x){
    if (n <= 0) return NULL;
    gsl_vector *v = gsl_vector_alloc(n);
    for (int i=0; i< n; i++) gsl_vector_set(v, i, x[i]);
    return v;
}
gsl_matrix *sh_mat(int r, int c, double *x){
    if (r <= 0 || c <= 0) return NULL;
    gsl_matrix *m = gsl_matrix_alloc(r, c);
    for (int i=0; i< r; i++) for (int j=0; j< c; j++) gsl_matrix_set(m, i, j, x[i*c+j]);
    return m;
}
apop_data *sh_data(int vs, double *v, int r, int c, double *m, int ws, double *w){
    apop_data *d = apop_data_alloc();
    d->vector = sh_vec(vs, v);
    d->matrix = sh_mat(r, c, m);
    d->weights = sh_vec(ws, w);
    return d;
}
void sh_text_alloc(apop_data *d, int r, int c){ apop_text_alloc(d, r, c); }
int sh_text_set(apop_data *d, int r, int c, char const *s){ return apop_text_set(d, r, c, "%s", s); }
void sh_set_more(apop_data *d, apop_data *m){ d->more = m; }
apop_data *sh_more(apop_data *d){ return d->more; }
gsl_vector *sh_v(apop_data *d){ return d->vector; }
gsl_matrix *sh_m(apop_data *d){ return d->matrix; }
gsl_vector *sh_w(apop_data *d){ return d->weights; }
apop_name *sh_names(apop_data *d){ return d->names; }
int sh_error(apop_data *d){ return d ? d->error : 0; }
void sh_data_free(apop_data *d){ apop_data_free(d); }
void sh_free(void *p){ free(p); }
double sh_vget(gsl_vector *v, int i){ return gsl_vector_get(v, i); }
int sh_vsize(gsl_vector *v){ return v ? (int)v->size : -1; }
double sh_deref(double *p){ return *p; }
void sh_poke(double *p, double x){ *p = x; }

/////// options and the random number generator
static FILE *devnull;
void sh_reset_opts(void){
    if (!devnull) devnull = fopen("/dev/null", "w");
    apop_opts.verbose = -1;
    apop_opts.log_file = devnull;
    apop_opts.stop_on_warning = 0;
    strcpy(apop_opts.output_delimiter, "\t");
    strcpy(apop_opts.input_delimiters, "|,\t");
    apop_opts.db_name_column = "";
    apop_opts.nan_string = "NaN";
    apop_opts.db_engine = 's';
    apop_opts.db_user[0] = apop_opts.db_pass[0] = 0;
    apop_opts.rng_seed = 479901;
}
void sh_opts_delims(char const *in, char const *out){
    if (in) strcpy(apop_opts.input_delimiters, in);
    if (out) strcpy(apop_opts.output_delimiter, out);
}
void sh_opts_name_column(char const *s){ apop_opts.db_name_column = strdup(s); }
char *sh_opts_get_name_column(void){ return apop_opts.db_name_column; }
void sh_opts_nan_string(char const *s){ apop_opts.nan_string = strdup(s); }
void sh_opts_seed(int s){ apop_opts.rng_seed = s; }

static void quiet(const char *reason, const char *file, int line, int e){}
static gsl_error_handler_t *first_handler; static int have_first;
/* the error handler the application had installed must still be there after a library call */
void sh_handler_mark(void){ first_handler = gsl_set_error_handler(quiet); gsl_set_error_handler(first_handler); have_first = 1; }
int sh_handler_same(void){ gsl_error_handler_t *h = gsl_set_error_handler(quiet); gsl_set_error_handler(h); return !have_first || h == first_handler; }
void sh_handler_reset(void){ gsl_set_error_handler(NULL); }

/////// elements, names, pages
double *sh_ptr(apop_data *d, int row, int col, char *rn, char *cn, char *page){ return apop_data_ptr(d, .row=row, .col=col, .rowname=rn, .colname=cn, .page=page); }
double sh_get(apop_data *d, int row, int col, char *rn, char *cn, char *page){ return apop_data_get(d, .row=row, .col=col, .rowname=rn, .colname=cn, .page=page); }
int sh_set(apop_data *d, int row, int col, double val, char *rn, char *cn, char *page){ return apop_data_set(d, .row=row, .col=col, .val=val, .rowname=rn, .colname=cn, .page=page); }
/* the short forms: rows or columns left to default */
double sh_get_row(apop_data *d, int row){ return apop_data_get(d, row); }
double sh_get_rowcol(apop_data *d, int row, int col){ return apop_data_get(d, row, col); }
int sh_set_row(apop_data *d, int row, double val){ return apop_data_set(d, row, .val=val); }
double sh_get_rn(apop_data *d, char *rn){ return apop_data_get(d, .rowname=rn); }
double sh_get_cn(apop_data *d, int row, char *cn){ return apop_data_get(d, row, .colname=cn); }
int sh_set_cn(apop_data *d, int row, char *cn, double val){ return apop_data_set(d, row, .colname=cn, .val=val); }
apop_data *sh_get_page(apop_data *d, char *t, char match){ return match ? apop_data_get_page(d, t, match) : apop_data_get_page(d, t); }
apop_data *sh_rm_page(apop_data *d, char *t, char free_p){ return free_p ? apop_data_rm_page(d, t, free_p) : apop_data_rm_page(d, t); }
void sh_name_stack(apop_name *a, apop_name *b, char t1, char t2){ if (t2) apop_name_stack(a, b, t1, t2); else if (t1) apop_name_stack(a, b, t1); else apop_name_stack(a, b); }
void sh_title(apop_data *d, char const *s){ apop_name_add(d->names, s, 'h'); }
int sh_db_close(void){ return apop_db_close('q'); }

/////// copies, stacks, splits, sizes
static char bump(char c){ return c == 'Q' ? 'q' : 'Q'; }
/* overwrite everything a data set holds, in place */
void sh_scramble(apop_data *d){
    for (; d; d = d->more){
        if (d->vector) gsl_vector_set_all(d->vector, -777);
        if (d->matrix) gsl_matrix_set_all(d->matrix, -778);
        if (d->weights) gsl_vector_set_all(d->weights, -779);
        for (size_t i=0; i< d->textsize[0]; i++) for (size_t j=0; j< d->textsize[1]; j++) apop_text_set(d, i, j, "scrambled");
        if (d->names){
            for (int i=0; i< d->names->rowct; i++) if (*d->names->row[i]) *d->names->row[i] = bump(*d->names->row[i]);
            for (int i=0; i< d->names->colct; i++) if (*d->names->col[i]) *d->names->col[i] = bump(*d->names->col[i]);
            for (int i=0; i< d->names->textct; i++) if (*d->names->text[i]) *d->names->text[i] = bump(*d->names->text[i]);
            if (d->names->vector && *d->names->vector) *d->names->vector = bump(*d->names->vector);
            if (d->names->title && *d->names->title) *d->names->title = bump(*d->names->title);
            apop_name_add(d->names, "extra", 'r'); apop_name_add(d->names, "extra", 'c'); apop_name_add(d->names, "extra", 't');
        }
    }
}
apop_data *sh_transpose(apop_data *d, char tt, char inplace){ return apop_data_transpose(d, .transpose_text=tt, .inplace=inplace); }
apop_data *sh_transpose0(apop_data *d){ return apop_data_transpose(d); }
apop_data *sh_stack(apop_data *a, apop_data *b, char posn, char inplace){ return apop_data_stack(a, b, .posn=posn, .inplace=inplace); }
apop_data *sh_stack0(apop_data *a, apop_data *b){ return apop_data_stack(a, b); }
gsl_vector *sh_vector_stack(gsl_vector *a, gsl_vector *b, char inplace){ return inplace=='n' ? apop_vector_stack(a, b) : apop_vector_stack(a, b, .inplace=inplace); }
gsl_matrix *sh_matrix_stack(gsl_matrix *a, gsl_matrix *b, char posn, char inplace){ return apop_matrix_stack(a, b, .posn=posn, .inplace=inplace); }
void sh_split(apop_data *d, int at, char rc, apop_data **a, apop_data **b){ apop_data **o = apop_data_split(d, at, rc); *a = o[0]; *b = o[1]; free(o); }
void sh_vector_free(gsl_vector *v){ gsl_vector_free(v); }
void sh_matrix_free(gsl_matrix *v){ gsl_matrix_free(v); }
void sh_vset(gsl_vector *v, int i, double x){ gsl_vector_set(v, i, x); }
void sh_mset(gsl_matrix *m, int i, int j, double x){ gsl_matrix_set(m, i, j, x); }
apop_data *sh_wrap(gsl_vector *v, gsl_matrix *m){ apop_data *d = apop_data_alloc(); d->vector = v; d->matrix = m; return d; }
apop_data *sh_rm_rows(apop_data *d, int *drop){ return apop_data_rm_rows(d, drop); }
static int drop_fn(apop_data *row, void *p){
    double *t = p; /* drop a row whose first number is above t, or whose first text is empty */
    double x = row->vector ? gsl_vector_get(row->vector, 0) : row->matrix ? gsl_matrix_get(row->matrix, 0, 0) : -1e9;
    return x > *t || (row->text && row->textsize[0] && !*row->text[0][0]);
}
apop_data *sh_rm_rows_fn(apop_data *d, int *drop, double t){ return apop_data_rm_rows(d, .drop=drop, .do_drop=drop_fn, .drop_parameter=&t); }
apop_data *sh_listwise(apop_data *d, char inplace){ return apop_data_listwise_delete(d, inplace); }
gsl_vector *sh_pack(apop_data *d, gsl_vector *out, char more, char info){ return apop_data_pack(d, .out=out, .more_pages=more, .use_info_pages=info); }
gsl_vector *sh_pack0(apop_data *d){ return apop_data_pack(d); }
void sh_unpack(gsl_vector *v, apop_data *d, char info){ apop_data_unpack(v, d, .use_info_pages=info); }
void sh_unpack0(gsl_vector *v, apop_data *d){ apop_data_unpack(v, d); }
apop_data *sh_sort(apop_data *d, apop_data *order, char asc, char inplace){ return apop_data_sort(d, order, .asc=asc, .inplace=inplace); }
apop_data *sh_sort_asc(apop_data *d, apop_data *order, char asc){ return apop_data_sort(d, order, .asc=asc); }
apop_data *sh_sort_in(apop_data *d, apop_data *order, char inplace){ return apop_data_sort(d, order, .inplace=inplace); }
apop_data *sh_sort0(apop_data *d){ return apop_data_sort(d); }

/////// text
static int prune_fn(apop_data *d, int row, int col, void *p){
    int *a = p; /* a[0]: drop this column (-1: none); a[1]: drop blanks; a[2]: drop this row */
    return col == a[0] || (a[1] && !*d->text[row][col]) || row == a[2];
}
char *sh_paste(apop_data *d, char *between, char *before, char *after, char *cols, int *prune){
    char *o = cols ? apop_text_paste(d, between, before, after, cols, prune ? prune_fn : NULL, prune)
                   : between ? apop_text_paste(d, between, before, after, .prune=prune ? prune_fn : NULL, .prune_parameter=prune)
                             : apop_text_paste(d, .before=before, .after=after, .prune=prune ? prune_fn : NULL, .prune_parameter=prune);
    outbuf.n = 0; sput(&outbuf, "", 0);
    sstr(&outbuf, o);
    free(o);
    return outbuf.s;
}
#define TWENTY(x) x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19]
apop_data *sh_falloc(int n, int a, int b, int c, double *x){
    return n==1 ? apop_data_falloc((a), TWENTY(x)) : n==2 ? apop_data_falloc((a, b), TWENTY(x)) : apop_data_falloc((a, b, c), TWENTY(x));
}
int sh_data_fill(apop_data *d, double *x){ return apop_data_fill(d, TWENTY(x))==d; }
int sh_vector_fill(gsl_vector *v, double *x){ return apop_vector_fill(v, TWENTY(x))==v; }
gsl_vector *sh_a2v(double *x, int n){ return apop_array_to_vector(x, n); }
apop_data *sh_text_fill(apop_data *d, char **s){ return apop_text_fill_base(d, s); }
int sh_text_setf(apop_data *d, int r, int c, char *s, int i, double x){ return apop_text_set(d, r, c, "%s|%i|%g", s, i, x); }
int sh_text_setnull(apop_data *d, int r, int c){ return apop_text_set(d, r, c, NULL); }
int sh_regex(char *s, char *re, int want_subs, char use_case, apop_data **subs){
    return want_subs ? apop_regex(s, re, subs, use_case) : apop_regex(s, re, .use_case=use_case);
}
#include <regex.h>
/* the platform's answer: all successive matches, as JSON */
char *sh_libc_regex(char *s, char *re, int icase){
    regex_t r; regmatch_t m[20];
    outbuf.n = 0; sput(&outbuf, "", 0);
    if (regcomp(&r, re, REG_EXTENDED | (icase ? REG_ICASE : 0))){ sput(&outbuf, "null", 4); return outbuf.s; }
    sbuf *b = &outbuf;
    P("{\"nsub\":"); sint(b, r.re_nsub); P(",\"m\":[");
    int flags = 0, first = 1, empty = 0;
    while (!regexec(&r, s, 20, m, flags)){
        if (!first) P(",");
        P("[");
        for (size_t i=1; i<= r.re_nsub; i++){
            char tmp[400] = "";
            if (m[i].rm_so >= 0) snprintf(tmp, sizeof tmp, "%.*s", (int)(m[i].rm_eo - m[i].rm_so), s + m[i].rm_so);
            if (i > 1) P(",");
            sstr(b, tmp);
        }
        P("]");
        first = 0; flags = REG_NOTBOL;
        if (m[0].rm_eo == m[0].rm_so) { empty = 1; break; }
        s += m[0].rm_eo;
        if (!*s) break;
    }
    P("],\"empty\":"); sint(b, empty); P("}");
    regfree(&r);
    return outbuf.s;
}

/////// views: dump or overwrite a view
static char *dump_or_fill(apop_data *v, double fill, int mode){
    if (mode && v){
        if (v->vector) gsl_vector_set_all(v->vector, fill);
        if (v->matrix) gsl_matrix_set_all(v->matrix, fill);
        if (v->weights && mode==2) gsl_vector_set_all(v->weights, fill);
    }
    return sh_dump(v, 0);
}
static char *vdump_or_fill(gsl_vector *v, double fill, int mode){ if (mode && v) gsl_vector_set_all(v, fill); return sh_dump_vec(v); }
static char *mdump_or_fill(gsl_matrix *v, double fill, int mode){ if (mode && v) gsl_matrix_set_all(v, fill); return sh_dump_mat(v); }
char *sh_view_rs(apop_data *d, int row, int len, double f, int mode){ return dump_or_fill(Apop_rs(d, row, len), f, mode); }
char *sh_view_r(apop_data *d, int row, double f, int mode){ return dump_or_fill(Apop_r(d, row), f, mode); }
char *sh_view_cs(apop_data *d, int col, int len, double f, int mode){ return dump_or_fill(Apop_cs(d, col, len), f, mode); }
char *sh_view_c(apop_data *d, int col, double f, int mode){ return dump_or_fill(Apop_c(d, col), f, mode); }
char *sh_view_rv(apop_data *d, int row, double f, int mode){ return vdump_or_fill(Apop_rv(d, row), f, mode); }
char *sh_view_cv(apop_data *d, int col, double f, int mode){ return vdump_or_fill(Apop_cv(d, col), f, mode); }
char *sh_view_mrv(apop_data *d, int row, double f, int mode){ return vdump_or_fill(Apop_mrv(d->matrix, row), f, mode); }
char *sh_view_mcv(apop_data *d, int col, double f, int mode){ return vdump_or_fill(Apop_mcv(d->matrix, col), f, mode); }
char *sh_view_subm(apop_data *d, int r, int c, int nr, int nc, double f, int mode){ return mdump_or_fill(Apop_subm(d->matrix, r, c, nr, nc), f, mode); }
char *sh_view_rowt(apop_data *d, char *n, double f, int mode){ Apop_row_t(d, n, v); return dump_or_fill(v, f, mode); }
char *sh_view_colt(apop_data *d, char *n, double f, int mode){ Apop_col_t(d, n, v); return dump_or_fill(v, f, mode); }
char *sh_view_rowtv(apop_data *d, char *n, double f, int mode){ Apop_row_tv(d, n, v); return vdump_or_fill(v, f, mode); }
char *sh_view_coltv(apop_data *d, char *n, double f, int mode){ Apop_col_tv(d, n, v); return vdump_or_fill(v, f, mode); }
/* views of views */
char *sh_view_rs_cs(apop_data *d, int row, int len, int col, int clen, double f, int mode){ apop_data *a = Apop_rs(d, row, len); return dump_or_fill(Apop_cs(a, col, clen), f, mode); }
char *sh_view_cs_rs(apop_data *d, int row, int len, int col, int clen, double f, int mode){ apop_data *a = Apop_cs(d, col, clen); return dump_or_fill(Apop_rs(a, row, len), f, mode); }
char *sh_view_cs_rv(apop_data *d, int col, int clen, int row, double f, int mode){ apop_data *a = Apop_cs(d, col, clen); return vdump_or_fill(Apop_rv(a, row), f, mode); }
char *sh_view_rs_cv(apop_data *d, int row, int len, int col, double f, int mode){ apop_data *a = Apop_rs(d, row, len); return vdump_or_fill(Apop_cv(a, col), f, mode); }
//ops: pairs of (is it of columns?, start, length), the last view being of the kind asked for
static char *view_chain(apop_data *d, int n, int *ops, char kind, int a, int b, int la, int lb, double f, int mode){
    if (n){
        if (ops[0]) return view_chain(Apop_cs(d, ops[1], ops[2]), n-1, ops+3, kind, a, b, la, lb, f, mode);
        return view_chain(Apop_rs(d, ops[1], ops[2]), n-1, ops+3, kind, a, b, la, lb, f, mode);
    }
    switch (kind){
        case 'r': return vdump_or_fill(Apop_rv(d, a), f, mode);
        case 'c': return vdump_or_fill(Apop_cv(d, b), f, mode);
        case 'R': return vdump_or_fill(Apop_mrv(d->matrix, a), f, mode);
        case 'C': return vdump_or_fill(Apop_mcv(d->matrix, b), f, mode);
        case 's': return mdump_or_fill(Apop_subm(d->matrix, a, b, la, lb), f, mode);
        case 'S': { gsl_matrix *s = Apop_subm(d->matrix, a, b, la, lb); return vdump_or_fill(Apop_mcv(s, lb-1), f, mode); }
        case 'T': { gsl_matrix *s = Apop_subm(d->matrix, a, b, la, lb); return vdump_or_fill(Apop_mrv(s, la-1), f, mode); }
        case 'U': { gsl_matrix *s = Apop_subm(d->matrix, a, b, la, lb); return mdump_or_fill(Apop_subm(s, la-1, lb-1, 1, 1), f, mode); }
    }
    return dump_or_fill(d, f, mode);
}
char *sh_view_chain(apop_data *d, int n, int *ops, int kind, int a, int b, int la, int lb, double f, int mode){
    return view_chain(d, n, ops, kind, a, b, la, lb, f, mode);
}
char *sh_view_rs_rs(apop_data *d, int row, int len, int row2, int len2, double f, int mode){ apop_data *a = Apop_rs(d, row, len); return dump_or_fill(Apop_rs(a, row2, len2), f, mode); }
/* copies made from views */
apop_data *sh_copy_rs(apop_data *d, int row, int len){ return apop_data_copy(Apop_rs(d, row, len)); }
apop_data *sh_copy_cs(apop_data *d, int col, int len){ return apop_data_copy(Apop_cs(d, col, len)); }
void sh_memcpy_r(apop_data *d, int to, int from){ apop_data_memcpy(Apop_r(d, to), Apop_r(d, from)); }
char *sh_names_dump(apop_name *n){ apop_data d = {.names=n}; return sh_dump(&d, 0); }
void sh_add_names(apop_data *d, char type, char **names){ apop_data_add_names_base(d, type, (char const **)names); }


/////// text files
static int tff(int *ends, char **names, char *f, int hr, int hc, char *delims, apop_data **out, char *tab, char mode, apop_data *fp, char *tp){
    if (!tab){
        *out = delims ? apop_text_to_data(f, hr, hc, .field_ends=ends, .delimiters=delims) : apop_text_to_data(f, hr, hc, .field_ends=ends);
        return 0;
    }
    if (!delims) return apop_text_to_db(f, tab, hr, hc, .field_names=names, .field_ends=ends, .field_params=fp, .table_params=tp, .if_table_exists=mode);
    return apop_text_to_db(f, tab, hr, hc, .field_names=names, .field_ends=ends, .field_params=fp, .table_params=tp, .delimiters=delims, .if_table_exists=mode);
}
/* field ends are given a heap copy, so that reading past them is seen */
static int *ends_copy(int *e, int n){ if (!e) return NULL; int *o = malloc(n*sizeof(int)); memcpy(o, e, n*sizeof(int)); return o; }
apop_data *sh_text_to_data(char *f, int hr, int hc, int *ends, int endct, char *delims){
    apop_data *out; int *e = ends_copy(ends, endct);
    tff(e, NULL, f, hr, hc, delims, &out, NULL, 0, NULL, NULL);
    free(e);
    return out;
}
apop_data *sh_text_to_data0(char *f){ return apop_text_to_data(f); }
int sh_text_to_db(char *f, char *tab, int hr, int hc, char **names, int *ends, int endct, apop_data *fp, char *tp, char *delims, char mode){
    int *e = ends_copy(ends, endct);
    int r = tff(e, names, f, hr, hc, delims, NULL, tab, mode, fp, tp);
    free(e);
    return r;
}
int sh_text_to_db0(char *f){ return apop_text_to_db(f); }
void sh_print_name(apop_data *d, char *name, char append){ if (append) apop_data_print(d, .output_name=name, .output_append=append); else apop_data_print(d, .output_name=name); }
void sh_print_file(apop_data *d, char *name, char append){ apop_data_print(d, .output_name=name, .output_type='f', .output_append=append); }
void sh_print_pipe(apop_data *d, char *name, char append){ FILE *f = fopen(name, append=='a' ? "a" : "w"); apop_data_print(d, .output_pipe=f); fclose(f); }
void sh_print_pipe_t(apop_data *d, char *name, char append){ FILE *f = fopen(name, append=='a' ? "a" : "w"); apop_data_print(d, .output_pipe=f, .output_type='p'); fclose(f); }
void sh_print_matrix(gsl_matrix *d, char *name, char append){ apop_matrix_print(d, .output_name=name, .output_append=append); }
void sh_print_vector(gsl_vector *d, char *name, char append){ apop_vector_print(d, .output_name=name, .output_append=append); }
void sh_print_db(apop_data *d, char *name, char append){ apop_data_print(d, .output_name=name, .output_type='d', .output_append=append); }
void sh_model_print(apop_model *m, char *name, char how){
    if (how=='f'){
        FILE *f = fopen(name, "w");
        apop_model_print(m, f);
        fclose(f);
        return;
    }
    fflush(stdout);
    int keep = dup(1), fd = open(name, O_CREAT|O_TRUNC|O_WRONLY, 0644);
    dup2(fd, 1);
    close(fd);
    if (how=='s') apop_model_show(m);
    else if (m) apop_model_print(m);
    else apop_model_print();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
}
void sh_vector_pipe(gsl_vector *v, char *name){ FILE *f = fopen(name, "w"); apop_vector_print(v, .output_pipe=f); fclose(f); }
void sh_want_cov(apop_model *m, char c){ Apop_model_add_group(m, apop_parts_wanted, .covariance=c, .predicted='y', .tests=c, .info='y'); }
apop_data *sh_model_data(apop_model *m){ return m->data; }
void sh_name_model(apop_model *m, char *name){ snprintf(m->name, sizeof(m->name), "%s", name); }
void sh_data_show(apop_data *d){ apop_data_show(d); fflush(stdout); }
/* what functions write to standard output, into a file */
void sh_shown(apop_data *d, char *file, char what){
    fflush(stdout);
    int keep = dup(1), fd = open(file, O_CREAT|O_TRUNC|O_WRONLY, 0644);
    dup2(fd, 1);
    close(fd);
    switch (what){
        case 'd': apop_data_show(d); break;
        case 'n': apop_name_print(d ? d->names : NULL); break;
        case 'v': apop_vector_print(d->vector); break;
        case 'V': apop_vector_show(d->vector); break;
        case 'm': apop_matrix_print(d->matrix); break;
        case 'M': apop_matrix_show(d->matrix); break;
        case 'p': apop_data_print(d); break;
    }
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
}


/////// the database: direct access to the engine, on the library's own handle
#include <sqlite3.h>
extern sqlite3 *db;
int sh_db_open(char *name){ return apop_db_open(name); }
int sh_db_closev(char v){ return apop_db_close(v); }
int sh_db_is_open(void){ return db != NULL; }
int sh_query(char *q){ return apop_query("%s", q); }
/* run a statement on the engine itself: {"err":.., "cols":[..], "rows":[[null|number|string..]..]} */
char *sh_sql(char *q){
    sbuf *b = &outbuf;
    b->n = 0; sput(b, "", 0);
    sqlite3_stmt *st; char const *tail = q;
    if (!db) { P("{\"err\":\"no database\"}"); return b->s; }
    while (tail && *tail){
        b->n = 0;
        if (sqlite3_prepare_v2(db, tail, -1, &st, &tail)){ P("{\"err\":"); sstr(b, sqlite3_errmsg(db)); P("}"); return b->s; }
        if (!st) { P("{\"err\":\"empty\"}"); return b->s; }
        int n = sqlite3_column_count(st), r, first = 1;
        P("{\"err\":null,\"cols\":[");
        for (int i=0; i< n; i++){ if (i) P(","); sstr(b, sqlite3_column_name(st, i)); }
        P("],\"rows\":[");
        while ((r = sqlite3_step(st)) == SQLITE_ROW){
            if (!first) P(",");
            first = 0;
            P("[");
            for (int i=0; i< n; i++){
                if (i) P(",");
                int t = sqlite3_column_type(st, i);
                if (t == SQLITE_NULL) P("null");
                else if (t == SQLITE_INTEGER){ char x[40]; snprintf(x, sizeof x, "%lld", (long long)sqlite3_column_int64(st, i)); P(x); }
                else if (t == SQLITE_FLOAT){ double v = sqlite3_column_double(st, i); char x[40]; snprintf(x, sizeof x, v == floor(v) && fabs(v) < 1e15 ? "%.1f" : "%.17g", v); if (isinf(v)) snum(b, v); else P(x); }
                else sstr(b, (char const*)sqlite3_column_text(st, i));
            }
            P("]");
        }
        P("]}");
        if (r != SQLITE_DONE){ b->n = 0; P("{\"err\":"); sstr(b, sqlite3_errmsg(db)); P("}"); sqlite3_finalize(st); return b->s; }
        sqlite3_finalize(st);
        while (tail && (*tail == ' ' || *tail == '\n' || *tail == ';')) tail++;
    }
    return b->s;
}
/* what the engine hands to a callback: every value as text (or null) */
char *sh_sql_text(char *q){
    sbuf *b = &outbuf;
    b->n = 0; sput(b, "", 0);
    sqlite3_stmt *st;
    if (sqlite3_prepare_v2(db, q, -1, &st, NULL)){ P("{\"err\":"); sstr(b, sqlite3_errmsg(db)); P("}"); return b->s; }
    int n = sqlite3_column_count(st), first = 1, r;
    P("{\"err\":null,\"cols\":[");
    for (int i=0; i< n; i++){ if (i) P(","); sstr(b, sqlite3_column_name(st, i)); }
    P("],\"rows\":[");
    while ((r = sqlite3_step(st)) == SQLITE_ROW){
        if (!first) P(",");
        first = 0;
        P("[");
        for (int i=0; i< n; i++){ if (i) P(","); sstr(b, (char const*)sqlite3_column_text(st, i)); }
        P("]");
    }
    P("]}");
    if (r != SQLITE_DONE){ b->n = 0; P("{\"err\":"); sstr(b, sqlite3_errmsg(db)); P("}"); }
    sqlite3_finalize(st);
    return b->s;
}
int sh_table_exists(char *t, char rm){ return rm ? apop_table_exists(t, rm) : apop_table_exists(t); }
void sh_print_db_matrix(gsl_matrix *d, char *name, char append){ apop_matrix_print(d, .output_name=name, .output_type='d', .output_append=append); }
void sh_print_db_vector(gsl_vector *d, char *name, char append){ apop_vector_print(d, .output_name=name, .output_type='d', .output_append=append); }
apop_data *sh_mixed(char *types, char *q){ return apop_query_to_mixed_data(types, "%s", q); }
apop_data *sh_qdata(char *q){ return apop_query_to_data("%s", q); }
apop_data *sh_qtext(char *q){ return apop_query_to_text("%s", q); }
gsl_vector *sh_qvector(char *q){ return apop_query_to_vector("%s", q); }
double sh_qfloat(char *q){ return apop_query_to_float("%s", q); }
apop_data *sh_crosstab(char *t, char *r, char *c, char *d, char agg){
    return agg ? apop_db_to_crosstab(t, r, c, d, .is_aggregate=agg) : apop_db_to_crosstab(t, r, c, d);
}
double sh_qfloat_fmt(char *col, char *tab, int k, double x){ return apop_query_to_float("select %s from %s where k = %i and '%%' = '%%' and %g = %g", col, tab, k, x, x); }
apop_data *sh_qdata_fmt(char *tab, int k){ return apop_query_to_data("select * from %s where k >= %i", tab, k); }
apop_data *sh_qtext_fmt(char *tab, int k){ return apop_query_to_text("select * from %s where k >= %i", tab, k); }
apop_data *sh_mixed_fmt(char *types, char *tab, int k){ return apop_query_to_mixed_data(types, "select * from %s where k >= %i", tab, k); }
gsl_vector *sh_qvector_fmt(char *tab, int k){ return apop_query_to_vector("select * from %s where k >= %i", tab, k); }
int sh_query_fmt(char *tab, int k, char *s){ return apop_query("insert into %s values(%i, '%s')", tab, k, s); }
void sh_name_column_null(void){ apop_opts.db_name_column = NULL; }
void sh_nan_string_null(void){ apop_opts.nan_string = NULL; }

/* ---------------------------------------------------------------- moments */
double sh_vvar(gsl_vector *v){ return apop_vector_var(v); }
double sh_stat(char k, gsl_vector *v, gsl_vector *w){
    switch (k){
        case 'm': return w ? apop_vector_mean(v, w) : apop_vector_mean(v);
        case 'v': return w ? apop_vector_var(v, w) : apop_vector_var(v);
        case 's': return w ? apop_vector_skew_pop(v, w) : apop_vector_skew_pop(v);
        case 'k': return w ? apop_vector_kurtosis_pop(v, w) : apop_vector_kurtosis_pop(v);
        case 'S': return apop_vector_skew(v);
        case 'K': return apop_vector_kurtosis(v);
        case 'V': return apop_vector_var_m(v, apop_vector_mean(v));
        case '+': return apop_vector_sum(v);
        case 'e': return apop_vector_entropy(v);
    }
    return NAN;
}
double sh_cov(gsl_vector *a, gsl_vector *b, gsl_vector *w){ return w ? apop_vector_cov(a, b, w) : apop_vector_cov(a, b); }
double sh_corr(gsl_vector *a, gsl_vector *b, gsl_vector *w){ return w ? apop_vector_correlation(a, b, w) : apop_vector_correlation(a, b); }
/* a strided vector: column of a matrix with junk around it, from n numbers */
gsl_vector *sh_vec_strided(int n, double *x){
    gsl_matrix *m = gsl_matrix_alloc(n, 3);
    gsl_matrix_set_all(m, 1234.5);
    for (int i=0; i< n; i++) gsl_matrix_set(m, i, 1, x[i]);
    gsl_vector *v = malloc(sizeof(*v));
    *v = gsl_matrix_column(m, 1).vector;
    return v;
}
double sh_mstat(char k, gsl_matrix *m, int which){
    double mean=-1, var=-1;
    switch (k){
        case '+': return apop_matrix_sum(m);
        case 'm': return apop_matrix_mean(m);
        case 'b': apop_matrix_mean_and_var(m, &mean, &var); return which ? var : mean;
    }
    return NAN;
}
double sh_distance(gsl_vector *a, gsl_vector *b, char metric, double norm){
    if (!b) return metric ? (norm ? apop_vector_distance(a, .metric=metric, .norm=norm) : apop_vector_distance(a, .metric=metric)) : apop_vector_distance(a);
    return metric ? (norm ? apop_vector_distance(a, b, metric, norm) : apop_vector_distance(a, b, metric)) : apop_vector_distance(a, b);
}
gsl_vector *sh_normalize(gsl_vector *v, char type, int out){
    gsl_vector *o = NULL;
    if (out) { if (type) apop_vector_normalize(v, &o, type); else apop_vector_normalize(v, &o); return o; }
    if (type) apop_vector_normalize(v, .normalization_type=type); else apop_vector_normalize(v);
    return v;
}
double *sh_percentiles(gsl_vector *v, char r){ return r ? apop_vector_percentiles(v, r) : apop_vector_percentiles(v); }
int sh_bounded(gsl_vector *v, double max){ return max ? apop_vector_bounded(v, max) : apop_vector_bounded(v); }

/* ---------------------------------------------------------------- map/apply */
#include <omp.h>
#include <stdatomic.h>
#define MAXLOG 100000
static struct {double x; int i, p;} maplog[MAXLOG];
static atomic_int maplog_n;
static double map_param;
static void mlog(double x, void *p, int i, int hasp){
    int k = atomic_fetch_add(&maplog_n, 1);
    if (k < MAXLOG){ maplog[k].x = x; maplog[k].i = i; maplog[k].p = !hasp ? -1 : p == &map_param; }
}
static double mval(double x, void *p, int i, int hasp){
    mlog(x, p, i, hasp);
    return 2*x + 1 + (hasp && p ? 1000* *(double*)p : 0) + (i >= 0 ? 1048576.*(i+1) : 0);
}
static double vcode(gsl_vector *v){
    double x = v->size;
    for (size_t j=0; j< v->size; j++) x += (j+1)*64*gsl_vector_get(v, j);
    return x;
}
static double rcode(apop_data *r){
    double x = 0;
    if (r->vector) x += r->vector->size == 1 ? gsl_vector_get(r->vector, 0)*2 : 1e9;
    if (r->matrix){ if (r->matrix->size1 != 1) x += 1e9; else for (size_t j=0; j< r->matrix->size2; j++) x += (j+2)*64*gsl_matrix_get(r->matrix, 0, j); }
    if (r->weights) x += r->weights->size == 1 ? gsl_vector_get(r->weights, 0)*16384 : 1e9;
    if (r->textsize[0]){ if (r->textsize[0] != 1) x += 1e9; else for (int j=0; j< r->textsize[1]; j++) x += (j+1)*4096.*strlen(r->text[0][j]); }
    if (r->names && r->names->rowct) x += 0.25*(r->names->rowct == 1 ? 1+strlen(r->names->row[0]) : 1e9);
    return x;
}
static int map_mod; //functions on rows and vectors also change what they were given
static double vval(gsl_vector *v, void *p, int i, int hasp){
    double o = mval(vcode(v), p, i, hasp);
    if (map_mod) gsl_vector_add_constant(v, 3);
    return o;
}
static double rval(apop_data *r, void *p, int i, int hasp){
    double o = mval(rcode(r), p, i, hasp);
    if (map_mod){ if (r->matrix) gsl_matrix_add_constant(r->matrix, 3); if (r->weights) gsl_vector_add_constant(r->weights, 5);}
    return o;
}
static double f_d(double x){ return mval(x, NULL, -1, 0); }
static double f_dp(double x, void *p){ return mval(x, p, -1, 1); }
static double f_dpi(double x, void *p, int i){ return mval(x, p, i, 1); }
static double f_di(double x, int i){ return mval(x, NULL, i, 0); }
static double f_v(gsl_vector *x){ return vval(x, NULL, -1, 0); }
static double f_vp(gsl_vector *x, void *p){ return vval(x, p, -1, 1); }
static double f_vpi(gsl_vector *x, void *p, int i){ return vval(x, p, i, 1); }
static double f_vi(gsl_vector *x, int i){ return vval(x, NULL, i, 0); }
static double f_r(apop_data *x){ return rval(x, NULL, -1, 0); }
static double f_rp(apop_data *x, void *p){ return rval(x, p, -1, 1); }
static double f_rpi(apop_data *x, void *p, int i){ return rval(x, p, i, 1); }
static double f_ri(apop_data *x, int i){ return rval(x, NULL, i, 0); }
static void f_dtov(double *x){ mlog(*x, NULL, -1, 0); *x = 2* *x + 1; }
static void f_vtov(gsl_vector *x){ mlog(vcode(x), NULL, -1, 0); gsl_vector_scale(x, 2); gsl_vector_add_constant(x, 1); }
void sh_map_setup(int threads, double param, int mod){ omp_set_num_threads(threads); map_param = param; map_mod = mod; maplog_n = 0; }
char *sh_map_log(void){
    static sbuf bb; sbuf *b = &bb;
    b->n = 0;
    int n = maplog_n;
    P("[");
    for (int k=0; k< n && k < MAXLOG; k++){ P(k ? ",[" : "["); snum(b, maplog[k].x); P(","); sint(b, maplog[k].i); P(","); sint(b, maplog[k].p); P("]"); }
    P("]");
    maplog_n = 0;
    return b->s;
}
#define Mapforms(CALL) \
    if (!strcmp(form, "d")) CALL(fn_d, f_d); if (!strcmp(form, "dp")) CALL(fn_dp, f_dp); if (!strcmp(form, "dpi")) CALL(fn_dpi, f_dpi); if (!strcmp(form, "di")) CALL(fn_di, f_di); \
    if (!strcmp(form, "v")) CALL(fn_v, f_v); if (!strcmp(form, "vp")) CALL(fn_vp, f_vp); if (!strcmp(form, "vpi")) CALL(fn_vpi, f_vpi); if (!strcmp(form, "vi")) CALL(fn_vi, f_vi); \
    if (!strcmp(form, "r")) CALL(fn_r, f_r); if (!strcmp(form, "rp")) CALL(fn_rp, f_rp); if (!strcmp(form, "rpi")) CALL(fn_rpi, f_rpi); if (!strcmp(form, "ri")) CALL(fn_ri, f_ri);
/* part, inplace, pages 0: use the default */
apop_data *sh_map(apop_data *d, char *form, char inplace, char part, char pages){
    void *p = &map_param;
#define MC(F, f) return (!part && !pages) ? (inplace ? apop_map(d, .F=f, .param=p, .inplace=inplace) : apop_map(d, .F=f, .param=p)) \
          : !part ? apop_map(d, .F=f, .param=p, .inplace=(inplace ? inplace : 'n'), .all_pages=pages) : !pages ? apop_map(d, .F=f, .param=p, .inplace=(inplace ? inplace : 'n'), .part=part) \
          : apop_map(d, .F=f, .param=p, .inplace=(inplace ? inplace : 'n'), .part=part, .all_pages=pages);
    Mapforms(MC)
    return NULL;
}
double sh_map_sum(apop_data *d, char *form, char part, char pages){
    void *p = &map_param;
#define MS(F, f) return (!part && !pages) ? apop_map_sum(d, .F=f, .param=p) : !part ? apop_map_sum(d, .F=f, .param=p, .all_pages=pages) : !pages ? apop_map_sum(d, .F=f, .param=p, .part=part) \
          : apop_map_sum(d, .F=f, .param=p, .part=part, .all_pages=pages);
    Mapforms(MS)
    return NAN;
}
gsl_vector *sh_omap_mv(gsl_matrix *m){ return apop_matrix_map(m, f_v); }
gsl_matrix *sh_omap_mall(gsl_matrix *m){ return apop_matrix_map_all(m, f_d); }
gsl_vector *sh_omap_vv(gsl_vector *v){ return apop_vector_map(v, f_d); }
void sh_oapply_m(gsl_matrix *m){ apop_matrix_apply(m, f_vtov); }
void sh_oapply_mall(gsl_matrix *m){ apop_matrix_apply_all(m, f_dtov); }
void sh_oapply_v(gsl_vector *v){ apop_vector_apply(v, f_dtov); }
double sh_osum(char k, gsl_matrix *m, gsl_vector *v){ return k == 'v' ? apop_vector_map_sum(v, f_d) : k == 'a' ? apop_matrix_map_all_sum(m, f_d) : apop_matrix_map_sum(m, f_v); }
apop_data *sh_summarize(apop_data *d){ return apop_data_summarize(d); }
void sh_vfn(char k, gsl_vector *v){ if (k=='l') apop_vector_log(v); else if (k=='t') apop_vector_log10(v); else apop_vector_exp(v); }

/////// C17: factors, dummies
apop_data *apop_text_to_factors(apop_data *d, size_t textcol, int datacol);
apop_data *sh_uniq_text(apop_data *d, int col){ return apop_text_unique_elements(d, col); }
gsl_vector *sh_uniq_vec(gsl_vector *v){ return apop_vector_unique_elements(v); }
apop_data *sh_to_factors(apop_data *d, char t, int in, int out){ return apop_data_to_factors(d, .intype=t, .incol=in, .outcol=out); }
apop_data *sh_text_to_factors(apop_data *d, int t, int c){ return apop_text_to_factors(d, t, c); }
apop_data *sh_factor_names(apop_data *d, int col, char t){ return apop_data_get_factor_names(d, .col=col, .type=t); }
apop_data *sh_to_dummies(apop_data *d, int col, char t, char keep, char append, char rm){
    return apop_data_to_dummies(d, .col=col, .type=t, .keep_first=keep, .append=append, .remove=rm); }
apop_data *sh_copy_page_as(apop_data *pg, char *title){
    apop_data *m = pg->more; pg->more = NULL;
    apop_data *o = apop_data_copy(pg); pg->more = m;
    apop_name_add(o->names, title, 'h');
    return o;
}
int sh_quiet(void){ apop_opts.verbose = -1; return 0; }

/* ---------------------------------------------------------------- bins, ranks, compression */
apop_data *sh_to_bins(apop_data *d, apop_data *spec, int n, char close){
    return close ? (n ? apop_data_to_bins(d, spec, .bin_count=n, .close_top_bin=close) : apop_data_to_bins(d, spec, .close_top_bin=close))
                 : (n ? apop_data_to_bins(d, spec, .bin_count=n) : apop_data_to_bins(d, spec));
}
apop_data *sh_compress(apop_data *d){ return apop_data_pmf_compress(d); }
apop_data *sh_rank_compress(apop_data *d, int min){ return min >= 0 ? apop_data_rank_compress(d, .min_bins=min) : apop_data_rank_compress(d); }
apop_data *sh_rank_expand(apop_data *d){ return apop_data_rank_expand(d); }
gsl_vector *sh_movavg(gsl_vector *v, size_t n){ return apop_vector_moving_average(v, n); }
/* a model whose draws run through the elements of a list */
static double *seq_x; static int seq_n, seq_at;
static int seq_draw(double *out, gsl_rng *r, apop_model *m){
    int i = (int) gsl_rng_uniform_int(r, seq_n);
    for (int k=0; k< m->dsize; k++) out[k] = seq_x[(i + k) % seq_n];
    return 0;
}
apop_data *sh_model_to_pmf(int n, double *x, int dim, apop_data *spec, int draws, int bins){
    seq_x = x; seq_n = n; seq_at = 0;
    apop_model *m = apop_model_copy(&(apop_model){"sequence", .dsize=dim, .draw=seq_draw});
    m->dsize = dim;
    apop_model *o = bins ? apop_model_to_pmf(m, spec, draws, bins) : apop_model_to_pmf(m, spec, draws);
    apop_model_free(m);
    return o ? o->data : NULL;
}

/* ---------------------------------------------------------------- linear algebra */
apop_data *sh_dot(apop_data *a, apop_data *b, char f1, char f2){
    return f1 && f2 ? apop_dot(a, b, .form1=f1, .form2=f2) : f1 ? apop_dot(a, b, f1) : f2 ? apop_dot(a, b, .form2=f2) : apop_dot(a, b);
}
double sh_det_inv(gsl_matrix *m, gsl_matrix **out, int d, int i){ *out = NULL; return apop_det_and_inv(m, out, d, i); }
double sh_det(gsl_matrix *m){ return apop_matrix_determinant(m); }
gsl_matrix *sh_inv(gsl_matrix *m){ return apop_matrix_inverse(m); }
apop_data *sh_pca(gsl_matrix *m, int dims){ return dims ? apop_matrix_pca(m, dims) : apop_matrix_pca(m); }
int sh_is_psd(gsl_matrix *m, char s){ return s ? apop_matrix_is_positive_semidefinite(m, s) : apop_matrix_is_positive_semidefinite(m); }
double sh_to_psd(gsl_matrix *m){ return apop_matrix_to_positive_semidefinite(m); }
gsl_matrix *sh_vec_to_mat(gsl_vector *v, char rc){ return rc ? apop_vector_to_matrix(v, rc) : apop_vector_to_matrix(v); }
/* a matrix that is a block of a bigger one */
gsl_matrix *sh_mat_strided(int r, int c, double *x){
    gsl_matrix *big = gsl_matrix_alloc(r+2, c+3);
    gsl_matrix_set_all(big, 77);
    gsl_matrix *o = malloc(sizeof(gsl_matrix));
    *o = gsl_matrix_submatrix(big, 1, 2, r, c).matrix;
    for (int i=0; i< r; i++) for (int j=0; j< c; j++) gsl_matrix_set(o, i, j, x[i*c+j]);
    return o;
}
apop_data *sh_data_of(gsl_vector *v, gsl_matrix *m){ apop_data *o = apop_data_alloc(); o->vector = v; o->matrix = m; return o; }

/* ---------------------------------------------------------------- models */
/* a parametrized copy of a model; sizes below 0 are left as the model has them */
apop_model *sh_model(apop_model *base, int vsize, int m1, int m2, int dsize, int n, double *pv, double *pm){
    apop_model *m = apop_model_copy(base);
    if (vsize >= 0) m->vsize = vsize;
    if (m1 >= 0) m->msize1 = m1;
    if (m2 >= 0) m->msize2 = m2;
    if (dsize >= 0) m->dsize = dsize;
    apop_prep(NULL, m);
    if (!m->parameters) return m;
    for (int i=0; m->parameters->vector && i< m->parameters->vector->size; i++) apop_data_set(m->parameters, i, -1, pv[i]);
    if (m->parameters->matrix)
        for (int i=0; i< m->parameters->matrix->size1; i++) for (int j=0; j< m->parameters->matrix->size2; j++)
            apop_data_set(m->parameters, i, j, pm[i*m->parameters->matrix->size2 + j]);
    return m;
}
apop_model *sh_set_params(apop_model *base, int n, double *p){
    double x[16]; for (int i=0; i< n; i++) x[i] = p[i];
    x[n] = GSL_NAN; x[n+1] = GSL_NAN;
    return apop_model_set_parameters_base(base, x);
}
apop_data *sh_params(apop_model *m){ return m->parameters; }
apop_data *sh_info(apop_model *m){ return m->info; }
apop_data *sh_mdata(apop_model *m){ return m->data; }
int sh_dsize(apop_model *m){ return m->dsize; }
int sh_merror(apop_model *m){ return m->error; }
/* recentre a uniform kernel of width w on the point */
static void uniform_kernel(apop_data *in, apop_model *m){
    double x = apop_data_get(in, 0, in->vector ? -1 : 0);
    double w = m->parameters->vector->data[1] - m->parameters->vector->data[0];
    m->parameters->vector->data[0] = x - w/2;
    m->parameters->vector->data[1] = x + w/2;
}
static void normal_kernel(apop_data *in, apop_model *m){ apop_data_set(m->parameters, 0, -1, apop_data_get(in, 0, in->vector ? -1 : 0)); }
/* how: 'd' = data only, default kernel; 'e' = estimated; 'p' = from a PMF; kernel: 'n'ormal of sd w, 'u'niform of width w, 0 default */
apop_model *sh_kde(apop_data *d, char how, char kernel, double w){
    apop_model *k = kernel=='n' ? apop_model_set_parameters(apop_normal, 0, w) : kernel=='u' ? apop_model_set_parameters(apop_uniform, -w/2, w/2) : NULL;
    if (how == 'e' && !k) return apop_estimate(d, apop_kernel_density);
    if (how == 'p'){
        apop_model *pmf = apop_estimate(d, apop_pmf);
        return apop_model_set_settings(apop_kernel_density, .base_pmf=pmf, .kernel=k, .set_fn= k ? (kernel=='u' ? uniform_kernel : normal_kernel) : NULL);
    }
    return apop_model_set_settings(apop_kernel_density, .base_data=d, .kernel=k, .set_fn= k ? (kernel=='u' ? uniform_kernel : normal_kernel) : NULL);
}
void sh_cdf_group(apop_model *m, int draws, int seed){
    gsl_rng *r = seed ? apop_rng_alloc(seed) : NULL;
    if (draws) Apop_model_add_group(m, apop_cdf, .draws=draws, .rng=r);
    else Apop_model_add_group(m, apop_cdf, .rng=r);
}
/* a model whose draws go through the rows of a list in order; p, if any, is added to each */
static double *walk_x; static int walk_n, walk_at;
static int walk_draw(double *out, gsl_rng *r, apop_model *m){
    for (int k=0; k< m->dsize; k++) out[k] = walk_x[(walk_at % walk_n) * m->dsize + k] + (m->parameters ? apop_data_get(m->parameters, 0, -1) : 0);
    walk_at++;
    return 0;
}
apop_model *sh_walk(int n, int dim, double *x, int parameter){
    free(walk_x);
    walk_x = malloc(sizeof(double)*n*dim); memcpy(walk_x, x, sizeof(double)*n*dim);
    walk_n = n; walk_at = 0;
    apop_model *m = apop_model_copy(&(apop_model){"walk", .draw=walk_draw});
    m->dsize = dim;
    if (parameter){ m->vsize = 1; m->parameters = apop_data_calloc(1); }
    return m;
}
/* which arguments are given: s, d, 1, 2, t */
double sh_test(char *given, double stat, char *dist, double p1, double p2, char tail){
    return !strcmp(given, "s") ? apop_test(stat) : !strcmp(given, "st") ? apop_test(stat, .tail=tail) : !strcmp(given, "s1t") ? apop_test(stat, .p1=p1, .tail=tail)
         : !strcmp(given, "s12t") ? apop_test(stat, .p1=p1, .p2=p2, .tail=tail) : !strcmp(given, "sd") ? apop_test(stat, dist) : !strcmp(given, "sdt") ? apop_test(stat, dist, .tail=tail)
         : !strcmp(given, "sd1") ? apop_test(stat, dist, p1) : !strcmp(given, "sd1t") ? apop_test(stat, dist, p1, .tail=tail) : !strcmp(given, "sd12") ? apop_test(stat, dist, p1, p2) : apop_test(stat, dist, p1, p2, tail);
}
double sh_mvgamma(double a, int p){ return apop_multivariate_gamma(a, p); }
double sh_mvlngamma(double a, int p){ return apop_multivariate_lngamma(a, p); }
/* n requests, in turn or from several threads at once */
double *sh_harmonics(int n, int *N, double *s, int par){
    double *o = malloc(sizeof(double)*(n+1));
    if (par){
        #pragma omp parallel for schedule(dynamic, 1)
        for (int i=0; i< n; i++) o[i] = apop_generalized_harmonic(N[i], s[i]);
    } else for (int i=0; i< n; i++) o[i] = apop_generalized_harmonic(N[i], s[i]);
    return o;
}
/* ---------------------------------------------------------------- draws */
double *sh_md(apop_data *d){ return d->matrix->data; }
int sh_tda(apop_data *d){ return d->matrix->tda; }
/* n draws, each into a buffer of exactly w elements; column w holds the return value. seed<0: no generator given */
apop_data *sh_draws(apop_model *m, int n, int w, int seed){
    gsl_rng *r = seed >= 0 ? apop_rng_alloc(seed) : NULL;
    apop_data *out = apop_data_calloc(n, w+1);
    for (int i=0; i< n; i++){
        double *b = malloc(sizeof(double)*w);
        for (int j=0; j< w; j++) b[j] = -12321.;
        int rc = apop_draw(b, r, m);
        for (int j=0; j< w; j++) gsl_matrix_set(out->matrix, i, j, b[j]);
        gsl_matrix_set(out->matrix, i, w, rc);
        free(b);
    }
    if (r) gsl_rng_free(r);
    return out;
}
apop_model *sh_nodraw(apop_model *m){ apop_model *out = apop_model_copy(m); out->draw = NULL; return out; }
void sh_arms(apop_model *m, double xl, double xr, char metro, int ni, double *xi){
    if (ni) Apop_model_add_group(m, apop_arms, .model=m, .xl=xl, .xr=xr, .do_metro=metro, .ninit=ni, .xinit=xi);
    else Apop_model_add_group(m, apop_arms, .model=m, .xl=xl, .xr=xr, .do_metro=metro);
}
void sh_rm_arms(apop_model *m){ Apop_settings_rm_group(m, apop_arms); }
/* how: 0 count given, 1 default count, 2 a given data set */
apop_data *sh_model_draws(apop_model *m, int how, int count, apop_data *d){
    return how==0 ? apop_model_draws(m, count) : how==1 ? apop_model_draws(.model=m) : apop_model_draws(m, .draws=d);
}
apop_data *sh_ghgb3(int n, int seed, double *a){
    gsl_rng *r = apop_rng_alloc(seed);
    apop_data *out = apop_data_calloc(n, 1);
    for (int i=0; i< n; i++) gsl_matrix_set(out->matrix, i, 0, apop_rng_GHgB3(r, a));
    gsl_rng_free(r);
    return out;
}
/* the first k numbers from each of the first t threads' generators */
apop_data *sh_thread_rngs(int t, int k){
    apop_data *out = apop_data_calloc(t, k);
    #pragma omp parallel for num_threads(t)
    for (int i=0; i< t; i++)
        for (int j=0; j< k; j++) gsl_matrix_set(out->matrix, i, j, gsl_rng_uniform(apop_rng_get_thread(i)));
    return out;
}
void sh_set_dsize(apop_model *m, int d){ m->dsize = d; }
int sh_m1(apop_data *d){ return d->matrix ? (int)d->matrix->size1 : -1; }
int sh_m2(apop_data *d){ return d->matrix ? (int)d->matrix->size2 : -1; }

/////// estimation
/* a copy of the model, with the search and the wanted parts set; method NULL = leave the settings out */
apop_model *sh_mle(apop_model *base, char const *method, double step, double tol, int maxit, int nstart, double *start, double cycle, int noest, char const *want){
    apop_model *m = apop_model_copy(base);
    if (noest) m->estimate = NULL;
    if (method){
        Apop_model_add_group(m, apop_mle, .method=strdup(method));
        apop_mle_settings *s = Apop_settings_get_group(m, apop_mle);
        if (step) s->step_size = step;
        if (tol) s->tolerance = tol;
        if (maxit) s->max_iterations = maxit;
        if (nstart) { s->starting_pt = malloc(sizeof(double)*nstart); memcpy(s->starting_pt, start, sizeof(double)*nstart); }
        if (cycle) s->dim_cycle_tolerance = cycle;
        s->rng = apop_rng_alloc(7);
    }
    if (want) Apop_model_add_group(m, apop_parts_wanted, .info = strchr(want, 'i') ? 'y' : 'n', .covariance = strchr(want, 'c') ? 'y' : 'n', .tests = strchr(want, 't') ? 'y' : 'n');
    return m;
}
void sh_anneal(apop_model *m, double t0, double t1, double mu, int iters){
    apop_mle_settings *s = Apop_settings_get_group(m, apop_mle);
    if (t0) s->t_initial = t0;
    if (t1) s->t_min = t1;
    if (mu) s->mu_t = mu;
    if (iters) s->iters_fixed_T = iters;
}
static apop_data *sh_path_d;
void sh_path(apop_model *m){ sh_path_d = NULL; Apop_settings_set(m, apop_mle, path, &sh_path_d); }
apop_data *sh_path_get(void){ return sh_path_d; }
apop_model *sh_restart(apop_model *e, apop_model *copy, char *from, double bound){
    return apop_estimate_restart(e, .copy=copy, .starting_pt=from, .boundary=bound);
}
/* a concave quadratic with its top, at height base, at the given point; optionally within linear constraints */
typedef struct { apop_data *A, *constr; double base, margin; } quad_s;
static long double quad_at(apop_model *m){
    quad_s *q = m->more;
    gsl_vector *b = apop_data_pack(m->parameters), *c = gsl_vector_calloc(b->size);
    gsl_vector_sub(b, q->A->vector);
    double out;
    gsl_blas_dgemv(CblasNoTrans, 1, q->A->matrix, b, 0, c);
    gsl_blas_ddot(b, c, &out);
    gsl_vector_free(b); gsl_vector_free(c);
    return q->base - out/2;
}
static long double quad_ll(apop_data *d, apop_model *m){ return quad_at(m); }
static long double quad_ll_s(apop_data *d, apop_model *m){ return quad_at(m); }
static long double quad_p(apop_data *d, apop_model *m){ return expl(quad_at(m)); }
static void quad_score(apop_data *d, gsl_vector *g, apop_model *m){
    quad_s *q = m->more;
    gsl_vector *b = apop_data_pack(m->parameters);
    gsl_vector_sub(b, q->A->vector);
    gsl_blas_dgemv(CblasNoTrans, -1, q->A->matrix, b, 0, g);
    gsl_vector_free(b);
}
static apop_model *quad_pm(apop_data *d, apop_model *m){ //the parameters are Normal, as per the covariance page
    apop_data *cov = apop_data_get_page(m->parameters, "<Covariance>");
    gsl_vector *b = apop_data_pack(m->parameters);
    int i = Apop_settings_get(m, apop_pm, index);
    apop_model *out = d==m->data && cov ? apop_model_set_parameters(apop_normal, gsl_vector_get(b, i), sqrt(apop_data_get(cov, i, i))) : apop_model_set_parameters(apop_normal, 99, 1);
    gsl_vector_free(b);
    return out;
}
void sh_quad_pm(apop_model *m){ apop_parameter_model_vtable_add(quad_pm, m); }
static long double quad_constraint(apop_data *d, apop_model *m){
    quad_s *q = m->more;
    gsl_vector *b = apop_data_pack(m->parameters);
    long double out = apop_linear_constraint(b, q->constr, q->margin);
    if (out) apop_data_unpack(b, m->parameters);
    gsl_vector_free(b);
    return out;
}
apop_model *sh_quad(char kind, int vsize, int m1, int m2, apop_data *A, double base, apop_data *constr, double margin){
    apop_model *m = apop_model_copy(apop_normal);
    strcpy(m->name, "a quadratic");
    m->estimate = NULL; m->p = NULL; m->draw = NULL; m->cdf = NULL; m->prep = NULL; m->constraint = NULL;
    m->vsize = vsize; m->msize1 = m1; m->msize2 = m2;
    m->log_likelihood = kind=='s' ? quad_ll_s : quad_ll;
    if (kind == 'p') { m->log_likelihood = NULL; m->p = quad_p; }
    if (kind == 's') apop_score_vtable_add(quad_score, m);
    if (constr) m->constraint = quad_constraint;
    quad_s *q = malloc(sizeof(quad_s));
    *q = (quad_s){ .A=A, .constr=constr, .base=base, .margin=margin };
    m->more = q; m->more_size = sizeof(quad_s);
    return m;
}
long double sh_constraint_(apop_data *d, apop_model *m){ return m->constraint ? m->constraint(d, m) : 0; }
double sh_constraint(apop_data *d, apop_model *m){ return m->constraint ? m->constraint(d, m) : 0; }
char *sh_mstate(apop_model *m){
    static sbuf bb; sbuf *b=&bb; b->n=0;
    P("{\"name\":"); sstr(b, m->name);
    P(",\"sizes\":["); sint(b, m->vsize); P(","); sint(b, m->msize1); P(","); sint(b, m->msize2); P(","); sint(b, m->dsize);
    P("],\"error\":"); sint(b, m->error);
    P(",\"params\":"); sdata(b, m->parameters, 1);
    P(",\"info\":"); sdata(b, m->info, 1);
    P(",\"data\":"); sint(b, (long)m->data);
    P(",\"groups\":[");
    for (int i=0; m->settings && m->settings[i].name[0]; i++){ if (i) P(","); sstr(b, m->settings[i].name); }
    P("]");
    apop_mle_settings *s = Apop_settings_get_group(m, apop_mle);
    if (s) { P(",\"mle\":["); sstr(b, s->method); P(","); snum(b, s->tolerance); P(","); snum(b, s->step_size); P(","); snum(b, s->dim_cycle_tolerance); P(","); snum(b, s->starting_pt ? s->starting_pt[0] : -1); P("]"); }
    P("}");
    return b->s;
}

/////// regression
/* part letters: d destroy, c/C cov on/off, e/E expected on/off (deprecated switches); want: the apop_parts_wanted group */
apop_model *sh_lm(apop_model *base, apop_data *instruments, char const *sw, char const *want){
    apop_model *m = apop_model_copy(base);
    if (sw || instruments){
        Apop_model_add_group(m, apop_lm, .instruments = instruments);
        apop_lm_settings *s = Apop_settings_get_group(m, apop_lm);
        for (; sw && *sw; sw++)
            if (*sw=='d') s->destroy_data = 'y'; else if (*sw=='C') s->want_cov = 'n'; else if (*sw=='E') s->want_expected_value = 'n';
    }
    if (want) Apop_model_add_group(m, apop_parts_wanted, .info = strchr(want, 'i') ? 'y' : 'n', .covariance = strchr(want, 'c') ? 'y' : 'n',
                                   .tests = strchr(want, 't') ? 'y' : 'n', .predicted = strchr(want, 'p') ? 'y' : 'n');
    return m;
}
void sh_lm_input(apop_model *m, apop_model *in){ Apop_settings_set(m, apop_lm, input_distribution, in); }
apop_data *sh_score(apop_data *d, apop_model *m){
    gsl_vector *p = apop_data_pack(m->parameters);
    apop_score(d, p, m);
    return sh_data_of(p, NULL);
}
apop_data *sh_num_grad(apop_data *d, apop_model *m, double delta){ return sh_data_of(delta ? apop_numerical_gradient(d, m, delta) : apop_numerical_gradient(d, m), NULL); }
/* overwrite a data set's numbers, in pack order */
void sh_fill(apop_data *d, int n, double *x){ gsl_vector_view v = gsl_vector_view_array(x, n); apop_data_unpack(&v.vector, d); }

/////// empirical distributions
/* a generator that returns a given list of uniforms, in turn */
typedef struct { double *u; int n, at; } script_s;
static double script_state_next(void *s){ script_s *x = s; double o = x->u[x->at % x->n]; x->at++; return o; }
static unsigned long script_get(void *s){ return (unsigned long)(script_state_next(s) * 4294967296.); }
static double script_get_double(void *s){ return script_state_next(s); }
static void script_set(void *s, unsigned long seed){ (void)s; (void)seed; }
static const gsl_rng_type script_type = {"scripted", 0xffffffffUL, 0, sizeof(script_s), script_set, script_get, script_get_double};
/* n draws using the listed uniforms; columns: w elements, the return value, and how many uniforms were used */
apop_data *sh_script_draws(apop_model *m, int n, double *u, int w){
    gsl_rng *r = gsl_rng_alloc(&script_type);
    apop_data *out = apop_data_calloc(n, w+2);
    for (int i=0; i< n; i++){
        *(script_s*)r->state = (script_s){u+i, n-i, 0};
        double *b = malloc(sizeof(double)*w);
        for (int j=0; j< w; j++) b[j] = -12321.;
        int rc = apop_draw(b, r, m);
        for (int j=0; j< w; j++) gsl_matrix_set(out->matrix, i, j, b[j]);
        gsl_matrix_set(out->matrix, i, w, rc);
        gsl_matrix_set(out->matrix, i, w+1, ((script_s*)r->state)->at);
        free(b);
    }
    gsl_rng_free(r);
    return out;
}
apop_model *sh_pmf(apop_data *d, int idx, int how){
    if (how == 1) { //set by hand
        apop_model *m = apop_model_copy(apop_pmf);
        m->data = d;
        if (idx) Apop_model_add_group(m, apop_pmf, .draw_index='y');
        return m;
    }
    if (!idx) return apop_estimate(d, apop_pmf);
    apop_model *t = apop_model_copy(apop_pmf);
    Apop_model_add_group(t, apop_pmf, .draw_index='y');
    apop_model *m = apop_estimate(d, t);
    apop_model_free(t);
    return m;
}
int sh_get_dsize(apop_model *m){ return m->dsize; }
double sh_kl(apop_model *a, apop_model *b, int n, int seed){
    gsl_rng *r = seed ? apop_rng_alloc(seed) : NULL;
    double o = n ? apop_kl_divergence(a, b, n, r) : apop_kl_divergence(a, b, .rng=r);
    if (r) gsl_rng_free(r);
    return o;
}
double sh_model_entropy(apop_model *m, int n){ return n ? apop_model_entropy(m, n) : apop_model_entropy(m); }

/////// model transformations
static long double pages_ll(apop_data *d, apop_model *m){
    double out = 0; int k = 0;
    for (apop_data *p = m->parameters; p; p = p->more){
        if (p->vector) for (int i=0; i< p->vector->size; i++) out -= (++k) * gsl_pow_2(gsl_vector_get(p->vector, i) - 1);
        if (p->matrix) for (int i=0; i< p->matrix->size1; i++) for (int j=0; j< p->matrix->size2; j++) out -= (++k) * gsl_pow_2(gsl_matrix_get(p->matrix, i, j) - 1);
    }
    return out;
}
static double pages_sum(apop_model *m, double add, int *n){
    double out = 0; *n = 0;
    for (apop_data *p = m->parameters; p; p = p->more){
        if (p->vector) for (int i=0; i< p->vector->size; i++) {(*n)++; out += (*gsl_vector_ptr(p->vector, i) += add);}
        if (p->matrix) for (int i=0; i< p->matrix->size1; i++) for (int j=0; j< p->matrix->size2; j++) {(*n)++; out += (*gsl_matrix_ptr(p->matrix, i, j) += add);}
    }
    return out;
}
static long double pages_constraint(apop_data *d, apop_model *m){
    int n; double s = pages_sum(m, 0, &n);
    if (s >= 0) return 0;
    pages_sum(m, -s/n, &n);
    return -s;
}
/* a model whose parameters are the pages given */
apop_model *sh_pages_model(apop_data *params, int constrained){
    apop_model *m = apop_model_copy(&(apop_model){"pages", .log_likelihood=pages_ll, .dsize=1});
    if (constrained) m->constraint = pages_constraint;
    m->parameters = params;
    return m;
}
apop_model *sh_fix(apop_model *m){ return apop_model_fix_params(m); }
apop_model *sh_fix_base(apop_model *m){ return apop_model_fix_params_get_base(m); }
void sh_prep(apop_data *d, apop_model *m){ apop_prep(d, m); }
void sh_set_mparams(apop_model *m, apop_data *p){ m->parameters = p; }
/* a search that gets to the top, starting from the given point */
void sh_fine_mle(apop_model *m, int n, double *start, char const *method){
    double *s = NULL;
    if (n){ s = malloc(sizeof(double)*n); memcpy(s, start, sizeof(double)*n); }
    if (!strcmp(method, "NM simplex")) Apop_model_add_group(m, apop_mle, .method="NM simplex", .step_size=.5, .tolerance=1e-8, .max_iterations=20000, .starting_pt=s);
    else Apop_model_add_group(m, apop_mle, .method=strdup(method), .starting_pt=s);
}
apop_model *sh_mixture(int n, apop_model **ms, double *w, int find){
    apop_model *list[n+1]; for (int i=0; i< n; i++) list[i] = ms[i];
    list[n] = NULL;
    apop_model *m = apop_model_mixture_base(list);
    if (w) { gsl_vector *wv = gsl_vector_alloc(n); for (int i=0; i< n; i++) gsl_vector_set(wv, i, w[i]); Apop_settings_set(m, apop_mixture, weights, wv); }
    if (find) Apop_settings_set(m, apop_mixture, find_weights, 'y');
    return m;
}
void sh_mix_weights(apop_model *m, int n, double *w){ gsl_vector *wv = gsl_vector_alloc(n); for (int i=0; i< n; i++) gsl_vector_set(wv, i, w[i]); Apop_settings_set(m, apop_mixture, weights, wv); }
apop_data *sh_data_ptr(apop_model *m){ return m->data; }
gsl_vector *sh_mix_next(apop_model *m){ return Apop_settings_get(m, apop_mixture, next_weights); }
gsl_vector *sh_mix_get_weights(apop_model *m){ return Apop_settings_get(m, apop_mixture, weights); }
apop_model *sh_mix_comp(apop_model *m, int i){ return Apop_settings_get(m, apop_mixture, model_list)[i]; }
apop_model *sh_cross(int n, apop_model **ms, char const *page){
    apop_model *list[n+1]; for (int i=0; i< n; i++) list[i] = ms[i];
    list[n] = NULL;
    apop_model *m = apop_model_cross_base(list);
    if (page) Apop_settings_set(m, apop_cross, splitpage, strdup(page));
    return m;
}
apop_model *sh_cross_part(apop_model *m, int i){ return i ? Apop_settings_get(m, apop_cross, model2) : Apop_settings_get(m, apop_cross, model1); }
static double dc_lo, dc_hi; static int dc_scalings;
static double dc_in(apop_data *d, apop_model *m){ double x = apop_data_get(d, 0, d->vector ? -1 : 0); return x >= dc_lo && x <= dc_hi; }
static double dc_scale(apop_model *m){
    double lo = dc_lo, hi = dc_hi; dc_scalings++;
    gsl_vector_view a = gsl_vector_view_array(&lo, 1), b = gsl_vector_view_array(&hi, 1);
    return apop_cdf(&(apop_data){.vector=&b.vector}, m) - apop_cdf(&(apop_data){.vector=&a.vector}, m);
}
apop_model *sh_dconstrain(apop_model *base, double lo, double hi, int exact, int draws, int seed){
    dc_lo = lo; dc_hi = hi; dc_scalings = 0;
    return exact ? apop_model_dconstrain(.base_model=base, .constraint=dc_in, .scaling=dc_scale)
         : seed ? apop_model_dconstrain(.base_model=base, .constraint=dc_in, .draw_ct=draws, .rng=apop_rng_alloc(seed))
                : apop_model_dconstrain(.base_model=base, .constraint=dc_in, .draw_ct=draws);
}
int sh_dc_scalings(){ return dc_scalings; }
static double ct_a, ct_b; static int ct_log;
static double ct_fn(double x){ return ct_log ? log(x) : (x - ct_b)/ct_a; }
static apop_data *ct_rev(apop_data *in){ return apop_map(in, .fn_d=ct_fn, .part='a'); }
static double ct_inv(double x){ return log(x); }
static double ct_jac(apop_data *in){
    Apop_stopif(!in, return GSL_NAN, 0, "no data");
    double n = (in->vector ? in->vector->size : 0) + (in->matrix ? in->matrix->size1*in->matrix->size2 : 0);
    return ct_log ? exp(-apop_map_sum(in, .fn_d=ct_inv, .part='a')) : pow(fabs(1/ct_a), n);
}
/* log: base = log x; otherwise base = (x-b)/a */
apop_model *sh_ct(apop_model *base, int lg, double a, double b, int leave){
    ct_log = lg; ct_a = a; ct_b = b;
    return leave==1 ? apop_model_coordinate_transform(.base_model=base, .transformed_to_base=ct_rev)
         : leave==2 ? apop_model_coordinate_transform(.base_model=base, .jacobian_to_base=ct_jac)
         : apop_model_coordinate_transform(.base_model=base, .transformed_to_base=ct_rev, .jacobian_to_base=ct_jac);
}

/////// updating, Markov chains
static double *mc_log; static long mc_n, mc_size;
static void mc_put(double x){
    if (mc_n == mc_size) mc_log = realloc(mc_log, sizeof(double)*(mc_size = mc_size*2 + 1000));
    mc_log[mc_n++] = x;
}
void sh_mc_reset(void){ mc_n = 0; }
gsl_vector *sh_mc_log(void){
    if (!mc_n) return NULL;
    gsl_vector *v = gsl_vector_alloc(mc_n); memcpy(v->data, mc_log, sizeof(double)*mc_n); return v;
}
typedef struct {int kind, n; double center[32], sd[32], lo;} mc_s;
/* each evaluation logs: kind (0: likelihood, 1: constraint failed), value, parameters */
static long double mc_ll(apop_data *d, apop_model *m){
    mc_s *q = m->more;
    gsl_vector *b = apop_data_pack(m->parameters);
    long double out = 0;
    for (int i=0; i< b->size; i++){
        double x = gsl_vector_get(b, i);
        if (q->kind == 1 && i) x += .3*gsl_pow_2(gsl_vector_get(b, i-1));
        out -= .5*gsl_pow_2((x - q->center[i])/q->sd[i]);
    }
    if (q->kind == 2 && gsl_vector_get(b, 0) < q->lo) out = GSL_NEGINF;
    if (q->kind == 3 && gsl_vector_get(b, 0) < q->lo) out = GSL_NAN;
    mc_put(0); mc_put(out);
    for (int i=0; i< b->size; i++) mc_put(gsl_vector_get(b, i));
    gsl_vector_free(b);
    return out;
}
static long double mc_constraint(apop_data *d, apop_model *m){
    mc_s *q = m->more;
    gsl_vector *b = apop_data_pack(m->parameters);
    double x = gsl_vector_get(b, 0);
    if (x < q->lo){
        mc_put(1); mc_put(0);
        for (int i=0; i< b->size; i++) mc_put(gsl_vector_get(b, i));
    }
    gsl_vector_free(b);
    return x < q->lo ? q->lo - x : 0;
}
apop_model *sh_mc_model(apop_data *params, int kind, int n, double *center, double *sd, double lo){
    apop_model *m = apop_model_copy(&(apop_model){"chain", .log_likelihood=mc_ll});
    if (kind == 4) m->constraint = mc_constraint;
    mc_s q = {.kind=kind, .n=n, .lo=lo};
    memcpy(q.center, center, sizeof(double)*n); memcpy(q.sd, sd, sizeof(double)*n);
    m->more = malloc(sizeof(q)); memcpy(m->more, &q, sizeof(q)); m->more_size = sizeof(q);
    m->parameters = params; m->dsize = n;
    return m;
}
static int mc_still(apop_mcmc_proposal_s *ps, apop_mcmc_settings *ms){ return 0; }
void sh_mc_settings(apop_model *m, int periods, double burnin, char chunks, char start, int still, double target){
    if (still) Apop_model_add_group(m, apop_mcmc, .periods=periods, .burnin=burnin, .gibbs_chunks=chunks, .start_at=start, .base_adapt_fn=mc_still);
    else if (target) Apop_model_add_group(m, apop_mcmc, .periods=periods, .burnin=burnin, .gibbs_chunks=chunks, .start_at=start, .target_accept_rate=target);
    else Apop_model_add_group(m, apop_mcmc, .periods=periods, .burnin=burnin, .gibbs_chunks=chunks, .start_at=start);
    Apop_settings_set(m, apop_mcmc, burnin, burnin); //zero is the default's code
}
/* one proposal of my own: a Normal of the given spread centered on the last accepted point, or a fixed one */
static void mc_follow(double const *x, apop_mcmc_proposal_s *ps, apop_mcmc_settings *ms){ ps->proposal->parameters->vector->data[0] = *x; }
void sh_mc_own(apop_model *m, int n, double sd, int follow){
    apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
    s->gibbs_chunks = 'i';
    s->base_adapt_fn = mc_still;
    if (follow==1) s->base_step_fn = mc_follow;
    s->block_count = n;
    s->proposals = calloc(n, sizeof(apop_mcmc_proposal_s));
    for (int i=0; i< n; i++){
        s->proposals[i].proposal = apop_model_set_parameters(apop_normal, 1, sd);
        if (follow==2) {s->proposals[i].step_fn = mc_follow; s->proposals[i].adapt_fn = mc_still;}
    }
}
apop_model *sh_metropolis(apop_data *d, apop_model *m, int seed){
    gsl_rng *r = apop_rng_alloc(seed);
    apop_model *o = apop_model_metropolis(d, r, m);
    gsl_rng_free(r);
    return o;
}
int sh_mc_accepts(apop_model *m){ return ((apop_mcmc_settings*)Apop_settings_get_group(m, apop_mcmc))->accept_count; }
apop_model *sh_update(apop_data *d, apop_model *prior, apop_model *lik, int seed){
    if (!seed) return apop_update(d, prior, lik);
    gsl_rng *r = apop_rng_alloc(seed);
    apop_model *o = apop_update(d, prior, lik, r);
    gsl_rng_free(r);
    return o;
}
void sh_only_draws(apop_model *m){ m->log_likelihood = NULL; m->p = NULL; }
int sh_one_draw(apop_model *m, int n, double *out, int seed){
    gsl_rng *r = apop_rng_alloc(seed);
    int o = apop_draw(out, r, m);
    gsl_rng_free(r);
    return o;
}
char const *sh_mname(apop_model *m){ return m->name; }

/////// hypothesis tests
apop_data *sh_ttest(gsl_vector *a, gsl_vector *b, int paired){ return paired ? apop_paired_t_test(a, b) : apop_t_test(a, b); }
apop_data *sh_ttest_cols(apop_data *d, int i, int j, int paired){
    return paired ? apop_paired_t_test(Apop_cv(d, i), Apop_cv(d, j)) : apop_t_test(Apop_cv(d, i), Apop_cv(d, j)); }
apop_data *sh_ftest(apop_model *m, apop_data *c){ return c ? apop_f_test(m, c) : apop_f_test(m); }
apop_data *sh_chi(apop_data *d){ return apop_test_anova_independence(d); }
apop_data *sh_fisher(apop_data *d){ return apop_test_fisher_exact(d); }
apop_data *sh_anova(char *t, char *d, char *g1, char *g2){ return g2 ? apop_anova(t, d, g1, g2) : apop_anova(t, d, g1); }
apop_data *sh_gof(apop_model *a, apop_model *b){ return apop_histograms_test_goodness_of_fit(a, b); }
apop_data *sh_ks(apop_model *a, apop_model *b){ return apop_test_kolmogorov(a, b); }
gsl_vector *sh_vector_of(apop_data *d){ return d->vector; }

/////// settings groups, model copies, registries
typedef struct { double a; int b; char c; apop_data *dataset; int deep; } ysg_settings;
typedef struct { double a; int *refs; } zsg_settings;
Apop_settings_declarations(ysg)
Apop_settings_declarations(zsg)
static int ysg_live, zsg_live;
Apop_settings_init(ysg, Apop_varad_set(b, 10); Apop_varad_set(c, 'q'); out->dataset = apop_data_falloc((2), 1, 2); ysg_live++; )
Apop_settings_copy(ysg, out->dataset = apop_data_copy(in->dataset); ysg_live++; )
Apop_settings_free(ysg, apop_data_free(in->dataset); ysg_live--; )
Apop_settings_init(zsg, out->refs = malloc(sizeof(int)); *out->refs = 1; zsg_live++; )
Apop_settings_copy(zsg, ++*out->refs; )
Apop_settings_free(zsg, if (!--*in->refs) {free(in->refs); zsg_live--;} )
void sh_sg_live(int *out){ out[0] = ysg_live; out[1] = zsg_live; }

static char const *sg_methods[] = {"", "NM simplex", "FR cg", "Annealing"};
/* groups: 0 apop_mle, 1 apop_parts_wanted, 2 apop_mcmc, 3 apop_cdf, 4 apop_pm, 5 apop_lm, 6 ysg, 7 zsg, 8 apop_pmf.
   op: 'a' add with fields x[] where given[]; 's' set one; 'g' get all into x; 'r' remove; returns 1 where get finds nothing */
#define SG_F(op, grp, T, i, field) else if (op=='s' && which==i) {Apop_settings_set(m, grp, field, (T)x[i]);}
int sh_sg(apop_model *m, char op, int g, int which, double *x){
    switch(g){
    case 0:
        if (op=='a') Apop_settings_add_group(m, apop_mle, .tolerance=x[0], .max_iterations=x[1], .step_size=x[2], .dim_cycle_tolerance=x[3], .method=(char*)(x[4] ? sg_methods[(int)x[4]] : NULL), .verbose=x[5], .n_tries=x[6], .k=x[7], .t_initial=x[8], .delta=x[9]);
        SG_F(op, apop_mle, double, 0, tolerance) SG_F(op, apop_mle, int, 1, max_iterations) SG_F(op, apop_mle, double, 2, step_size) SG_F(op, apop_mle, double, 3, dim_cycle_tolerance)
        else if (op=='s' && which==4) {Apop_settings_set(m, apop_mle, method, (char*)sg_methods[(int)x[4]]);}
        SG_F(op, apop_mle, int, 5, verbose) SG_F(op, apop_mle, int, 6, n_tries) SG_F(op, apop_mle, double, 7, k) SG_F(op, apop_mle, double, 8, t_initial) SG_F(op, apop_mle, double, 9, delta)
        else if (op=='r') Apop_settings_rm_group(m, apop_mle);
        else {
            apop_mle_settings *s = Apop_settings_get_group(m, apop_mle); if (!s) return 1;
            x[0] = Apop_settings_get(m, apop_mle, tolerance); x[1] = s->max_iterations; x[2] = s->step_size; x[3] = s->dim_cycle_tolerance;
            x[4] = -1; for (int i=0; i< 4; i++) if (s->method && !strcmp(s->method, sg_methods[i])) x[4] = i;
            x[5] = s->verbose; x[6] = s->n_tries; x[7] = s->k; x[8] = s->t_initial; x[9] = s->delta;
        }
        break;
    case 1:
        if (op=='a') Apop_settings_add_group(m, apop_parts_wanted, .covariance=x[0], .predicted=x[1], .tests=x[2], .info=x[3]);
        SG_F(op, apop_parts_wanted, char, 0, covariance) SG_F(op, apop_parts_wanted, char, 1, predicted) SG_F(op, apop_parts_wanted, char, 2, tests) SG_F(op, apop_parts_wanted, char, 3, info)
        else if (op=='r') Apop_settings_rm_group(m, apop_parts_wanted);
        else {
            apop_parts_wanted_settings *s = Apop_settings_get_group(m, apop_parts_wanted); if (!s) return 1;
            x[0] = s->covariance; x[1] = s->predicted; x[2] = s->tests; x[3] = Apop_settings_get(m, apop_parts_wanted, info);
        }
        break;
    case 2:
        if (op=='a') Apop_settings_add_group(m, apop_mcmc, .periods=x[0], .burnin=x[1], .histosegments=x[2], .target_accept_rate=x[3], .gibbs_chunks=x[4], .start_at=x[5]);
        SG_F(op, apop_mcmc, long, 0, periods) SG_F(op, apop_mcmc, double, 1, burnin) SG_F(op, apop_mcmc, int, 2, histosegments) SG_F(op, apop_mcmc, double, 3, target_accept_rate) SG_F(op, apop_mcmc, char, 4, gibbs_chunks) SG_F(op, apop_mcmc, char, 5, start_at)
        else if (op=='r') Apop_settings_rm_group(m, apop_mcmc);
        else {
            apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc); if (!s) return 1;
            x[0] = Apop_settings_get(m, apop_mcmc, periods); x[1] = s->burnin; x[2] = s->histosegments; x[3] = s->target_accept_rate; x[4] = s->gibbs_chunks; x[5] = s->start_at;
        }
        break;
    case 3:
        if (op=='a') Apop_settings_add_group(m, apop_cdf, .draws=x[0]);
        SG_F(op, apop_cdf, int, 0, draws)
        else if (op=='r') Apop_settings_rm_group(m, apop_cdf);
        else { apop_cdf_settings *s = Apop_settings_get_group(m, apop_cdf); if (!s) return 1; x[0] = Apop_settings_get(m, apop_cdf, draws); }
        break;
    case 4:
        if (op=='a') Apop_settings_add_group(m, apop_pm, .index=x[0], .draws=x[1]);
        SG_F(op, apop_pm, int, 0, index) SG_F(op, apop_pm, int, 1, draws)
        else if (op=='r') Apop_settings_rm_group(m, apop_pm);
        else { apop_pm_settings *s = Apop_settings_get_group(m, apop_pm); if (!s) return 1; x[0] = Apop_settings_get(m, apop_pm, index); x[1] = s->draws; }
        break;
    case 5:
        if (op=='a') Apop_settings_add_group(m, apop_lm, .want_cov=x[0], .want_expected_value=x[1], .destroy_data=x[2]);
        SG_F(op, apop_lm, char, 0, want_cov) SG_F(op, apop_lm, char, 1, want_expected_value) SG_F(op, apop_lm, int, 2, destroy_data)
        else if (op=='r') Apop_settings_rm_group(m, apop_lm);
        else { apop_lm_settings *s = Apop_settings_get_group(m, apop_lm); if (!s) return 1; x[0] = s->want_cov; x[1] = s->want_expected_value; x[2] = Apop_settings_get(m, apop_lm, destroy_data); }
        break;
    case 6:
        if (op=='a') Apop_settings_add_group(m, ysg, .a=x[0], .b=x[1], .c=x[2]);
        SG_F(op, ysg, double, 0, a) SG_F(op, ysg, int, 1, b) SG_F(op, ysg, char, 2, c)
        else if (op=='s' && which==3) { ysg_settings *s = Apop_settings_get_group(m, ysg); if (!s) return 1; apop_data_set(s->dataset, 1, -1, x[3]); }
        else if (op=='r') Apop_settings_rm_group(m, ysg);
        else { ysg_settings *s = Apop_settings_get_group(m, ysg); if (!s) return 1; x[0] = s->a; x[1] = s->b; x[2] = Apop_settings_get(m, ysg, c); x[3] = apop_data_get(s->dataset, 1, -1); }
        break;
    case 7:
        if (op=='a') Apop_settings_add_group(m, zsg, .a=x[0]);
        SG_F(op, zsg, double, 0, a)
        else if (op=='r') Apop_settings_rm_group(m, zsg);
        else { zsg_settings *s = Apop_settings_get_group(m, zsg); if (!s) return 1; x[0] = Apop_settings_get(m, zsg, a); x[1] = *s->refs; }
        break;
    case 8:
        if (op=='a') Apop_settings_add_group(m, apop_pmf, .draw_index=x[0]);
        SG_F(op, apop_pmf, char, 0, draw_index)
        else if (op=='r') Apop_settings_rm_group(m, apop_pmf);
        else { apop_pmf_settings *s = Apop_settings_get_group(m, apop_pmf); if (!s) return 1; x[0] = Apop_settings_get(m, apop_pmf, draw_index); }
        break;
    }
    return 0;
}
static char const *sg_names[] = {"apop_mle", "apop_parts_wanted", "apop_mcmc", "apop_cdf", "apop_pm", "apop_lm", "ysg", "zsg", "apop_pmf"};
static int ng_live;
static void *ng_copy(void *in){ int *o = malloc(sizeof(int)); *o = *(int*)in; ng_live++; return o; }
static void ng_free(void *in){ free(in); ng_live--; }
int sh_ng_live(void){ return ng_live; }
void sh_ng_add(apop_model *m, char *name, int v){ apop_settings_group_alloc(m, name, ng_free, ng_copy, ng_copy(&v)); }
int sh_ng_get(apop_model *m, char *name){ int *p = apop_settings_get_grp(m, name, 'c'); return p ? *p : -1; }
void sh_ng_set(apop_model *m, char *name, int v){ int *p = apop_settings_get_grp(m, name, 'c'); if (p) *p = v; }
void sh_sg_copy(apop_model *to, apop_model *from, int g){ apop_settings_copy_group(to, from, (char*)sg_names[g]); }
apop_model *sh_copy_set(apop_model *m, int g, double *x){
    if (g == 0) return apop_model_copy_set(m, apop_mle, .tolerance=x[0], .max_iterations=x[1], .step_size=x[2], .dim_cycle_tolerance=x[3], .method=(char*)(x[4] ? sg_methods[(int)x[4]] : NULL), .verbose=x[5], .n_tries=x[6], .k=x[7], .t_initial=x[8], .delta=x[9]);
    if (g == 1) return Apop_model_copy_set(m, apop_parts_wanted, .covariance=x[0], .predicted=x[1], .tests=x[2], .info=x[3]);
    if (g == 6) return apop_model_copy_set(m, ysg, .a=x[0], .b=x[1], .c=x[2]);
    return apop_model_copy_set(m, zsg, .a=x[0]);
}
/* a model of my own, with a blob */
apop_model *sh_blob_model(char const *name, int vs, int m1, int m2, int size){
    apop_model base = {.vsize=vs, .msize1=m1, .msize2=m2, .more_size=size};
    strncpy(base.name, name, 100);
    char blob[size+1]; memset(blob, 0, size+1);
    base.more = size ? blob : NULL;
    apop_model *m = apop_model_copy(&base);
    return m;
}
void sh_hand(apop_model *m, apop_data *d){ m->parameters = d; }
void sh_blob_set(apop_model *m, int i, int c){ ((char*)m->more)[i] = c; }
int sh_blob_get(apop_model *m, int i){ return ((char*)m->more)[i]; }
void sh_msizes(apop_model *m, double *out){ out[0] = m->vsize; out[1] = m->msize1; out[2] = m->msize2; out[3] = m->dsize; out[4] = m->more_size; out[5] = m->error; }
void sh_model_free(apop_model *m){ apop_model_free(m); }
apop_model *sh_model_copy(apop_model *m){ return apop_model_copy(m); }
apop_model *sh_model_clear(apop_data *d, apop_model *m){ return apop_model_clear(d, m); }
apop_model *sh_set_parameters(apop_model *m, double *x, int n){
    return n==1 ? apop_model_set_parameters(m, x[0]) : n==2 ? apop_model_set_parameters(m, x[0], x[1]) : apop_model_set_parameters(m, x[0], x[1], x[2]); }
void sh_add_info(apop_model *m, char *name, double x){ if (!m->info) m->info = apop_data_alloc(); apop_data_add_named_elmt(m->info, name, x); }

int sh_vt_add(char const *t, long fn, long hash){ return apop_vtable_add(t, (void*)fn, hash); }
long sh_vt_get(char const *t, long hash){ return (long)apop_vtable_get(t, hash); }
int sh_vt_drop(char const *t, long hash){ return apop_vtable_drop(t, hash); }
/* stand-in models: methods at made-up addresses */
apop_model *sh_fake(long ll, long p, long draw, long est, long cdf){
    apop_model *m = calloc(1, sizeof(apop_model)); strcpy(m->name, "fake");
    m->log_likelihood = (void*)ll; m->p = (void*)p; m->draw = (void*)draw; m->estimate = (void*)est; m->cdf = (void*)cdf; return m;
}
/* typed registries: k 0 update, 1 entropy, 2 score, 3 parameter_model, 4 predict, 5 print */
long sh_tv(int k, char op, apop_model *m, apop_model *m2, long fn){
#define TV(name, ...) { \
        if (op=='a') {name##_vtable_add((name##_type)fn, __VA_ARGS__); return 0;} \
        if (op=='g') return (long)name##_vtable_get(__VA_ARGS__); \
        return name##_vtable_drop(__VA_ARGS__); }
    switch(k){
        case 0: TV(apop_update, m, m2)
        case 1: TV(apop_entropy, m)
        case 2: TV(apop_score, m)
        case 3: TV(apop_parameter_model, m)
        case 4: TV(apop_predict, m)
        default: TV(apop_model_print, m)
    }
}
/* every thread adds, looks up and drops its own entries in shared tables; returns how many answers were wrong */
int sh_vt_threads(int threads, int tables, int per, char const *prefix){
    int bad = 0;
    char names[tables][60];
    for (int t=0; t< tables; t++) sprintf(names[t], "%s%i", prefix, t);
    #pragma omp parallel for num_threads(threads) reduction(+:bad)
    for (int th=0; th< threads; th++){
        for (int i=0; i< per; i++)
            for (int t=0; t< tables; t++){
                long h = 1 + th*100000L + i;
                if (apop_vtable_add(names[(t+th)%tables], (void*)(h*7), h)) bad++;
                if ((long)apop_vtable_get(names[(t+th)%tables], h) != h*7) bad++;
                if (i > 1 && (long)apop_vtable_get(names[(t+th)%tables], h-2) != (((i-2)%3) ? (h-2)*7 : 0)) bad++;
                if (i%3==0 && apop_vtable_drop(names[(t+th)%tables], h)) bad++;
            }
    }
    for (int th=0; th< threads; th++)
        for (int i=0; i< per; i++)
            for (int t=0; t< tables; t++){
                long h = 1 + th*100000L + i;
                if ((long)apop_vtable_get(names[t], h) != (i%3 ? h*7 : 0)) bad++;
            }
    return bad;
}
/* does the registered score get used? */
static void vt_score(apop_data *d, gsl_vector *g, apop_model *m){ gsl_vector_set_all(g, 77); }
static long double vt_ll(apop_data *d, apop_model *m){ double x = apop_data_get(m->parameters, 0, -1); return -x*x; }
double sh_vt_score(int add, double x){
    apop_model *m = apop_model_copy(&(apop_model){"s", .vsize=1, .log_likelihood=vt_ll});
    m->parameters = apop_data_falloc((1), x);
    if (add) apop_score_vtable_add(vt_score, m);
    gsl_vector *v = gsl_vector_alloc(1);
    apop_score(NULL, v, m);
    double out = gsl_vector_get(v, 0);
    if (add==2) { apop_score_vtable_drop(m); apop_score(NULL, v, m); out = gsl_vector_get(v, 0);}
    apop_score_vtable_drop(m);
    gsl_vector_free(v); apop_model_free(m);
    return out;
}

/////// raking
apop_data *sh_rake(char const *mt, char **vars, int nv, char **con, int nc, char const *zeros, int maxit, double tol, char const *cc, char const *it, char const *icc, double nudge){
    return apop_rake(.margin_table=mt, .var_list=vars, .var_ct=nv, .contrasts=con, .contrast_ct=nc, .structural_zeros=zeros, .max_iterations=maxit, .tolerance=tol, .count_col=cc, .init_table=it, .init_count_col=icc, .nudge=nudge);
}
/* each thread rakes its own table m0, m1, ... */
void sh_rake_threads(int n, apop_data **out, char **con, int nc){
    #pragma omp parallel for num_threads(n)
    for (int i=0; i< n; i++){
        char t[20]; sprintf(t, "m%i", i);
        out[i] = apop_rake(.margin_table=t, .contrasts=con, .contrast_ct=nc, .count_col="n");
    }
}
/* ---------------------------------------------------------------- resampling */
/* a model whose estimate is the caller's function */
apop_model *sh_est_model(void *fn, int vs, int m1, int m2){
    apop_model *m = calloc(1, sizeof(apop_model));
    strcpy(m->name, "statistics of the caller");
    m->estimate = (void(*)(apop_data*, apop_model*))fn; m->vsize = vs; m->msize1 = m1; m->msize2 = m2;
    return m;
}
/* the parameters, in packed order; then a further page, and an info page */
void sh_put(apop_model *m, int n, double *x, int npage, double *page, int info, int rn, int cn, int vn){
    int k = 0;
    for (int i=0; m->parameters->vector && i< m->parameters->vector->size; i++) gsl_vector_set(m->parameters->vector, i, x[k++]);
    for (int i=0; m->parameters->matrix && i< m->parameters->matrix->size1; i++)
        for (int j=0; j< m->parameters->matrix->size2; j++) gsl_matrix_set(m->parameters->matrix, i, j, x[k++]);
    char nm[20];
    for (int i=m->parameters->names->rowct; i< rn; i++) { sprintf(nm, "r%i", i); apop_name_add(m->parameters->names, nm, 'r'); }
    for (int i=m->parameters->names->colct; i< cn; i++) { sprintf(nm, "c%i", i); apop_name_add(m->parameters->names, nm, 'c'); }
    if (vn && !m->parameters->names->vector) apop_name_add(m->parameters->names, "vec", 'v');
    if (info && !apop_data_get_page(m->parameters, "<Covariance>")){ apop_data *p = apop_data_alloc(2); gsl_vector_set_all(p->vector, info); apop_data_add_page(m->parameters, p, "<Covariance>"); }
    if (npage){ apop_data *p = apop_data_get_page(m->parameters, "extra"); int have = !!p; if (!p) p = apop_data_alloc(npage); for (int i=0; i< npage; i++) p->vector->data[i] = page[i]; if (!have) apop_data_add_page(m->parameters, p, "extra"); }
}
apop_data *sh_boot(apop_data *d, apop_model *m, int seed, int iters, char ign, apop_data **store){
    gsl_rng *r = seed >= 0 ? apop_rng_alloc(seed) : NULL;
    apop_data *o = iters < 0 ? (ign ? (r ? apop_bootstrap_cov(d, m, r, .ignore_nans=ign, .boot_store=store) : apop_bootstrap_cov(d, m, .ignore_nans=ign, .boot_store=store))
                                    : (r ? apop_bootstrap_cov(d, m, r, .boot_store=store) : apop_bootstrap_cov(d, m, .boot_store=store)))
                 : ign ? (r ? apop_bootstrap_cov(d, m, r, iters, .ignore_nans=ign, .boot_store=store) : apop_bootstrap_cov(d, m, .iterations=iters, .ignore_nans=ign, .boot_store=store))
                       : (r ? apop_bootstrap_cov(d, m, r, iters, .boot_store=store) : apop_bootstrap_cov(d, m, .iterations=iters, .boot_store=store));
    if (r) gsl_rng_free(r);
    return o;
}
apop_data *sh_jack(apop_data *d, apop_model *m){ return apop_jackknife_cov(d, m); }
apop_model *sh_parmodel(apop_data *d, apop_model *m, int index, int draws, int seed, int group){
    if (group){
        gsl_rng *r = seed >= 0 ? apop_rng_alloc(seed) : NULL;
        if (draws) Apop_settings_add_group(m, apop_pm, .base=m, .index=index, .draws=draws, .rng=r);
        else Apop_settings_add_group(m, apop_pm, .base=m, .index=index, .rng=r);
    }
    return apop_parameter_model(d, m);
}
apop_model *sh_impute(apop_data *d, apop_model *m){ return apop_ml_impute(d, m); }
static void col_stats(apop_data *d, apop_model *m){
    double s = 0, q = 0;
    for (int i=0; i< d->matrix->size1; i++){ double x = gsl_matrix_get(d->matrix, i, 0), w = d->weights ? gsl_vector_get(d->weights, i) : 1; s += w*x; q += x*x; }
    m->parameters->vector->data[0] = s; m->parameters->vector->data[1] = q;
}
/* n bootstraps and jackknives of the same data and model, one after the other or in several threads; returns the covariances, and checks the names stay */
apop_data *sh_boot_threads(apop_data *d, int n, int iters, int threads){
    apop_model *m = sh_est_model(col_stats, 2, 0, 0);
    apop_data *out = apop_data_calloc(n, 7);
    #pragma omp parallel for num_threads(threads) schedule(static, 1)
    for (int i=0; i< n; i++){
        gsl_rng *r = apop_rng_alloc(i);
        apop_data *c = (i%3==2) ? apop_jackknife_cov(d, m) : apop_bootstrap_cov(d, m, r, iters);
        for (int j=0; j< 4; j++) gsl_matrix_set(out->matrix, i, j, c->matrix->data[j]);
        gsl_rng_free(r); apop_data_free(c);
    }
    return out;
}
/* ---------------------------------------------------------------- derivatives */
/* log likelihood = sum of terms coef * prod x_i^e_i, over the packed parameters; with data, times its first number */
typedef struct { int terms, n; double *coef; int *expo; int calls; } poly_s;
static double poly_at(apop_data *d, apop_model *m, int diff){
    poly_s *s = m->more;
    gsl_vector *x = apop_data_pack(m->parameters);
    double out = 0;
    for (int t=0; t< s->terms; t++){
        double v = s->coef[t];
        for (int i=0; i< s->n; i++){
            int e = s->expo[t*s->n+i];
            if (i==diff) { v *= e ? e * gsl_pow_int(gsl_vector_get(x, i), e-1) : 0; }
            else v *= gsl_pow_int(gsl_vector_get(x, i), e);
        }
        out += v;
    }
    gsl_vector_free(x);
    return out * (d ? apop_data_get(d, 0, d->vector ? -1 : 0) : 1);
}
static long double poly_ll(apop_data *d, apop_model *m){ ((poly_s*)m->more)->calls++; return poly_at(d, m, -1); }
static long double poly_ll_scored(apop_data *d, apop_model *m){ return poly_at(d, m, -1); }
static long double poly_p(apop_data *d, apop_model *m){ return poly_at(d, m, -1); }
static void poly_score(apop_data *d, gsl_vector *g, apop_model *m){ for (int i=0; i< g->size; i++) gsl_vector_set(g, i, poly_at(d, m, i)); }
static long double poly_constraint(apop_data *d, apop_model *m){
    gsl_vector *x = apop_data_pack(m->parameters);
    long double out = apop_linear_constraint(x, .margin=0);
    if (out) apop_data_unpack(x, m->parameters);
    gsl_vector_free(x);
    return out;
}
apop_model *sh_poly(char kind, apop_data *params, int n, int terms, double *coef, int *expo, int con, double delta){
    apop_model *m = calloc(1, sizeof(apop_model));
    strcpy(m->name, "a polynomial");
    if (kind == 'p') m->p = poly_p; else m->log_likelihood = kind=='s' ? poly_ll_scored : poly_ll;
    if (kind == 's') apop_score_vtable_add(poly_score, m);
    if (con) m->constraint = poly_constraint;
    poly_s *s = malloc(sizeof(poly_s)); *s = (poly_s){terms, n, malloc(sizeof(double)*terms), malloc(sizeof(int)*terms*n)};
    memcpy(s->coef, coef, sizeof(double)*terms); memcpy(s->expo, expo, sizeof(int)*terms*n);
    m->more = s; m->parameters = params;
    if (delta) Apop_model_add_group(m, apop_mle, .delta=delta);
    return m;
}
apop_data *sh_hessian(apop_data *d, apop_model *m, double delta){ return delta ? apop_model_hessian(d, m, delta) : apop_model_hessian(d, m); }
apop_data *sh_numcov(apop_data *d, apop_model *m, double delta){ return delta ? apop_model_numerical_covariance(d, m, delta) : apop_model_numerical_covariance(d, m); }
/* gradients of several models at once */
apop_data *sh_grad_threads(int n, apop_model **m, int size, int threads){
    apop_data *out = apop_data_calloc(n, size*(size+1));
    #pragma omp parallel for num_threads(threads) schedule(static, 1)
    for (int i=0; i< n; i++){
        gsl_vector *v = apop_numerical_gradient(NULL, m[i]);
        apop_data *h = apop_model_hessian(NULL, m[i]);
        for (int j=0; j< size; j++) gsl_matrix_set(out->matrix, i, j, gsl_vector_get(v, j));
        for (int j=0; j< size*size; j++) gsl_matrix_set(out->matrix, i, size+j, gsl_matrix_get(h->matrix, j/size, j%size));
        gsl_vector_free(v); apop_data_free(h);
    }
    return out;
}
/* beta in a strided buffer; returns the penalty, writes beta back; checks the gaps are untouched. con: the constraint set or NULL */
double sh_lincon(int n, double *beta, int stride, apop_data *con, double margin, int have_margin){
    double buf[n*stride]; for (int i=0; i< n*stride; i++) buf[i] = -777.25;
    gsl_vector_view v = gsl_vector_view_array_with_stride(buf, stride, n);
    for (int i=0; i< n; i++) gsl_vector_set(&v.vector, i, beta[i]);
    double out = con ? (have_margin ? apop_linear_constraint(&v.vector, con, margin) : apop_linear_constraint(&v.vector, con))
                     : (have_margin ? apop_linear_constraint(&v.vector, .margin=margin) : apop_linear_constraint(&v.vector));
    for (int i=0; i< n; i++) beta[i] = gsl_vector_get(&v.vector, i);
    for (int i=0; i< n*stride; i++) if (i % stride && buf[i] != -777.25) return -99;
    return out;
}
void sh_lincon_threads(int n, int *size, double *beta, int wide, apop_data **con, double *margin, double *out, int threads){
    #pragma omp parallel for num_threads(threads) schedule(static, 1)
    for (int i=0; i< n; i++){
        gsl_vector_view v = gsl_vector_view_array(beta+i*wide, size[i]);
        out[i] = con[i] ? apop_linear_constraint(&v.vector, con[i], margin[i]) : apop_linear_constraint(&v.vector, .margin=margin[i]);
    }
}

/////// loess
/* ints: degree, normalize, iterations, want_predict_ci; zero or NULL means left unset */
apop_model *sh_loess(apop_data *d, double span, double cell, double level, int *k, int *parametric, int *drop, int p, char *family, char *surface, char *statistics, char *trace){
    apop_model *m = apop_model_copy(apop_loess);
    apop_loess_settings s = {.data = d, .want_predict_ci = k[3], .ci_level = level,
        .lo_s.model.span = span, .lo_s.model.degree = k[0], .lo_s.model.normalize = k[1], .lo_s.model.family = family,
        .lo_s.control.surface = surface, .lo_s.control.statistics = statistics, .lo_s.control.cell = cell, .lo_s.control.trace_hat = trace, .lo_s.control.iterations = k[2]};
    for (int i=0; i< p; i++){ s.lo_s.model.parametric[i] = parametric[i]; s.lo_s.model.drop_square[i] = drop[i]; }
    apop_settings_group_alloc(m, "apop_loess", apop_loess_settings_free, apop_loess_settings_copy, apop_loess_settings_init(s));
    return m;
}
static void sarr(sbuf *b, double *x, int n){ P("["); for (int i=0; i< n; i++){ if (i) P(","); snum(b, x[i]); } P("]"); }
char *sh_loess_out(apop_model *m){
    static sbuf bb; sbuf *b = &bb; b->n = 0;
    apop_loess_settings *s = Apop_settings_get_group(m, apop_loess);
    if (!s) return "null";
    struct loess_struct *l = &s->lo_s;
    P("{\"n\":"); sint(b, l->in.n); P(",\"p\":"); sint(b, l->in.p);
    P(",\"y\":"); sarr(b, l->in.y, l->in.n); P(",\"x\":"); sarr(b, l->in.x, l->in.n*l->in.p); P(",\"w\":"); sarr(b, l->in.weights, l->in.n);
    P(",\"span\":"); snum(b, l->model.span); P(",\"cell\":"); snum(b, l->control.cell); P(",\"degree\":"); sint(b, l->model.degree);
    P(",\"normalize\":"); sint(b, l->model.normalize); P(",\"iterations\":"); sint(b, l->control.iterations);
    P(",\"family\":"); sstr(b, l->model.family); P(",\"surface\":"); sstr(b, l->control.surface); P(",\"statistics\":"); sstr(b, l->control.statistics);
    P(",\"parametric\":["); for (int i=0; i< l->in.p; i++){ if (i) P(","); sint(b, l->model.parametric[i]); }
    P("],\"drop\":["); for (int i=0; i< l->in.p; i++){ if (i) P(","); sint(b, l->model.drop_square[i]); } P("]");
    P(",\"fit\":"); sarr(b, l->out.fitted_values, l->in.n); P(",\"res\":"); sarr(b, l->out.fitted_residuals, l->in.n);
    P(",\"enp\":"); snum(b, l->out.enp); P(",\"s\":"); snum(b, l->out.s); P(",\"d1\":"); snum(b, l->out.one_delta); P(",\"d2\":"); snum(b, l->out.two_delta);
    P(",\"trace\":"); snum(b, l->out.trace_hat); P(",\"divisor\":"); sarr(b, l->out.divisor, l->in.p);
    P(",\"robust\":"); sarr(b, l->out.robust, l->in.n); P(",\"ci\":"); sint(b, s->want_predict_ci); P(",\"level\":"); snum(b, s->ci_level);
    P("}");
    return b->s;
}
