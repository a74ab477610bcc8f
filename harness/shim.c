/* Thin C shim over the public API of the library under test: exposes inline functions, macros and
 * struct fields to the (ctypes) driver, so the driver never depends on struct layout. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <stdint.h>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <omp.h>
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "evaluate.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include "callback.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "simd.h"
#include "npy_array.h"
#include "npy_array_list.h"

/* ---- build configuration ---- */
int sh_align(void) {
#ifdef ALIGN_SIZE
    return ALIGN_SIZE;
#else
    return 16;
#endif
}
int sh_prediction_only(void) { return 0; }

/* ---- networks ---- */
int sh_n_layers(neuralnet_t *nn) { return neuralnet_get_n_layers(nn); }
unsigned sh_total(neuralnet_t *nn) { return neuralnet_total_n_parameters(nn); }
int sh_lin(neuralnet_t *nn, int l) { return nn->layer[l].n_input; }
int sh_lout(neuralnet_t *nn, int l) { return nn->layer[l].n_output; }
float *sh_w(neuralnet_t *nn, int l) { return nn->layer[l].weight; }
float *sh_b(neuralnet_t *nn, int l) { return nn->layer[l].bias; }
void *sh_act(neuralnet_t *nn, int l) { return (void*) nn->layer[l].activation_func; }
void sh_set_act(neuralnet_t *nn, int l, void *f, void *d) {
    nn->layer[l].activation_func = f; if (d) nn->layer[l].activation_derivative = d; }
void *sh_der(neuralnet_t *nn, int l) { return (void*) nn->layer[l].activation_derivative; }
const char *sh_act_name(neuralnet_t *nn, int l) { return get_activation_name(nn->layer[l].activation_func); }
void *sh_loss(neuralnet_t *nn) { return (void*) nn->loss; }
const char *sh_loss_name(neuralnet_t *nn) { return nn->loss ? get_loss_name(nn->loss) : ""; }
void sh_save(neuralnet_t *nn, const char *fn) { neuralnet_save(nn, fn); }
void sh_save_i(neuralnet_t *nn, const char *fmt, int i) { neuralnet_save(nn, fmt, i); }
void sh_save_si(neuralnet_t *nn, const char *fmt, const char *s, int i) { neuralnet_save(nn, fmt, s, i); }
neuralnet_t *sh_create(int n_layers, int *sizes, char **acts) { return neuralnet_create(n_layers, sizes, acts); }
/* memory blocks that belong to the network and may not change in a prediction */
void *sh_nn_block(neuralnet_t *nn, int *n) { *n = nn->n_layers * (int) sizeof(layer_t); return nn->layer; }

/* call through function pointers */
void sh_call_act(void *f, int n, float *a) { ((activation_func) f)(n, a); }
void sh_call_der(void *f, int n, const float *act, float *a) { ((activation_derivative) f)(n, act, a); }
void sh_call_loss(void *f, unsigned n, const float *p, const float *t, float *o) { ((loss_func) f)(n, p, t, o); }
float sh_call_metric(void *f, int n, const float *p, const float *t) { return ((metric_func) f)(n, p, t); }

/* ---- optimizers ---- */
typedef void (*progress_f)(int, int, const char *, ...);
static optimizer_properties_t props(int bs, int shuf, progress_f pf, metric_func *m) {
    return (optimizer_properties_t){ .batchsize = bs, .shuffle = shuf, .metrics = m, .progress = pf }; }
void *sh_sgd(neuralnet_t *nn, int bs, int shuf, progress_f pf, metric_func *m, float lr, float decay, float mom, int nest) {
    return SGD_new(nn, props(bs, shuf, pf, m), SGD_PROPERTIES(.learning_rate = lr, .decay = decay, .momentum = mom, .nesterov = nest)); }
void *sh_adagrad(neuralnet_t *nn, int bs, int shuf, progress_f pf, metric_func *m, float lr, float decay) {
    return adagrad_new(nn, props(bs, shuf, pf, m), ADAGRAD_PROPERTIES(.learning_rate = lr, .decay = decay)); }
void *sh_rmsprop(neuralnet_t *nn, int bs, int shuf, progress_f pf, metric_func *m, float lr, float rho, float decay, float mom, int nest) {
    return RMSprop_new(nn, props(bs, shuf, pf, m), RMSPROP_PROPERTIES(.learning_rate = lr, .rho = rho, .decay = decay, .momentum = mom, .nesterov = nest)); }
void *sh_adam(neuralnet_t *nn, int bs, int shuf, progress_f pf, metric_func *m, float lr, float b1, float b2, float wd) {
    return adam_new(nn, props(bs, shuf, pf, m), ADAM_PROPERTIES(.learning_rate = lr, .beta_1 = b1, .beta_2 = b2, .weight_decay = wd)); }
/* the library's own defaults */
void *sh_default_optimizer(neuralnet_t *nn, int kind, int bs, int shuf, progress_f pf, metric_func *m) {
    switch (kind) {
    case 0: return SGD_new(nn, props(bs, shuf, pf, m), SGD_PROPERTIES());
    case 1: return adagrad_new(nn, props(bs, shuf, pf, m), ADAGRAD_PROPERTIES());
    case 2: return RMSprop_new(nn, props(bs, shuf, pf, m), RMSPROP_PROPERTIES());
    default: return adam_new(nn, props(bs, shuf, pf, m), ADAM_PROPERTIES());
    }
}
void sh_default_props(int *bs, int *shuf, void **pf, void **m) {
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = 32);
    optimizer_properties_t q = OPTIMIZER_PROPERTIES(.shuffle = true);
    (void) p; *bs = q.batchsize; *shuf = p.shuffle; *pf = (void*) q.progress; *m = (void*) q.metrics; }
void sh_opt_free(void *o) { optimizer_free(OPTIMIZER(o)); }
int sh_opt_n_metrics(void *o) { return optimizer_get_n_metrics(OPTIMIZER(o)); }
void *sh_opt_metric(void *o, int i) { return (void*) OPTIMIZER(o)->metrics[i]; }
int sh_opt_batchsize(void *o) { return OPTIMIZER(o)->batchsize; }
void sh_opt_tune(void *o, int bs, int shuffle) { OPTIMIZER(o)->batchsize = bs; OPTIMIZER(o)->shuffle = shuffle; }
int sh_opt_shuffle(void *o) { return OPTIMIZER(o)->shuffle; }
void sh_run_epoch(void *o, unsigned nt, const float *tx, const float *ty, unsigned nv, const float *vx, const float *vy, float *res) {
    optimizer_run_epoch(OPTIMIZER(o), nt, tx, ty, nv, vx, vy, res); }
/* A user-defined optimizer made with the library's own OPTIMIZER_DECLARE/OPTIMIZER_DEFINE extension point:
 * its epoch only reports to the driver, which may then ask for batch gradients. */
typedef void (*probe_hook)(optimizer_t *, unsigned, const float *, const float *);
OPTIMIZER_DECLARE(probe)
struct _probe_t { optimizer_t opt; probe_hook hook; };
static void probe_free(optimizer_t *o) { (void) o; }
OPTIMIZER_DEFINE(probe, newopt->hook = (probe_hook) properties; newopt->opt.free = probe_free)
static void probe_run_epoch(optimizer_t *o, const unsigned n, const float *x, const float *y) { ((probe_t*) o)->hook(o, n, x, y); }
void *sh_probe(neuralnet_t *nn, int bs, int shuf, progress_f pf, metric_func *m, probe_hook h) {
    return probe_new(nn, props(bs, shuf, pf, m), (void*) h); }
void sh_batch_gradient(void *o, unsigned n, const float *x, const float *y, unsigned *i, float *g) {
    optimizer_calc_batch_gradient(OPTIMIZER(o), n, x, y, i, g); }

void sh_progress(int x, int n, const char *fmt, const char *s, int i) { progress_ascii(x, n, fmt, s, i); }
void sh_flush(void) { fflush(NULL); }
void sh_buffered(int tty) {                                                   /* as standard output is in any process (Python may have made it unbuffered) */
    static char b[4096];
    fflush(stdout);
    setvbuf(stdout, b, tty ? _IOLBF : _IOFBF, tty ? 1024 : sizeof b);
}
void __attribute__((noinline)) sh_scribble(int byte, int n) {                 /* what the stack holds below here */
    volatile unsigned char a[n];
    for (int i = 0; i < n; i++) a[i] = (unsigned char) (byte < 0 ? i * 37 + (i >> 8) : byte);
}
void *sh_bar_optimizer(neuralnet_t *nn, int kind, int bs, int shuf) {      /* as the user gets it who says nothing about progress */
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = bs, .shuffle = shuf);
    switch (kind) {
    case 0: return SGD_new(nn, p, SGD_PROPERTIES());
    case 1: return adagrad_new(nn, p, ADAGRAD_PROPERTIES());
    case 2: return RMSprop_new(nn, p, RMSPROP_PROPERTIES());
    default: return adam_new(nn, p, ADAM_PROPERTIES());
    }
}
/* ---- callbacks ---- */
void *sh_es(int patience, int idx, int gib) {
    return earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = patience, .monitor_idx = idx, .greater_is_better = gib)); }
void *sh_es_default(void) { return earlystopping_new(EARLYSTOPPING_SETTINGS()); }
int sh_es_stop(void *e) { return earlystopping_do_stop(EARLYSTOPPING(e)); }
void *sh_mcp(const char *fn, int idx, int gib, int verbose) {
    return modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = fn, .monitor_idx = idx, .greater_is_better = gib, .verbose = verbose)); }
void *sh_mcp_default(void) { return modelcheckpoint_new(MODELCHECKPOINT_SETTINGS()); }
void *sh_logger(const char *fn, int epoch, int quiet) {
    return logger_new(LOGGER_SETTINGS(.filename = fn, .epoch_count = epoch, .no_stdout = quiet)); }
void sh_cb_run(void *c, void *o, const float *res, int has_valid) { callback_run(CALLBACK(c), OPTIMIZER(o), res, has_valid); }
int sh_es_runs(void *c, void *o, const float *res, int has_valid, int k) {      /* the first of k runs after which the flag is set, or 0 */
    int first = 0;
    for (int i = 1; i <= k; i++) { callback_run(CALLBACK(c), OPTIMIZER(o), res, has_valid); if (!first && earlystopping_do_stop(EARLYSTOPPING(c))) first = i; }
    return first; }
void sh_cb_free(void *c) { callback_free(CALLBACK(c)); }

/* ---- npy arrays ---- */
npy_array_t *sh_npy_new(void *data, int ndim, const uint64_t *shape, int endian, int type, uint64_t elem, int fortran) {
    npy_array_t *a = calloc(1, sizeof *a);
    a->data = data; a->ndim = ndim; a->endianness = endian; a->typechar = type; a->elem_size = elem; a->fortran_order = fortran;
    for (int i = 0; i < ndim; i++) a->shape[i] = shape[i];
    return a; }
int sh_npy_ndim(npy_array_t *a) { return a->ndim; }
uint64_t sh_npy_shape(npy_array_t *a, int i) { return a->shape[i]; }
int sh_npy_type(npy_array_t *a) { return a->typechar; }
int sh_npy_endian(npy_array_t *a) { return a->endianness; }
uint64_t sh_npy_elem(npy_array_t *a) { return a->elem_size; }
int sh_npy_fortran(npy_array_t *a) { return a->fortran_order; }
void *sh_npy_data(npy_array_t *a) { return a->data; }
void sh_npy_set_data(npy_array_t *a, void *d) { a->data = d; }
uint64_t sh_npy_size(npy_array_t *a) { return npy_array_calculate_datasize(a); }
npy_array_list_t *sh_lnext(npy_array_list_t *l) { return l->next; }
npy_array_t *sh_larray(npy_array_list_t *l) { return l->array; }
void sh_lset_array(npy_array_list_t *l, npy_array_t *a) { l->array = a; }
const char *sh_lname(npy_array_list_t *l) { return l->filename; }
npy_array_list_t *sh_append(npy_array_list_t *l, npy_array_t *a, const char *s) { return npy_array_list_append(l, a, "%s", s); }
npy_array_list_t *sh_prepend(npy_array_list_t *l, npy_array_t *a, const char *s) { return npy_array_list_prepend(l, a, "%s", s); }
npy_array_list_t *sh_append_si(npy_array_list_t *l, npy_array_t *a, const char *f, const char *s, int i) { return npy_array_list_append(l, a, f, s, i); }
npy_array_list_t *sh_prepend_si(npy_array_list_t *l, npy_array_t *a, const char *f, const char *s, int i) { return npy_array_list_prepend(l, a, f, s, i); }
int sh_save_comp(const char *fn, npy_array_list_t *l, int comp, unsigned flags) { return npy_array_list_save_compressed(fn, l, comp, flags); }
/* forget the name (so that the writer has to make one up) */
void sh_lforget_name(npy_array_list_t *l) { free(l->filename); l->filename = NULL; }

/* ---- predictions of many threads at once ---- */
#include <pthread.h>
typedef struct { neuralnet_t *nn; const float *in; float *out; int n, iters, mode, stride; unsigned seed; pthread_barrier_t *bar; } conc_t;
static void *conc_run(void *v) {
    conc_t *c = v;
    int ni = c->nn->layer[0].n_input;
    pthread_barrier_wait(c->bar);
    for (int k = 0; k < c->iters; k++) {
        float *o = c->out + (long) k * c->n * c->stride;
        if (c->mode) neuralnet_predict_batch(c->nn, c->n, c->in, o);
        else for (int j = 0, s = c->seed % c->n; j < c->n; j++, s = (s + 1) % c->n)    /* each thread begins with another sample */
            neuralnet_predict(c->nn, c->in + (long) s * ni, o + (long) s * c->stride);
    }
    return NULL; }
/* thread t: network nn[t], inputs in[t]; mode 0: single predictions into rows 'stride' apart, 1: whole batches */
void sh_concurrent(int threads, int iters, const int *mode, neuralnet_t **nn, int n, const float **in, float **out, const int *stride) {
    pthread_t th[64]; conc_t c[64]; pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    for (int t = 0; t < threads; t++) {
        c[t] = (conc_t){ nn[t], in[t], out[t], n, iters, mode[t], stride[t], t, &bar };
        pthread_create(&th[t], NULL, conc_run, &c[t]);
    }
    for (int t = 0; t < threads; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar); }
/* epochs of many optimizers at once, each in its own thread; the parameters after each of its epochs are kept */
typedef struct { optimizer_t *o; unsigned n, nv; const float *x, *y, *vx, *vy; float *res, *par; int epochs, rstride, pstride, omp; pthread_barrier_t *bar; } ep_t;
static void *ep_run(void *v) {
    ep_t *c = v;
    omp_set_num_threads(c->omp);
    pthread_barrier_wait(c->bar);
    for (int k = 0; k < c->epochs; k++) {
        optimizer_run_epoch(c->o, c->n, c->x, c->y, c->nv, c->vx, c->vy, c->res + (long) k * c->rstride);
        float *p = c->par + (long) k * c->pstride;
        for (int l = 0; l < c->o->nn->n_layers; l++) {
            layer_t *y = &c->o->nn->layer[l];
            memcpy(p, y->bias, y->n_output * sizeof *p); p += y->n_output;
            memcpy(p, y->weight, (long) y->n_output * y->n_input * sizeof *p); p += (long) y->n_output * y->n_input;
        }
    }
    return NULL; }
void sh_concurrent_epochs(int threads, int epochs, void **o, const unsigned *n, const float **x, const float **y, const unsigned *nv, const float **vx, const float **vy,
                          float **res, int rstride, float **par, const int *pstride, int omp) {
    pthread_t th[64]; ep_t c[64]; pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    for (int t = 0; t < threads; t++) {
        c[t] = (ep_t){ o[t], n[t], nv[t], x[t], y[t], vx[t], vy[t], res[t], par[t], epochs, rstride, pstride[t], omp, &bar };
        pthread_create(&th[t], NULL, ep_run, &c[t]);
    }
    for (int t = 0; t < threads; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar); }
/* callbacks run by many threads at once; after each run the callback's file, if it has one, is copied to <file>.<k> */
typedef struct { callback_t *c; optimizer_t *o; const float *res; const char *file; int *flag, *touched; int iters, stride, valid; pthread_barrier_t *bar; } cb_t;
static void copy_file(const char *from, const char *to) {
    FILE *a = fopen(from, "rb"); if (!a) return;
    FILE *b = fopen(to, "wb"); char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, n, b);
    fclose(a); fclose(b); }
static void *cb_run(void *v) {
    cb_t *c = v; char to[4200];
    pthread_barrier_wait(c->bar);
    for (int k = 0; k < c->iters; k++) {
        struct timespec then[2] = { { 1, 0 }, { 1, 0 } }; struct stat st;
        if (c->file) utimensat(AT_FDCWD, c->file, then, 0);
        callback_run(c->c, c->o, c->res + (long) k * c->stride, c->valid);
        if (c->file) c->touched[k] = stat(c->file, &st) == 0 && st.st_mtime != 1;
        if (c->flag) c->flag[k] = earlystopping_do_stop(EARLYSTOPPING(c->c));
        if (c->file) { snprintf(to, sizeof to, "%s.%d", c->file, k); copy_file(c->file, to); }
    }
    return NULL; }
void sh_concurrent_cbs(int threads, int iters, void **cb, void **o, const float **res, int stride, const int *valid, const char **file, int **flag, int *touched) {
    pthread_t th[64]; cb_t c[64]; pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    for (int t = 0; t < threads; t++) {
        c[t] = (cb_t){ cb[t], o[t], res[t], file[t], flag[t], touched + (long) t * iters, iters, stride, valid[t], &bar };
        pthread_create(&th[t], NULL, cb_run, &c[t]);
    }
    for (int t = 0; t < threads; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar); }
/* a metric that keeps the predictions it is shown; the target's first value is the number of the sample */
static float *spy_rows; static int spy_out; static int spy_seen[4096];
static float spy_metric(int n, const float *pred, const float *real) {
    int s = (int) real[0];
    if (n == spy_out && s >= 0 && s < 4096) { memcpy(spy_rows + (long) s * n, pred, n * sizeof(float)); __atomic_fetch_add(&spy_seen[s], 1, __ATOMIC_SEQ_CST); }
    return 0.0f; }
int sh_evaluate_spy(neuralnet_t *nn, int n, const float *x, const float *y, float *rows) {
    float res[2]; int ok = 1;
    spy_rows = rows; spy_out = nn->layer[nn->n_layers - 1].n_output; memset(spy_seen, 0, sizeof spy_seen);
    evaluate(nn, n, x, y, (metric_func[]){ (metric_func) spy_metric, NULL }, res);
    for (int i = 0; i < 4096; i++) ok = ok && spy_seen[i] == (i < n);      /* each sample once */
    return ok; }

/* ---- resources ---- */
long sh_heap(void) { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }
/* heap growth per load and release of a file: nothing else allocates in between, the first rounds warm caches up */
long sh_load_growth(const char *fn, int rounds) {
    long before = 0; int i;
    for (i = 0; i < rounds + 3; i++) {
        if (i == 3) before = sh_heap();
        neuralnet_t *n = neuralnet_load(fn);
        if (n) neuralnet_free(n);
    }
    return (sh_heap() - before) / rounds;
}
void sh_omp_threads(int n) { omp_set_num_threads(n); }
void sh_srand(unsigned s) { srand(s); }
/* the state of glibc's generator from which the next 31 numbers are these: r[i] = r[i-3] + r[i-31], and r[i] >> 1 is the number */
void sh_draws(const int *want) {
    static int buf[32]; unsigned r[31], now[31]; int t;
    initstate(1, (char *) buf, 128);
    for (t = 0; t < 31; t++) now[t] = 2u * (unsigned) want[t];           /* the word that call t leaves, at (3+t) % 31 */
    for (t = 0; t < 3; t++) r[t] = now[28 + t] - now[25 + t];
    for (t = 0; t < 28; t++) r[3 + t] = now[t] - (t < 3 ? r[t] : now[t - 3]);
    memcpy(buf + 1, r, sizeof r);
}
/* [lo guard page][... slack ... data][hi guard page]; data ends at the hi page (or as near as 'align' lets it) */
void *sh_guarded(size_t size, size_t align, size_t misalign, void **base, size_t *total) {
    size_t pg = 4096, body = ((size + 2 * align + misalign + pg - 1) / pg + 1) * pg;
    char *m = mmap(0, body + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return NULL;
    mprotect(m, pg, PROT_NONE); mprotect(m + pg + body, pg, PROT_NONE);
    memset(m + pg, 0xA5, body);
    uintptr_t p = (uintptr_t) (m + pg + body) - size;
    p -= p % align;
    if (misalign) p = p - align + misalign;
    if (p + size > (uintptr_t)(m + pg + body)) p -= align;
    *base = m; *total = body + 2 * pg;
    return (void*) p; }
/* bytes of the canary area that changed */
int sh_guard_damage(void *base, size_t total, void *p, size_t size) {
    unsigned char *lo = (unsigned char*) base + 4096, *hi = (unsigned char*) base + total - 4096;
    unsigned char *d = p; int bad = 0;
    for (unsigned char *c = lo; c < d; c++) bad += *c != 0xA5;
    for (unsigned char *c = d + size; c < hi; c++) bad += *c != 0xA5;
    return bad; }
void sh_unguard(void *base, size_t total) { munmap(base, total); }
#include "life.h"
