/* Histories of creations, uses and releases, played in C so that nothing else allocates meanwhile. */
#include <fcntl.h>
enum { OP_CREATE = 1, OP_INIT, OP_LOSS, OP_USE, OP_SAVE, OP_LOAD, OP_NFREE, OP_CREATEBAD, OP_OPT, OP_EPOCH, OP_OFREE, OP_CB, OP_CBRUN, OP_CBFREE,
       OP_ALOAD, OP_AMMAP, OP_ASAVE, OP_AFREE, OP_LLOAD, OP_LADD, OP_LSAVE, OP_LFREE, OP_NAME, OP_EVAL, OP_ANEW, OP_DUMP };
typedef struct { int op, s, a, b; } life_op;
static float life_x[1 << 20] __attribute__((aligned(64))), life_y[1 << 20] __attribute__((aligned(64))), life_g[1 << 20] __attribute__((aligned(64)));
static void life_progress(int x, int n, const char *fmt, ...) { (void) x; (void) n; (void) fmt; }
static const int life_sizes[][5] = { {2, 3, 1}, {3, 4, 2}, {5, 17, 9, 4}, {1, 1}, {8, 33, 2}, {4, 4, 4, 4, 4} };
static const int life_layers[] = { 2, 2, 3, 1, 2, 4 };
static void life_fill(int n) { for (int i = 0; i < n; i++) { life_x[i] = (float) (i % 7 - 3) / 4; life_y[i] = (float) (i % 5) / 5 + 0.1f; } }
static int life_play(const life_op *ops, int n, char **paths, char **acts, int n_acts, char *ok) {
    neuralnet_t *net[4] = {0}; optimizer_t *opt[4] = {0}; callback_t *cb[4] = {0}; npy_array_t *arr[4] = {0}; npy_array_list_t *lst[4] = {0}; float res[64];
    for (int i = 0; i < n; i++) {
        const life_op *o = &ops[i]; int s = o->s, a = o->a, b = o->b, r = 1;
        switch (o->op) {
        case OP_CREATE: { int sz[5]; char *ac[5]; memcpy(sz, life_sizes[a], sizeof sz); for (int k = 0; k < 4; k++) ac[k] = acts[(b + 3 * k) % n_acts]; ac[4] = NULL;
            net[s] = neuralnet_create(life_layers[a], sz, ac); r = net[s] != NULL; break; }
        case OP_CREATEBAD: { static const int bad[][5] = { {0, 3, 1}, {3, 0, 2}, {3, 4, 0}, {-1, 2, 2}, {2, -5, 2}, {2, 2, -1} }; int sz[5]; memcpy(sz, bad[a % 6], sizeof sz);
            neuralnet_t *x = neuralnet_create(a == 6 ? 0 : a == 7 ? -1 : 2, sz, (char*[]){ acts[b % n_acts], acts[(b + 1) % n_acts], NULL }); r = x != NULL; if (x) neuralnet_free(x); break; }
        case OP_INIT: neuralnet_initialize(net[s], a == 0 ? NULL : (char*[]){ "xavier", "kaiming", "", "he", NULL }); break;
        case OP_LOSS: neuralnet_set_loss(net[s], (const char*[]){ "mse", "binary_crossentropy", "mean_absolute_error", "nonsense" }[a]); break;
        case OP_USE: { neuralnet_t *x = net[s]; life_fill(4096); for (int k = 0; k < 4096; k++) life_g[k] = 0; neuralnet_predict(x, life_x, life_g + 8192); neuralnet_predict_batch(x, a, life_x, life_g + 8192);
            if (x->loss) neuralnet_backpropagation(x, life_x, life_y, life_g); neuralnet_get_parameters(x, life_g); break; }
        case OP_SAVE: neuralnet_save(net[s], paths[a]); break;
        case OP_LOAD: net[s] = neuralnet_load(paths[a]); r = net[s] != NULL; break;
        case OP_NFREE: if (net[s]) neuralnet_free(net[s]); net[s] = NULL; break;
        case OP_OPT: opt[s] = sh_default_optimizer(net[a], b % 4, 1 + b / 4 * 3, b & 1, b & 2 ? life_progress : NULL, NULL); r = opt[s] != NULL; break;
        case OP_EPOCH: life_fill(40000); optimizer_run_epoch(opt[s], a, life_x, life_y, b, life_x, life_y, res); break;
        case OP_OFREE: optimizer_free(opt[s]); opt[s] = NULL; break;
        case OP_CB: cb[s] = a == 0 ? sh_es(b, -1, 0) : a == 1 ? sh_mcp(paths[b], -1, 0, b & 1) : sh_logger(paths[b], 0, b & 1); r = cb[s] != NULL; break;
        case OP_CBRUN: for (int k = 0; k < 64; k++) res[k] = (float) b; callback_run(cb[s], opt[a], res, b & 1); break;
        case OP_CBFREE: callback_free(cb[s]); cb[s] = NULL; break;
        case OP_ALOAD: arr[s] = npy_array_load(paths[a]); r = arr[s] != NULL; break;
        case OP_AMMAP: arr[s] = npy_array_mmap(paths[a]); r = arr[s] != NULL; break;
        case OP_ANEW: arr[s] = sh_npy_new(calloc(12, 4), 2, (uint64_t[]){ 3, 4 }, '<', 'f', 4, 0); break;
        case OP_ASAVE: npy_array_save(paths[a], arr[s]); break;
        case OP_DUMP: npy_array_dump(arr[s]); break;
        case OP_AFREE: if (arr[s]) npy_array_free(arr[s]); arr[s] = NULL; break;
        case OP_LLOAD: lst[s] = npy_array_list_load(paths[a]); r = lst[s] != NULL; break;
        case OP_LADD: { npy_array_list_t *x = b & 1 ? npy_array_list_append(lst[s], arr[a], b & 2 ? NULL : "n%d", i) : npy_array_list_prepend(lst[s], arr[a], b & 2 ? NULL : "n%d", i); r = x != NULL; if (x) { lst[s] = x; arr[a] = NULL; } break; }
        case OP_LSAVE: r = npy_array_list_save_compressed(paths[a], lst[s], b & 1 ? 8 : 0, 0) == (int) npy_array_list_length(lst[s]); break;
        case OP_LFREE: if (lst[s]) npy_array_list_free(lst[s]); lst[s] = NULL; break;
        case OP_NAME: r = get_activation_func(acts[a % n_acts]) != NULL; break;
        case OP_EVAL: { metric_func ms[] = { get_metric_func("mse"), get_metric_func("binary_accuracy"), NULL }; evaluate(net[s], a, life_x, life_y, ms, res); break; }
        }
        if (ok) ok[i] = r ? '1' : '0';
    }
    return 0; }
static int life_fds(void) { int n = 0; for (int f = 0; f < 1024; f++) n += fcntl(f, F_GETFD) != -1; return n; }
static int life_maps(void) {
    static char buf[1 << 16]; int f = open("/proc/self/maps", O_RDONLY), n = 0; ssize_t k;
    while ((k = read(f, buf, sizeof buf)) > 0) for (ssize_t i = 0; i < k; i++) n += buf[i] == '\n';
    close(f); return n; }
/* growth per round of memory, descriptors and mappings: the least of several batches of rounds */
void sh_life(const life_op *ops, int n, char **paths, char **acts, int n_acts, int warm, int rounds, int batches, char *ok, long *growth) {
    for (int k = 0; k < 3; k++) growth[k] = 1L << 40;
    for (int k = 0; k < warm; k++) life_play(ops, n, paths, acts, n_acts, k ? NULL : ok);
    for (int b = 0; b < batches; b++) {
        long m = sh_heap(), f = life_fds(), p = life_maps();
        for (int k = 0; k < rounds; k++) life_play(ops, n, paths, acts, n_acts, NULL);
        long g[3] = { (sh_heap() - m) / rounds, (life_fds() - f) / rounds, (life_maps() - p) / rounds };
        for (int k = 0; k < 3; k++) if (g[k] < growth[k]) growth[k] = g[k];
        if (growth[0] < 16 && growth[1] < 1 && growth[2] < 1) break;
    }
}
