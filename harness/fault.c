/* Saves a network under ptrace: every system call of the save is a point where the process can be killed, the call can fail,
 * or a write can be cut short. fault MODE K ERRNO TARGET PARAMS REPORT CALLBACK NLAYERS sizes... acts...
 * MODE: none | kill (at the entry of call K) | killafter (a write of call K is halved, then killed) | err (call K fails) |
 * errfrom (every failable call of the same kind from K on fails) | short (write K is halved, later ones fail) */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include "neuralnet.h"
#include "modelcheckpoint.h"
#include "metrics.h"

static unsigned long long digest(const char *f, long *size) {
    unsigned long long h = 1469598103934665603ull;
    int c; FILE *p = fopen(f, "rb");
    *size = -1;
    if (!p) return 0;
    *size = 0;
    while ((c = fgetc(p)) != EOF) { h = (h ^ c) * 1099511628211ull; ++*size; }
    fclose(p);
    return h;
}
static int is_write(long nr) { return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev; }
static int is_file(long nr) {
    switch (nr) {
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_read: case SYS_pread64: case SYS_write: case SYS_pwrite64: case SYS_writev:
    case SYS_lseek: case SYS_fstat: case SYS_newfstatat: case SYS_stat: case SYS_lstat: case SYS_rename: case SYS_renameat: case SYS_renameat2:
    case SYS_unlink: case SYS_unlinkat: case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_truncate: case SYS_chmod: case SYS_fchmod:
    case SYS_fchmodat: case SYS_close: case SYS_access: case SYS_faccessat: case SYS_link: case SYS_linkat: case SYS_statx: case SYS_copy_file_range:
    case SYS_sendfile: case SYS_umask: case SYS_fcntl: case SYS_msync: return 1;
    }
    return 0;
}
int main(int argc, char **argv) {
    const char *mode = argv[1], *target = argv[4], *params = argv[5], *report = argv[6];
    int k = atoi(argv[2]), err = atoi(argv[3]), cb = atoi(argv[7]), nl = atoi(argv[8]);
    int sizes[64]; const char *acts[64];
    for (int i = 0; i <= nl; i++) sizes[i] = atoi(argv[9 + i]);
    for (int i = 0; i < nl; i++) acts[i] = argv[10 + nl + i];
    pid_t pid = fork();
    if (pid == 0) {
        char *a[64];
        for (int i = 0; i < nl; i++) a[i] = (char*) acts[i];
        FILE *rep = fopen(report, "w"); setvbuf(rep, NULL, _IONBF, 0);
        neuralnet_t *nn = NULL;
        switch (nl) {
        case 1: nn = neuralnet_create(1, INT_ARRAY(sizes[0], sizes[1]), STR_ARRAY(a[0])); break;
        case 2: nn = neuralnet_create(2, INT_ARRAY(sizes[0], sizes[1], sizes[2]), STR_ARRAY(a[0], a[1])); break;
        case 3: nn = neuralnet_create(3, INT_ARRAY(sizes[0], sizes[1], sizes[2], sizes[3]), STR_ARRAY(a[0], a[1], a[2])); break;
        }
        if (!nn) _exit(9);
        neuralnet_set_loss(nn, "mean_squared_error");
        FILE *p = fopen(params, "rb");
        for (int l = 0; l < nl; l++) {
            if (fread(nn->layer[l].bias, 4, sizes[l + 1], p) != (size_t) sizes[l + 1]) _exit(9);
            if (fread(nn->layer[l].weight, 4, sizes[l] * sizes[l + 1], p) != (size_t) (sizes[l] * sizes[l + 1])) _exit(9);
        }
        fclose(p);
        int np = neuralnet_total_n_parameters(nn);
        float *before = malloc(np * 4), *after = malloc(np * 4);
        neuralnet_get_parameters(nn, before);
        layer_t lay[64]; memcpy(lay, nn->layer, nl * sizeof(layer_t));
        optimizer_t opt; memset(&opt, 0, sizeof opt); opt.nn = nn; opt.metrics = (metric_func[]){ get_metric_func("mean_squared_error"), NULL };
        modelcheckpoint_t *mc = cb ? modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = target)) : NULL;
        float score = 1.0f;
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        if (mc) callback_run(CALLBACK(mc), &opt, &score, false); else neuralnet_save(nn, "%s", target);
        raise(SIGSTOP);
        neuralnet_get_parameters(nn, after);
        fprintf(rep, "returned %d\n", !memcmp(before, after, np * 4) && !memcmp(lay, nn->layer, nl * sizeof(layer_t)));
        /* a later save of the same process */
        if (mc) { score = 0.5f; callback_run(CALLBACK(mc), &opt, &score, false); } else neuralnet_save(nn, "%s", target);
        fprintf(rep, "again\n");
        _exit(0);
    }
    int st; long n = 0, size;
    waitpid(pid, &st, 0);
    if (!WIFSTOPPED(st)) { printf("end 0 %d %d\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0); return 0; }
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    int entry = 1, inject = 0, die = 0, broken = 0; long kind = -1;
    unsigned long long last = digest(target, &size);
    printf("at %ld start %016llx %ld\n", n, last, size);
    for (int sig = 0;;) {
        ptrace(PTRACE_SYSCALL, pid, 0, sig); sig = 0;
        if (waitpid(pid, &st, 0) < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) { printf("end %ld %d %d\n", n, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0); return 0; }
        int s = WSTOPSIG(st);
        if (s == SIGSTOP) break;                    /* the save is over */
        if (s != (SIGTRAP | 0x80)) { sig = s; continue; }
        struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r);
        if (entry) {
            long nr = r.orig_rax; int file = is_file(nr);
            if (file) { n++; if (!strcmp(mode, "none")) printf("call %ld %ld\n", n, nr); }
            inject = die = 0;
            if (file && n == k) {
                kind = nr;
                if (!strcmp(mode, "kill")) { kill(pid, SIGKILL); waitpid(pid, &st, 0); printf("killed %ld %ld\n", n, nr); return 0; }
                if (!strcmp(mode, "killafter") || !strcmp(mode, "short")) {
                    if (is_write(nr) && nr != SYS_writev) { r.rdx /= 2; ptrace(PTRACE_SETREGS, pid, 0, &r); broken = !strcmp(mode, "short"); }
                    die = !strcmp(mode, "killafter");
                } else if (!strcmp(mode, "err") || !strcmp(mode, "errfrom")) inject = 1;
            } else if (file && n > k && k > 0) {
                if (!strcmp(mode, "errfrom") && nr == kind) inject = 1;
                if (broken && is_write(nr)) inject = 1;
            }
            if (inject) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
        } else {
            if (inject) { r.rax = -(long) err; ptrace(PTRACE_SETREGS, pid, 0, &r); }
            if (die) { kill(pid, SIGKILL); waitpid(pid, &st, 0); printf("killed %ld %lld\n", n, (long long) r.orig_rax); return 0; }
            unsigned long long d = digest(target, &size);
            if (d != last) { printf("at %ld %lld %016llx %ld\n", n, (long long) r.orig_rax, d, size); last = d; }
        }
        entry = !entry;
    }
    printf("saved %ld\n", n); fflush(stdout);
    {   /* what the save left, before the later one */
        char name[4096]; snprintf(name, sizeof name, "%s.saved", report);
        FILE *a = fopen(target, "rb"), *b; int c;
        if (a) { b = fopen(name, "wb"); while ((c = fgetc(a)) != EOF) fputc(c, b); fclose(b); fclose(a); }
    }
    ptrace(PTRACE_DETACH, pid, 0, SIGCONT);
    kill(pid, SIGCONT);
    waitpid(pid, &st, 0);
    printf("end %ld %d %d\n", n, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
    return 0;
}
