/* Preloaded into blogc-make: performs a script of edits at given moments, and ends the naps.
   WATCH_SCRIPT: lines "event count op from to"; when the event has happened count times since the last edit,
   the file from is put in place of to (op "write": within the file, "move": by renaming, "gone": it is removed,
   "tree": from is a directory).  If it does not happen during some naps the edit is made anyway.  After the last
   edit and WATCH_NAPS naps WATCH_DONE is written, and blogc-make sleeps until it is ended.
   Events are seen between the calls of blogc-make, never while a program that it started runs.
   WATCH_LOG: events and edits. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAX 64
static struct { char event[64]; int count; char op[16], from[512], to[512]; } script[MAX];
static int n_script, at, seen, naps, last_naps, out = -1;
static __thread int busy;

__attribute__((constructor)) static void
init(void)
{
    const char *s = getenv("WATCH_SCRIPT"), *l = getenv("WATCH_LOG");
    FILE *f = s ? fopen(s, "r") : NULL;
    if (f == NULL)
        return;
    while (n_script < MAX && fscanf(f, "%63s %d %15s %511s %511s", script[n_script].event, &script[n_script].count,
                                    script[n_script].op, script[n_script].from, script[n_script].to) == 5)
        n_script++;
    fclose(f);
    if (l)
        out = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    const char *k = getenv("WATCH_NAPS");
    last_naps = k ? atoi(k) : 4;
    unsetenv("LD_PRELOAD");
}

static void
note(const char *what, const char *more)
{
    char line[700];
    int n = snprintf(line, sizeof(line), "%s %s\n", what, more);
    if (out >= 0 && write(out, line, (size_t) n) != n)
        _exit(97);
}

static void
pause_a_bit(long ms)
{
    poll(NULL, 0, (int) ms);
}

static void
copy(const char *from, const char *to)
{
    static char buf[1 << 20];
    int a = open(from, O_RDONLY | O_CLOEXEC), b = open(to, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
    ssize_t n = a < 0 ? 0 : read(a, buf, sizeof(buf));
    if (b < 0 || a < 0 || write(b, buf, (size_t) n) != n)
        note("cannot", to);
    if (a >= 0)
        close(a);
    if (b >= 0)
        close(b);
}

static void
edit(void)
{
    char tmp[600], cmd[1400];
    /* time passes before and after */
    pause_a_bit(12);
    if (!strcmp(script[at].op, "none"))
        ;
    else if (!strcmp(script[at].op, "gone")) {
        snprintf(cmd, sizeof(cmd), "rm -rf '%s'", script[at].to);
        if (system(cmd))
            note("cannot", cmd);
    }
    else if (!strcmp(script[at].op, "tree")) {
        snprintf(cmd, sizeof(cmd), "rm -rf '%s' && cp -r '%s' '%s'", script[at].to, script[at].from, script[at].to);
        if (system(cmd))
            note("cannot", cmd);
    }
    else if (!strcmp(script[at].op, "move")) {
        snprintf(tmp, sizeof(tmp), "%s.tmp~", script[at].to);
        copy(script[at].from, tmp);
        rename(tmp, script[at].to);
    }
    else
        copy(script[at].from, script[at].to);
    note("edit", script[at].to);
    pause_a_bit(12);
}

static int
is(const char *pattern, const char *event)
{
    size_t n = strlen(pattern);
    if (n > 0 && pattern[n - 1] == '*')
        return !strncmp(pattern, event, n - 1);
    return !strcmp(pattern, event);
}

static void
happens(const char *kind, const char *path)
{
    char event[300];
    if (busy || out < 0)
        return;
    busy = 1;
    int e = errno;
    const char *b = path ? strrchr(path, '/') : NULL;
    snprintf(event, sizeof(event), "%s%s%s", kind, path ? ":" : "", path ? (b ? b + 1 : path) : "");
    while (at < n_script && is(script[at].event, event)) {
        if (++seen < script[at].count)
            break;
        edit();
        at++;
        seen = 0;
        naps = 0;
        if (at < n_script && script[at].count > 0)
            break;
    }
    errno = e;
    busy = 0;
}

static void
nap(void)
{
    if (busy)
        return;
    note("nap", at < n_script ? script[at].event : "");
    happens("nap", NULL);
    naps++;
    if (at < n_script && naps > 3) {
        /* it does not happen */
        busy = 1;
        note("late", script[at].event);
        edit();
        at++;
        seen = naps = 0;
        busy = 0;
    }
    if (at == n_script && naps > last_naps) {
        const char *d = getenv("WATCH_DONE");
        int fd = d ? open(d, O_WRONLY | O_CREAT | O_CLOEXEC, 0666) : -1;
        if (fd >= 0)
            close(fd);
        for (;;)
            pause();
    }
    busy = 1;
    pause_a_bit(15);
    busy = 0;
}

#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))

unsigned int sleep(unsigned int s) { if (busy) return REAL(sleep)(s); nap(); return 0; }
int usleep(useconds_t s) { if (busy) return REAL(usleep)(s); nap(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (busy) return REAL(nanosleep)(a, b); nap(); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (busy) return REAL(clock_nanosleep)(c, f, a, b); nap(); return 0; }

int stat(const char *p, struct stat *b) { happens("stat", p); return REAL(stat)(p, b); }
int lstat(const char *p, struct stat *b) { happens("stat", p); return REAL(lstat)(p, b); }
int fstatat(int d, const char *p, struct stat *b, int f) { happens("stat", p); return REAL(fstatat)(d, p, b, f); }
FILE *fopen(const char *p, const char *m) { happens("open", p); return REAL(fopen)(p, m); }
DIR *opendir(const char *p) { happens("open", p); return REAL(opendir)(p); }
pid_t fork(void) { happens("child", NULL); return REAL(fork)(); }
FILE *popen(const char *c, const char *m) { happens("child", NULL); return REAL(popen)(c, m); }
pid_t waitpid(pid_t p, int *s, int o) { pid_t r = REAL(waitpid)(p, s, o); if (!busy) happens("done", NULL); return r; }

int
open(const char *p, int f, ...)
{
    va_list a;
    va_start(a, f);
    mode_t m = (f & O_CREAT) ? va_arg(a, mode_t) : 0;
    va_end(a);
    happens("open", p);
    return ((int (*)(const char*, int, mode_t)) dlsym(RTLD_NEXT, "open"))(p, f, m);
}
