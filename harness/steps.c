/* Preloaded into blogc-git-receiver: counts the calls with an effect, and kills the process before the
   n-th (STEP_KILL) or makes the n-th fail (STEP_FAIL).  STEP_LOG: the calls, and what was done.
   The programs that it starts are not affected. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int count, to_kill, to_fail, out = -1;

__attribute__((constructor)) static void
init(void)
{
    const char *k = getenv("STEP_KILL"), *f = getenv("STEP_FAIL"), *l = getenv("STEP_LOG");
    char pid[32];
    to_kill = k ? atoi(k) : 0;
    to_fail = f ? atoi(f) : 0;
    if (l)
        out = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    snprintf(pid, sizeof(pid), "%d", (int) getpid());
    setenv("HOOK_PID", pid, 1);
    unsetenv("LD_PRELOAD");
}

static int
step(const char *name)
{
    char line[128];
    const char *what = "";
    int rv = 0;
    count++;
    if (count == to_kill)
        what = " killed";
    if (count == to_fail && strcmp(name, "realpath")) {
        what = " failed";
        rv = 1;
    }
    if (out >= 0) {
        int n = snprintf(line, sizeof(line), "%s%s\n", name, what);
        if (write(out, line, (size_t) n) != n)
            _exit(98);
    }
    if (count == to_kill)
        kill(getpid(), SIGKILL);
    errno = EIO;
    return rv;
}

#define WRAP(type, name, params, args, bad) \
    type name params \
    { \
        type (*real) params = (type (*) params) dlsym(RTLD_NEXT, #name); \
        int e = errno; \
        if (step(#name)) \
            return bad; \
        errno = e; \
        return real args; \
    }

WRAP(char*, mkdtemp, (char *t), (t), NULL)
WRAP(int, chdir, (const char *p), (p), -1)
WRAP(int, symlink, (const char *a, const char *b), (a, b), -1)
WRAP(int, symlinkat, (const char *a, int d, const char *b), (a, d, b), -1)
WRAP(int, link, (const char *a, const char *b), (a, b), -1)
WRAP(int, rename, (const char *a, const char *b), (a, b), -1)
WRAP(int, renameat, (int c, const char *a, int d, const char *b), (c, a, d, b), -1)
WRAP(int, unlink, (const char *a), (a), -1)
WRAP(int, unlinkat, (int d, const char *a, int f), (d, a, f), -1)
WRAP(int, remove, (const char *a), (a), -1)
WRAP(int, rmdir, (const char *a), (a), -1)
WRAP(int, mkdir, (const char *a, mode_t m), (a, m), -1)
WRAP(DIR*, opendir, (const char *a), (a), NULL)
WRAP(int, system, (const char *a), (a), -1)
WRAP(FILE*, popen, (const char *a, const char *m), (a, m), NULL)

char*
realpath(const char *path, char *to)
{
    char *(*real)(const char*, char*) = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "realpath");
    /* (only counted: settings whose repository does not exist are skipped) */
    step("realpath");
    return real(path, to);
}
