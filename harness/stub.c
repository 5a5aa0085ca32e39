// Stands in for blogc when blogc-make is checked: records its arguments and its standard input, then creates
// the output (or runs the real program), or fails on request.
//   STUB_LOG   file that gets a line (JSON) per call
//   STUB_REAL  the real blogc: used for -p, and for everything if STUB_RUN is set
//   STUB_BASE  the directory of the site: the content of templates elsewhere is recorded
//   STUB_FAIL  "<n> <mode>": the n-th compilation fails.  Modes: exit, kill, partial (writes half of the output
//              and exits), pkill (the same and is killed), parent (kills blogc-make, then goes on),
//              pparent (kills blogc-make, writes half of the output and is killed), silent (no output, but success)
//   STUB_FAILP "<n> <mode>": the same for the calls of blogc -p before the n-th compilation (exit, kill)
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *rec;

static void
hex(const char *s, size_t n)
{
    fputc('"', rec);
    for (size_t i = 0; i < n; i++)
        fprintf(rec, "%02x", (unsigned char) s[i]);
    fputc('"', rec);
}

static void
hexfile(const char *path)
{
    FILE *f = fopen(path, "r");
    if (f == NULL) {
        fputs("null", rec);
        return;
    }
    static char b[1 << 20];
    size_t n = fread(b, 1, sizeof(b), f);
    fclose(f);
    hex(b, n);
}

static int
make_output(const char *path, const char *content)
{
    char *p = strdup(path);
    for (char *c = p + 1; *c != '\0'; c++)
        if (*c == '/') {
            *c = '\0';
            mkdir(p, 0777);
            *c = '/';
        }
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0)
        return 0;
    int rv = write(fd, content, strlen(content)) == (ssize_t) strlen(content);
    close(fd);
    return rv;
}

static void
kill_make(void)
{
    pid_t p = getppid();
    while (p > 1) {
        char n[64], c[64] = "";
        snprintf(n, sizeof(n), "/proc/%d/comm", p);
        FILE *f = fopen(n, "r");
        if (f == NULL || fgets(c, sizeof(c), f) == NULL)
            return;
        fclose(f);
        if (0 == strncmp(c, "blogc-make", 10)) {
            kill(p, SIGKILL);
            while (kill(p, 0) == 0 && getppid() == p)
                usleep(1000);
            return;
        }
        snprintf(n, sizeof(n), "/proc/%d/stat", p);
        if (NULL == (f = fopen(n, "r")))
            return;
        int x, pp = 0;
        char st;
        if (fscanf(f, "%d %*s %c %d", &x, &st, &pp) != 3)
            pp = 0;
        fclose(f);
        p = pp;
    }
}

int
main(int argc, char **argv)
{
    const char *log = getenv("STUB_LOG"), *real = getenv("STUB_REAL"), *fail = getenv("STUB_FAIL");
    const char *out = NULL, *print = NULL, *tmpl = NULL;
    int stdin_used = 0;
    for (int i = 1; i < argc; i++) {
        if (argv[i][0] != '-' || argv[i][1] == '\0')
            continue;
        char c = argv[i][1];
        if (strchr("Depto", c) != NULL) {
            const char *v = argv[i][2] != '\0' ? argv[i] + 2 : i + 1 < argc ? argv[++i] : NULL;
            if (c == 'o')
                out = v;
            if (c == 'p')
                print = v;
            if (c == 't')
                tmpl = v;
        }
        else if (argv[i][1] == 'i')
            stdin_used = 1;
    }

    int in = memfd_create("stdin", 0);
    static char buf[1 << 16];
    size_t len = 0, cap = 1 << 16;
    char *all = malloc(cap);
    ssize_t r;
    if (stdin_used)
        while ((r = read(0, buf, sizeof(buf))) > 0) {
            if (write(in, buf, r) != r)
                return 99;
            while (len + r > cap)
                all = realloc(all, cap *= 2);
            memcpy(all + len, buf, r);
            len += r;
        }
    lseek(in, 0, SEEK_SET);
    dup2(in, 0);

    // how many compilations so far
    int n = 1;
    if (log != NULL && (fail != NULL || getenv("STUB_FAILP") != NULL)) {
        FILE *f = fopen(log, "r");
        int c, at_start = 1;
        if (f != NULL) {
            while ((c = fgetc(f)) != EOF) {
                if (at_start && c == '+')
                    n++;
                at_start = c == '\n';
            }
            fclose(f);
        }
    }
    char mode[32] = "";
    int k = 0;
    if (fail != NULL && print == NULL && sscanf(fail, "%d %31s", &k, mode) == 2 && k != n)
        mode[0] = '\0';
    // the call of blogc -p before the n-th compilation
    const char *failp = getenv("STUB_FAILP");
    if (failp != NULL && print != NULL && sscanf(failp, "%d %31s", &k, mode) == 2 && k != n)
        mode[0] = '\0';

    char *rbuf = NULL;
    size_t rlen = 0;
    rec = open_memstream(&rbuf, &rlen);
    fprintf(rec, "%c{\"argv\":[", print == NULL ? '+' : '-');
    for (int i = 1; i < argc; i++) {
        if (i > 1)
            fputc(',', rec);
        hex(argv[i], strlen(argv[i]));
    }
    fputs("],\"stdin\":", rec);
    hex(all, len);
    const char *lc = getenv("LC_ALL");
    fputs(",\"lc\":", rec);
    if (lc != NULL)
        hex(lc, strlen(lc));
    else
        fputs("null", rec);
    fputs(",\"tc\":", rec);
    // a template that is not one of the site's
    const char *base = getenv("STUB_BASE");
    if (tmpl != NULL && base != NULL && 0 != strncmp(tmpl, base, strlen(base)))
        hexfile(tmpl);
    else
        fputs("null", rec);

    int rv = 0, made = 0, sig = 0;
    if (0 == strcmp(mode, "parent") || 0 == strcmp(mode, "pparent"))
        kill_make();
    if (0 == strcmp(mode, "exit"))
        rv = 3;
    else if (0 == strcmp(mode, "kill"))
        sig = SIGKILL;
    else if (0 == strcmp(mode, "partial") || 0 == strcmp(mode, "pkill") || 0 == strcmp(mode, "pparent")) {
        if (out != NULL)
            make_output(out, "PARTIAL");
        rv = 3;
        if (mode[1] != 'a')
            sig = SIGKILL;
    }
    else if (0 == strcmp(mode, "silent"))
        ;
    else if (print != NULL || getenv("STUB_RUN") != NULL) {
        pid_t p = fork();
        if (p == 0) {
            execv(real, argv);
            _exit(127);
        }
        int st;
        waitpid(p, &st, 0);
        rv = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
        if (WIFSIGNALED(st))
            sig = WTERMSIG(st);
        made = rv == 0;
    }
    else if (out != NULL)
        made = make_output(out, "STUB\n");
    fprintf(rec, ",\"made\":%s,\"rc\":%d}\n", made ? "true" : "false", sig ? 128 + sig : rv);
    fclose(rec);
    if (log != NULL) {
        int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd < 0 || write(fd, rbuf, rlen) != (ssize_t) rlen)
            return 99;
        close(fd);
    }
    if (sig)
        raise(sig);
    if (rv != 0 && !made)
        fputs("stub: error: failed\n", stderr);
    return rv;
}
