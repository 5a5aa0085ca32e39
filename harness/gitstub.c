/* Stand-ins for git, git-shell and blogc-make: every call is recorded in $REC_LOG, one line each, and
   what is done is controlled by the environment (see checks/g_receiver.py). */
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static void
hex(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++)
        fprintf(f, "%02x", (unsigned char) *s);
    fputc('"', f);
}

static void
record(int argc, char **argv)
{
    const char *log = getenv("REC_LOG");
    char *line = NULL, cwd[8192];
    size_t len = 0;
    if (log == NULL)
        return;
    FILE *f = open_memstream(&line, &len);
    fprintf(f, "{\"prog\":");
    hex(f, basename(strdup(argv[0])));
    fprintf(f, ",\"cwd\":");
    hex(f, getcwd(cwd, sizeof(cwd)) ? cwd : "?");
    fprintf(f, ",\"argv\":[");
    for (int i = 1; i < argc; i++) {
        if (i > 1)
            fputc(',', f);
        hex(f, argv[i]);
    }
    fprintf(f, "]}\n");
    fclose(f);
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (fd < 0 || write(fd, line, len) != (ssize_t) len)
        _exit(99);
    close(fd);
}

static int
num(const char *name)
{
    const char *v = getenv(name);
    return v ? atoi(v) : 0;
}

static int
parents(char *p)
{
    for (char *s = p + 1; *s; s++) {
        if (*s == '/') {
            *s = 0;
            if (mkdir(p, 0777) != 0 && errno != EEXIST)
                return 128;
            *s = '/';
        }
    }
    return mkdir(p, 0777) != 0 && errno != EEXIST ? 128 : 0;
}

static void
put(const char *d, const char *n, const char *text)
{
    char p[20000];
    snprintf(p, sizeof(p), "%s/%s", d, n);
    FILE *f = fopen(p, "w");
    if (f) {
        fputs(text, f);
        fclose(f);
    }
}

static int
git_init(int argc, char **argv)
{
    const char *path = NULL;
    for (int i = 2; i < argc; i++)
        if (argv[i][0] != '-')
            path = argv[i];
    if (path == NULL || num("GS_INIT_FAIL")) {
        fprintf(stderr, "fatal: cannot mkdir\n");
        return 128;
    }
    char p[20000];
    snprintf(p, sizeof(p), "%s", path);
    int rv = parents(p);
    if (rv) {
        fprintf(stderr, "fatal: cannot mkdir %s\n", path);
        return rv;
    }
    put(path, "HEAD", "ref: refs/heads/master\n");
    if (!num("GS_INIT_BARE_HOOKS")) {
        char h[20100];
        snprintf(h, sizeof(h), "%s/hooks", path);
        mkdir(h, 0777);
        put(h, "update.sample", "sample\n");
    }
    printf("Initialized\n");
    return 0;
}

/* git archive [--format=tar] [-o FILE | --output=FILE] REV */
static int
git_archive(int argc, char **argv)
{
    const char *rev = NULL, *out = NULL, *mode = getenv("GS_ARCHIVE");
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "-o") || !strcmp(argv[i], "--output"))
            out = argv[++i];
        else if (!strncmp(argv[i], "--output=", 9))
            out = argv[i] + 9;
        else if (argv[i][0] == '-' && argv[i][1])
            continue;
        else if (rev == NULL)
            rev = argv[i];
    }
    char d[20000];
    struct stat st;
    snprintf(d, sizeof(d), "%s/%s", getenv("GS_CONTENT") ? getenv("GS_CONTENT") : "/nonexistent", rev ? rev : "");
    if (mode && !strcmp(mode, "start")) {
        fprintf(stderr, "fatal: cannot archive\n");
        return 128;
    }
    if (rev == NULL || strchr(rev, '/') || stat(d, &st) != 0) {
        fprintf(stderr, "fatal: not a valid object name: %s\n", rev ? rev : "");
        return 128;
    }
    int fd = 1;
    if (out != NULL) {
        fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (fd < 0) {
            fprintf(stderr, "fatal: could not create archive file '%s'\n", out);
            return 128;
        }
    }
    char cmd[24000];
    snprintf(cmd, sizeof(cmd), "tar -c -C '%s' -f - .", d);
    FILE *f = popen(cmd, "r");
    static char buf[1 << 22];
    size_t n = f ? fread(buf, 1, sizeof(buf), f) : 0, done = 0;
    int rc = f ? pclose(f) : 1;
    if (rc)
        return 128;
    size_t all = n;
    if (mode && !strcmp(mode, "half"))
        all = n / 2;
    if (mode && !strcmp(mode, "block"))
        all = 1536;
    while (done < all) {
        ssize_t k = write(fd, buf + done, all - done);
        if (k <= 0)
            return 128;
        done += (size_t) k;
    }
    close(fd);
    if (mode && !strcmp(mode, "killed"))
        raise(SIGKILL);
    if (mode && *mode) {
        fprintf(stderr, "fatal: sha1 mismatch\n");
        return 128;
    }
    return 0;
}

int
main(int argc, char **argv)
{
    const char *me = basename(strdup(argv[0]));
    record(argc, argv);
    if (!strcmp(me, "git-shell"))
        return num("GS_SHELL_RC");
    if (!strcmp(me, "blogc-make")) {
        if (argc == 2 && !strcmp(argv[1], "-v")) {
            printf("blogc-make 0.0.0\n");
            return 0;
        }
        if (access("BUILD", F_OK) != 0)
            return 3;
        int rc = system("sh ./BUILD");
        if (WIFSIGNALED(rc))
            raise(WTERMSIG(rc));
        return WEXITSTATUS(rc);
    }
    if (!strcmp(me, "git")) {
        if (argc > 1 && !strcmp(argv[1], "init"))
            return git_init(argc, argv);
        if (argc > 1 && !strcmp(argv[1], "archive"))
            return git_archive(argc, argv);
        if (argc > 1 && !strcmp(argv[1], "push")) {
            int rc = num("GS_PUSH_RC");
            if (rc)
                fprintf(stderr, "fatal: unable to access\n");
            if (rc == 137)
                raise(SIGKILL);
            return rc;
        }
        if (argc > 1 && !strcmp(argv[1], "config")) {
            const char *key = argv[argc - 1], *v = NULL;
            if (!strcmp(key, "remote.mirror.pushurl"))
                v = getenv("GS_PUSHURL");
            if (!strcmp(key, "remote.mirror.url"))
                v = getenv("GS_URL");
            if (v == NULL)
                return 1;
            printf("%s\n", v);
            return 0;
        }
        return 129;
    }
    return 127;
}
