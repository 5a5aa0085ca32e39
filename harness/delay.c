/* Preloaded into blogc-runserver: sleeps a little at random before and after the calls at which
   threads may overtake each other.  DELAY_SEED, DELAY_MAX (microseconds). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>

static unsigned long state, most;

static void
nap(void)
{
    unsigned long x = __atomic_add_fetch(&state, 0x9e3779b97f4a7c15ul, __ATOMIC_RELAXED);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ul;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebul;
    x ^= x >> 31;
    if (most == 0 || x % 3 == 0)
        return;
    struct timespec t = {0, (long) ((x >> 8) % most) * 1000};
    nanosleep(&t, NULL);
}

__attribute__((constructor)) static void
init(void)
{
    const char *s = getenv("DELAY_SEED"), *m = getenv("DELAY_MAX");
    state = s ? strtoul(s, NULL, 10) * 7919 : 1;
    most = m ? strtoul(m, NULL, 10) : 0;
}

#define REAL(name) __typeof__(name) *real = (__typeof__(name)*) dlsym(RTLD_NEXT, #name)

ssize_t
read(int fd, void *buf, size_t n)
{
    REAL(read);
    nap();
    ssize_t rv = real(fd, buf, n);
    nap();
    return rv;
}

ssize_t
write(int fd, const void *buf, size_t n)
{
    REAL(write);
    nap();
    ssize_t rv = real(fd, buf, n);
    nap();
    return rv;
}

ssize_t
recv(int fd, void *buf, size_t n, int flags)
{
    REAL(recv);
    nap();
    ssize_t rv = real(fd, buf, n, flags);
    nap();
    return rv;
}

ssize_t
send(int fd, const void *buf, size_t n, int flags)
{
    REAL(send);
    nap();
    ssize_t rv = real(fd, buf, n, flags);
    nap();
    return rv;
}

char*
realpath(const char *path, char *to)
{
    char *(*real)(const char*, char*) = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "realpath");
    nap();
    return real(path, to);
}

FILE*
fopen(const char *path, const char *mode)
{
    REAL(fopen);
    nap();
    return real(path, mode);
}

int
close(int fd)
{
    REAL(close);
    nap();
    return real(fd);
}

int
accept(int fd, struct sockaddr *a, socklen_t *l)
{
    REAL(accept);
    int rv = real(fd, a, l);
    nap();
    return rv;
}

struct start { void *(*f)(void*); void *arg; };

static void*
begin(void *arg)
{
    struct start s = *(struct start*) arg;
    free(arg);
    nap();
    nap();
    void *rv = s.f(s.arg);
    nap();
    return rv;
}

int
pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg)
{
    REAL(pthread_create);
    struct start *s = malloc(sizeof(*s));
    s->f = f;
    s->arg = arg;
    return real(t, a, begin, s);
}
