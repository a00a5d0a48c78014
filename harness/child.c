// A child that does what its arguments say: oN/eN write N bytes to stdout/stderr, sO/sE close them, wN sleeps N ms,
// a prints its arguments from there on, fN forks a helper that keeps the streams for N ms, xN exits, kN dies of a signal.
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned at[3];
static void out(int fd, long n)
{
    static char buf[1 << 16];
    while (n > 0)
    {
        long k = n < (long) sizeof buf ? n : (long) sizeof buf;
        for (long i = 0; i < k; i++) { unsigned x = at[fd] + (unsigned) i; buf[i] = (char) (x * 167u + (x >> 8) * 13u + (unsigned) fd); }
        long w = write(fd, buf, (size_t) k);
        if (w < 0) { if (errno == EINTR) continue; _exit(113); }
        at[fd] += (unsigned) w;
        n -= w;
    }
}
int main(int argc, char** argv)
{
    for (int i = 1; i < argc; i++)
    {
        const char* a = argv[i];
        long n = atol(a + 1);
        switch (a[0])
        {
            case 'o': out(1, n); break;
            case 'e': out(2, n); break;
            case 's': close(a[1] == 'O' ? 1 : 2); break;
            case 'w': usleep((useconds_t) (n * 1000)); break;
            case 'x': _exit((int) n);
            case 'k': signal((int) n, SIG_DFL); kill(getpid(), (int) n); for (;;) pause();
            case 'a':
                for (i++; i < argc; i++) { long l = (long) strlen(argv[i]); while (write(1, &l, sizeof l) < 0); for (const char* p = argv[i]; l > 0; ) { long w = write(1, p, (size_t) l); if (w < 0) _exit(113); p += w; l -= w; } }
                break;
        }
    }
    return 0;
}
