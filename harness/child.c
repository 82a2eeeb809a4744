/* The command run by the process streams of C30: follows a script given in its
 * arguments, one operation each:
 *   eN   copy N bytes of the input to the output, every byte changed (N < 0: all)
 *   dN   read N bytes of the input (N < 0: all)
 *   wN   write N bytes of a pattern
 *   sN   sleep N microseconds
 *   bN   use a buffer of N bytes from here on
 *   i    close the input       o    close the output
 *   T    ignore SIGTERM        k    kill itself
 *   xN   exit with that code
 */
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char buf[1 << 16];
static size_t bufsize = sizeof buf;

static int writeAll(const char* b, size_t n) {
    while (n) {
        ssize_t m = write(1, b, n);
        if (m < 0 && errno == EINTR) continue;
        if (m <= 0) return -1;
        b += m;
        n -= (size_t)m;
    }
    return 0;
}
static void take(long long n, int echo) {
    while (n) {
        size_t want = n < 0 || n > (long long)bufsize ? bufsize : (size_t)n;
        ssize_t m = read(0, buf, want);
        if (m < 0 && errno == EINTR) continue;
        if (m <= 0) return;
        if (n > 0) n -= m;
        if (echo) {
            for (ssize_t i = 0; i < m; i++) buf[i] ^= 0x55;
            if (writeAll(buf, (size_t)m)) _exit(9);
        }
    }
}
int main(int argc, char** argv) {
    unsigned long long written = 0;
    for (int i = 1; i < argc; i++) {
        long long n = atoll(argv[i] + 1);
        switch (argv[i][0]) {
        case 'e': take(n, 1); break;
        case 'd': take(n, 0); break;
        case 'w':
            while (n > 0) {
                size_t m = n > (long long)bufsize ? bufsize : (size_t)n;
                for (size_t k = 0; k < m; k++, written++) buf[k] = (char)(written * 7 + written / 251);
                if (writeAll(buf, m)) _exit(9);
                n -= (long long)m;
            }
            break;
        case 's': usleep((useconds_t)n); break;
        case 'b': bufsize = n < 1 ? 1 : n > (long long)sizeof buf ? sizeof buf : (size_t)n; break;
        case 'i': close(0); break;
        case 'o': close(1); break;
        case 'T': signal(SIGTERM, SIG_IGN); break;
        case 'k': kill(getpid(), SIGKILL); break;
        case 'x': _exit((int)n);
        }
    }
    return 0;
}
