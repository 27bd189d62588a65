/* Plays back a plan: emit PLANFILE [more arguments]
   o N   write the next N bytes of PLANFILE.out to standard output
   e N   write the next N bytes of PLANFILE.err to standard error
   s N   wait N microseconds      a  print the arguments, one per line
   c N   close descriptor N       x N  exit     k N  die by signal N */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
static void put(int to, int from, long n) {
  static char b[65536];
  while (n > 0) {
    long k = read(from, b, n < (long)sizeof b ? n : (long)sizeof b), i = 0; if (k <= 0) _exit(120);
    while (i < k) { long w = write(to, b + i, k - i); if (w <= 0) _exit(121); i += w; }
    n -= k;
  }
}
int main(int argc, char **argv) {
  char p[4096]; FILE *f = fopen(argv[1], "r"); if (!f) return 122;
  snprintf(p, sizeof p, "%s.out", argv[1]); int o = open(p, O_RDONLY);
  snprintf(p, sizeof p, "%s.err", argv[1]); int e = open(p, O_RDONLY);
  struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
  char c; long n;
  while (fscanf(f, " %c %ld", &c, &n) == 2) switch (c) {
    case 'o': put(1, o, n); break; case 'e': put(2, e, n); break;
    case 's': usleep(n); break; case 'c': close(n); break;
    case 'a': for (int i = 2; i < argc; ++i) { if (write(1, argv[i], strlen(argv[i])) < 0 || write(1, "\n", 1) < 0) _exit(121); } break;
    case 'x': _exit(n); case 'k': signal(n, SIG_DFL); { sigset_t s; sigemptyset(&s); sigaddset(&s, n); sigprocmask(SIG_UNBLOCK, &s, 0); } kill(getpid(), n); pause(); break;
  }
  return 0;
}
