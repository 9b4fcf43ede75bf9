import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
R = "src/rand.c"
# ---- C02
plant("c02-grandchild", "C02",
 [(R, "static int\nrng_global_init(void) {\n  long pid = torsion_getpid();\n\n  if (!rng_state.started || rng_state.pid != pid) {\n    if (!rng_init(&rng_state))\n      return 0; /* LCOV_EXCL_LINE */\n\n    rng_state.started = 1;\n    rng_state.pid = pid;\n  }\n",
      "static int\nrng_global_init(void) {\n  static int forked = 0;\n  long pid = torsion_getpid();\n\n  if (!rng_state.started || (rng_state.pid != pid && !forked)) {\n    forked = rng_state.started;\n\n    if (!rng_init(&rng_state))\n      return 0; /* LCOV_EXCL_LINE */\n\n    rng_state.started = 1;\n    rng_state.pid = pid;\n  }\n")],
 "two generations of fork with a random request in each generation", "a grandchild continues with the random stream of its parent",
 r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <torsion/rand.h>
int main(void) {
  unsigned char *m = mmap(0, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  torsion_getrandom(m, 32);
  if (fork() == 0) {
    torsion_getrandom(m, 32);
    if (fork() == 0) { torsion_getrandom(m + 64, 32); _exit(0); }
    wait(NULL); torsion_getrandom(m + 128, 32); _exit(0);
  }
  wait(NULL);
  if (!memcmp(m + 64, m + 128, 32)) { puts("child and grandchild got the same bytes"); return 1; }
  return 0;
}
''')
plant("c02-pool-shortcut", "C02",
 [(R, "int\ntorsion_random(uint32_t *num) {\n  rng_global_lock();\n", "int\ntorsion_random(uint32_t *num) {\n  rng_global_lock();\n\n  if (rng_state.pos > 1) {\n    *num = rng_random(&rng_state);\n    rng_global_unlock();\n    return 1;\n  }\n")],
 "fork while numbers are still buffered, then numbers requested in both processes", "parent and child return the same buffered numbers",
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <torsion/rand.h>
int main(void) {
  uint32_t *m = mmap(0, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0), x;
  torsion_random(&x);
  if (fork() == 0) { for (int i = 0; i < 8; i++) torsion_random(m + i); _exit(0); }
  for (int i = 0; i < 8; i++) torsion_random(m + 64 + i);
  wait(NULL);
  if (!memcmp(m, m + 64, 32)) { puts("parent and child got the same numbers"); return 1; }
  return 0;
}
''')
FAILPRE = r'''
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <torsion/rand.h>
static int down; 
long __real_syscall(long nr, ...);
long __wrap_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); unsigned char *b = va_arg(ap, void *); size_t len = va_arg(ap, size_t); int fl = va_arg(ap, int); va_end(ap);
  if (nr == SYS_getrandom && down) { errno = EIO; return -1; }
  return __real_syscall(nr, b, len, fl);
}
int __wrap_open(const char *p, int f, ...) { errno = ENOENT; return -1; }
'''
FB = 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -Wl,--wrap=syscall -Wl,--wrap=open -o "$t/demo"'
# ---- C03
plant("c03-started-early", "C03",
 [(R, "    if (!rng_init(&rng_state))\n      return 0; /* LCOV_EXCL_LINE */\n\n    rng_state.started = 1;\n    rng_state.pid = pid;\n",
      "    int ok = rng_init(&rng_state);\n\n    rng_state.started = 1;\n    rng_state.pid = pid;\n\n    if (!ok)\n      return 0; /* LCOV_EXCL_LINE */\n")],
 "the first seeding fails and another request follows", "after a failed seeding the next request succeeds with output of an all-zero key",
 FAILPRE + r'''
int main(void) {
  unsigned char a[32]; down = 1;
  if (torsion_getrandom(a, 32)) return 2;
  if (torsion_getrandom(a, 32)) { puts("unseeded output handed out"); return 1; }
  return 0;
}
''', FB)
plant("c03-keep-after-fork", "C03",
 [(R, "    if (!rng_init(&rng_state))\n      return 0; /* LCOV_EXCL_LINE */\n\n    rng_state.started = 1;",
      "    int was = rng_state.started;\n\n    if (!rng_init(&rng_state) && !was)\n      return 0; /* LCOV_EXCL_LINE */\n\n    rng_state.started = 1;")],
 "entropy unavailable when a forked child reseeds", "the child goes on with a wiped generator and predictable output",
 FAILPRE + r'''
int main(void) {
  unsigned char a[32]; 
  if (!torsion_getrandom(a, 32)) return 2;
  if (fork() == 0) { down = 1; _exit(torsion_getrandom(a, 32) ? 1 : 0); }
  int st; wait(&st);
  if (st) { puts("child was served without seeding"); return 1; }
  return 0;
}
''', FB)
# ---- C04
HWB = 'gcc -O1 -w -I include -I src -DTORSION_HAVE_CONFIG -DTORSION_HAVE_RNG -DTORSION_HAVE_PTHREAD -DTORSION_TLS=__thread "$here/demo.c" _build/release/libtorsion.a -lpthread -o "$t/demo"'
INC = 'gcc -O1 -w -I include -I src -DTORSION_HAVE_CONFIG -DTORSION_HAVE_RNG -DTORSION_HAVE_PTHREAD -DTORSION_TLS=__thread -I _build/release "$here/demo.c" _build/release/libtorsion.a -lpthread -o "$t/demo"'
SCAN = r'''
#define _GNU_SOURCE
#include <link.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <torsion/rand.h>
#include <torsion/stream.h>
#include <stdlib.h>
/* everything the library keeps: the thread-local block of this program */
struct img { unsigned char *p; size_t n; };
static int cb(struct dl_phdr_info *i, size_t s, void *d) {
  struct img *m = d;
  if (i->dlpi_name[0] == 0 && i->dlpi_tls_data)
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { m->p = i->dlpi_tls_data; m->n = i->dlpi_phdr[k].p_memsz; }
  return 0;
}
static int finds(const unsigned char *want) { /* 16 bytes of earlier output */
  struct img m = {0, 0}; dl_iterate_phdr(cb, &m);
  if (!m.p) return 2;
  for (size_t o = 0; o + 4 <= m.n; o += 4) if (o + 16 <= m.n && !memcmp(m.p + o, want, 16)) { puts("earlier output is still in memory"); return 1; }
  for (size_t o = 0; o + 32 <= m.n; o += 4) for (size_t q = 0; q + 32 <= m.n; q += 4) for (uint64_t n = 0; n < 4; n++) {
    unsigned char k[32], out[640]; chacha20_t c;
    memcpy(k, m.p + o, 32);
    if (q != o) for (int i = 0; i < 32; i++) k[i] ^= m.p[q + i];
    if (q != o && (o % 32 || q % 32) && n) continue;
    memset(out, 0, 512); chacha20_init(&c, k, 32, (void *)&n, 8, 0); chacha20_crypt(&c, out, out, 512);
    for (int i = 0; i + 16 <= 512; i += 4) if (!memcmp(out + i, want, 16)) { puts("a key in memory regenerates earlier output"); return 1; }
  }
  return 0;
}
'''
plant("c04-pool-tail", "C04",
 [(R, "    for (i = 0; i < 8; i++)\n      rng->pool[120 + i] = 0;\n\n", "")],
 "memory captured after numbers were handed out", "the key difference stays in memory, so the previous key and all earlier numbers of the block can be recomputed",
 r"""
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include "entropy/entropy.h"
/* a machine without random instructions */
#define torsion_has_rdrand() 0
#define torsion_getentropy t_getentropy
#define torsion_getrandom t_getrandom
#define torsion_random t_random
#define torsion_uniform t_uniform
#include "rand.c"
int main(void) {
  uint32_t w[4]; int i;
  for (i = 0; i < 4; i++) t_random(&w[i]);
  const unsigned char *m = (void *)&rng_state; size_t n = sizeof rng_state, o, q;
  for (o = 0; o + 32 <= n; o += 4) for (q = 0; q + 32 <= n; q += 4) {
    unsigned char k[32]; uint32_t out[128]; uint64_t nonce = 0; chacha20_t c;
    for (i = 0; i < 32; i++) k[i] = m[o + i] ^ (q == o ? 0 : m[q + i]);
    memset(out, 0, sizeof out); chacha20_init(&c, k, 32, (void *)&nonce, 8, 0); chacha20_crypt(&c, (void *)out, (void *)out, 512);
    for (i = 3; i < 128; i++) if (out[i] == w[0] && out[i - 1] == w[1]) { puts("memory still determines numbers handed out earlier"); return 1; }
  }
  return 0;
}
""", HWB)

plant("c04-small-no-rekey", "C04",
 [(R, "  /* Re-key immediately. */\n  rng->nonce++;\n", "  /* Re-key immediately. */\n  rng->nonce++;\n\n  if (size < 24 && rng->nonce % 4 != 0)\n    return;\n")],
 "a short request followed by a capture of memory", "the key that produced the bytes is still in memory",
 SCAN + r'''
int main(void) { unsigned char b[16]; int i; 
  /* undo the size whitening a short request leaves in the key */
  struct img m = {0, 0}; dl_iterate_phdr(cb, &m);
  torsion_getrandom(b, 16);
  for (size_t o = 0; o + 32 <= m.n; o += 4) for (uint64_t n = 0; n < 3; n++) {
    unsigned char k[32], out[16]; chacha20_t c; memcpy(k, m.p + o, 32); k[0] ^= 16;
    for (int v = 0; v < 1; v++) { memset(out, 0, 16); chacha20_init(&c, k, 32, (void *)&n, 8, 0); chacha20_crypt(&c, out, out, 16);
      if (!memcmp(out, b, 16)) { puts("the key in memory regenerates earlier output"); return 1; } }
    for (uint32_t probe = 0; probe < 1; probe++) ;
  }
  /* the hardware word may be mixed into the key: compare the other seven words instead */
  static unsigned char before[4096]; memcpy(before, m.p, m.n < 4096 ? m.n : 4096);
  torsion_getrandom(b, 16);
  int same = 0; for (size_t o = 0; o + 28 <= m.n && o + 28 <= 4096; o += 4) { int nz = 0; for (i = 4; i < 28; i++) nz += before[o + i] != 0; if (nz > 20 && !memcmp(before + o + 4, m.p + o + 4, 24)) same = 1; }
  if (same) { puts("the key did not change after output was produced"); return 1; }
  return 0; }
''')
plant("c04-stale-word", "C04",
 [(R, "  x = rng->pool[--rng->pos];\n\n  rng->pool[rng->pos] = 0;\n", "  x = rng->pool[--rng->pos];\n\n  if (rng->pos > 0)\n    rng->pool[rng->pos - 1] ^= 0, rng->pool[rng->pos] = rng->pos % 16 ? 0 : x;\n")],
 "memory captured after a number was taken from the end of a 16-word row", "one number in sixteen stays in memory after it was handed out",
 SCAN + r'''
int main(void) { uint32_t x; struct img m = {0, 0}; int hits = 0; dl_iterate_phdr(cb, &m);
  for (int i = 0; i < 120; i++) { torsion_random(&x); for (size_t o = 0; o + 4 <= m.n; o += 4) if (!memcmp(m.p + o, &x, 4)) hits++; }
  if (hits > 3) { printf("%d numbers still in memory\n", hits); return 1; } return 0; }
''')
# ---- C05
CPU = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include "entropy/entropy.h"
'''
plant("c05-mix-all-words", "C05",
 [(R, "  if (rng->rdrand)\n    rng->key[7] ^= torsion_rdrand32();\n\n  /* Re-key immediately. */\n  rng->nonce++;\n",
      "  if (rng->rdrand) {\n    int i;\n\n    for (i = 0; i < 8; i++)\n      rng->key[i] ^= torsion_rdrand32();\n  }\n\n  /* Re-key immediately. */\n  rng->nonce++;\n")],
 "a CPU generator that can read memory and chooses its output accordingly", "a malicious CPU generator can set the whole key and so predict all later output",
 r'''
/* the CPU returns the current key words, forcing the next key to a constant */
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
static int evil(void);
static uint32_t evil32(void);
#include "entropy/entropy.h"
static int fake_hwrand(void *d, size_t n) { memset(d, 7, n); return 1; }
static int fake_sys(void *d, size_t n);
#define torsion_has_rdrand() 1
#define torsion_rdrand32 evil32
#define torsion_hwrand fake_hwrand
#define torsion_sysrand fake_sys
#define torsion_getentropy t_getentropy
#define torsion_getrandom t_getrandom
#define torsion_random t_random
#define torsion_uniform t_uniform
#include "rand.c"
static unsigned seedno;
static int fake_sys(void *d, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = seedno * 31 + i * 7; return 1; }
static int calls;
static uint32_t evil32(void) { int i = calls++ % 8; return rng_state.key[i]; }
int main(void) {
  unsigned char a[32], b[32];
  seedno = 1; t_getrandom(a, 32); t_getrandom(a, 32);
  memset(&rng_state, 0, sizeof rng_state); calls = 0;
  seedno = 2; t_getrandom(b, 32); t_getrandom(b, 32);
  if (!memcmp(a, b, 32)) { puts("output no longer depends on the system's entropy"); return 1; }
  return 0;
}
''', HWB)
plant("c05-prefer-hw", "C05",
 [(R, "    if (torsion_hwrand(seed, 64))\n      sha256_update(&hash, seed, 64);\n  }\n", "    if (torsion_hwrand(seed, 64)) {\n      sha256_init(&hash);\n      sha256_update(&hash, seed, 64);\n    }\n  }\n")],
 "a CPU with a random number instruction whose output is known", "the seed depends on the CPU generator alone",
 r'''
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include "entropy/entropy.h"
static int fake_hwrand(void *d, size_t n) { memset(d, 7, n); return 1; }
static int fake_sys(void *d, size_t n);
static uint32_t zero32(void) { return 0; }
#define torsion_rdrand32 zero32
#define torsion_hwrand fake_hwrand
#define torsion_sysrand fake_sys
#define torsion_getentropy t_getentropy
#define torsion_getrandom t_getrandom
#define torsion_random t_random
#define torsion_uniform t_uniform
#include "rand.c"
static unsigned seedno;
static int fake_sys(void *d, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = seedno * 31 + i * 7; return 1; }
int main(void) {
  unsigned char a[32], b[32];
  seedno = 1; t_getrandom(a, 32);
  memset(&rng_state, 0, sizeof rng_state);
  seedno = 2; t_getrandom(b, 32);
  if (!memcmp(a, b, 32)) { puts("output does not depend on the system's entropy"); return 1; }
  return 0;
}
''', HWB)
plant("c05-rdrand-forever", "C05",
 [("src/entropy/hw.c", "  for (i = 0; i < 10; i++) {\n    if (torsion_rdrand_step(&z))\n      break;\n  }\n", "  for (i = 0; i < 10; i += z != 0) {\n    if (torsion_rdrand_step(&z))\n      break;\n  }\n")],
 "a CPU whose random instruction keeps reporting failure", "a request for random bytes never returns",
 r'''
#include <stdint.h>
#include <stddef.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#define TORSION_SIM
int torsion_sim_rdrand(void *z, size_t n) { for (size_t i = 0; i < n; i++) ((char *)z)[i] = 0; return 0; }
int torsion_sim_rdseed(void *z, size_t n) { return 0; }
void torsion_sim_cpuid(uint32_t *a, uint32_t *b, uint32_t *c, uint32_t *d, uint32_t l, uint32_t s) { *a = 7; *b = *c = *d = 0; if (l == 1) *c = 1u << 30; }
#include "entropy/hw.c"
int main(void) { alarm(5); torsion_rdrand32(); return 0; }
''', 'gcc -O1 -w -I include -I src -DTORSION_HAVE_CONFIG -DTORSION_HAVE_ASM -DTORSION_HAVE_INT128 "$here/demo.c" -o "$t/demo"')
# ---- C06
U = r'''
#include <stdio.h>
#include <stdint.h>
#include <torsion/rand.h>
'''
plant("c06-reject-too-much", "C06",
 [(R, "  } while (x - r > (-max));\n", "  } while (x > (-max));\n")],
 "a bound that is not tiny compared with 2^32", "values near the top of the range are less likely than others",
 U + r'''int main(void) { uint32_t x, m = 0xc0000000u, hi = 0; for (int i = 0; i < 3000; i++) { torsion_uniform(&x, m); hi += x >= 0x60000000u; } if (hi < 1000) { printf("%u of 3000 in the upper half\n", hi); return 1; } return 0; }''')
plant("c06-signed-negation", "C06",
 [(R, "  } while (x - r > (-max));\n", "  } while (x - r > (uint32_t)(-(max | 1)) && max < 0xffffff00u);\n")],
 "a very large bound", "small values are returned with twice the probability of others for bounds close to 2^32",
 r'''#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <torsion/rand.h>
#include <torsion/util.h>
/* bound 0xffffff00: the words from there up must be rejected; count small results over many draws, in eight processes */
static pid_t self;
pid_t __wrap_getpid(void) { return self; }
pid_t __real_getpid(void);
int main(void) {
  int p[2], k; unsigned long long small = 0, got;
  if (pipe(p)) return 3;
  for (k = 0; k < 8; k++) if (fork() == 0) { unsigned long long i, n = 0; uint32_t x; self = __real_getpid(); for (i = 0; i < 200000000ull; i++) { torsion_uniform(&x, 0xffffff00u); n += x < 0x100u; } if (write(p[1], &n, sizeof n)) {} _exit(0); }
  for (k = 0; k < 8; k++) { if (read(p[0], &got, sizeof got) != sizeof got) return 3; small += got; }
  /* expected 1600000000 / 2^24 = 95; biased 190 */
  if (small > 143) { printf("%llu small results, expected 95\n", small); return 1; }
  return 0;
}
''', 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -Wl,--wrap=getpid -o "$t/demo"')
