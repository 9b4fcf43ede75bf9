import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant

WRAP = 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -Wl,--wrap=syscall -Wl,--wrap=open -Wl,--wrap=read -Wl,--wrap=poll -Wl,--wrap=close -Wl,--wrap=fstat -o "$t/demo"'
PRE = r'''
#define _GNU_SOURCE
#include <errno.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <torsion/rand.h>
static int opens, closes;
static unsigned char next_byte = 1;
static unsigned char nb(void) { if (next_byte == 0 || next_byte == 0x55) next_byte++; return next_byte++; }
'''
plant("c01-short-getrandom", "C01",
  [("src/entropy/sys.c", '''    if ((size_t)nread > max)
      abort();

    data += nread;
    size -= nread;
  }

  return 1;
#elif defined(HAVE_GETENTROPY)''', '''    if ((size_t)nread > max)
      abort();

    data += max;
    size -= max;
  }

  return 1;
#elif defined(HAVE_GETENTROPY)''')],
  "getrandom returns fewer bytes than asked (a signal arrives)", "bytes the kernel never delivered are returned as entropy",
  PRE + r'''
static int n;
long __wrap_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); unsigned char *b = va_arg(ap, void *); size_t len = va_arg(ap, size_t); va_end(ap);
  if (nr != SYS_getrandom) { errno = ENOSYS; return -1; }
  if (n++ == 0 && len > 3) len = 3;
  for (size_t i = 0; i < len; i++) b[i] = nb();
  return len;
}
int __wrap_open(const char *p, int f, ...) { errno = ENOENT; return -1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { errno = EIO; return -1; }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { errno = EIO; return -1; }
int __wrap_close(int fd) { return 0; }
int __wrap_fstat(int fd, struct stat *s) { return -1; }
int main(void) {
  unsigned char buf[64]; memset(buf, 0x55, 64);
  if (!torsion_getentropy(buf, 64)) return 2;
  for (int i = 0; i < 64; i++) if (buf[i] == 0x55) { printf("byte %d was never delivered\n", i); return 1; }
  return 0;
}
''', WRAP)

DEV = r'''
long __wrap_syscall(long nr, ...) { errno = ENOSYS; return -1; }
int __wrap_open(const char *p, int f, ...) { opens++; return 40 + opens; }
int __wrap_close(int fd) { closes++; return 0; }
int __wrap_fstat(int fd, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0666; return 0; }
'''
plant("c01-poll-fd-leak", "C01",
  [("src/entropy/sys.c", '''    if (r != 1)
      goto fail;

    close(fd);
  }''', '''    if (r != 1)
      return 0;

    close(fd);
  }''')],
  "the wait for the kernel pool fails while falling back to the device file", "every failing request leaves a descriptor open",
  PRE + DEV + r'''
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { errno = ENOMEM; return -1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { errno = EIO; return -1; }
int main(void) {
  unsigned char buf[32];
  torsion_getentropy(buf, 32);
  printf("opened %d closed %d\n", opens, closes);
  return opens == closes ? 0 : 1;
}
''', WRAP)

plant("c01-device-eof", "C01",
  [("src/entropy/sys.c", '''fail:
  close(fd);

  return size == 0;
}''', '''fail:
  close(fd);

  return size == 0 || data != dst;
}''')],
  "the device file ends or errors after part of the request was read", "a partly filled buffer is reported as success",
  PRE + DEV + r'''
static int reads;
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { p->revents = POLLIN; return 1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (reads++) { errno = EIO; return -1; } memset(b, 7, 5); return 5; }
int main(void) {
  unsigned char buf[32]; memset(buf, 0x55, 32);
  int ok = torsion_getentropy(buf, 32);
  int bad = 0;
  for (int i = 0; i < 32; i++) bad |= buf[i] == 0x55;
  printf("ok=%d bad=%d\n", ok, bad);
  return ok && bad ? 1 : 0;
}
''', WRAP)
