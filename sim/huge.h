// Inputs of several GiB: one 2 MiB pattern mapped over and over; and a sink of the same kind for outputs.
#pragma once
#include "engine.h"
#include <sys/mman.h>
#include <unistd.h>
static u8 *huge, *sink; static size_t huge_size, sink_size; enum { HUGE_PAGE = 2 << 20 };
static bool map_huge(size_t size) {
  if (huge && huge_size >= size) return true;
  if (huge) munmap(huge, huge_size);
  int fd = memfd_create("pattern", 0);
  if (fd < 0 || ftruncate(fd, HUGE_PAGE)) return false;
  u8 *one = (u8 *)mmap(nullptr, HUGE_PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  fill_bytes(4711, one, HUGE_PAGE); munmap(one, HUGE_PAGE);
  size = (size + HUGE_PAGE - 1) / HUGE_PAGE * HUGE_PAGE;
  huge = (u8 *)mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (huge == MAP_FAILED) { huge = nullptr; close(fd); return false; }
  for (size_t o = 0; o < size; o += HUGE_PAGE) if (mmap(huge + o, HUGE_PAGE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(huge, size); huge = nullptr; close(fd); return false; }
  close(fd); huge_size = size;
  return true;
}
__attribute__((unused)) static bool map_sink(size_t size) {
  if (sink && sink_size >= size) return true;
  if (sink) munmap(sink, sink_size);
  int fd = memfd_create("sink", 0);
  if (fd < 0 || ftruncate(fd, HUGE_PAGE)) return false;
  u8 *one = (u8 *)mmap(nullptr, HUGE_PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  fill_bytes(4711, one, HUGE_PAGE); munmap(one, HUGE_PAGE);
  size = (size + HUGE_PAGE - 1) / HUGE_PAGE * HUGE_PAGE;
  sink = (u8 *)mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sink == MAP_FAILED) { sink = nullptr; close(fd); return false; }
  for (size_t o = 0; o < size; o += HUGE_PAGE) if (mmap(sink + o, HUGE_PAGE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(sink, size); sink = nullptr; close(fd); return false; }
  close(fd); sink_size = size;
  return true;
}
