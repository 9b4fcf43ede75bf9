#pragma once
#include "engine.h"
// exact-size heap copy, so that reads past the end are seen by the address sanitizer
struct Input { u8 *p; size_t n; Bytes copy; Input(const Bytes &b, size_t off) : n(b.size()), copy(b) { base = (u8 *)::malloc(n + off + (n + off == 0)); p = base + off; if (n) memcpy(p, b.data(), n); }
  ~Input() { ::free(base); } void check(const char *what) { if (n && memcmp(p, copy.data(), n)) g_ctx->fail("input-modified", "%s modified its input", what); } u8 *base; };

