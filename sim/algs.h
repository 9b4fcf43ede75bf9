// Hash algorithms of the library with their models.
#pragma once
#include "models.h"
extern "C" {
#include <torsion/hash.h>
}
struct Alg { hash_id_t id; const char *name; MSpec m; };
#define S(a, b, p, o, k) MSpec{a, b, p, o, k, {}}
static const Alg algs[] = {
  {HASH_BLAKE2B_160, "blake2b160", S(MH_BLAKE2B, 0, 0, 20, 128)}, {HASH_BLAKE2B_256, "blake2b256", S(MH_BLAKE2B, 0, 0, 32, 128)},
  {HASH_BLAKE2B_384, "blake2b384", S(MH_BLAKE2B, 0, 0, 48, 128)}, {HASH_BLAKE2B_512, "blake2b512", S(MH_BLAKE2B, 0, 0, 64, 128)},
  {HASH_BLAKE2S_128, "blake2s128", S(MH_BLAKE2S, 0, 0, 16, 64)}, {HASH_BLAKE2S_160, "blake2s160", S(MH_BLAKE2S, 0, 0, 20, 64)},
  {HASH_BLAKE2S_224, "blake2s224", S(MH_BLAKE2S, 0, 0, 28, 64)}, {HASH_BLAKE2S_256, "blake2s256", S(MH_BLAKE2S, 0, 0, 32, 64)},
  {HASH_GOST94, "gost94", S(MH_GOST94, 0, 0, 32, 32)}, {HASH_HASH160, "hash160", S(MH_HASH160, 0, 0, 20, 64)}, {HASH_HASH256, "hash256", S(MH_HASH256, 0, 0, 32, 64)},
  {HASH_KECCAK224, "keccak224", S(MH_KECCAK, 224, 1, 28, 144)}, {HASH_KECCAK256, "keccak256", S(MH_KECCAK, 256, 1, 32, 136)},
  {HASH_KECCAK384, "keccak384", S(MH_KECCAK, 384, 1, 48, 104)}, {HASH_KECCAK512, "keccak512", S(MH_KECCAK, 512, 1, 64, 72)},
  {HASH_MD2, "md2", S(MH_MD2, 0, 0, 16, 16)}, {HASH_MD4, "md4", S(MH_MD4, 0, 0, 16, 64)}, {HASH_MD5, "md5", S(MH_MD5, 0, 0, 16, 64)},
  {HASH_MD5SHA1, "md5sha1", S(MH_MD5SHA1, 0, 0, 36, 64)}, {HASH_RIPEMD160, "ripemd160", S(MH_RIPEMD160, 0, 0, 20, 64)}, {HASH_SHA1, "sha1", S(MH_SHA1, 0, 0, 20, 64)},
  {HASH_SHA224, "sha224", S(MH_SHA224, 0, 0, 28, 64)}, {HASH_SHA256, "sha256", S(MH_SHA256, 0, 0, 32, 64)}, {HASH_SHA384, "sha384", S(MH_SHA384, 0, 0, 48, 128)},
  {HASH_SHA512, "sha512", S(MH_SHA512, 0, 0, 64, 128)}, {HASH_SHA3_224, "sha3-224", S(MH_KECCAK, 224, 6, 28, 144)}, {HASH_SHA3_256, "sha3-256", S(MH_KECCAK, 256, 6, 32, 136)},
  {HASH_SHA3_384, "sha3-384", S(MH_KECCAK, 384, 6, 48, 104)}, {HASH_SHA3_512, "sha3-512", S(MH_KECCAK, 512, 6, 64, 72)},
  {HASH_SHAKE128, "shake128", S(MH_KECCAK, 128, 0x1f, 16, 168)}, {HASH_SHAKE256, "shake256", S(MH_KECCAK, 256, 0x1f, 32, 136)}, {HASH_WHIRLPOOL, "whirlpool", S(MH_WHIRLPOOL, 0, 0, 64, 64)},
};
enum { NALG = sizeof algs / sizeof *algs };

#undef S
#include "input.h"
