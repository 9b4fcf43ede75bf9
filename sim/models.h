// Independent reference models: hashes, MACs. Hash identifiers are the model's own.
#pragma once
#include "engine.h"
#include <memory>

enum MH { MH_BLAKE2B, MH_BLAKE2S, MH_GOST94, MH_HASH160, MH_HASH256, MH_KECCAK, MH_MD2, MH_MD4, MH_MD5, MH_MD5SHA1,
          MH_RIPEMD160, MH_SHA1, MH_SHA224, MH_SHA256, MH_SHA384, MH_SHA512, MH_WHIRLPOOL, MH_N };
struct MSpec { MH alg; unsigned bits; unsigned pad; size_t out; size_t block; Bytes key; };   // bits: keccak capacity/2; pad: keccak domain byte
struct MHash {
  virtual ~MHash() {}
  virtual void update(const u8 *p, size_t n) = 0;
  virtual Bytes final() = 0;
};
std::unique_ptr<MHash> mhash(const MSpec &s);
Bytes mhash(const MSpec &s, const Bytes &m);
Bytes mhmac(const MSpec &s, const Bytes &key, const Bytes &m);
Bytes mpoly1305(const u8 *key, const Bytes &m);          // key of 32 bytes
u64 msiphash24(const u8 *key, const u8 *p, size_t n);
void mchacha_block(const u32 in[16], u32 out[16], int rounds = 20);
void msalsa_block(const u32 in[16], u32 out[16], int rounds = 20);
