// Cipher mode models: single blocks from OpenSSL (or own code) where it has them, the library's single-block interface otherwise.
#pragma once
#include "engine.h"
#include <memory>
extern "C" {
#include <torsion/cipher.h>
}
struct Block {
  size_t bs;
  virtual ~Block() {}
  virtual void enc(const u8 *in, u8 *out) const = 0;
  virtual void dec(const u8 *in, u8 *out) const = 0;
};
std::unique_ptr<Block> mblock(cipher_id_t id, const Bytes &key, bool *independent = nullptr);   // null: key length not allowed
bool key_ok(cipher_id_t id, size_t n);
// Non-authenticating modes. ok=false: the input is not the image of anything (or not allowed).
struct MResult { bool ok; Bytes out; };
MResult mmode(cipher_id_t id, mode_id_t mode, bool encrypt, bool padding, const Bytes &key, const Bytes &iv, const Bytes &in);
// Authenticating modes: ciphertext and full tag.
void mgcm(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]);
void mccm(const Block &b, const Bytes &iv, const Bytes &aad, size_t taglen, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]);
void meax(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, Bytes &tag);
Bytes gcm_iv_for(const Block &b, const u8 j0[16]);        // a 16-byte nonce that starts the counter there
Bytes eax_iv_for(const Block &b, const Bytes &start);     // likewise, one block long
void mchachapoly(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]);
void msecretbox(const Bytes &key, const Bytes &iv, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]);
Bytes mhsalsa(const Bytes &key, const u8 *n16);
