// C10: senders and receivers of authenticated messages over a faulty channel.
#include "world.h"
#include "cmodels.h"
#include "input.h"
#include "huge.h"
#include <openssl/evp.h>
extern "C" {
#include <torsion/aead.h>
#include <torsion/ies.h>
}
enum { OP_MSG, OP_FEED, OP_SEND, OP_FAULT, OP_RECV, OP_RFEED, OP_REND, OP_BAD, OP_HUGE };
static const char *const ops[] = {"msg", "feed", "send", "fault", "recv", "rfeed", "rend", "bad", "huge", nullptr};
enum { S_GCM, S_CCM, S_EAX, S_CHACHA, S_BOX, NS };
static const char *const sn[] = {"gcm", "ccm", "eax", "chacha20-poly1305", "secretbox"};
static const mode_id_t modes[] = {CIPHER_MODE_GCM, CIPHER_MODE_CCM, CIPHER_MODE_EAX};
static const cipher_id_t big[] = {CIPHER_AES128, CIPHER_AES192, CIPHER_AES256, CIPHER_CAMELLIA128, CIPHER_CAMELLIA192, CIPHER_CAMELLIA256, CIPHER_SERPENT128, CIPHER_SERPENT192, CIPHER_SERPENT256, CIPHER_TWOFISH128, CIPHER_TWOFISH192, CIPHER_TWOFISH256};
static const int NC = CIPHER_TWOFISH256 + 1, NF = 16;

struct Wire { Bytes key, iv, aad, ct, tag; size_t taglen; };
static size_t ccm_nonce(size_t iv, size_t msg) { size_t l = 2; while (l < 8 && msg >> (8 * l)) l++; return std::min(std::min<size_t>(iv, 13), 15 - l); }

// One end of a conversation, through the stream interface or the mode functions.
struct End {
  int scheme; cipher_id_t id; bool enc, direct; cipher_stream_t *st = nullptr; cipher_t ci; gcm_t gcm; ccm_t ccm; eax_t eax; chachapoly_t cp;
  Bytes in, out; size_t fed = 0; Wire w; bool tagged = false; u64 style = 0; bool verifyonly = false;
  ~End() { ::free(st); }
  size_t tagmax() const { return scheme == S_EAX ? cipher_block_size(id) : 16; }
  void settag(Ctx &c) {
    if (scheme >= S_CHACHA || direct) { tagged = true; return; }
    Input t(w.tag, 1); int r = cipher_stream_set_tag(st, t.p, t.n); t.check("set_tag"); c.eval();
    bool ok = w.tag.size() == w.taglen;
    if (!ok && scheme == S_GCM) ok = w.tag.size() == 4 || w.tag.size() == 8 || (w.tag.size() >= 12 && w.tag.size() <= 16);
    if (!ok && scheme == S_EAX) ok = w.tag.size() >= 1 && w.tag.size() <= tagmax();
    CHECK(r == (int)ok, "tag-length", "%s: a tag of %zu bytes was %s", sn[scheme], w.tag.size(), r ? "accepted" : "refused");
    tagged = ok && w.tag.size() == w.taglen;
    if (ok && !tagged) {       // a length the receiver has not agreed to: it would not get this far; give it a wrong tag of the right length
      Bytes t2 = w.tag; t2.resize(w.taglen); t2[0] ^= 0x80; w.tag = t2; Input i2(t2, 0); CHECK(cipher_stream_set_tag(st, i2.p, i2.n) == 1, "tag-length", "agreed tag length refused"); tagged = true;
    }
  }
  void open(Ctx &c) {
    Input k(w.key, 1), v(w.iv, 2), a(w.aad, 3);
    if (scheme == S_BOX) return;
    if (scheme == S_CHACHA) {
      fill_bytes(3, &cp, sizeof cp); chachapoly_init(&cp, k.p, v.p, v.n); v.check("init");
      cut(a.p, a.n, [&](const u8 *p, size_t n) { chachapoly_aad(&cp, p, n); }); a.check("aad"); return;
    }
    if (direct) {
      fill_bytes(4, &ci, sizeof ci); CHECK(cipher_init(&ci, id, k.p, k.n), "valid-init-refused", "key refused");
      fill_bytes(5, &gcm, sizeof gcm); fill_bytes(5, &ccm, sizeof ccm); fill_bytes(5, &eax, sizeof eax); int r;
      if (scheme == S_GCM) { r = gcm_init(&gcm, &ci, v.p, v.n); if (r) cut(a.p, a.n, [&](const u8 *p, size_t n) { gcm_aad(&gcm, p, n); }); }
      else if (scheme == S_CCM) { r = ccm_init(&ccm, &ci, v.p, v.n); if (r) r = ccm_setup(&ccm, &ci, in.size(), w.taglen, a.p, a.n); }
      else { r = eax_init(&eax, &ci, v.p, v.n); if (r) cut(a.p, a.n, [&](const u8 *p, size_t n) { eax_aad(&eax, &ci, p, n); }); }
      CHECK(r == 1, "valid-init-refused", "%s refused a nonce of %zu bytes", sn[scheme], v.n);
      return;
    }
    if (!st) { st = (cipher_stream_t *)::malloc(sizeof *st); fill_bytes(6, st, sizeof *st); }
    CHECK(cipher_stream_init(st, id, modes[scheme], enc, k.p, k.n, v.p, v.n) == 1, "valid-init-refused", "%s refused key %zu nonce %zu", sn[scheme], k.n, v.n);
    if (scheme == S_CCM) { CHECK(cipher_stream_set_ccm(st, in.size(), w.taglen, a.p, a.n) == 1, "valid-init-refused", "ccm refused msg %zu tag %zu", in.size(), w.taglen); }
    else cut(a.p, a.n, [&](const u8 *p, size_t n) { CHECK(cipher_stream_set_aad(st, p, n) == 1, "valid-init-refused", "associated data refused"); });
    a.check("aad"); v.check("init");
    u8 t[16]; size_t l = 7;
    if (enc) CHECK(cipher_stream_set_tag(st, t, 16) == 0, "tag-direction", "an encrypting stream accepted a tag");
    if (style & 4) CHECK(cipher_stream_get_tag(st, t, &l) == 0, "tag-early", "a stream handed out a tag before the end");
  }
  template <class F> void cut(const u8 *p, size_t n, F f) {
    if (!(style & 1) || n > 4000) { if (n || (style & 2)) f(p, n); return; }
    Rng r(style); size_t o = 0; do { size_t k = std::min<size_t>(r.below(r.chance(1, 2) ? 6 : 40), n - o); f(p + o, k); o += k; } while (o < n);
  }
  void feed(size_t n, u64 place, Ctx &c) {
    n = std::min(n, in.size() - fed); if (scheme == S_BOX) return;
    Input i(Bytes(in.begin() + fed, in.begin() + fed + n), (place >> 1) % 8); Guard g(n, place, place % 8); const u8 *s = i.p; u8 *d = g.p();
    if (place & 1) { if (n) memcpy(d, s, n); s = d; c.fault("in-place"); }
    size_t l = n;
    if (scheme == S_CHACHA) { if (verifyonly) { chachapoly_auth(&cp, s, n); if (n && s != d) memcpy(d, s, n); } else (enc ? chachapoly_encrypt : chachapoly_decrypt)(&cp, d, s, n); }
    else if (direct) {
      if (scheme == S_GCM) (enc ? gcm_encrypt : gcm_decrypt)(&gcm, &ci, d, s, n);
      else if (scheme == S_CCM) (enc ? ccm_encrypt : ccm_decrypt)(&ccm, &ci, d, s, n);
      else (enc ? eax_encrypt : eax_decrypt)(&eax, &ci, d, s, n);
    } else if ((place & 1) && (place & 16)) CHECK(cipher_stream_crypt(st, d, s, n) == 1, "crypt-decision", "in-place call refused");
    else { CHECK(cipher_stream_update_size(st, n) == n, "size-differs", "announced size differs"); cipher_stream_update(st, d, &l, s, n); }
    g.check("update"); i.check("update"); CHECK(l == n, "size-differs", "%zu bytes in, %zu out", n, l);
    Bytes o = g.get(n); out.insert(out.end(), o.begin(), o.end()); fed += n; c.fault(n ? "cut" : "empty-update"); c.sh(n % 17);
  }
  // sender: tag out
  Bytes seal(Ctx &) {
    Guard t(16); size_t n = 99, tl = scheme == S_CCM ? w.taglen : tagmax();
    if (scheme == S_BOX) { Guard g(in.size() + 16); Input k(w.key, 1), v(w.iv, 2), m(in, 3); secretbox_seal(g.p(), m.p, m.n, k.p, v.p); g.check("seal"); m.check("seal"); Bytes a = g.get(in.size() + 16); out.assign(a.begin() + 16, a.end()); a.resize(16); return a; }
    if (scheme == S_CHACHA) chachapoly_final(&cp, t.p());
    else if (direct) { if (scheme == S_GCM) gcm_digest(&gcm, t.p()); else if (scheme == S_CCM) { ccm_digest(&ccm, &ci, t.p()); } else eax_digest(&eax, &ci, t.p()); }
    else {
      Guard o(0); CHECK(cipher_stream_final_size(st) == 0, "size-differs", "final announces bytes"); CHECK(cipher_stream_final(st, o.p(), &n) == 1 && n == 0, "seal-failed", "%s final failed", sn[scheme]); o.check("final");
      CHECK(cipher_stream_get_tag(st, t.p(), &n) == 1 && n == tl, "tag-length", "%s tag of %zu bytes, expected %zu", sn[scheme], n, tl);
    }
    t.check("tag"); return t.get(tl);
  }
  // receiver: verdict
  bool verdict(Ctx &) {
    if (scheme == S_BOX) {
      Bytes sealed = w.tag; sealed.insert(sealed.end(), in.begin(), in.end()); Input k(w.key, 1), v(w.iv, 2), m(sealed, 3); Guard g(sealed.size() < 16 ? 0 : sealed.size() - 16);
      int r = secretbox_open(g.p(), m.p, m.n, k.p, v.p); g.check("open"); m.check("open"); out = g.get(g.n); return r != 0;
    }
    if (scheme == S_CHACHA || direct) {
      u8 t[16]; if (scheme == S_CHACHA) chachapoly_final(&cp, t); else if (scheme == S_GCM) gcm_digest(&gcm, t); else if (scheme == S_CCM) ccm_digest(&ccm, &ci, t); else eax_digest(&eax, &ci, t);
      return tagged && w.tag.size() == w.taglen && !memcmp(t, w.tag.data(), w.taglen);
    }
    Guard o(0); size_t n = 9; int r = cipher_stream_final(st, o.p(), &n); o.check("final"); CHECK(n == 0, "size-differs", "final returned bytes");
    u8 t[16]; CHECK(cipher_stream_get_tag(st, t, &n) == 0, "tag-direction", "a decrypting stream handed out the expected tag");
    return r != 0;
  }
};
struct Msg { int scheme; cipher_id_t id; Wire w, net; Bytes pt; bool tagged = true; std::unique_ptr<End> tx, rx; u64 style; bool sent = false, altered = false; };
static std::vector<std::unique_ptr<Msg>> ms;

static void model(int scheme, cipher_id_t id, const Wire &w, const Bytes &in, bool enc, Bytes &out, Bytes &tag) {
  u8 t[16]; size_t n = 16;
  if (scheme == S_CHACHA) mchachapoly(w.key, w.iv, w.aad, in, enc, out, t);
  else if (scheme == S_BOX) msecretbox(w.key, w.iv, in, enc, out, t);
  else {
    auto b = mblock(id, w.key);
    if (scheme == S_GCM) mgcm(*b, w.iv, w.aad, in, enc, out, t);
    else if (scheme == S_CCM) { Bytes iv = w.iv; iv.resize(ccm_nonce(iv.size(), in.size())); mccm(*b, iv, w.aad, w.taglen, in, enc, out, t); }
    else { meax(*b, w.iv, w.aad, in, enc, out, tag); return; }
  }
  tag.assign(t, t + n);
}
static void msg(const Step &st, Ctx &c) {
  // slot, scheme, cipher, seed, ivlen, aadlen, ptlen, taglen, special, style
  auto m = std::make_unique<Msg>(); m->scheme = (int)((u64)st.arg(1) % NS); u64 seed = (u64)st.arg(3);
  m->id = m->scheme == S_EAX ? (cipher_id_t)((u64)st.arg(2) % NC) : big[(u64)st.arg(2) % 12];
  size_t bs = cipher_block_size(m->id), il = (u64)st.arg(4) % 200, tl = (u64)st.arg(7);
  Wire &w = m->w; size_t kl = m->scheme >= S_CHACHA ? 32 : cipher_key_size(m->id); if (m->id == CIPHER_BLOWFISH && m->scheme < S_CHACHA) kl = 1 + seed % 72; if ((m->id == CIPHER_ARC2 || m->id == CIPHER_ARC2_GUTMANN) && m->scheme < S_CHACHA) kl = 1 + seed % 128;
  w.key = seed_bytes(seed, kl); w.aad = seed_bytes(seed + 1, (u64)st.arg(5) % 70000); m->pt = seed_bytes(seed + 2, (u64)st.arg(6) % (20u << 20)); m->style = (u64)st.arg(9);
  switch (m->scheme) {
    case S_GCM: { static const u8 t[] = {4, 8, 12, 13, 14, 15, 16}; w.taglen = t[tl % 7]; break; }
    case S_CCM: w.taglen = 4 + 2 * (tl % 7); il = 7 + il % 12; break;
    case S_EAX: w.taglen = 1 + tl % bs; il = 1 + il; break;
    case S_CHACHA: { static const u8 t[] = {8, 12, 16, 24, 28}; il = t[il % 5]; w.taglen = 16; break; }
    default: il = 24; w.taglen = 16; w.aad.clear();
  }
  w.iv = seed_bytes(seed + 3, il);
  if (st.arg(8)) {
    // a nonce that starts the block counter just below a carry
    u64 k = (u64)st.arg(8) % 9 + 1, back = (u64)st.arg(8) / 9 % 6;
    if (m->scheme == S_GCM) { u8 j[16]; fill_bytes(seed + 4, j, 16); for (u64 i = 0; i < std::min<u64>(k, 6); i++) j[15 - i] = 0xff; j[15] = (u8)(j[15] - back); w.iv = gcm_iv_for(*mblock(m->id, w.key), j); c.probe("gcm-counter-carry"); if (k >= 4) c.probe("gcm-counter-wraps-32-bits"); }
    if (m->scheme == S_EAX) { Bytes s = seed_bytes(seed + 4, bs); for (u64 i = 0; i < std::min<u64>(k * 2, bs); i++) s[bs - 1 - i] = 0xff; s[bs - 1] = (u8)(0xff - back); w.iv = eax_iv_for(*mblock(m->id, w.key), s); c.probe("eax-counter-carry"); }
    if (m->scheme == S_CHACHA && il == 16) { for (u64 i = 0; i < std::min<u64>(k, 8); i++) w.iv[i] = 0xff; w.iv[0] = (u8)(0xff - back); c.probe("chacha-counter-carry"); }
  }
  m->tx.reset(new End()); End &e = *m->tx; e.scheme = m->scheme; e.id = m->id; e.enc = true; e.direct = m->style & 8; e.style = m->style; e.w = w; e.in = m->pt; e.open(c);
  c.sh(hash2((u64)m->scheme * 32 + (u64)m->id, hash2(w.iv.size(), w.aad.size() % 17) + w.taglen));
  ms[(u64)st.arg(0) % 6] = std::move(m);
}
static void send(Msg &m, Ctx &c) {
  if (m.sent) return;
  End &e = *m.tx;
  if (e.fed < e.in.size()) e.feed(e.in.size() - e.fed, m.style >> 4, c);
  Bytes tag = e.seal(c), ct, mt; model(m.scheme, m.id, m.w, m.pt, true, ct, mt);
  if (m.scheme == S_CCM && !e.direct) mt.resize(m.w.taglen); if (m.scheme == S_CCM && e.direct) { tag.resize(m.w.taglen); mt.resize(m.w.taglen); }
  c.eval(); c.tr(e.out); c.tr(tag); c.interesting = true;
  CHECK(e.out == ct, "ciphertext-differs", "%s cipher %d: %zu bytes, nonce of %zu: ciphertext differs from the definition: %s not %s", sn[m.scheme], (int)m.id, m.pt.size(), m.w.iv.size(), hex(e.out).c_str(), hex(ct).c_str());
  CHECK(tag == mt, "tag-differs", "%s cipher %d: %zu bytes, aad %zu, nonce of %zu, tag of %zu: tag %s, definition %s", sn[m.scheme], (int)m.id, m.pt.size(), m.w.aad.size(), m.w.iv.size(), m.w.taglen, hex(tag).c_str(), hex(mt).c_str());
  m.w.ct = ct; tag.resize(m.w.taglen); m.w.tag = tag; m.net = m.w; m.tx.reset(); m.sent = true; m.tagged = true; m.altered = false;
}
static bool flip(Bytes &b, u64 a) { if (b.empty()) return false; b[a / 8 % b.size()] ^= (u8)(1 << (a % 8)); return true; }
static void fault(Msg &m, const Step &st, Ctx &c) {
  send(m, c);
  if (m.rx) return;
  u64 a = (u64)st.arg(2); Wire &n = m.net; Msg *o = ms[(u64)st.arg(3) % 6].get(); if (o && (!o->sent || o->scheme != m.scheme)) o = nullptr;
  const char *k = nullptr;
  switch ((u64)st.arg(1) % NF) {
    case 0: if (flip(n.ct, a)) k = "flip-ciphertext"; break;
    case 1: if (flip(n.tag, a)) k = "flip-tag"; break;
    case 2: if (m.scheme != S_BOX && flip(n.aad, a)) k = "flip-aad"; break;
    case 3: { size_t u = m.scheme == S_CCM ? ccm_nonce(n.iv.size(), n.ct.size()) : n.iv.size(); Bytes h(n.iv.begin(), n.iv.begin() + std::min(u, n.iv.size())); if (flip(h, a)) { std::copy(h.begin(), h.end(), n.iv.begin()); k = "flip-nonce"; } break; }
    case 4: if (!n.ct.empty()) { n.ct.resize(a % n.ct.size()); k = "truncate"; } break;
    case 5: { Bytes x = seed_bytes(a, 1 + a % 33); if (a & 64) std::fill(x.begin(), x.end(), 0); n.ct.insert(n.ct.end(), x.begin(), x.end()); k = "extend"; break; }
    case 6: if (m.scheme != S_BOX) { if (a & 1 && !n.aad.empty()) n.aad.resize(a / 2 % n.aad.size()); else n.aad.insert(n.aad.end(), 1 + a / 2 % 20, (a & 2) ? 0 : (u8)a); k = "resize-aad"; } break;
    case 7: if (o) { n.ct.swap(o->net.ct); if (o != &m && !o->rx) o->altered = true; else if (o != &m) { n.ct.swap(o->net.ct); break; } k = "swap-messages"; } break;
    case 8: if (o && o != &m) { n.tag = o->w.tag; n.tag.resize(n.taglen); k = "other-tag"; } break;
    case 9: if (o && o != &m && o->w.iv.size() == n.iv.size()) { n.iv = o->w.iv; k = "other-nonce"; } else if (m.scheme != S_BOX && m.scheme != S_CHACHA) {
        // the same nonce with zero bytes appended or removed
        size_t lim = m.scheme == S_CCM ? ccm_nonce(13, n.ct.size()) : 200, lo = m.scheme == S_CCM ? 7 : 1;
        if (n.iv.size() < lim && (a & 1)) { n.iv.push_back(0); k = "nonce-resized"; } else if (n.iv.size() > lo && (m.scheme != S_CCM || n.iv.size() <= lim)) { n.iv.pop_back(); k = "nonce-resized"; } } break;
    case 10: n.key[a % n.key.size()] ^= 2; k = "wrong-key"; break;
    case 11: m.tagged = false; k = "tag-missing"; break;
    case 12: std::fill(n.tag.begin(), n.tag.end(), 0); k = "zero-tag"; break;
    case 13: if (m.scheme != S_BOX && !n.aad.empty() && (a & 1)) { size_t j = 1 + a / 2 % std::min<size_t>(16, n.aad.size()); n.ct.insert(n.ct.begin(), n.aad.end() - j, n.aad.end()); n.aad.resize(n.aad.size() - j); k = "boundary-shift"; }
             else if (m.scheme != S_BOX && !n.ct.empty()) { size_t j = 1 + a / 2 % std::min<size_t>(16, n.ct.size()); n.aad.insert(n.aad.end(), n.ct.begin(), n.ct.begin() + j); n.ct.erase(n.ct.begin(), n.ct.begin() + j); k = "boundary-shift"; } break;
    case 14: if (n.ct.size() >= 32) { size_t b = n.ct.size() / 16, i = a % b, j = a / 64 % b; for (int q = 0; q < 16; q++) std::swap(n.ct[16 * i + q], n.ct[16 * j + q]); k = "blocks-swapped"; } break;
    case 15: { size_t l = a % 20; n.tag.resize(l); if (m.scheme == S_BOX && l > 16) n.tag.resize(16); k = "tag-resized"; break; }
  }
  if (k) { m.altered = true; c.fault(k); c.sh(0x700 + (u64)st.arg(1) % NF); }
}
static void recv(Msg &m, u64 style, Ctx &c) {
  send(m, c);
  if (m.rx) return;
  std::unique_ptr<End> e(new End());
  e->scheme = m.scheme; e->id = m.id; e->enc = false; e->direct = style & 8; e->style = style; e->w = m.net; e->in = m.net.ct;
  if (m.scheme == S_CHACHA && (style & 256)) e->verifyonly = true;
  // a DES key differing only in parity, or similar, is the same key: the model decides
  if (m.scheme == S_CCM) { if (e->in.size() >> 24 && e->w.iv.size() > 11) e->direct = e->direct; }
  if ((style & 64) && m.scheme < S_CHACHA && !e->direct) {
    // the receiver's context served another message, complete with tag, before
    e->st = (cipher_stream_t *)::malloc(sizeof(cipher_stream_t)); fill_bytes(6, e->st, sizeof *e->st); u8 t[16]; size_t tl = e->tagmax(), n; Bytes o, mt; Wire w = m.w; w.taglen = m.scheme == S_CCM ? 16 : tl; model(m.scheme, m.id, w, m.pt, true, o, mt); (void)t;
    cipher_stream_init(e->st, m.id, modes[m.scheme], 0, w.key.data(), w.key.size(), w.iv.data(), w.iv.size());
    if (m.scheme == S_CCM) cipher_stream_set_ccm(e->st, o.size(), 16, w.aad.data(), w.aad.size()); else cipher_stream_set_aad(e->st, w.aad.data(), w.aad.size());
    Guard g(o.size()); cipher_stream_set_tag(e->st, mt.data(), mt.size()); cipher_stream_update(e->st, g.p(), &n, o.data(), o.size()); int r = cipher_stream_final(e->st, g.p(), &n);
    CHECK(r == 1 && g.get(o.size()) == m.pt, "honest-refused", "%s refused an honest message", sn[m.scheme]); c.fault("receiver-reused");
  }
  e->open(c);
  m.rx = std::move(e);
  if (m.tagged && !(style & 32)) m.rx->settag(c);
}
static void rend(Msg &m, Ctx &c) {
  if (!m.rx) recv(m, m.style >> 3, c);
  End &e = *m.rx;
  if (e.fed < e.in.size()) e.feed(e.in.size() - e.fed, e.style >> 4, c);
  if (m.tagged && !e.tagged && (e.style & 32)) e.settag(c);
  if (m.scheme == S_BOX && !m.tagged) { e.w.tag.clear(); e.in.resize(std::min<size_t>(e.in.size(), 15)); }
  bool got = e.verdict(c);
  Bytes pt, mt; bool want;
  if (m.scheme == S_BOX && e.w.tag.size() != 16) {   // the box is whatever arrived
    Bytes s = e.w.tag; s.insert(s.end(), e.in.begin(), e.in.end());
    if (s.size() < 16) want = false; else { Bytes ct(s.begin() + 16, s.end()); model(S_BOX, m.id, e.w, ct, false, pt, mt); want = !memcmp(mt.data(), s.data(), 16); }
  } else {
    model(m.scheme, m.id, e.w, e.in, false, pt, mt);
    want = m.tagged && e.w.tag.size() == e.w.taglen && !memcmp(mt.data(), e.w.tag.data(), e.w.taglen);
  }
  c.eval(); c.tr((u64)got); c.sh(0x900 + got); c.interesting = true; c.state(hash2(hash2((u64)m.scheme * 32 + (u64)m.id, e.w.iv.size() * 32 + e.w.taglen), hash2(e.in.size(), e.w.aad.size()) + want));
  if (!m.altered) CHECK(got, "honest-refused", "%s cipher %d refused an honest message of %zu bytes, aad %zu, nonce %zu, tag %zu", sn[m.scheme], (int)m.id, e.in.size(), e.w.aad.size(), e.w.iv.size(), e.w.taglen);
  if (want) CHECK(got, "valid-refused", "%s refused a message whose tag is right", sn[m.scheme]);
  else CHECK(!got, "altered-accepted", "%s cipher %d accepted an altered message of %zu bytes (sent %zu), aad %zu, nonce %zu, tag %zu", sn[m.scheme], (int)m.id, e.in.size(), m.w.ct.size(), e.w.aad.size(), e.w.iv.size(), e.w.taglen);
  if (got) { if (!e.verifyonly) CHECK(e.out == pt, "plaintext-differs", "%s recovered %s, sent %s", sn[m.scheme], hex(e.out).c_str(), hex(pt).c_str()); if (m.altered) c.probe("altered-but-same-or-tag-collision"); else if (!e.verifyonly) CHECK(e.out == m.pt, "plaintext-differs", "%s recovered something else", sn[m.scheme]); c.probe("accepted"); } else c.probe("refused");
  m.rx.reset(); m.net = m.w; m.tagged = true; m.altered = false;      // the channel may deliver it again
}
static void bad(const Step &st, Ctx &c) {
  int sc = (int)((u64)st.arg(0) % 3); cipher_id_t id = (cipher_id_t)((u64)st.arg(1) % NC); size_t bs = cipher_block_size(id), il = (u64)st.arg(2) % 20, tl = (u64)st.arg(3) % 20;
  Bytes key = seed_bytes(1, cipher_key_size(id)), iv = seed_bytes(2, il); Input k(key, 0), v(iv, 1);
  cipher_stream_t *s = (cipher_stream_t *)::malloc(sizeof *s); fill_bytes(9, s, sizeof *s);
  bool enc = st.arg(4) & 1, ok = sc == S_GCM ? bs == 16 : sc == S_CCM ? bs == 16 && il >= 7 : il > 0;
  int r = cipher_stream_init(s, id, modes[sc], enc, k.p, k.n, v.p, v.n), r2 = -1; c.fault("parameters");
  u8 buf[32] = {0}, tag[32] = {0}; size_t n;
  if (r && sc == S_CCM) {
    if (!enc) { CHECK(cipher_stream_set_tag(s, tag, tl % 17) == 0, "tag-length", "ccm took a tag before being told its length"); CHECK(cipher_stream_final(s, buf, &n) == 0, "altered-accepted", "ccm without set-up accepted"); }
    cipher_stream_init(s, id, modes[sc], enc, k.p, k.n, v.p, v.n);
    r2 = cipher_stream_set_ccm(s, 5, tl, nullptr, 0); ::free(s); s = nullptr;
    CHECK(r2 == (int)(tl >= 4 && tl <= 16 && tl % 2 == 0), "tag-length", "ccm with a tag of %zu bytes: %d", tl, r2);
  } else if (r && !enc) {
    Input t(seed_bytes(4, tl), 1); int r3 = cipher_stream_set_tag(s, t.p, t.n); bool okt = sc == S_GCM ? tl == 4 || tl == 8 || (tl >= 12 && tl <= 16) : tl >= 1 && tl <= bs;
    CHECK(r3 == (int)okt, "tag-length", "%s with a tag of %zu bytes: %d", sn[sc], tl, r3);
    if (!okt) CHECK(cipher_stream_final(s, buf, &n) == 0, "altered-accepted", "%s accepted without tag", sn[sc]);
  }
  ::free(s);
  CHECK(r == (int)ok, ok ? "valid-init-refused" : "bad-init-accepted", "%s cipher %d nonce %zu: returned %d", sn[sc], (int)id, il, r);
  c.eval(); c.sh(hash2(0xa00 + (u64)sc * 32 + (u64)id, il * 20 + tl));
}
// Lengths beyond 32 bits (in bits, or in bytes): one call, compared with another implementation.
static void do_huge(const Step &st, Ctx &c) {
  u64 kind = (u64)st.arg(0) % 4; u64 total = (kind & 1 ? 4ull << 30 : 512ull << 20) + 48 + (u64)st.arg(1) % 64; bool aad = kind & 2; bool cp = kind & 1;
  if (!map_huge((4ull << 30) + (64ull << 20)) || !map_sink((4ull << 30) + (64ull << 20))) { c.probe("huge-mapping-unavailable"); return; }
  Bytes key = seed_bytes((u64)st.arg(1), cp ? 32 : 16), iv = seed_bytes((u64)st.arg(1) + 1, 12); u8 t[16], e[16]; int l;
  // decrypting, because the sink is the same memory over and over
  if (cp) { chachapoly_t p; chachapoly_init(&p, key.data(), iv.data(), 12); if (aad) chachapoly_aad(&p, huge, total); else chachapoly_decrypt(&p, sink, huge, total); chachapoly_final(&p, t); }
  else { cipher_t ci; gcm_t g; cipher_init(&ci, CIPHER_AES128, key.data(), 16); gcm_init(&g, &ci, iv.data(), 12); if (aad) gcm_aad(&g, huge, total); else gcm_decrypt(&g, &ci, sink, huge, total); gcm_digest(&g, t); }
  EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_DecryptInit_ex(x, cp ? EVP_chacha20_poly1305() : EVP_aes_128_gcm(), nullptr, key.data(), iv.data());
  EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, t); u8 *o1 = (u8 *)::malloc(1 << 28), last[32] = {0};
  for (u64 o = 0; o < total; o += 1 << 28) { size_t n = std::min<u64>(1 << 28, total - o); EVP_DecryptUpdate(x, aad ? nullptr : o1, &l, huge + o, (int)n); if (o + n == total && !aad) memcpy(last, o1 + n - 32, 32); }
  int ok = EVP_DecryptFinal_ex(x, e, &l) == 1; EVP_CIPHER_CTX_free(x); ::free(o1);
  if (!aad) CHECK(!memcmp(last, sink + (total - 32) % HUGE_PAGE, 32), "plaintext-differs", "the end of a message of %llu bytes differs", (unsigned long long)total);
  c.eval(); c.tr(t, 16); c.interesting = true; c.sh(0xb00 + kind); c.probe("huge-message");
  CHECK(ok, "tag-differs", "%s with %llu bytes of %s: tag %s is not what another implementation expects", cp ? "chacha20-poly1305" : "aes128-gcm", (unsigned long long)total, aad ? "associated data" : "message", hex(t, 16).c_str());
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset();
  ms.clear(); ms.resize(6);
  for (auto &st : pl.steps) {
    c.step(); Msg *m = ms[(u64)st.arg(0) % 6].get();
    switch (st.op) {
      case OP_MSG: msg(st, c); break;
      case OP_FEED: if (m && !m->sent) m->tx->feed((size_t)((u64)st.arg(1) % 5000), (u64)st.arg(2), c); break;
      case OP_SEND: if (m) send(*m, c); break;
      case OP_FAULT: if (m) fault(*m, st, c); break;
      case OP_RECV: if (m) recv(*m, (u64)st.arg(1), c); break;
      case OP_RFEED: if (m && m->rx) m->rx->feed((size_t)((u64)st.arg(1) % 5000), (u64)st.arg(2), c); break;
      case OP_REND: if (m && m->sent) rend(*m, c); break;
      case OP_BAD: bad(st, c); break;
      case OP_HUGE: do_huge(st, c); break;
    }
  }
  for (auto &m : ms) if (m) { send(*m, c); rend(*m, c); }
  ms.clear();
}
static i64 len(Rng &r) { switch (r.below(5)) { case 0: return (i64)r.below(4); case 1: return 16 * (i64)r.below(6); case 2: return std::max<i64>(0, 16 * (i64)r.below(6) + r.range(-1, 1)); default: return (i64)r.below(r.chance(1, 20) ? 2000 : 120); } }
static Plan gen(Rng &r, const Cfg &cfg, u64 index) {
  Plan p;
  if (!strcmp(cfg.flavour, "fast") && index < 4) { p.add(OP_HUGE, {(i64)index, (i64)r.below(1 << 20)}); return p; }
  int ns = (int)r.range(1, 5), n = (int)r.range(2, 26); bool fav = r.chance(1, 2); int fs = (int)r.below(NS), fc = (int)r.below(NC);
  bool faulty = r.chance(3, 4);
  auto mk = [&](int s) {
    int sc = fav ? fs : (int)r.below(NS); i64 il = r.chance(1, 3) ? 12 : (i64)r.below(r.chance(1, 8) ? 200 : 40), al = r.chance(1, 4) ? 0 : len(r), pl = len(r);
    if (r.chance(1, 150)) al = 0xff00 + r.range(-2, 2);
    if (r.chance(1, 150)) pl = 65536 + r.range(-2, 20);
    if (r.chance(1, 6000)) pl = (1 << 24) + r.range(-2, 20);
    p.add(OP_MSG, {s, sc, fav && r.chance(1, 2) ? fc : (i64)r.below(NC), (i64)r.below(1 << 20), il, al, pl, (i64)r.below(64), r.chance(1, 3) ? (i64)r.below(54) + 1 : 0, (i64)r.below(512)});
  };
  for (int s = 0; s < ns; s++) mk(s);
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(ns); u64 k = r.below(24);
    if (k < 7) p.add(OP_FEED, {s, r.chance(1, 10) ? 0 : len(r) % 60, (i64)r.below(64)});
    else if (k < 9) p.add(OP_SEND, {s});
    else if (k < 13) { if (faulty) p.add(OP_FAULT, {s, (i64)r.below(NF), (i64)r.below(1 << 16), (i64)r.below(6)}); }
    else if (k < 15) p.add(OP_RECV, {s, (i64)r.below(512)});
    else if (k < 20) p.add(OP_RFEED, {s, r.chance(1, 10) ? 0 : len(r) % 60, (i64)r.below(64)});
    else if (k < 22) p.add(OP_REND, {s});
    else if (k < 23) mk(s);
    else p.add(OP_BAD, {(i64)r.below(3), (i64)r.below(NC), (i64)r.below(20), (i64)r.below(20), (i64)r.below(2)});
  }
  return p;
}
const Scenario scenario = {"C10", ops, gen, exec, nullptr, "conversations with at least one delivered message, distinct by scheme, cipher, sizes modulo the block, chunking, channel faults and verdicts", 120};
