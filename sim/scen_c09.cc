// C09: cipher streams in non-authenticating modes, any chunking, sizes announced, damaged input.
#include "world.h"
#include "cmodels.h"
#include "input.h"
enum { OP_OPEN, OP_UPDATE, OP_CRYPT, OP_FINAL, OP_STATIC, OP_DIRECT, OP_BADINIT, OP_PAD };
static const char *const ops[] = {"open", "update", "crypt", "final", "static", "direct", "badinit", "pad", nullptr};
static const int NC = CIPHER_TWOFISH256 + 1, NM = CIPHER_MODE_OFB + 1;
static const char *const mn[] = {"raw", "ecb", "cbc", "cts", "xts", "ctr", "cfb", "ofb"};
static const char *const cn[] = {"aes128", "aes192", "aes256", "arc2", "arc2-gutmann", "arc2-40", "arc2-64", "arc2-128", "arc2-128-gutmann", "blowfish", "camellia128", "camellia192", "camellia256", "cast5", "des", "des-ede", "des-ede3", "idea", "serpent128", "serpent192", "serpent256", "twofish128", "twofish192", "twofish256"};

struct Param { cipher_id_t id; mode_id_t mode; bool enc, pad; Bytes key, iv; size_t bs; };
struct Slot { cipher_stream_t *ctx = nullptr; Param p; Bytes in, out; Bytes src; size_t fed = 0; };
static std::vector<Slot> sl;
static void drop(Slot &s) { ::free(s.ctx); s = Slot(); }

static Param param(i64 cipher, i64 mode, i64 dir, i64 pad, i64 seed, i64 kl, i64 ivk) {
  Param p; p.id = (cipher_id_t)((u64)cipher % NC); p.mode = (mode_id_t)((u64)mode % NM); p.enc = dir & 1; p.pad = !(pad & 1); p.bs = cipher_block_size(p.id);
  size_t n = cipher_key_size(p.id);
  if (p.id == CIPHER_ARC2 || p.id == CIPHER_ARC2_GUTMANN) n = 1 + (u64)kl % 128;
  if (p.id == CIPHER_BLOWFISH) n = 1 + (u64)kl % 72;
  p.key = seed_bytes((u64)seed, p.mode == CIPHER_MODE_XTS ? 2 * n : n);
  if (p.mode == CIPHER_MODE_XTS && !memcmp(&p.key[0], &p.key[n], n)) p.key[0] ^= 1;
  if (p.mode >= CIPHER_MODE_CBC) {
    p.iv = seed_bytes((u64)seed + 1, p.bs);
    // counters about to carry through several bytes
    if (ivk > 0) for (size_t i = 0; i < std::min<size_t>((u64)ivk % 17, p.bs); i++) p.iv[p.bs - 1 - i] = i ? 0xff : (u8)(0xff - (u64)seed % 5);
  }
  return p;
}
// what the stream is to process: random data, or (decrypting) an encryption of it, perhaps damaged
static Bytes source(const Param &p, i64 len, i64 seed, i64 damage, Ctx &c) {
  Bytes d = seed_bytes((u64)seed, (size_t)((u64)len % 5000));
  if (p.enc) return d;
  Param e = p;
  if (!p.pad || p.mode == CIPHER_MODE_RAW) d.resize(d.size() / p.bs * p.bs);
  MResult r = mmode(e.id, e.mode, true, e.pad, e.key, e.iv, d);
  if (!r.ok) return d;
  Bytes x = r.out;
  switch ((u64)damage % 8) {
    case 1: if (!x.empty()) { x[(u64)damage / 8 % x.size()] ^= (u8)(1 << ((u64)damage / 8 % 8)); c.fault("bit-flip"); } break;
    case 2: if (!x.empty()) { x.resize((u64)damage / 8 % x.size()); c.fault("truncated"); } break;
    case 3: x.push_back((u8)damage); c.fault("extended"); break;
    case 4: if (x.size() >= p.bs) { x.resize(x.size() - p.bs); c.fault("block-dropped"); } break;
    case 5: {          // doctored padding under the known key: an arbitrary last byte pattern
      if (p.mode != CIPHER_MODE_ECB && p.mode != CIPHER_MODE_CBC) break;
      Bytes q = d; size_t want = (u64)damage / 8 % (2 * p.bs + 2); size_t l = p.bs - q.size() % p.bs;
      q.insert(q.end(), l, (u8)want);
      if ((u64)damage / 1024 % 2 && l > 1) q[q.size() - 2 - (u64)damage / 2048 % (l - 1)] ^= 1;
      if ((u64)damage / 1024 % 3 == 2 && want >= 1 && want <= p.bs) for (size_t i = 0; i < want; i++) q[q.size() - 1 - i] = (u8)want;
      x = mmode(e.id, e.mode, true, false, e.key, e.iv, q).out; c.fault("doctored-padding");
      break;
    }
    case 6: if (x.size() >= 2 * p.bs) { std::swap_ranges(x.begin(), x.begin() + p.bs, x.begin() + p.bs); c.fault("blocks-swapped"); } break;
  }
  return x;
}
static void open(Slot &s, const Step &st, Ctx &c) {
  // slot, cipher, mode, dir, pad, seed, keylen, ivk, len, damage
  bool reuse = s.ctx && (st.arg(5) & 1); cipher_stream_t *old = s.ctx;
  if (!reuse) { drop(s); old = (cipher_stream_t *)::malloc(sizeof(cipher_stream_t)); fill_bytes((u64)st.arg(5) + 3, old, sizeof *old); } else c.fault("reopened-in-place");
  s = Slot(); s.ctx = old;
  s.p = param(st.arg(1), st.arg(2), st.arg(3), st.arg(4), st.arg(5), st.arg(6), st.arg(7));
  Input k(s.p.key, 1), iv(s.p.iv, 2);
  int r = cipher_stream_init(s.ctx, s.p.id, s.p.mode, s.p.enc, k.p, k.n, iv.p, iv.n);
  k.check("init"); iv.check("init");
  CHECK(r == 1, "valid-init-refused", "%s-%s with a %zu-byte key was refused", cn[s.p.id], mn[s.p.mode], s.p.key.size());
  bool settable = s.p.mode >= CIPHER_MODE_ECB && s.p.mode <= CIPHER_MODE_XTS;
  if (settable && (!s.p.pad || (st.arg(4) & 2))) CHECK(cipher_stream_set_padding(s.ctx, s.p.pad) == 1, "padding-refused", "choosing padding before any data was refused");
  if (!settable) { s.p.pad = true; CHECK(cipher_stream_set_padding(s.ctx, 0) == 0, "padding-accepted", "%s accepted a padding option it does not have", mn[s.p.mode]); }
  s.src = source(s.p, st.arg(8), st.arg(5) + 7, st.arg(9), c);
  c.sh(hash2((u64)s.p.id * 64 + (u64)s.p.mode * 4 + s.p.enc * 2 + s.p.pad, s.src.size() % s.p.bs));
}
static void update(Slot &s, size_t n, u64 place, Ctx &c) {
  n = std::min(n, s.src.size() - s.fed);
  Bytes in(s.src.begin() + s.fed, s.src.begin() + s.fed + n);
  size_t cap = cipher_stream_update_size(s.ctx, n), got = 12345;
  bool inplace = s.p.mode > CIPHER_MODE_XTS && (place & 1);
  CHECK(cap <= CIPHER_MAX_UPDATE_SIZE(n), "announced-too-much", "update of %zu bytes announces %zu", n, cap);
  Guard g(std::max(cap, inplace ? n : 0), place, place % 8);
  if (inplace) { CHECK(cap == n, "size-differs", "stream mode announces %zu for %zu bytes", cap, n); memcpy(g.p(), in.data(), n); cipher_stream_update(s.ctx, g.p(), &got, g.p(), n); c.fault("in-place"); }
  else { Input i(in, (place >> 3) % 8); cipher_stream_update(s.ctx, g.p(), &got, i.p, n); i.check("update"); }
  g.check("update");
  CHECK(got <= cap, "more-than-announced", "%s-%s update returned %zu bytes, announced %zu", cn[s.p.id], mn[s.p.mode], got, cap);
  if (s.p.mode > CIPHER_MODE_XTS) CHECK(got == n, "size-differs", "stream mode returned %zu bytes for %zu", got, n);
  Bytes o = g.get(got); s.out.insert(s.out.end(), o.begin(), o.end()); s.in.insert(s.in.end(), in.begin(), in.end()); s.fed += n;
  c.fault(n ? "cut" : "empty-update"); c.sh(n % s.p.bs);
}
static void finish(Slot &s, u64 place, Ctx &c) {
  if (s.fed < s.src.size()) update(s, s.src.size() - s.fed, place, c);
  size_t cap = cipher_stream_final_size(s.ctx), got = 0;
  CHECK(cap <= CIPHER_MAX_FINAL_SIZE, "announced-too-much", "final announces %zu", cap);
  Guard g(cap, place, place % 8);
  int r = cipher_stream_final(s.ctx, g.p(), &got);
  g.check("final");
  MResult m = mmode(s.p.id, s.p.mode, s.p.enc, s.p.pad, s.p.key, s.p.iv, s.in);
  c.eval(); c.interesting = true; c.tr((u64)r); c.state(hash2(hash2((u64)s.p.id * 64 + (u64)s.p.mode * 4 + s.p.enc * 2 + s.p.pad, s.in.size()), m.ok));
  c.sh(0x100 + (u64)r);
  const char *what = s.p.enc ? "encrypting" : "decrypting";
  if (!m.ok) { c.probe("input-to-be-refused"); CHECK(r == 0, "malformed-accepted", "%s-%s %s %zu bytes (padding %d) succeeded although no encryption produces that input", cn[s.p.id], mn[s.p.mode], what, s.in.size(), s.p.pad); }
  else {
    CHECK(r == 1, "valid-refused", "%s-%s %s %zu bytes (padding %d) failed", cn[s.p.id], mn[s.p.mode], what, s.in.size(), s.p.pad);
    CHECK(got <= cap, "more-than-announced", "final returned %zu bytes, announced %zu", got, cap);
    Bytes o = g.get(got); s.out.insert(s.out.end(), o.begin(), o.end()); c.tr(s.out);
    CHECK(s.out == m.out, "output-differs", "%s-%s %s %zu bytes: output %s, definition %s", cn[s.p.id], mn[s.p.mode], what, s.in.size(), hex(s.out).c_str(), hex(m.out).c_str());
  }
  drop(s);
}
static void do_static(const Step &st, Ctx &c) {
  // cipher, mode, dir, -, seed, keylen, ivk, len, damage
  Param p = param(st.arg(0), st.arg(1), st.arg(2), 0, st.arg(4), st.arg(5), st.arg(6));
  Bytes in = source(p, st.arg(7), st.arg(4) + 7, st.arg(8), c);
  MResult m = mmode(p.id, p.mode, p.enc, true, p.key, p.iv, in);
  Input k(p.key, 1), iv(p.iv, 2), i(in, 3); Guard g(p.enc ? CIPHER_MAX_ENCRYPT_SIZE(in.size()) : CIPHER_MAX_DECRYPT_SIZE(in.size())); size_t n = 999;
  int r = (p.enc ? cipher_static_encrypt : cipher_static_decrypt)(g.p(), &n, p.id, p.mode, k.p, k.n, iv.p, iv.n, i.p, i.n);
  g.check("static"); i.check("static"); c.eval(); c.interesting = true; c.tr((u64)r); c.sh(hash2(0x200 + (u64)p.id * 64 + (u64)p.mode * 4 + p.enc, in.size() % p.bs + 32 * (u64)r));
  CHECK(r == (int)m.ok, m.ok ? "valid-refused" : "malformed-accepted", "one-shot %s-%s of %zu bytes returned %d", cn[p.id], mn[p.mode], in.size(), r);
  if (r) CHECK(g.get(n) == m.out, "output-differs", "one-shot %s-%s of %zu bytes differs from the definition", cn[p.id], mn[p.mode], in.size());
}
// The per-mode functions, in block multiples (or any lengths for stream modes), in place or not.
static void do_direct(const Step &st, Ctx &c) {
  Param p = param(st.arg(0), st.arg(1), st.arg(2), 0, st.arg(4), st.arg(5), st.arg(6));
  size_t bs = p.bs; bool xts = p.mode == CIPHER_MODE_XTS, stream = p.mode > CIPHER_MODE_XTS, steal = st.arg(8) & 1;
  Bytes in = seed_bytes((u64)st.arg(4) + 9, (size_t)((u64)st.arg(7) % 700));
  bool can_steal = p.mode == CIPHER_MODE_ECB || p.mode == CIPHER_MODE_CTS || xts;
  if (!stream && !(steal && can_steal && in.size() >= bs)) { in.resize(in.size() / bs * bs); steal = false; }
  if (stream) steal = false;
  if (p.mode == CIPHER_MODE_CTS && !steal) p.mode = CIPHER_MODE_CBC;
  Bytes k1 = p.key, k2; if (xts) { k2.assign(k1.begin() + k1.size() / 2, k1.end()); k1.resize(k1.size() / 2); }
  cipher_t ci; fill_bytes(7, &ci, sizeof ci); CHECK(cipher_init(&ci, p.id, k1.data(), k1.size()), "valid-init-refused", "key refused");
  cbc_t cbc; xts_t x; ctr_t ctr; cfb_t cfb; ofb_t ofb; fill_bytes(8, &cbc, sizeof cbc); fill_bytes(8, &x, sizeof x); fill_bytes(8, &ctr, sizeof ctr); cfb = ctr; ofb = ctr;
  switch (p.mode) { case CIPHER_MODE_CBC: case CIPHER_MODE_CTS: cbc_init(&cbc, &ci, p.iv.data()); break; case CIPHER_MODE_XTS: xts_init(&x, &ci, p.iv.data()); CHECK(xts_setup(&x, &ci, k2.data(), k2.size()), "valid-init-refused", "xts setup refused"); break;
    case CIPHER_MODE_CTR: ctr_init(&ctr, &ci, p.iv.data()); break; case CIPHER_MODE_CFB: cfb_init(&cfb, &ci, p.iv.data()); break; case CIPHER_MODE_OFB: ofb_init(&ofb, &ci, p.iv.data()); break; default: break; }
  Guard g(in.size(), 3, (u64)st.arg(8) % 8);
  size_t end = steal ? in.size() / bs * bs : in.size(), off = 0; Rng r((u64)st.arg(4) * 31 + (u64)st.arg(8));
  while (off < end) {
    size_t n = stream ? r.below(40) : bs * r.below(5); n = std::min(n, end - off);
    u8 *d = g.p() + off; Input i(Bytes(in.begin() + off, in.begin() + off + n), r.below(8)); const u8 *s = i.p;
    if (r.chance(1, 2)) { if (n) memcpy(d, i.p, n); s = d; c.fault("in-place"); }
    switch (p.mode) {
      case CIPHER_MODE_RAW: case CIPHER_MODE_ECB: (p.enc ? ecb_encrypt : ecb_decrypt)(&ci, d, s, n); break;
      case CIPHER_MODE_CBC: case CIPHER_MODE_CTS: (p.enc ? cbc_encrypt : cbc_decrypt)(&cbc, &ci, d, s, n); break;
      case CIPHER_MODE_XTS: (p.enc ? xts_encrypt : xts_decrypt)(&x, &ci, d, s, n); break;
      case CIPHER_MODE_CTR: ctr_crypt(&ctr, &ci, d, s, n); break;
      case CIPHER_MODE_CFB: (p.enc ? cfb_encrypt : cfb_decrypt)(&cfb, &ci, d, s, n); break;
      default: ofb_crypt(&ofb, &ci, d, s, n); break;
    }
    off += n; c.fault("cut");
  }
  g.check("mode function");
  MResult m;
  if (steal) {
    size_t t = in.size() - end; Guard tail(t); if (t) memcpy(tail.p(), &in[end], t); u8 *last = g.p() + end - bs;
    if (p.mode == CIPHER_MODE_ECB) (p.enc ? ecb_steal : ecb_unsteal)(&ci, last, tail.p(), t);
    else if (xts) (p.enc ? xts_steal : xts_unsteal)(&x, &ci, last, tail.p(), t);
    else (p.enc ? cbc_steal : cbc_unsteal)(&cbc, &ci, last, tail.p(), t);
    tail.check("steal"); g.check("steal"); c.probe("ciphertext-stealing");
    if (t) memcpy(g.p() + end, tail.p(), t);
    if (p.mode == CIPHER_MODE_ECB) {
      // E(P_n || tail of E(P_{n-1})) then the head of E(P_{n-1})
      auto b = mblock(p.id, k1); m.ok = true; m.out = in; size_t l = end - bs;
      for (size_t i = 0; i < end; i += bs) { if (p.enc) b->enc(&in[i], &m.out[i]); else b->dec(&in[i], &m.out[i]); }
      for (size_t i = 0; i < t; i++) std::swap(m.out[l + i], m.out[end + i]);
      if (p.enc) b->enc(&m.out[l], &m.out[l]); else b->dec(&m.out[l], &m.out[l]);
    } else m = mmode(p.id, p.mode, p.enc, true, p.key, p.iv, in);
  } else m = mmode(p.id, p.mode, p.enc, false, p.key, p.iv, in);
  c.eval(); c.interesting = true; c.tr(g.p(), in.size()); c.sh(hash2(0x300 + (u64)p.id * 64 + (u64)p.mode * 4 + p.enc * 2 + steal, in.size() % bs));
  CHECK(m.ok && g.get(in.size()) == m.out, "output-differs", "%s-%s mode functions %s %zu bytes%s: %s, definition %s", cn[p.id], mn[p.mode], p.enc ? "encrypting" : "decrypting", in.size(), steal ? " with stealing" : "", hex(g.get(in.size())).c_str(), hex(m.out).c_str());
}
static void bad_init(const Step &st, Ctx &c) {
  Param p = param(st.arg(0), st.arg(1), st.arg(2), 0, st.arg(4), st.arg(5), 0);
  Bytes key = p.key, iv = p.iv; size_t kn = key.size(), in = iv.size();
  switch ((u64)st.arg(6) % 5) {
    case 0: kn = (u64)st.arg(7) % 140; key = seed_bytes(5, kn); break;
    case 1: in = (u64)st.arg(7) % 40; iv = seed_bytes(6, in); break;
    case 2: if (p.mode == CIPHER_MODE_XTS) for (size_t i = 0; i < kn / 2; i++) key[kn / 2 + i] = key[i]; break;
    case 3: iv.clear(); in = 0; break;
    default: key.clear(); kn = 0; break;
  }
  bool ok = p.mode == CIPHER_MODE_XTS ? kn > 0 && kn % 2 == 0 && key_ok(p.id, kn / 2) && memcmp(&key[0], &key[kn / 2], kn / 2) : key_ok(p.id, kn);
  ok = ok && in == (p.mode >= CIPHER_MODE_CBC ? p.bs : 0);
  cipher_stream_t *s = (cipher_stream_t *)::malloc(sizeof *s); fill_bytes(9, s, sizeof *s);
  Input k(key, 1), v(iv, 2);
  int r = cipher_stream_init(s, p.id, p.mode, p.enc, k.p, k.n, v.p, v.n); ::free(s);
  c.eval(); c.tr((u64)r); c.sh(hash2(0x400 + (u64)p.id * 64 + (u64)p.mode, kn * 64 + in)); c.fault(ok ? "good-parameters" : "bad-parameters");
  CHECK(r == (int)ok, ok ? "valid-init-refused" : "bad-init-accepted", "%s-%s with key of %zu and iv of %zu bytes: returned %d", cn[p.id], mn[p.mode], kn, in, r);
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset();
  for (auto &s : sl) drop(s);
  sl.assign(5, Slot());
  for (auto &st : pl.steps) {
    c.step();
    Slot &s = sl[(u64)st.arg(0) % 5];
    switch (st.op) {
      case OP_OPEN: if (s.ctx && s.fed) c.fault("abandoned"); open(s, st, c); break;
      case OP_UPDATE: if (s.ctx) update(s, (size_t)((u64)st.arg(1) % 3000), (u64)st.arg(2), c); break;
      case OP_CRYPT: {
        if (!s.ctx) break;
        size_t n = std::min((size_t)((u64)st.arg(1) % 500), s.src.size() - s.fed);
        bool stream = s.p.mode > CIPHER_MODE_XTS, holds = s.p.pad && (s.p.mode == CIPHER_MODE_CTS || s.p.mode == CIPHER_MODE_XTS || (!s.p.enc && s.p.mode != CIPHER_MODE_RAW && !stream));
        bool ok = stream || (!holds && s.in.size() % s.p.bs == 0 && n % s.p.bs == 0);
        Guard g(n, 1, (u64)st.arg(2) % 8); if (n) memcpy(g.p(), &s.src[s.fed], n); Bytes before = g.get(n);
        int r = cipher_stream_crypt(s.ctx, g.p(), g.p(), n); g.check("crypt"); c.eval(); c.fault("in-place"); c.sh(0x500 + n % s.p.bs + 64 * (u64)ok);
        CHECK(r == (int)ok, "crypt-decision", "%s-%s in-place call of %zu bytes returned %d", cn[s.p.id], mn[s.p.mode], n, r);
        if (r) { Bytes o = g.get(n); s.out.insert(s.out.end(), o.begin(), o.end()); s.in.insert(s.in.end(), before.begin(), before.end()); s.fed += n; }
        else CHECK(g.get(n) == before, "crypt-decision", "a refused in-place call changed the data");
        break;
      }
      case OP_FINAL: if (s.ctx) finish(s, (u64)st.arg(1), c); break;
      case OP_STATIC: do_static(st, c); break;
      case OP_DIRECT: do_direct(st, c); break;
      case OP_BADINIT: bad_init(st, c); break;
    }
  }
  for (auto &s : sl) if (s.ctx) finish(s, 5, c);
}
static i64 len(Rng &r, i64 b) { switch (r.below(6)) { case 0: return (i64)r.below(4); case 1: return b * (i64)r.below(6); case 2: return std::max<i64>(0, b * (i64)r.below(6) + r.range(-1, 1)); case 3: return (i64)r.below((u64)b * 3); default: return (i64)r.below(r.chance(1, 20) ? 3000 : 200); } }
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int ns = (int)r.range(1, 4), n = (int)r.range(2, 24);
  int fc = (int)r.below(NC), fm = (int)r.below(NM); bool fav = r.chance(1, 2);
  std::vector<i64> bs(ns, 16);
  auto dmg = [&]() -> i64 { return r.chance(1, 2) ? 0 : (i64)r.below(1 << 16); };
  auto op = [&](int s) { int ci = fav ? fc : (int)r.below(NC), m = fav && r.chance(2, 3) ? fm : (int)r.below(NM); bs[s] = ci >= CIPHER_ARC2 && ci <= CIPHER_BLOWFISH ? 8 : ci >= CIPHER_CAST5 && ci <= CIPHER_IDEA ? 8 : 16;
    p.add(OP_OPEN, {s, ci, m, (i64)r.below(2), r.chance(1, 4) ? 1 : (i64)r.below(2) * 2, (i64)r.below(1 << 20), (i64)r.below(128), r.chance(1, 3) ? (i64)r.below(17) : 0, len(r, bs[s]), dmg()}); };
  for (int s = 0; s < ns; s++) op(s);
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(ns); u64 k = r.below(24);
    if (k < 14) p.add(OP_UPDATE, {s, r.chance(1, 12) ? 0 : len(r, bs[s]) % 120, (i64)r.below(64)});
    else if (k < 16) p.add(OP_CRYPT, {s, r.chance(2, 3) ? bs[s] * (i64)r.below(5) : (i64)r.below(60), (i64)r.below(8)});
    else if (k < 19) { p.add(OP_FINAL, {s, (i64)r.below(8)}); op(s); }
    else if (k < 20) op(s);
    else if (k < 21) p.add(OP_STATIC, {(i64)r.below(NC), (i64)r.below(NM), (i64)r.below(2), 0, (i64)r.below(1 << 20), (i64)r.below(128), (i64)r.below(17), len(r, 16), dmg()});
    else if (k < 23) p.add(OP_DIRECT, {(i64)r.below(NC), (i64)r.below(NM), (i64)r.below(2), 0, (i64)r.below(1 << 20), (i64)r.below(128), (i64)r.below(17), len(r, 16), (i64)r.below(16)});
    else p.add(OP_BADINIT, {(i64)r.below(NC), (i64)r.below(NM), (i64)r.below(2), 0, (i64)r.below(1 << 20), (i64)r.below(128), (i64)r.below(5), (i64)r.below(140)});
  }
  return p;
}
const Scenario scenario = {"C09", ops, gen, exec, nullptr, "histories with at least one finished stream, distinct by ciphers, modes, directions, padding, chunk lengths modulo the block size and outcomes", 60};
