// C12: signers, a faulty channel and verifiers, over every curve and signature scheme.
#include "world.h"
#include "emodels.h"
#include "input.h"
#include <unordered_map>
extern "C" {
#include <torsion/ecc.h>
}
enum { OP_KEY, OP_SIGN, OP_CRAFT, OP_FAULT, OP_VERIFY, OP_BATCH, OP_RECOVER, OP_ENCODE, OP_SCRATCH };
static const char *const ops[] = {"key", "sign", "craft", "fault", "verify", "batch", "recover", "encode", "scratch", nullptr};
enum { S_ECDSA, S_SCHNORR, S_BIP340, S_EDDSA, NS };
static const char *const sn[] = {"ecdsa", "schnorr", "bip340", "eddsa"};
static const int NF = 22, NR = 8, NK = 4, NSCR = 2;

static wei_curve_t *wc[6]; static edwards_curve_t *ecv[3];
static void init(const Cfg &) {
  for (int i = 0; i < 6; i++) { mwei(i); wc[i] = wei_curve_create((wei_curve_id_t)i); }
  for (int i = 0; i < 3; i++) { med(i); ecv[i] = edwards_curve_create((edwards_curve_id_t)i); }
}
struct Key { bool ed; int curve; Bytes priv; Z a; Bytes pub; };
struct Rec { int scheme, curve; Bytes msg, sig, pub; int ph = -1; Bytes ctx; unsigned param = 0; bool honest = false, altered = false; bool live = false; };
static Key keys[NK]; static bool havek[NK]; static Rec recs[NR];
struct Scr { bool ed; int curve; size_t size; void *p; u64 uses; };
static std::vector<Scr> scrs;
static std::unordered_map<u64, int> memo;

static Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string cname(const Rec &r) { return r.scheme == S_EDDSA ? med(r.curve).name : mwei(r.curve).name; }
static bool model(const Rec &r, bool cof) {
  u64 h = hash2((u64)r.scheme * 8 + (u64)r.curve, (u64)r.ph * 2 + cof); for (auto *b : {&r.msg, &r.sig, &r.pub, &r.ctx}) h = hash_bytes(b->data(), b->size(), h + b->size());
  auto it = memo.find(h); if (it != memo.end()) return it->second;
  bool v; switch (r.scheme) {
    case S_ECDSA: v = mwei(r.curve).ecdsa(r.msg, r.sig, r.pub); break;
    case S_SCHNORR: v = mwei(r.curve).schnorr(r.msg, r.sig, r.pub); break;
    case S_BIP340: v = mwei(r.curve).bip340(r.msg, r.sig, r.pub); break;
    default: v = med(r.curve).verify(r.msg, r.sig, r.pub, r.ph, r.ctx, cof);
  }
  memo[h] = v; return v;
}
// A scalar at or near a place where implementations split, recode or reduce.
static Z special(const Z &n, u64 kind, u64 seed, int curve, bool ed) {
  Z one = 1; unsigned nb = (unsigned)mpz_sizeinbase(n.get_mpz_t(), 2); Z v;
  static const Z lambda("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16);
  switch (kind % 12) {
    case 0: v = (long)(1 + seed % 20); break;
    case 1: v = n - (long)(1 + seed % 20); break;
    case 2: v = (n - 1) / 2 + (long)(seed % 5) - 2; break;
    case 3: v = one << (seed % nb); break;
    case 4: v = (one << (1 + seed % (nb - 1))) - 1; break;
    case 5: { v = 0; Rng r(seed); for (unsigned i = 0; i < nb;) { unsigned l = 1 + (unsigned)r.below(40); if (r.chance(1, 2)) v |= ((one << l) - 1) << i; i += l; } break; }
    case 6: if (!ed && curve == 5) { v = lambda * (long)(1 + seed % 6); if (seed & 64) v += (long)(seed % 9); if (seed & 128) v = -v; break; }   // fallthrough
    case 7: v = n / (long)(2 + seed % 15) + (long)(seed / 16 % 5) - 2; break;
    case 8: { Bytes b = seed_bytes(seed, nb / 16); v = z_be(b); break; }                                  // half length
    case 9: { Bytes b = seed_bytes(seed, nb / 16); v = n - z_be(b); break; }
    case 10: { Bytes b = seed_bytes(seed, nb / 8); for (auto &x : b) x = (x & 1) ? 0xff : 0; v = z_be(b); break; }
    default: { Bytes b = seed_bytes(seed, nb / 8 + 8); v = z_be(b); }
  }
  v = zmod(v, n); return v;
}
static void mkkey(const Step &st, Ctx &c) {
  int slot = (int)((u64)st.arg(0) % NK); Key &k = keys[slot]; int cv = (int)((u64)st.arg(1) % 9); u64 seed = (u64)st.arg(2); u64 kind = (u64)st.arg(3);
  k.ed = cv >= 6; k.curve = cv % 6; if (k.ed) k.curve = cv - 6; havek[slot] = true;
  if (!k.ed) {
    const MWei &m = mwei(k.curve); Bytes ent = seed_bytes(seed, 32); Guard g(m.ss);
    if (kind) { k.a = special(m.n, kind - 1, seed, k.curve, false); if (k.a == 0) k.a = 1; k.priv = m.scalar(k.a); c.probe("special-key"); }
    else { ecdsa_privkey_generate(wc[k.curve], g.p(), ent.data()); g.check("privkey_generate"); k.priv = g.get(m.ss); k.a = z_be(k.priv); }
    CHECK(ecdsa_privkey_verify(wc[k.curve], k.priv.data()) == 1, "key-refused", "%s refused a valid private key", m.name.c_str());
    Guard p(1 + 2 * m.fs); size_t l = 0; bool comp = seed & 1; CHECK(ecdsa_pubkey_create(wc[k.curve], p.p(), &l, k.priv.data(), comp) == 1, "key-refused", "no public key"); p.check("pubkey_create");
    k.pub = p.get(l); Bytes want = m.encode(m.mulg(k.a), comp); c.eval();
    CHECK(k.pub == want, "public-key-differs", "%s: public key of %s is %s, the mathematics says %s", m.name.c_str(), hex(k.priv).c_str(), hex(k.pub).c_str(), hex(want).c_str());
  } else {
    const MEd &m = med(k.curve); Guard g(m.as); Bytes ent = seed_bytes(seed, 32), pre; eddsa_privkey_generate(ecv[k.curve], g.p(), ent.data()); g.check("privkey_generate"); k.priv = g.get(m.as); m.expand(k.priv, k.a, pre);
    Guard p(m.as); eddsa_pubkey_create(ecv[k.curve], p.p(), k.priv.data()); p.check("pubkey_create"); k.pub = p.get(m.as); Bytes want = m.encode(m.mulg(k.a)); c.eval();
    CHECK(k.pub == want, "public-key-differs", "%s: public key of %s is %s, the mathematics says %s", m.name.c_str(), hex(k.priv).c_str(), hex(k.pub).c_str(), hex(want).c_str());
  }
  c.tr(k.pub); c.sh(hash2((u64)cv, kind));
}
static int scheme_for(const Key &k, u64 s) { if (k.ed) return S_EDDSA; int sc = (int)(s % 3); if (sc == S_SCHNORR && k.curve == 1) sc = S_BIP340; return sc; }
static void options(Rec &r, u64 opt) { static const i64 phs[] = {-1, -1, 0, 1}; r.ph = (int)phs[opt % 4]; r.ctx.clear(); u64 l = opt / 4; if (r.ph != -1 || (l & 1)) r.ctx = seed_bytes(l, l % 5 == 0 ? 0 : l % 7 == 0 ? 255 : l % 40); }
static void sign(const Step &st, Ctx &c) {
  // record, key, scheme, message seed, length, options
  const Key *kp = nullptr; for (int i = 0; i < NK && !kp; i++) { int s = (int)(((u64)st.arg(1) + (u64)i) % NK); if (havek[s]) kp = &keys[s]; } if (!kp) return;
  const Key &k = *kp; Rec r; r.scheme = scheme_for(k, (u64)st.arg(2)); r.curve = k.curve; r.msg = seed_bytes((u64)st.arg(3), (u64)st.arg(4) % 3000); u64 opt = (u64)st.arg(5); r.honest = true; r.live = true;
  if (opt % 11 == 0) { u8 v = (opt % 2) ? 0xff : 0; std::fill(r.msg.begin(), r.msg.end(), v); }
  Input im(r.msg, opt % 4), ip(k.priv, 1); const u8 *msg = r.msg.empty() && (opt & 1) ? nullptr : im.p; r.pub = k.pub;
  if (r.scheme != S_EDDSA) {
    const MWei &m = mwei(k.curve); wei_curve_t *ec = wc[k.curve]; Guard g(r.scheme == S_ECDSA ? 2 * m.ss : m.fs + m.ss); int ok;
    if (r.scheme == S_ECDSA) { ok = ecdsa_sign(ec, g.p(), (opt & 8) ? nullptr : &r.param, msg, im.n, ip.p); if (opt & 8) r.param = 99; }
    else if (r.scheme == S_SCHNORR) ok = bipschnorr_sign(ec, g.p(), msg, im.n, ip.p);
    else { Bytes aux = seed_bytes(opt, 32); ok = bip340_sign(ec, g.p(), msg, im.n, ip.p, (opt & 2) ? aux.data() : nullptr); Guard q(m.fs); CHECK(bip340_pubkey_create(ec, q.p(), ip.p) == 1, "key-refused", "no public key"); q.check("pubkey_create"); r.pub = q.get(m.fs); CHECK(r.pub == b_be(m.mulg(k.a).x, m.fs), "public-key-differs", "%s x-only key differs", m.name.c_str()); }
    g.check("sign"); im.check("sign"); ip.check("sign"); r.sig = g.get(g.n);
    CHECK(ok == 1, "sign-failed", "%s on %s failed to sign", sn[r.scheme], m.name.c_str());
  } else {
    const MEd &m = med(k.curve); edwards_curve_t *ec = ecv[k.curve]; options(r, opt); Guard g(2 * m.as); const u8 *ctx = r.ctx.empty() ? nullptr : r.ctx.data(); u64 v = opt / 64 % 5;
    if (v == 1) { Guard s(m.ss), p(m.as); eddsa_privkey_expand(ec, s.p(), p.p(), ip.p); s.check("expand"); p.check("expand"); eddsa_sign_with_scalar(ec, g.p(), msg, im.n, s.p(), p.p(), r.ph, ctx, r.ctx.size()); }
    else if (v == 2 || v == 3) {
      Bytes tw = b_le(special(m.n, opt, (u64)st.arg(3), k.curve, true), m.ss); Guard p(m.as); int ok;
      if (v == 2) { eddsa_sign_tweak_add(ec, g.p(), msg, im.n, ip.p, tw.data(), r.ph, ctx, r.ctx.size()); ok = eddsa_pubkey_tweak_add(ec, p.p(), k.pub.data(), tw.data()); }
      else { eddsa_sign_tweak_mul(ec, g.p(), msg, im.n, ip.p, tw.data(), r.ph, ctx, r.ctx.size()); ok = eddsa_pubkey_tweak_mul(ec, p.p(), k.pub.data(), tw.data()); }
      p.check("tweak"); CHECK(ok == 1, "key-refused", "tweaking a public key failed"); r.pub = p.get(m.as); Z t = z_le(tw.data(), m.ss); Bytes want = m.encode(m.mulg(v == 2 ? Z(k.a + t) : Z(k.a * t)));
      CHECK(r.pub == want, "public-key-differs", "%s tweaked key %s, should be %s", m.name.c_str(), hex(r.pub).c_str(), hex(want).c_str()); c.probe("tweaked-signer");
    } else eddsa_sign(ec, g.p(), msg, im.n, ip.p, r.ph, ctx, r.ctx.size());
    g.check("sign"); im.check("sign"); ip.check("sign"); r.sig = g.get(g.n);
  }
  c.eval(); c.tr(r.sig); c.sh(hash2(0x100 + (u64)r.scheme * 8 + (u64)r.curve, r.msg.size() % 67)); c.interesting = true;
  CHECK(model(r, false), "honest-signature-invalid", "%s on %s: the signature %s over %zu bytes is not valid", sn[r.scheme], cname(r).c_str(), hex(r.sig, 140).c_str(), r.msg.size());
  recs[(u64)st.arg(0) % NR] = r;
}
// Signatures no honest signer would produce, valid or not: the model knows which.
static void craft(const Step &st, Ctx &c) {
  const Key *kp = nullptr; for (int i = 0; i < NK && !kp; i++) { int s = (int)(((u64)st.arg(1) + (u64)i) % NK); if (havek[s]) kp = &keys[s]; } if (!kp) return;
  const Key &k = *kp; Rec r; r.scheme = scheme_for(k, (u64)st.arg(2)); r.curve = k.curve; r.live = true; r.altered = true; u64 seed = (u64)st.arg(3), kind = (u64)st.arg(4), o = (u64)st.arg(5); r.msg = seed_bytes(seed, 32);
  const char *what = "?";
  if (r.scheme != S_EDDSA) {
    const MWei &m = mwei(k.curve); const Z &n = m.n; Z s, rr, mm;
    if (r.scheme == S_ECDSA) {
      if (kind % 3 == 0) {
        // any pair of multipliers the verifier will meet
        Z u2 = special(n, o, seed, k.curve, false), u1 = special(n, o / 16, seed / 3, k.curve, false); if (u2 == 0) u2 = 1;
        switch (o / 256 % 6) { case 0: u1 = 0; break; case 1: u1 = zmod(-u2 * k.a, n); break; case 2: u1 = zmod(u2 * k.a, n); break; case 3: u1 = u2; break; }
        Pt R = m.mulg(zmod(u1 + u2 * k.a, n));
        if (R.inf) { rr = special(n, 11, seed + 9, k.curve, false); what = "nonce-point-infinite"; } else { rr = zmod(R.x, n); what = "chosen-multipliers"; }
        s = zmod(rr * zinv(u2, n), n); mm = zmod(u1 * s, n); if (s > (n - 1) / 2) s = n - s;          if (s == 0 || rr == 0) return;
        r.pub = m.encode(m.mulg(k.a), seed & 1);
      } else {
        // nonce points whose coordinate lies at the ends of the field: the key is whatever makes it fit
        Z gap = m.p - n; Pt R; Z x; if (gap <= 0) return; bool wrap = kind % 3 == 1, bogus = (o & 3) == 3;
        for (Z d = (long)(seed % 1000);; d++) {
          if (bogus) { x = d % gap; if (m.lift(x, o & 4 ? 1 : 0, R)) { rr = x + gap; break; } }          // r + n is this point's coordinate plus p
          else if (wrap) { x = (o & 8) ? Z(m.p - 1 - d) : Z(n + d); if (x < n || x >= m.p) return; if (m.lift(x, o & 4 ? 1 : 0, R)) { rr = x - n; break; } }
          else { x = (o & 8) ? Z(n - 1 - d) : Z(d + 1); if (m.lift(x, o & 4 ? 1 : 0, R)) { rr = x; break; } }
        }
        if (rr == 0 || rr >= n) return;
        s = zmod(special(n, o / 16, seed, k.curve, false), (n - 1) / 2) + 1; mm = special(n, o / 256, seed / 5, k.curve, false);
        Pt A = m.mul(m.add(m.mul(R, s), m.mulg(zmod(-mm, n))), zinv(rr, n)); if (A.inf) return;
        r.pub = m.encode(A, seed & 1); what = bogus ? "coordinate-plus-field-size" : wrap ? "wrapped-coordinate" : "edge-coordinate"; r.param = 99;
      }
      r.msg = m.unreduce(mm); r.sig = cat(m.scalar(rr), m.scalar(s));
    } else {
      // a signer with a chosen nonce
      Z a = k.a, kk = special(n, o, seed, k.curve, false); if (kk == 0) kk = 1; if (o / 16 % 4 == 0) kk = a; if (o / 16 % 4 == 1) kk = zmod(-a * (long)(1 + seed % 3), n);
      Pt A = m.mulg(a); if (r.scheme == S_BIP340) { if (zodd(A.y)) { a = n - a; A = m.neg(A); } r.pub = b_be(A.x, m.fs); } else r.pub = m.encode(A, seed & 1);
      Pt R = m.mulg(kk); bool good = r.scheme == S_BIP340 ? !zodd(R.y) : m.sq(R.y); what = "chosen-nonce";
      if (kind % 4 == 1) { if (good) { kk = n - kk; R = m.neg(R); } what = "wrong-half"; }                     // the other root: never acceptable
      else if (!good) { kk = n - kk; R = m.neg(R); }
      if (kind % 4 == 2) { kk = 0; what = "nonce-point-infinite"; R.x = (o & 1) ? Z(0) : R.x; }
      Bytes Rr = b_be(R.x, m.fs); Z e = r.scheme == S_BIP340 ? m.bip340_e(Rr, r.pub, r.msg) : m.schnorr_e(Rr, A, r.msg); s = zmod(kk + e * a, n); r.sig = cat(Rr, m.scalar(s));
      if (kind % 4 == 3 && R.x + m.p < (Z(1) << (8 * m.fs))) { r.sig = cat(b_be(R.x + m.p, m.fs), m.scalar(s)); what = "coordinate-plus-field-size"; }
    }
  } else {
    const MEd &m = med(k.curve); options(r, o / 512); Pt A, R; Z a = k.a, kk = special(m.n, o, seed, k.curve, true);
    const Pt &T1 = m.tor[(o / 16) % m.h], &T2 = m.tor[(o / 128) % m.h];
    switch (kind % 4) { case 0: what = "mixed-order-key"; break; case 1: a = 0; what = "small-order-key"; break; case 2: kk = 0; what = "small-order-nonce"; break; default: a = 0; kk = 0; what = "all-small-order"; }
    A = m.add(m.mulg(a), T1); r.pub = m.encode(A); bool nc = false;
    auto enc = [&](const Pt &P, bool alt) { Bytes b = m.encode(P); if (!alt) return b; int sign = b[m.as - 1] >> 7; Z y = P.y + m.p * (long)(1 + seed % 3); size_t lim = (m.as == m.fs ? 8 * m.fs - 1 : 8 * m.fs); if (y >= (Z(1) << lim)) y = P.y + m.p; if (y < (Z(1) << lim)) { b = b_le(y, m.as); if (sign) b[m.as - 1] |= 0x80; nc = true; } else if (P.x == 0) { b[m.as - 1] |= 0x80; nc = true; } return b; };
    r.pub = enc(A, kind / 4 % 3 == 1);
    // try a few messages until the cofactorless equation may hold as well
    for (int t = 0; t < 12; t++) {
      r.msg = seed_bytes(seed + (u64)t * 77, 16 + seed % 40);
      if (kind / 16 % 2) { u64 j = (seed + (u64)t) % m.h; R = m.add(m.mulg(kk), m.neg(m.mul(T1, (long)j))); Bytes Rr = enc(R, kind / 4 % 3 == 2); Z e = m.e(Rr, r.pub, r.msg, r.ph, r.ctx); Z s = zmod(kk + e * a, m.n); r.sig = cat(Rr, b_le(s, m.as)); if (zmod(e, m.h) == j) break; }
      else { R = m.add(m.mulg(kk), T2); Bytes Rr = enc(R, kind / 4 % 3 == 2); Z e = m.e(Rr, r.pub, r.msg, r.ph, r.ctx); Z s = zmod(kk + e * a, m.n); r.sig = cat(Rr, b_le(s, m.as)); break; }
    }
    if (nc) c.fault("non-canonical-point");
  }
  c.fault(what); c.sh(hash2(0x200 + (u64)r.scheme * 8 + (u64)r.curve, kind)); recs[(u64)st.arg(0) % NR] = r;
}
static bool flip(Bytes &b, u64 a) { if (b.empty()) return false; b[a / 8 % b.size()] ^= (u8)(1 << (a % 8)); return true; }
static void fault(Rec &r, const Step &st, Ctx &c) {
  u64 a = (u64)st.arg(2); Rec *o = &recs[(u64)st.arg(3) % NR]; if (!o->live || o == &r || o->scheme != r.scheme) o = nullptr; Rec *oc = o && o->curve == r.curve ? o : nullptr;
  bool ed = r.scheme == S_EDDSA; const char *k = nullptr; size_t ss = ed ? med(r.curve).as : mwei(r.curve).ss, half = r.sig.size() - ss; const Z &n = ed ? med(r.curve).n : mwei(r.curve).n; const Z &p = ed ? med(r.curve).p : mwei(r.curve).p;
  auto rd = [&](size_t off, size_t l) { return ed ? z_le(&r.sig[off], l) : z_be(&r.sig[off], l); };
  auto wr = [&](size_t off, size_t l, const Z &v) { if (v < 0 || v >= (Z(1) << (8 * l))) return false; Bytes b = ed ? b_le(v, l) : b_be(v, l); std::copy(b.begin(), b.end(), r.sig.begin() + (long)off); return true; };
  switch ((u64)st.arg(1) % NF) {
    case 0: if (flip(r.msg, a)) k = "flip-message"; break;
    case 1: if (flip(r.sig, a)) k = "flip-signature"; break;
    case 2: if (flip(r.pub, a)) k = "flip-key"; break;
    case 3: if (ed) { if (flip(r.ctx, a)) k = "flip-context"; else { r.ctx.push_back((u8)a); k = "grow-context"; } } break;
    case 4: if (!r.msg.empty()) { r.msg.resize(a % r.msg.size()); k = "truncate-message"; } break;
    case 5: r.msg.insert(r.msg.end(), 1 + a % 9, (a & 16) ? 0 : (u8)a); k = "extend-message"; break;
    case 6: if (oc) { std::swap(r.sig, oc->sig); oc->altered = true; k = "swap-signatures"; } break;
    case 7: if (oc) { std::swap(r.msg, oc->msg); oc->altered = true; k = "swap-messages"; } break;
    case 8: if (oc) { r.pub = oc->pub; k = "other-key"; } break;
    case 9: if (wr(half, ss, zmod(-rd(half, ss), n))) k = "negate-scalar"; break;
    case 10: { Z v = rd(half, ss); for (long j = 1 + (long)(a % 5); j > 0; j--) if (wr(half, ss, v + n * j)) { k = "scalar-plus-order"; break; } break; }
    case 11: { Z v = r.scheme == S_ECDSA ? Z(rd(0, half) + n) : Z(rd(0, half) + p); if (ed) break; if (wr(0, half, v)) k = "coordinate-plus-modulus"; break; }
    case 12: { Z v; switch (a % 6) { case 0: v = 0; break; case 1: v = n; break; case 2: v = n - 1; break; case 3: v = 1; break; case 4: v = (n + 1) / 2; break; default: v = n + 1; } if (wr((a & 64) && !ed ? 0 : half, ss, v)) k = "boundary-scalar"; break; }
    case 13: { Z v = p + (long)(a % 4) - 1; if (ed) break; if (r.scheme != S_ECDSA && wr(0, half, (a & 8) ? Z(0) : v)) k = "boundary-coordinate"; break; }
    case 14: // negated key
      if (ed) { if (r.pub.size()) r.pub.back() ^= 0x80; k = "negate-key"; } else if (r.scheme != S_BIP340 && r.pub.size() == 1 + half && r.scheme == S_SCHNORR) { r.pub[0] ^= 1; k = "negate-key"; } else if (r.scheme == S_ECDSA) { Pt A; if (mwei(r.curve).decode(r.pub, A)) { r.pub = mwei(r.curve).encode(mwei(r.curve).neg(A), a & 1); k = "negate-key"; } } break;
    case 15: // another spelling of the key
      if (r.scheme == S_ECDSA || r.scheme == S_SCHNORR) { const MWei &m = mwei(r.curve); Pt A; if (!m.decode(r.pub, A)) break; switch (a % 6) { case 0: r.pub = m.encode(A, true); break; case 1: r.pub = m.encode(A, false); break; case 2: r.pub = m.encode(A, false); r.pub[0] = (u8)(6 | zodd(A.y)); break; case 3: r.pub = m.encode(A, false); r.pub[0] = (u8)(7 ^ zodd(A.y)); break; case 4: { Z x = A.x + m.p; if (x < (Z(1) << (8 * m.fs))) { Bytes b = b_be(x, m.fs); r.pub = m.encode(A, a & 8); std::copy(b.begin(), b.end(), r.pub.begin() + 1); } break; } default: r.pub = m.encode(A, a & 8); r.pub[0] = (u8)(a / 16); } k = "respell-key"; }
      else if (r.scheme == S_BIP340) { Z x = z_be(r.pub) + p; if (x < (Z(1) << (8 * r.pub.size()))) { r.pub = b_be(x, r.pub.size()); k = "respell-key"; } } break;
    case 16: if (r.scheme == S_ECDSA || r.scheme == S_SCHNORR) { if ((a & 1) && !r.pub.empty()) r.pub.resize(a / 2 % r.pub.size()); else r.pub.insert(r.pub.end(), 1 + a / 2 % 3, 0); k = "resize-key"; } break;
    case 17: if (ed) { int old = r.ph; r.ph = (int)(a % 3) - 1; if (old != r.ph) k = "other-prehash"; } break;
    case 18: { std::fill(r.sig.begin(), r.sig.end(), (u8)((a & 1) ? 0xff : 0)); k = "blank-signature"; break; }
    case 19: if (ed) { r.sig[half - 1] ^= 0x80; k = "negate-nonce-point"; } else if (r.scheme == S_ECDSA) { Bytes t(r.sig.begin(), r.sig.begin() + (long)half); std::copy(r.sig.begin() + (long)half, r.sig.end(), r.sig.begin()); std::copy(t.begin(), t.end(), r.sig.begin() + (long)half); k = "swap-halves"; } break;
  }
  if ((u64)st.arg(1) % NF == 20) { size_t at[] = {0, half ? half - 1 : 0, half, r.sig.size() - 1}; r.sig[at[a % 4]] ^= (u8)((a & 4) ? 1u << (a / 8 % 8) : 1 + a / 8 % 255); k = "edge-of-signature"; }
  if ((u64)st.arg(1) % NF == 21 && !r.pub.empty()) { r.pub[(a & 1) ? 0 : r.pub.size() - 1] ^= (u8)((a & 4) ? 1u << (a / 8 % 8) : 1 + a / 8 % 255); k = "edge-of-key"; }
  if (k) { r.altered = true; r.param = 99; c.fault(k); c.sh(0x300 + (u64)st.arg(1) % NF); }
}
static void verify(Rec &r, u64 style, Ctx &c) {
  Input m(r.msg, style % 3), s(r.sig, style / 4 % 3), p(r.pub, style / 16 % 3), x(r.ctx, 1); const u8 *mp = r.msg.empty() && (style & 1) ? nullptr : m.p; int got, want = model(r, false), got2 = -1, want2 = -1;
  switch (r.scheme) {
    case S_ECDSA: got = ecdsa_verify(wc[r.curve], mp, m.n, s.p, p.p, p.n); break;
    case S_SCHNORR: got = bipschnorr_verify(wc[r.curve], mp, m.n, s.p, p.p, p.n); break;
    case S_BIP340: got = bip340_verify(wc[r.curve], mp, m.n, s.p, p.p); break;
    default: got = eddsa_verify(ecv[r.curve], mp, m.n, s.p, p.p, r.ph, x.p, x.n); got2 = eddsa_verify_single(ecv[r.curve], mp, m.n, s.p, p.p, r.ph, x.p, x.n); want2 = model(r, true);
  }
  m.check("verify"); s.check("verify"); p.check("verify"); c.eval(); c.tr((u64)got * 4 + (u64)(got2 + 1)); c.sh(0x400 + (u64)want * 2 + r.altered); c.interesting = true;
  c.state(hash2((u64)r.scheme * 8 + (u64)r.curve, hash2(r.msg.size(), r.pub.empty() ? 0 : r.pub[0]) + (u64)want * 3 + (u64)r.altered));
  if (!r.altered) CHECK(got == 1, "honest-refused", "%s on %s refused an honest signature over %zu bytes", sn[r.scheme], cname(r).c_str(), r.msg.size());
  CHECK(got == want, want ? "valid-refused" : "invalid-accepted", "%s on %s: signature %s, key %s, message of %zu bytes: verification says %d, the definition %d", sn[r.scheme], cname(r).c_str(), hex(r.sig, 140).c_str(), hex(r.pub, 140).c_str(), r.msg.size(), got, want);
  if (r.scheme == S_EDDSA) CHECK(got2 == want2, want2 ? "valid-refused" : "invalid-accepted", "eddsa on %s with cofactor: signature %s, key %s: verification says %d, the definition %d", cname(r).c_str(), hex(r.sig, 140).c_str(), hex(r.pub, 140).c_str(), got2, want2);
  c.probe(got ? (r.altered ? "altered-still-valid" : "honest-accepted") : "refused");
}
static Scr &scratch(bool ed, int curve, u64 size, u64 slot, Ctx &c) {
  for (auto &s : scrs) if (s.ed == ed && s.curve == curve && slot % 3) { if (s.uses++) c.probe("scratch-reused"); return s; }
  Scr s; s.ed = ed; s.curve = curve; s.size = 2 + size % 66; s.uses = 1; s.p = ed ? (void *)edwards_scratch_create(ecv[curve], s.size) : (void *)wei_scratch_create(wc[curve], s.size); scrs.push_back(s); return scrs.back();
}
static void batch(const Step &st, Ctx &c) {
  // like this record: which, how many, scratch size, order
  Rec &f = recs[(u64)st.arg(0) % NR]; if (!f.live || f.scheme == S_ECDSA) return;
  std::vector<Rec *> pool; for (auto &r : recs) if (r.live && r.scheme == f.scheme && r.curve == f.curve && r.ph == f.ph && r.ctx == f.ctx) pool.push_back(&r);
  if (st.arg(4) & 1) { std::vector<Rec *> g; for (auto *r : pool) if (model(*r, true)) g.push_back(r); if (!g.empty()) pool = g; }
  Rng g((u64)st.arg(3)); size_t n = (u64)st.arg(1) % 70; std::vector<Rec *> l; for (size_t i = 0; i < n; i++) l.push_back(pool[g.below(pool.size())]);
  if (st.arg(4) & 2) { std::vector<Rec *> bad; for (auto &r : recs) if (r.live && r.scheme == f.scheme && r.curve == f.curve && r.ph == f.ph && r.ctx == f.ctx && !model(r, true)) bad.push_back(&r); if (!bad.empty() && n) { l[g.below(n)] = bad[g.below(bad.size())]; c.probe("one-bad-member"); } }
  bool want = true; for (auto *r : l) want = want && model(*r, true);
  std::vector<const u8 *> ms, ss, ps; std::vector<size_t> ml, pl; for (auto *r : l) { ms.push_back(r->msg.data()); ml.push_back(r->msg.size()); ss.push_back(r->sig.data()); ps.push_back(r->pub.data()); pl.push_back(r->pub.size()); }
  Scr &s = scratch(f.scheme == S_EDDSA, f.curve, (u64)st.arg(2), (u64)st.arg(3), c); int got;
  if (f.scheme == S_SCHNORR) got = bipschnorr_verify_batch(wc[f.curve], ms.data(), ml.data(), ss.data(), ps.data(), pl.data(), n, (wei_scratch_t *)s.p);
  else if (f.scheme == S_BIP340) got = bip340_verify_batch(wc[f.curve], ms.data(), ml.data(), ss.data(), ps.data(), n, (wei_scratch_t *)s.p);
  else got = eddsa_verify_batch(ecv[f.curve], ms.data(), ml.data(), ss.data(), ps.data(), n, f.ph, f.ctx.data(), f.ctx.size(), (edwards_scratch_t *)s.p);
  c.eval(); c.tr((u64)got); c.sh(hash2(0x500 + want, hash2(n, s.size))); c.interesting = true; c.probe(want ? "batch-valid" : "batch-invalid"); if (2 * n > s.size) c.probe("batch-in-rounds"); if (s.size & 1) c.probe("odd-scratch");
  c.state(hash2(0x5000 + (u64)f.scheme * 8 + (u64)f.curve, hash2(n, s.size) + want));
  CHECK(got == (int)want, want ? "valid-refused" : "invalid-accepted", "%s on %s: a batch of %zu with a scratch of %zu points was %s although %s", sn[f.scheme], cname(f).c_str(), n, s.size, got ? "accepted" : "refused", want ? "every member is valid" : "a member is invalid");
}
static void recover(Rec &r, u64 a, Ctx &c) {
  if (r.scheme != S_ECDSA) return;
  const MWei &m = mwei(r.curve); unsigned param = r.param < 4 && !(a & 8) ? r.param : (unsigned)(a % 4); Guard g(1 + 2 * m.fs); size_t l = 0; bool comp = a & 16; Input s(r.sig, 1), i(r.msg, 2);
  int got = ecdsa_recover(wc[r.curve], g.p(), &l, i.p, i.n, s.p, param, comp); g.check("recover"); Pt A; bool want = m.recover(r.msg, r.sig, param, A); c.eval(); c.tr((u64)got); c.sh(0x600 + want * 4 + param);
  CHECK(got == (int)want, "recover-decision", "%s: recovery with hint %u from %s returned %d, expected %d", m.name.c_str(), param, hex(r.sig, 140).c_str(), got, (int)want);
  if (got) { CHECK(g.get(l) == m.encode(A, comp), "recovered-key-differs", "%s: recovered %s, expected %s", m.name.c_str(), hex(g.p(), l).c_str(), hex(m.encode(A, comp)).c_str()); c.probe(param >> 1 ? "recovered-wrapped" : "recovered"); }
  if (!r.altered && r.param < 4 && param == r.param) { Pt B; m.decode(r.pub, B); CHECK(got && A == B, "recover-decision", "%s: the hint of an honest signature does not lead to its key", m.name.c_str()); }
}
static void encode(Rec &r, u64 a, Ctx &c) {
  if (r.scheme == S_ECDSA) {
    const MWei &m = mwei(r.curve); wei_curve_t *ec = wc[r.curve]; Guard d(9 + 2 * (m.ss + 1)), o(2 * m.ss); size_t l = 0; Z rr = z_be(&r.sig[0], m.ss), s = z_be(&r.sig[m.ss], m.ss); bool inr = rr < m.n && s < m.n;
    int e = ecdsa_sig_export(ec, d.p(), &l, r.sig.data()); d.check("sig_export"); c.eval(); CHECK(e == (int)inr, "encode-decision", "%s: exporting %s returned %d", m.name.c_str(), hex(r.sig, 140).c_str(), e);
    int low = ecdsa_is_low_s(ec, r.sig.data()); CHECK(low == (int)(inr && s <= (m.n - 1) / 2), "low-s-decision", "%s: is_low_s says %d", m.name.c_str(), low);
    if (!inr) return;
    Bytes der = d.get(l); Input di(der, 1); int st = ecdsa_sig_import(ec, o.p(), di.p, di.n); o.check("sig_import"); CHECK(st == 1 && o.get(2 * m.ss) == r.sig, "encode-roundtrip", "%s: a signature does not survive export and import", m.name.c_str());
    int lx = ecdsa_sig_import_lax(ec, o.p(), di.p, di.n); CHECK(lx == 1 && o.get(2 * m.ss) == r.sig, "encode-roundtrip", "%s: a signature does not survive lax import", m.name.c_str());
    if (a & 1) { Bytes bad = der; const char *k = "flip-encoding"; if (a & 2) flip(bad, a / 4); else if (a & 4) { bad.resize(a / 8 % bad.size()); k = "truncate-encoding"; } else { bad.push_back((u8)(a / 8)); k = "extend-encoding"; } c.fault(k);
      Input b(bad, 2); int g = ecdsa_sig_import(ec, o.p(), b.p, b.n); o.check("sig_import"); if (g) { CHECK(o.get(2 * m.ss) != r.sig, "damaged-encoding-same", "%s: a damaged encoding imported to the same signature", m.name.c_str()); r.sig = o.get(2 * m.ss); r.altered = true; r.param = 99; c.probe("damaged-encoding-imported"); } }
    int nz = ecdsa_sig_normalize(ec, o.p(), r.sig.data()); o.check("normalize"); Z s2 = z_be(&r.sig[m.ss], m.ss); Z lo = s2 > (m.n - 1) / 2 ? Z(m.n - s2) : s2;
    CHECK(nz == 1 && o.get(2 * m.ss) == cat(Bytes(r.sig.begin(), r.sig.begin() + (long)m.ss), m.scalar(lo)), "normalize-differs", "%s: normalised signature differs", m.name.c_str());
    if (a & 32) { if (s2 != lo) { r.sig = o.get(2 * m.ss); c.probe("normalised"); } }
  }
  if (r.scheme == S_ECDSA || r.scheme == S_SCHNORR) {
    const MWei &m = mwei(r.curve); Guard g(1 + 2 * m.fs); size_t l = 0; Input p(r.pub, 1); bool comp = a & 64; int k = ecdsa_pubkey_convert(wc[r.curve], g.p(), &l, p.p, p.n, comp); g.check("pubkey_convert"); Pt A; bool ok = m.decode(r.pub, A);
    CHECK(k == (int)ok, "key-decision", "%s: converting key %s returned %d", m.name.c_str(), hex(r.pub, 140).c_str(), k); CHECK(ecdsa_pubkey_verify(wc[r.curve], p.p, p.n) == (int)ok, "key-decision", "%s: key %s misjudged", m.name.c_str(), hex(r.pub, 140).c_str());
    if (k) { CHECK(g.get(l) == m.encode(A, comp), "key-conversion-differs", "%s: converted key differs", m.name.c_str()); r.pub = g.get(l); c.probe("key-converted"); }
  }
  c.sh(0x700 + a % 128);
}
static void cleanup() { for (auto &s : scrs) { if (s.ed) edwards_scratch_destroy(ecv[s.curve], (edwards_scratch_t *)s.p); else wei_scratch_destroy(wc[s.curve], (wei_scratch_t *)s.p); } scrs.clear(); }
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); scrs.clear(); memo.clear(); for (auto &b : havek) b = false; for (auto &r : recs) r = Rec();
  for (auto &st : pl.steps) {
    c.step(); Rec &r = recs[(u64)st.arg(0) % NR];
    switch (st.op) {
      case OP_KEY: mkkey(st, c); break;
      case OP_SIGN: sign(st, c); break;
      case OP_CRAFT: craft(st, c); break;
      case OP_FAULT: if (r.live) fault(r, st, c); break;
      case OP_VERIFY: if (r.live) verify(r, (u64)st.arg(1), c); break;
      case OP_BATCH: batch(st, c); break;
      case OP_RECOVER: if (r.live) recover(r, (u64)st.arg(1), c); break;
      case OP_ENCODE: if (r.live) encode(r, (u64)st.arg(1), c); break;
      case OP_SCRATCH: cleanup(); break;
    }
  }
  cleanup();
}
static i64 mlen(Rng &r) { switch (r.below(6)) { case 0: return (i64)r.below(3); case 1: return 32; case 2: return r.range(60, 70); case 3: return (i64)r.below(140); case 4: return r.pick({20, 24, 28, 32, 48, 64, 65, 66, 67}); default: return (i64)r.below(r.chance(1, 10) ? 3000 : 60); } }
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int nk = (int)r.range(1, 2); int cv = (int)r.below(9), sc = (int)r.below(3); bool one = r.chance(2, 3), faulty = r.chance(4, 5), crafty = r.chance(2, 3); i64 opt = (i64)r.below(1 << 12);
  if (r.chance(1, 5)) { // batches: honest signers with the same options, one of them damaged, again and again
    if (cv < 6 && sc == 0) sc = 1; i64 slots = r.range(2, 5); p.add(OP_KEY, {0, cv, (i64)r.below(1 << 20), 0}); p.add(OP_KEY, {1, cv, (i64)r.below(1 << 20), 0});
    for (i64 s = 0; s < slots; s++) p.add(OP_SIGN, {s, s & 1, sc, (i64)r.below(1 << 20), mlen(r), opt});
    for (int i = (int)r.range(2, 5); i > 0; i--) { i64 s = (i64)r.below((u64)slots); p.add(OP_FAULT, {s, r.chance(1, 2) ? 20 : (i64)r.below(NF), (i64)r.below(1 << 14), (i64)r.below((u64)slots)}); p.add(OP_BATCH, {s == 0 ? 1 : 0, r.range(1, 9), r.range(0, 20), (i64)r.below(1 << 16), 3}); if (r.chance(1, 2)) p.add(OP_VERIFY, {s, (i64)r.below(64)}); p.add(OP_SIGN, {s, s & 1, sc, (i64)r.below(1 << 20), mlen(r), opt}); }
    return p; }
  int n = (int)r.range(4, 16), slots = (int)r.range(1, r.chance(1, 2) ? 3 : NR); if (cv == 4 || cv == 7 || cv == 3) n = std::min(n, 9);
  for (int i = 0; i < nk; i++) p.add(OP_KEY, {i, one ? cv : (i64)r.below(9), (i64)r.below(1 << 20), r.chance(1, 3) ? (i64)r.below(12) + 1 : 0});
  auto make = [&](i64 s) {
    i64 o = r.chance(2, 3) ? opt : (i64)r.below(1 << 12), sch = one && r.chance(3, 4) ? sc : (i64)r.below(3);
    if (crafty && r.chance(1, 2)) p.add(OP_CRAFT, {s, (i64)r.below(nk), sch, r.chance(1, 8) ? 1000 * (i64)r.below(1000) : (i64)r.below(1 << 20), (i64)r.below(64), (i64)r.below(1 << 14)});
    else p.add(OP_SIGN, {s, (i64)r.below(nk), sch, (i64)r.below(1 << 20), mlen(r), o});
  };
  for (int s = 0; s < slots; s++) make(s);
  for (int i = 0; i < n; i++) {
    i64 s = (i64)r.below(slots);
    switch (r.below(18)) {
      case 0: case 1: case 2: case 3: make(s); break;
      case 4: case 5: case 6: case 7: case 8: if (faulty) p.add(OP_FAULT, {s, (i64)r.below(NF), (i64)r.below(1 << 14), (i64)r.below(slots)}); break;
      case 9: case 10: case 11: p.add(OP_VERIFY, {s, (i64)r.below(64)}); break;
      case 12: case 13: p.add(OP_BATCH, {s, r.chance(1, 2) ? (i64)r.below(6) : (i64)r.below(r.chance(1, 3) ? 70 : 20), (i64)r.below(r.chance(1, 2) ? 8 : 66), (i64)r.below(1 << 16), (i64)r.below(4)}); break;
      case 14: p.add(OP_RECOVER, {s, (i64)r.below(32)}); break;
      case 15: case 16: p.add(OP_ENCODE, {s, (i64)r.below(1 << 13)}); break;
      default: if (r.chance(1, 4)) p.add(OP_SCRATCH, {0}); else p.add(OP_VERIFY, {s, (i64)r.below(64)});
    }
  }
  for (int s = 0; s < slots; s++) p.add(OP_VERIFY, {s, 0});
  return p;
}
const Scenario scenario = {"C12", ops, gen, exec, init, "conversations with at least one verification, distinct by curve, scheme, faults, crafted shapes, batch sizes and verdicts", 60};
