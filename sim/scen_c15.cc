// C15: programs that re-blind curve contexts at any time, next to a program that never does.
#include "world.h"
#include "emodels.h"
#include "input.h"
extern "C" {
#include <torsion/ecc.h>
}
enum { OP_OPEN, OP_CLOSE, OP_BLIND, OP_USE, OP_CROSS };
static const char *const ops[] = {"open", "close", "blind", "use", "cross", nullptr};
static const int NS = 5, NU = 22;
static wei_curve_t *rw[6]; static edwards_curve_t *re[3]; static wei_scratch_t *rws[6]; static edwards_scratch_t *res[3];
static void init(const Cfg &) { for (int i = 0; i < 6; i++) { mwei(i); rw[i] = wei_curve_create((wei_curve_id_t)i); rws[i] = wei_scratch_create(rw[i], 64); } for (int i = 0; i < 3; i++) { med(i); re[i] = edwards_curve_create((edwards_curve_id_t)i); res[i] = edwards_scratch_create(re[i], 64); } }
struct Slot { bool live = false; int cu = 0; wei_curve_t *w = nullptr; edwards_curve_t *e = nullptr; wei_scratch_t *ws = nullptr; edwards_scratch_t *es = nullptr; Bytes ent; u64 blinds = 0; };
static Slot sl[NS]; static Bytes last_ent;
static bool isw(int cu) { return cu < 6; }
static void drop(Slot &s) { if (s.ws) wei_scratch_destroy(s.w, s.ws); if (s.es) edwards_scratch_destroy(s.e, s.es); if (s.w) wei_curve_destroy(s.w); if (s.e) edwards_curve_destroy(s.e); s = Slot(); }
static Bytes entropy(int kind, u64 seed, const Slot &s, const Slot &o) { switch (kind) { case 0: return Bytes(32, 0); case 1: return Bytes(32, 0xff); case 2: return s.ent.empty() ? Bytes(32, 1) : s.ent; case 3: return last_ent.empty() ? Bytes(32, 2) : last_ent; case 4: { Bytes b(32, 0); b[seed % 32] = (u8)(1 << (seed >> 8 & 7)); return b; } default: return seed_bytes(seed, 32); } }
// The scalar a context derives from its entropy is the one key generation derives from the same bytes (if that ever changes, the keys below are merely ordinary).
static Z mask(const Slot &s) { if (s.ent.empty()) return 0; u8 b[96] = {}; if (s.w) { ecdsa_privkey_generate(rw[s.cu], b, s.ent.data()); return z_be(b, mwei(s.cu).ss); } ristretto_privkey_generate(re[s.cu - 6], b, s.ent.data()); return z_le(b, med(s.cu - 6).ss); }
static Z secret(const Slot &s, int kind, u64 seed) {
  const Z &n = isw(s.cu) ? mwei(s.cu).n : med(s.cu - 6).n; unsigned nb = (unsigned)mpz_sizeinbase(n.get_mpz_t(), 2); Z m = mask(s), k, d = (int)(seed % 33) - 16; static const unsigned ws[] = {4, 5, 6, 3, 8};
  switch (kind) {
    case 0: k = m + d; break; case 1: k = -m + d; break; case 2: k = 2 * m + d; break; case 3: k = m * (Z(1) << (unsigned)(seed >> 8) % 8) + d; break; case 4: k = d; break; case 5: { unsigned w = ws[seed % 5], t = nb / w * w; if (nb % w == 0 && (seed >> 4 & 1)) t -= w; Z j = (m >> t) + ((seed >> 5) % 3); k = 2 * j * (Z(1) << t); break; }       // the running sum meets the table entry it is about to add
    case 6: k = Z(1) << (unsigned)(seed % nb); break; case 7: k = (m >> (unsigned)(seed % nb)) << (unsigned)(seed % nb); break; case 8: k = m - ((m >> (unsigned)(seed % nb)) << (unsigned)(seed % nb)); break; case 9: { unsigned t = 4 * (unsigned)(seed % (nb / 4)); Z j = (int)(seed >> 20 & 15); k = m + j * (Z(1) << t); break; } case 10: k = n - (Z(1) << (unsigned)(seed % (nb - 1))); break;
    case 11: if (s.cu == 5) { Z l("0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"); if (seed & 1) l = zmod(l * l, n); k = zmod(1 - l, n) * (Z((int)((seed >> 1) % 15) + 1) << 252); break; } // the running sum and the entry share a y coordinate
      k = 2 * m; break;
    default: k = z_be(seed_bytes(seed, 64)); }
  k = zmod(k, n); return k == 0 ? Z(1) : k;
}
struct Out { Bytes b; void rc(int r) { b.push_back((u8)r); b.push_back(0x7c); } void add(const Guard &g, size_t n) { Bytes x = g.get(n); b.insert(b.end(), x.begin(), x.end()); } };
static int even(const unsigned char *p, size_t n, void *) { return (p[n - 1] & 1) == 0; }
static int even1(const unsigned char *p, void *a) { return (p[*(size_t *)a - 1] & 3) == 0; }
static Bytes runw(wei_curve_t *w, int cu, wei_scratch_t *sc, int u, const Z &k, u64 seed) {
  const MWei &M = mwei(cu); Out o; Bytes key = b_be(k, M.ss), msg = seed_bytes(seed ^ 1, 32), msg2 = seed_bytes(seed ^ 2, seed % 70), tw = b_be(zmod(z_be(seed_bytes(seed ^ 3, 64)), M.n - 1) + 1, M.ss), aux = seed_bytes(seed ^ 5, 32); if (seed >> 50 & 1) tw = b_be(M.n - k, M.ss);
  Guard a(2 * M.fs + 8, 1), b(2 * M.fs + 8, 2), s(2 * M.fs + 8, 3); size_t n = 0, n2 = 0; unsigned pr = 0; int ng = 0, r;
  switch (u) {
    case 0: r = ecdsa_pubkey_create(w, a.p(), &n, key.data(), (int)(seed & 1)); o.rc(r); o.add(a, n); break;
    case 1: r = ecdsa_sign(w, s.p(), &pr, msg.data(), 32, key.data()); o.rc(r); o.rc((int)pr); o.add(s, 2 * M.ss); break;
    case 2: ecdsa_pubkey_create(w, a.p(), &n, key.data(), 1); ecdsa_sign(w, s.p(), &pr, msg.data(), 32, key.data()); o.rc(ecdsa_verify(w, msg.data(), 32, s.p(), a.p(), n)); s.p()[seed % (2 * M.ss)] ^= 1; o.rc(ecdsa_verify(w, msg.data(), 32, s.p(), a.p(), n)); break;
    case 3: ecdsa_sign(w, s.p(), &pr, msg.data(), 32, key.data()); r = ecdsa_recover(w, a.p(), &n, msg.data(), 32, s.p(), pr, 1); o.rc(r); if (r) o.add(a, n); break;
    case 4: ecdsa_pubkey_create(w, a.p(), &n, tw.data(), 1); r = ecdsa_derive(w, b.p(), &n2, a.p(), n, key.data(), 1); o.rc(r); o.add(b, n2); break;
    case 5: ecdsa_pubkey_create(w, a.p(), &n, key.data(), 1); r = ecdsa_pubkey_tweak_add(w, b.p(), &n2, a.p(), n, tw.data(), 0); o.rc(r); if (r) o.add(b, n2); break;
    case 6: ecdsa_privkey_generate(w, a.p(), aux.data()); o.add(a, M.ss); break;
    case 7: ecdsa_privkey_grind(w, a.p(), aux.data(), 1, even, nullptr); o.add(a, M.ss); break;
    case 8: if (!bipschnorr_support(w)) break; o.rc(bipschnorr_sign(w, s.p(), msg2.data(), msg2.size(), key.data())); o.add(s, M.fs + M.ss); ecdsa_pubkey_create(w, a.p(), &n, key.data(), 1); o.rc(bipschnorr_verify(w, msg2.data(), msg2.size(), s.p(), a.p(), n)); break;
    case 9: o.rc(bip340_pubkey_create(w, a.p(), key.data())); o.add(a, M.fs); o.rc(bip340_sign(w, s.p(), msg.data(), 32, key.data(), (seed & 2) ? aux.data() : nullptr)); o.add(s, M.fs + M.ss); o.rc(bip340_verify(w, msg.data(), 32, s.p(), a.p())); s.p()[seed % (M.fs + M.ss)] ^= 4; o.rc(bip340_verify(w, msg.data(), 32, s.p(), a.p())); break;
    case 10: bip340_pubkey_create(w, a.p(), key.data()); r = bip340_pubkey_tweak_add(w, b.p(), &ng, a.p(), tw.data()); o.rc(r); if (r) { o.rc(ng); o.add(b, M.fs); } o.rc(bip340_pubkey_tweak_add_check(w, a.p(), tw.data(), b.p(), ng)); break;
    case 11: r = bip340_privkey_tweak_add(w, a.p(), key.data(), tw.data()); o.rc(r); if (r) o.add(a, M.ss); break;
    case 12: bip340_pubkey_create(w, a.p(), tw.data()); o.rc(bip340_derive(w, b.p(), a.p(), key.data())); o.add(b, M.fs); break;
    case 13: { Guard d(M.ss, 4), y(M.fs, 5); o.rc(bip340_privkey_export(w, d.p(), a.p(), y.p(), key.data())); o.add(d, M.ss); o.add(a, M.fs); o.add(y, M.fs); break; }
    case 14: case 15: { size_t cnt = 1 + seed % 5; std::vector<Bytes> ms, ss, ps; for (size_t i = 0; i < cnt; i++) { Bytes m = seed_bytes(seed + i, 32), kk = b_be(zmod(k + (int)i, M.n - 1) + 1, M.ss); bip340_pubkey_create(w, a.p(), kk.data()); bip340_sign(w, s.p(), m.data(), 32, kk.data(), aux.data()); ms.push_back(m); ss.push_back(s.get(M.fs + M.ss)); ps.push_back(a.get(M.fs)); } if (u == 15) ss[(seed >> 9) % cnt][M.fs + M.ss - 1] ^= 1; std::vector<const u8 *> mp, sp, pp; std::vector<size_t> ml; for (size_t i = 0; i < cnt; i++) { mp.push_back(ms[i].data()); sp.push_back(ss[i].data()); pp.push_back(ps[i].data()); ml.push_back(32); } o.rc(bip340_verify_batch(w, mp.data(), ml.data(), sp.data(), pp.data(), cnt, sc)); break; }
    case 16: ecdsa_pubkey_create(w, a.p(), &n, key.data(), 0); r = ecdsa_pubkey_tweak_mul(w, b.p(), &n2, a.p(), n, tw.data(), 1); o.rc(r); if (r) o.add(b, n2); break;
    case 17: r = ecdsa_privkey_tweak_add(w, a.p(), key.data(), tw.data()); o.rc(r); if (r) o.add(a, M.ss); r = ecdsa_privkey_invert(w, a.p(), key.data()); o.rc(r); o.add(a, M.ss); break;
    case 18: { Bytes d = seed_bytes(seed ^ 8, M.fs); ecdsa_pubkey_from_uniform(w, a.p(), &n, d.data(), 1); o.add(a, n); break; }
    case 19: ecdsa_pubkey_create(w, a.p(), &n, key.data(), 1); r = ecdsa_pubkey_to_hash(w, b.p(), a.p(), n, 0, aux.data()); o.rc(r); if (r) o.add(b, 2 * M.fs); break;
    case 20: { bip340_privkey_grind(w, a.p(), aux.data(), even1, (void *)&M.fs); o.add(a, M.ss); break; }
    default: ecdsa_pubkey_create(w, a.p(), &n, key.data(), 1); r = ecdsa_pubkey_grind(w, b.p(), a.p(), n, even, nullptr); o.rc(r); if (r) o.add(b, M.ss); break; }
  return o.b;
}
static Bytes rune(edwards_curve_t *e, int cu, edwards_scratch_t *sc, int u, const Z &k, u64 seed) {
  const MEd &M = med(cu); Out o; Bytes seedk = seed_bytes(seed ^ 6, M.as), sca = b_le(k, M.ss), msg = seed_bytes(seed ^ 1, seed % 90), tw = b_le(zmod(z_be(seed_bytes(seed ^ 3, 64)), M.n - 1) + 1, M.ss), aux = seed_bytes(seed ^ 5, 32), pre = seed_bytes(seed ^ 7, M.as), ctx = seed_bytes(seed ^ 8, seed >> 8 & 15); if (seed >> 50 & 1) tw = b_le(M.n - k, M.ss);
  int ph = (int)((seed >> 20) % 3) - 1; Guard a(2 * M.as + 8, 1), b(2 * M.as + 8, 2), s(2 * M.as + 8, 3); int r;
  switch (u) {
    case 0: eddsa_pubkey_from_scalar(e, a.p(), sca.data()); o.add(a, M.as); break;
    case 1: eddsa_pubkey_create(e, a.p(), seedk.data()); o.add(a, M.as); break;
    case 2: eddsa_sign(e, s.p(), msg.data(), msg.size(), seedk.data(), ph, ctx.data(), ctx.size()); o.add(s, 2 * M.as); eddsa_pubkey_create(e, a.p(), seedk.data()); o.rc(eddsa_verify(e, msg.data(), msg.size(), s.p(), a.p(), ph, ctx.data(), ctx.size())); o.rc(eddsa_verify_single(e, msg.data(), msg.size(), s.p(), a.p(), ph, ctx.data(), ctx.size())); s.p()[seed % (2 * M.as)] ^= 1; o.rc(eddsa_verify(e, msg.data(), msg.size(), s.p(), a.p(), ph, ctx.data(), ctx.size())); break;
    case 3: eddsa_sign_with_scalar(e, s.p(), msg.data(), msg.size(), sca.data(), pre.data(), ph, ctx.data(), ctx.size()); o.add(s, 2 * M.as); eddsa_pubkey_from_scalar(e, a.p(), sca.data()); o.rc(eddsa_verify(e, msg.data(), msg.size(), s.p(), a.p(), ph, ctx.data(), ctx.size())); break;
    case 4: eddsa_sign_tweak_add(e, s.p(), msg.data(), msg.size(), seedk.data(), tw.data(), ph, ctx.data(), ctx.size()); o.add(s, 2 * M.as); break;
    case 5: eddsa_sign_tweak_mul(e, s.p(), msg.data(), msg.size(), seedk.data(), tw.data(), ph, ctx.data(), ctx.size()); o.add(s, 2 * M.as); break;
    case 6: eddsa_pubkey_from_scalar(e, a.p(), tw.data()); o.rc(eddsa_derive_with_scalar(e, b.p(), a.p(), sca.data())); o.add(b, M.as); break;
    case 7: eddsa_pubkey_from_scalar(e, a.p(), sca.data()); r = eddsa_pubkey_tweak_add(e, b.p(), a.p(), tw.data()); o.rc(r); if (r) o.add(b, M.as); break;
    case 8: eddsa_pubkey_from_scalar(e, a.p(), sca.data()); r = eddsa_pubkey_tweak_mul(e, b.p(), a.p(), tw.data()); o.rc(r); if (r) o.add(b, M.as); break;
    case 9: eddsa_privkey_generate(e, a.p(), aux.data()); o.add(a, M.as); eddsa_scalar_generate(e, a.p(), aux.data()); o.add(a, M.ss); break;
    case 10: eddsa_privkey_grind(e, a.p(), aux.data(), even1, (void *)&M.as); o.add(a, M.as); break;
    case 11: eddsa_scalar_grind(e, a.p(), aux.data(), even1, (void *)&M.as); o.add(a, M.ss); break;
    case 12: case 13: { size_t cnt = 1 + seed % 5; std::vector<Bytes> ms, ss, ps; for (size_t i = 0; i < cnt; i++) { Bytes m = seed_bytes(seed + i, 20), kk = seed_bytes(seed ^ (i + 40), M.as); eddsa_pubkey_create(e, a.p(), kk.data()); eddsa_sign(e, s.p(), m.data(), m.size(), kk.data(), ph, ctx.data(), ctx.size()); ms.push_back(m); ss.push_back(s.get(2 * M.as)); ps.push_back(a.get(M.as)); } if (u == 13) ss[(seed >> 9) % cnt][M.as] ^= 1; std::vector<const u8 *> mp, sp, pp; std::vector<size_t> ml; for (size_t i = 0; i < cnt; i++) { mp.push_back(ms[i].data()); sp.push_back(ss[i].data()); pp.push_back(ps[i].data()); ml.push_back(20); } o.rc(eddsa_verify_batch(e, mp.data(), ml.data(), sp.data(), pp.data(), cnt, ph, ctx.data(), ctx.size(), sc)); break; }
    case 14: o.rc(ristretto_pubkey_create(e, a.p(), sca.data())); o.add(a, M.fs); break;
    case 15: ristretto_pubkey_create(e, a.p(), sca.data()); r = ristretto_pubkey_tweak_add(e, b.p(), a.p(), tw.data()); o.rc(r); if (r) o.add(b, M.fs); break;
    case 16: ristretto_pubkey_create(e, a.p(), tw.data()); o.rc(ristretto_derive(e, b.p(), a.p(), sca.data())); o.add(b, M.fs); break;
    case 17: ristretto_privkey_grind(e, a.p(), aux.data(), even1, (void *)&M.fs); o.add(a, M.ss); break;
    case 18: eddsa_pubkey_create(e, a.p(), seedk.data()); o.rc(eddsa_pubkey_has_torsion(e, a.p())); o.rc(eddsa_pubkey_is_small(e, a.p())); if (eddsa_pubkey_negate(e, b.p(), a.p())) o.add(b, M.as); break;
    case 19: eddsa_pubkey_create(e, a.p(), seedk.data()); r = eddsa_pubkey_to_hash(e, b.p(), a.p(), 0, aux.data()); o.rc(r); if (r) o.add(b, 2 * M.fs); break;
    case 20: ristretto_privkey_generate(e, a.p(), aux.data()); o.add(a, M.ss); break;
    default: eddsa_pubkey_create(e, b.p(), seed_bytes(seed ^ 11, M.as).data()); o.rc(eddsa_derive(e, a.p(), b.p(), seedk.data())); o.add(a, M.as); break; }
  return o.b;
}
static void use(Ctx &c, Slot &s, int u, int kk, u64 seed) {
  Z k = secret(s, kk, seed); Bytes got, want; const char *nm; c.eval();
  if (s.w) { got = runw(s.w, s.cu, s.ws, u, k, seed); want = runw(rw[s.cu], s.cu, rws[s.cu], u, k, seed); nm = mwei(s.cu).name.c_str(); }
  else { got = rune(s.e, s.cu - 6, s.es, u, k, seed); want = rune(re[s.cu - 6], s.cu - 6, res[s.cu - 6], u, k, seed); nm = med(s.cu - 6).name.c_str(); }
  c.tr(got); CHECK(got == want, "result-changed", "operation %d on %s with the key %s after %llu randomisations (last entropy %s) gave %s, a context never randomised gave %s", u, nm, hex(s.w ? b_be(k, mwei(s.cu).ss) : b_be(k, med(s.cu - 6).ss)).c_str(), (unsigned long long)s.blinds, hex(s.ent).c_str(), hex(got).c_str(), hex(want).c_str());
  if (s.blinds) c.probe("blinded-use"); if (u == 0) { // both contexts against the group itself
    if (s.w) { Bytes w = mwei(s.cu).encode(mwei(s.cu).mulg(k), (int)(seed & 1)); CHECK(Bytes(got.begin() + 2, got.end()) == w, "result-changed", "public key on %s differs from the model", nm); } else { Bytes w = med(s.cu - 6).encode(med(s.cu - 6).mulg(k)); CHECK(got == w, "result-changed", "public key on %s differs from the model", nm); } c.probe("modelled"); }
}
static void blind(Ctx &c, Slot &s, const Slot &o, int kind, u64 seed) {
  Bytes e = entropy(kind, seed, s, o); static const char *const nm[] = {"zero entropy", "all-ones entropy", "repeated entropy", "another context's entropy", "single-bit entropy", "entropy"}; c.fault(nm[kind]); Input in(e, seed % 4); if (s.w) wei_curve_randomize(s.w, in.p); else edwards_curve_randomize(s.e, in.p); in.check("randomisation"); s.ent = e; last_ent = e; s.blinds++; c.probe(s.blinds > 1 ? "blinded-again" : "blinded");
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; auto sd = [&] { return (i64)(r.next() >> 1); }; int n = (int)r.range(6, cfg.thorough ? 60 : 26); int fav = r.chance(1, 2) ? (int)r.below(9) : -1; u64 wb = 1 + r.below(4), wu = 4 + r.below(8), wo = r.below(3); i64 favk = r.chance(1, 3) ? (i64)r.below(13) : -1; i64 favu = r.chance(1, 4) ? (i64)r.below(NU) : -1;
  for (int i = 0, k = r.chance(1, 2) ? 1 : 2 + (int)r.below(NS - 1); i < k; i++) p.add(OP_OPEN, {i, fav >= 0 && (i == 0 || r.chance(1, 2)) ? fav : (i64)r.below(9), 0});
  for (int i = 0; i < n; i++) { i64 s = (i64)r.below(NS); if (r.chance(1, 2)) s = 0; u64 x = r.below(wb + wu + wo + 1);
    if (x < wb) { p.add(OP_BLIND, {s, (i64)r.below(6), sd()}); if (r.chance(1, 3)) { // the same bytes given to another context, which is then used
        i64 o = (i64)r.below(NS); p.add(OP_BLIND, {o, 3, sd()}); p.add(OP_USE, {o, (i64)r.below(3), favk >= 0 ? favk : (i64)r.below(14), sd()}); } } else if (x < wb + wu) p.add(OP_USE, {s, favu >= 0 && r.chance(1, 2) ? favu : (i64)r.below(NU), favk >= 0 ? favk : (i64)r.below(14), sd()}); else if (x < wb + wu + wo) { if (r.chance(1, 3)) p.add(OP_CLOSE, {s}); else p.add(OP_OPEN, {s, fav >= 0 ? fav : (i64)r.below(9), (i64)r.below(3)}); } else p.add(OP_CROSS, {s, (i64)r.below(NS), sd()}); }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); for (auto &s : sl) drop(s); last_ent.clear(); c.interesting = true; int live = 0; u64 total = 0;
  struct Clean { ~Clean() { for (auto &s : sl) drop(s); } } clean;
  for (auto &st : pl.steps) {
    c.step(); int i = (int)((u64)st.arg(0) % NS); if (st.op != OP_OPEN) for (int j = 0; j < NS && !sl[i].live; j++) i = (i + 1) % NS; Slot &s = sl[i]; u64 seed = (u64)st.arg(st.op == OP_USE ? 3 : 2); c.sh((u64)st.op * 4096 + (u64)(st.op == OP_OPEN || st.op == OP_BLIND || st.op == OP_USE ? st.arg(1) * 64 : 0) + (u64)(st.op == OP_USE ? st.arg(2) : 0) + (s.live ? (u64)(s.cu + 1) << 20 : 0));
    switch (st.op) {
      case OP_OPEN: drop(s); s.cu = (int)((u64)st.arg(1) % 9); s.live = true; if (isw(s.cu)) { s.w = wei_curve_create((wei_curve_id_t)s.cu); s.ws = wei_scratch_create(s.w, 2 + (size_t)((u64)st.arg(2) % 3) * 4); } else { s.e = edwards_curve_create((edwards_curve_id_t)(s.cu - 6)); s.es = edwards_scratch_create(s.e, 2 + (size_t)((u64)st.arg(2) % 3) * 4); } c.log("open %d", i); break;
      case OP_CLOSE: drop(s); c.log("close %d", i); break;
      case OP_BLIND: if (s.live) { blind(c, s, sl[(i + 1) % NS], (int)((u64)st.arg(1) % 6), seed); total++; c.log("blind %d", i); } break;
      case OP_USE: if (s.live) { int u = (int)((u64)st.arg(1) % NU); use(c, s, u, (int)((u64)st.arg(2) % 14), seed); c.log("use %d", i); } break;
      default: { // one context signs, another of the same curve verifies
        Slot &o = sl[(u64)st.arg(1) % NS]; if (!s.live || !o.live || s.cu != o.cu) break; Z k = secret(s, (int)(seed % 14), seed); Bytes msg = seed_bytes(seed, 32); Guard a(140, 1), g(140, 2), h(140, 3); size_t n = 0; unsigned pr; c.eval(); c.probe("cross");
        if (s.w) { const MWei &M = mwei(s.cu); Bytes key = b_be(k, M.ss); int r1 = ecdsa_pubkey_create(o.w, a.p(), &n, key.data(), 1), r2 = ecdsa_sign(s.w, g.p(), &pr, msg.data(), 32, key.data()), r3 = ecdsa_verify(o.w, msg.data(), 32, g.p(), a.p(), n); CHECK(r1 && r2 && r3, "result-changed", "a signature made on one context of %s does not verify on another (%d %d %d)", M.name.c_str(), r1, r2, r3); c.tr(g.get(2 * M.ss)); }
        else { const MEd &M = med(s.cu - 6); Bytes key = seed_bytes(seed, M.as); eddsa_pubkey_create(o.e, a.p(), key.data()); eddsa_sign(s.e, g.p(), msg.data(), 32, key.data(), -1, nullptr, 0); int r = eddsa_verify(o.e, msg.data(), 32, g.p(), a.p(), -1, nullptr, 0); CHECK(r, "result-changed", "a signature made on one context of %s does not verify on another", M.name.c_str()); c.tr(g.get(2 * M.as)); } break; } }
  }
  for (auto &s : sl) live += s.live; c.state(hash2((u64)live, total));
}
const Scenario scenario = {"C15", ops, gen, exec, init, "distinct (sequence of opens, closes, randomisations and operations with key class)", 120};
