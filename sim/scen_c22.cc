// C22: private-key programs on a heap that reads every block at the moment it is given back.
#include "world.h"
#include "der.h"
#include "groups.h"
#include "input.h"
#include <openssl/evp.h>
#include <algorithm>
#include <set>
#include <unordered_map>
extern "C" {
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/ecc.h>
#include <torsion/kdf.h>
}
enum { OP_RSA, OP_DSA, OP_CURVE, OP_SCRYPT };
static const char *const ops[] = {"rsa", "dsa", "curve", "scrypt", nullptr};
static const int NR = sizeof rprimes / sizeof *rprimes, ND = sizeof fgroups / sizeof *fgroups, WIN = 16;
struct RK { Z n, e, d, p, q, dp, dq, qi; size_t k() const { return zbytes(n); } };
static const int NK = NR + 1;   // the last key is wide enough for the library to move its temporaries from the stack to the heap
static Z rp[NK][2]; static DGroup dg[ND];
static void init(const Cfg &) {
  rp[NR][0] = Z("ef7a170dc91e74b1a92ce9252f2dc934114ea87264d0e3975448fd0ba3aa6b2f057a7244f59060250f47cef57586418e4563ee1760c3c503a0112678268095f12eba5eb2d307eb1bae81557169c2ae6b310a94e2150ff3fb1ad046256c6fb7ab64e9e42db63ae13143b168c66112461c95c90b5fbb9295aa2daebc88c1592643b5a96a7cc2b1741144715a5cae5f3393608ae737f8d161f28cfa368a3bbc24a533fb28238d706a8c92f61240f94699c7127bf25af7efbfb706499462f81584121e6e2f6fc1c523f89f44ab3faa2d32e37d0a0cace2d338a15ea8a187c38d15f46ed96e7fcba9e8a7472c1929b488e534cb3aa2f6b1bb03e0f7c4462c7379f43a002954b1045cd35c29b7be48c819", 16); rp[NR][1] = Z("f0e1ab222cb1f10152942527bc28c1eb2fda5602e6526d31206dfa32ad5463487f8831ef071d1ac396b0756f26706a55cf94de7e0bcd19631cba41e46219e296a55aa5f9bb83657a01856a7d16efc1b05bd2b2a8c8d34289106481c785133835474dc762207c735ffabbfa02744efdb8400772a3f0f71d06ff98ed825410f2e39d5faf687acea15611e4a51ced67e1d083332eb98caba7669fab7257604375f95a77e21bc2f85294a9bc9ed8c4b9dd70c349d6b7ec42dc097c92a90f595ee06486f76c49dfb0843fdaa55dd229dd48491327ed742d684e6ce6204d1d1c0463da5bb0f5212c3b601b2f5fce31f767fbf37181eaef4d67e16c9885077361294d36a5e17828499e9001b4198ead22b577", 16);
  for (int i = 0; i < NR; i++) { rp[i][0] = Z(rprimes[i].p, 16); rp[i][1] = Z(rprimes[i].q, 16); }
  for (int i = 0; i < ND; i++) { dg[i].p = Z(fgroups[i].p, 16); dg[i].q = Z(fgroups[i].q, 16); dg[i].g = Z(fgroups[i].g, 16); }
}
// --- what must not be found
struct Needle { std::string name; Bytes b; };
static std::vector<Needle> needles; static std::unordered_map<u64, std::vector<std::pair<u32, u32>>> windows; static const char *running; static std::string cls; static u64 blocks, bytes;
static u64 ld(const u8 *p) { u64 v; memcpy(&v, p, 8); return v; }
static std::set<u64> open_words;   // words of the public modulus: factors of a special form share them with secrets
static void publish(const Z &z) { Bytes b = b_be(z, zbytes(z)); for (int i = 0; i < 2; i++) { for (size_t o = 0; o + 8 <= b.size(); o++) open_words.insert(ld(&b[o])); std::reverse(b.begin(), b.end()); } }
static void form(const std::string &name, const Bytes &b) {
  u32 id = (u32)needles.size(); needles.push_back({name, b});
  for (size_t o = 0; o + WIN <= b.size(); o++) { if (std::set<u8>(b.begin() + (long)o, b.begin() + (long)o + WIN).size() < 9 || open_words.count(ld(&b[o])) || open_words.count(ld(&b[o + 8]))) continue; windows[ld(&b[o])].push_back({id, (u32)o}); }
}
static void hide(const char *name, const Bytes &b) { form(name, b); form(name, Bytes(b.rbegin(), b.rend())); }
static void hide(const char *name, const Z &z) { if (z > 0) hide(name, b_be(z, zbytes(z))); }
static void reset() { needles.clear(); windows.clear(); open_words.clear(); }
static void released(const u8 *p, size_t n) {
  if (!running) return; blocks++; bytes += n; g_ctx->tr(n);
  for (size_t i = 0; i + WIN <= n; i++) { auto it = windows.find(ld(p + i)); if (it == windows.end()) continue;
    for (auto &w : it->second) { const Bytes &b = needles[w.first].b; size_t m = 0; while (i + m < n && w.second + m < b.size() && p[i + m] == b[w.second + m]) m++;
      if (m >= (size_t)WIN) { const char *op = running; running = nullptr; g_ctx->fail(cls.c_str(), "%s gave back a heap block of %zu bytes that still holds %zu bytes of %s", op, n, m, needles[w.first].name.c_str()); } } }
}
// While an operation is watched, one of its allocations may fail: the way out of it gives memory back too.
static u64 starve; static bool starved;
struct Watch {
  explicit Watch(const char *op, const char *c) { running = op; cls = std::string("left-") + c; blocks = bytes = 0; g_on_release = released; starved = false; if (starve) { g_oom = NoMemoryPlan(); g_oom.active = true; g_oom.fail_at = {starve - 1}; } }
  ~Watch() { running = nullptr; g_on_release = nullptr; starved = g_oom.failed != 0; g_oom = NoMemoryPlan(); }
};
static void done(Ctx &c, int r) { c.eval(blocks); c.tr((u64)r); c.probe(r ? "succeeded" : "refused"); if (blocks) c.interesting = true; }

static Z rndz(u64 seed, const Z &m) { return zmod(z_be(seed_bytes(seed, zbytes(m) + 8)), m); }
static Bytes rder(std::initializer_list<Z> l, bool version) { Bytes b; if (version) b = Bytes{2, 1, 0}; for (auto &z : l) app(b, der_int(z)); return der_seq(b); }
static void hide(const RK &k) { publish(k.n); hide("the private exponent", k.d); hide("a prime factor", k.p); hide("a prime factor", k.q); hide("a reduced exponent", k.dp); hide("a reduced exponent", k.dq); hide("the coefficient", k.qi); Z phi = (k.p - 1) * (k.q - 1); hide("the totient", Z(phi & ((Z(1) << (unsigned)(zbytes(k.n) / 2 * 8 - 24)) - 1))); }
static RK rkey(int pi, u64 seed) { RK k; k.e = (seed & 1) ? 65537 : 3; k.p = rp[pi][0]; k.q = rp[pi][1]; if (k.p < k.q) std::swap(k.p, k.q); Z a = k.p - 1, b = k.q - 1, lam; Z g; mpz_gcd(g.get_mpz_t(), k.e.get_mpz_t(), Z(a * b).get_mpz_t()); if (g != 1) k.e = 65537; mpz_lcm(lam.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); k.n = k.p * k.q; k.d = zinv(k.e, (seed & 2) ? Z(a * b) : lam); k.dp = zmod(k.d, a); k.dq = zmod(k.d, b); k.qi = zinv(k.q, k.p); return k; }
static const char *const rsa_names[] = {"rsa-verify-key", "rsa-import", "rsa-export", "rsa-public", "rsa-sign", "rsa-sign-pss", "rsa-decrypt", "rsa-decrypt-oaep", "rsa-decrypt-key", "rsa-encrypt", "rsa-encrypt-oaep", "rsa-generate", "rsa-veil"};
static const char *const rsa_ops[] = {"checking an RSA key", "assembling an RSA key", "taking an RSA key apart", "deriving an RSA public key", "RSA signing", "RSA-PSS signing", "RSA decryption", "RSA-OAEP decryption", "RSA key decryption", "RSA encryption", "RSA-OAEP encryption", "RSA key generation", "RSA veiling"};
static const int NRV = 13;
static Bytes damage(Bytes b, int f, u64 seed, Ctx &c) {
  switch (f) { case 1: b[seed % b.size()] ^= (u8)(1 << (seed >> 40 & 7)); c.fault("bit flip"); break; case 2: b.resize(b.size() - 1 - seed % 9); c.fault("cut"); break; case 3: b.push_back((u8)seed); c.fault("extended"); break; default: break; }
  return b;
}
static void rsa(Ctx &c, int v, int pi, int f, u64 seed) {
  RK k = rkey(pi, seed); Bytes ent = seed_bytes(seed ^ 1, 32); reset(); RK w = k;
  if (f == 4) { Z *part[] = {&w.d, &w.p, &w.q, &w.dp, &w.dq, &w.qi, &w.n, &w.e}; Z &x = *part[(seed >> 8) % 8]; switch (seed >> 12 & 3) { case 0: x += 2; break; case 1: x = 0; break; case 2: x = x ^ (Z(1) << (unsigned)(seed >> 16) % 400); break; default: x = w.n + 2; } c.fault("inconsistent part"); hide(w); }
  if (f == 5) { std::swap(w.p, w.q); c.fault("factors swapped"); }
  hide(k); Bytes priv = damage(rder({w.n, w.e, w.d, w.p, w.q, w.dp, w.dq, w.qi}, true), f, seed >> 4, c), pub = rder({k.n, k.e}, false), msg = seed_bytes(seed ^ 2, 32), lab = seed_bytes(seed ^ 3, seed >> 30 & 15); size_t n = 0, cn = 0; int r = 0; Guard o(RSA_MAX_PRIV_SIZE, seed); hash_id_t h = (seed >> 50 & 1) ? HASH_SHA256 : HASH_SHA1; if (h == HASH_SHA1) msg.resize(20);
  size_t hl = msg.size(), room = v == 7 || v == 10 ? k.k() - 2 * hl - 2 : k.k() - 11; if (k.k() < 2 * hl + 2 + 16) room = k.k() - 11; if ((v == 7 || v == 10) && k.k() < 2 * hl + 18) { h = HASH_MD5; hl = 16; room = k.k() - 34; }
  Bytes pt = seed_bytes(seed ^ 5, 16 + (seed >> 33) % (room - 15)), ct(k.k()); bool bare = (seed >> 60 & 1) != 0;
  if (v >= 6 && v <= 8) { Input pb(pub, 0); r = v == 7 ? rsa_encrypt_oaep(ct.data(), &cn, h, pt.data(), pt.size(), pb.p, pb.n, lab.data(), lab.size(), ent.data()) : rsa_encrypt(ct.data(), &cn, pt.data(), pt.size(), pb.p, pb.n, ent.data()); CHECK(r && cn == ct.size(), "setup", "encryption refused %zu bytes for a key of %zu", pt.size(), k.k()); hide("the plaintext", pt); if (f == 6) ct = damage(ct, 1 + (int)(seed >> 3 & 1) * 2, seed >> 5, c); }
  if (v == 4 && (f == 7)) { msg.resize(msg.size() - 1); c.fault("digest of the wrong size"); }
  Bytes in; if (v == 1) { static const char *const src[] = {"complete", "primes", "primes and exponent", "exponents"}; int s = (int)(seed >> 52 & 3); (void)src; in = s == 0 ? dumb({w.n, w.e, w.d, w.p, w.q, w.dp, w.dq, w.qi}) : s == 1 ? dumb({0, w.e, 0, w.p, w.q, 0, 0, 0}) : s == 2 ? dumb({0, 0, w.d, w.p, w.q, 0, 0, 0}) : dumb({w.n, w.e, w.d, 0, 0, 0, 0, 0}); in = damage(in, f, seed >> 4, c); }
  Input pv(priv, seed % 3), ii(in, 0);
  if (v == 11) { unsigned bits = 512 + (unsigned)(seed >> 20) % 3; r = rsa_privkey_generate(o.p(), &n, bits, 65537, ent.data()); CHECK(r, "setup", "generation failed"); Bytes got = o.get(n); DerIn d(got); d.seq(); d.version(0); RK g; g.n = d.integer(); d.integer(); g.d = d.integer(); g.p = d.integer(); g.q = d.integer(); g.dp = d.integer(); g.dq = d.integer(); g.qi = d.integer(); reset(); hide(g); }
  if (v == 9 || v == 10) { reset(); hide("the plaintext", pt); }
  { Watch wt(rsa_ops[v], rsa_names[v]);
    switch (v) {
      case 0: r = rsa_privkey_verify(pv.p, pv.n); break; case 1: r = rsa_privkey_import(o.p(), &n, ii.p, ii.n, bare ? nullptr : ent.data()); break; case 2: r = rsa_privkey_export(o.p(), &n, pv.p, pv.n); break; case 3: r = rsa_pubkey_create(o.p(), &n, pv.p, pv.n); break;
      case 4: r = rsa_sign(o.p(), &n, h, msg.data(), msg.size(), pv.p, pv.n, ent.data()); break; case 5: r = rsa_sign_pss(o.p(), &n, h, msg.data(), msg.size(), pv.p, pv.n, (seed >> 40 & 1) ? (size_t)RSA_SALT_LENGTH_HASH : (size_t)(seed >> 41) % 24, ent.data()); break;
      case 6: r = rsa_decrypt(o.p(), &n, ct.data(), ct.size(), pv.p, pv.n, ent.data()); break; case 7: r = rsa_decrypt_oaep(o.p(), &n, h, ct.data(), ct.size(), pv.p, pv.n, lab.data(), lab.size(), ent.data()); break; case 8: { size_t want = pt.size() + (f == 7 ? 1 : 0); if (f == 7) c.fault("other key size expected"); r = rsa_decrypt_key(o.p(), want, ct.data(), ct.size(), pv.p, pv.n, ent.data()); break; }
      case 9: r = rsa_encrypt(o.p(), &n, pt.data(), pt.size(), pub.data(), pub.size(), ent.data()); break; case 10: r = rsa_encrypt_oaep(o.p(), &n, h, pt.data(), pt.size(), pub.data(), pub.size(), lab.data(), lab.size(), ent.data()); break;
      case 11: { unsigned bits = 512 + (unsigned)(seed >> 20) % 3; r = rsa_privkey_generate(o.p(), &n, bits, 65537, ent.data()); break; }
      default: r = rsa_veil(o.p(), &n, ct.data(), ct.size(), (unsigned)k.k() * 8 + 8 + (unsigned)(seed % 40), pub.data(), pub.size(), ent.data()); } }
  if (f == 0 && v != 12 && v != 5 && !starved) CHECK(r == 1, "refused", "%s refused an honest key", rsa_ops[v]); done(c, r);
}
static const char *const dsa_names[] = {"dsa-verify-key", "dsa-import", "dsa-export", "dsa-public", "dsa-sign", "dsa-derive", "dsa-create", "dsa-generate"};
static const char *const dsa_ops[] = {"checking a DSA key", "assembling a DSA key", "taking a DSA key apart", "deriving a DSA public key", "DSA signing", "DSA key agreement", "DSA key creation", "DSA key generation"};
static const int NDV = 8;
static void dsa(Ctx &c, int v, int gi, int f, u64 seed) {
  DPriv k; k.g = dg[gi]; k.x = rndz(seed ^ 9, k.g.q - 1) + 1; k.y = zpow(k.g.g, k.x, k.g.p); reset(); DPriv w = k; Bytes ent = seed_bytes(seed ^ 1, 32), msg = seed_bytes(seed ^ 2, 20 + (seed >> 20) % 30); Guard o(DSA_MAX_PRIV_SIZE, seed); size_t n = 0; int r = 0;
  if (f == 4) { Z *part[] = {&w.x, &w.y, &w.g.p, &w.g.q, &w.g.g}; Z &x = *part[(seed >> 8) % 5]; switch (seed >> 12 & 3) { case 0: x += 1; break; case 1: x = 0; break; case 2: x = x ^ (Z(1) << (unsigned)(seed >> 16) % 150); break; default: x = w.g.q + x; } c.fault("inconsistent part"); hide("the private key", w.x); }
  hide("the private key", k.x); Bytes priv = damage(der_priv(w), f, seed >> 4, c), par = der_group(k.g); Z x2 = rndz(seed ^ 10, k.g.q - 1) + 1, y2 = zpow(k.g.g, x2, k.g.p); Bytes peer = der_pub(k.g, y2); if (f == 6) { peer = damage(peer, 1, seed >> 6, c); } Bytes in = dumb({w.g.p, w.g.q, w.g.g, (seed >> 30 & 1) ? Z(0) : w.y, w.x}); if (v == 1) in = damage(in, f, seed >> 4, c);
  if (v == 5) hide("the shared secret", zpow(y2, k.x, k.g.p)); Input pv(priv, seed % 3), ii(in, 0);
  if (v == 4 && f == 0) { r = dsa_sign(o.p(), &n, msg.data(), msg.size(), pv.p, pv.n, ent.data()); size_t qs = zbytes(k.g.q); if (r && n == 2 * qs) { Bytes s = o.get(n); Z rr = z_be(s.data(), qs), ss = z_be(s.data() + qs, qs), m = z_be(msg.data(), std::min(qs, msg.size())), kk = zmod((m + k.x * rr) * zinv(ss, k.g.q), k.g.q); if (zmod(zpow(k.g.g, kk, k.g.p), k.g.q) == rr) { hide("the nonce", kk); hide("the inverted nonce", zinv(kk, k.g.q)); c.probe("nonce known"); } } }
  if (v == 6) { r = dsa_privkey_create(o.p(), &n, par.data(), par.size(), ent.data()); CHECK(r, "setup", "key creation failed"); DPriv g; CHECK(der_priv(o.get(n), g), "setup", "created key unreadable"); reset(); hide("the private key", g.x); }
  if (v == 7) { r = dsa_privkey_generate(o.p(), &n, 1024, ent.data()); CHECK(r, "setup", "key generation failed"); DPriv g; CHECK(der_priv(o.get(n), g), "setup", "generated key unreadable"); reset(); hide("the private key", g.x); }
  { Watch wt(dsa_ops[v], dsa_names[v]);
    switch (v) { case 0: r = dsa_privkey_verify(pv.p, pv.n); break; case 1: r = dsa_privkey_import(o.p(), &n, ii.p, ii.n); break; case 2: r = dsa_privkey_export(o.p(), &n, pv.p, pv.n); break; case 3: r = dsa_pubkey_create(o.p(), &n, pv.p, pv.n); break; case 4: r = dsa_sign(o.p(), &n, msg.data(), msg.size(), pv.p, pv.n, ent.data()); break; case 5: r = dsa_derive(o.p(), &n, peer.data(), peer.size(), pv.p, pv.n); break; case 6: r = dsa_privkey_create(o.p(), &n, par.data(), par.size(), ent.data()); break; default: r = dsa_privkey_generate(o.p(), &n, 1024, ent.data()); } }
  if (f == 0 && !starved) CHECK(r == 1, "refused", "%s refused an honest key", dsa_ops[v]); done(c, r);
}
// A context's blinding scalar is the one key generation derives from the same entropy; its use is watched until the context is destroyed.
static void curve(Ctx &c, int cu, int mode, u64 seed) {
  starve = 0; reset(); Bytes ent = seed_bytes(seed, 32), ent2 = seed_bytes(seed + 1, 32), key(80), key2(80), msg = seed_bytes(seed ^ 3, 32); u8 out[200]; size_t n; unsigned pr;
  if (cu < 6) { wei_curve_t *w = wei_curve_create((wei_curve_id_t)cu); ecdsa_privkey_generate(w, key.data(), ent.data()); ecdsa_privkey_generate(w, key2.data(), ent2.data()); key.resize(wei_curve_scalar_size(w)); key2.resize(key.size()); { Bytes neg(80); CHECK(ecdsa_privkey_negate(w, neg.data(), key.data()), "setup", "negation failed"); neg.resize(key.size()); hide("the blinding scalar", neg); } hide("the blinding scalar", key); hide("the private key", key2); hide("the blinding entropy", ent); Watch wt("a curve context", "curve-context"); wei_scratch_t *sc = (mode & 1) ? wei_scratch_create(w, 8) : nullptr; wei_curve_randomize(w, ent.data()); if (mode & 2) ecdsa_sign(w, out, &pr, msg.data(), 32, key2.data()); if (mode & 4) ecdsa_pubkey_create(w, out, &n, key2.data(), 1); if (mode & 8) wei_curve_randomize(w, seed_bytes(seed + 2, 32).data()); if (sc) { u8 pub[66], sig[132]; if (cu != 6) { bip340_pubkey_create(w, pub, key2.data()); bip340_sign(w, sig, msg.data(), 32, key2.data(), nullptr); const u8 *mp = msg.data(), *sp = sig, *pp = pub; size_t ml = 32; bip340_verify_batch(w, &mp, &ml, &sp, &pp, 1, sc); } wei_scratch_destroy(w, sc); } wei_curve_destroy(w); }
  else { edwards_curve_t *e = edwards_curve_create((edwards_curve_id_t)(cu - 6)); eddsa_scalar_generate(e, key.data(), ent.data()); Bytes k3(80); ristretto_privkey_generate(e, k3.data(), ent.data()); eddsa_privkey_generate(e, key2.data(), ent2.data()); size_t ss = edwards_curve_scalar_size(e); key.resize(ss); k3.resize(ss); key2.resize(eddsa_privkey_size(e)); hide("the blinding scalar", key); hide("the blinding scalar", k3); { Bytes neg(80), neg3(80); eddsa_scalar_negate(e, neg.data(), key.data()); eddsa_scalar_negate(e, neg3.data(), k3.data()); neg.resize(ss); neg3.resize(ss); hide("the blinding scalar", neg); hide("the blinding scalar", neg3); } hide("the private key", key2); hide("the blinding entropy", ent); Watch wt("a curve context", "curve-context"); edwards_curve_randomize(e, ent.data()); if (mode & 2) eddsa_sign(e, out, msg.data(), 32, key2.data(), -1, nullptr, 0); if (mode & 4) eddsa_pubkey_create(e, out, key2.data()); if (mode & 8) edwards_curve_randomize(e, seed_bytes(seed + 2, 32).data()); if (mode & 1) { u8 pub[57], sig[114]; edwards_scratch_t *sc = edwards_scratch_create(e, 8); eddsa_pubkey_create(e, pub, key2.data()); eddsa_sign(e, sig, msg.data(), 32, key2.data(), -1, nullptr, 0); const u8 *mp = msg.data(), *sp = sig, *pp = pub; size_t ml = 32; eddsa_verify_batch(e, &mp, &ml, &sp, &pp, 1, -1, nullptr, 0, sc); edwards_scratch_destroy(e, sc); } edwards_curve_destroy(e); }
  done(c, 1);
}
// RFC 7914, kept to the blocks it works on
static void salsa8(u32 *b) { u32 x[16]; memcpy(x, b, 64); auto R = [](u32 a, int n) { return a << n | a >> (32 - n); }; for (int i = 0; i < 4; i++) { static const u8 q[8][4] = {{0,4,8,12},{5,9,13,1},{10,14,2,6},{15,3,7,11},{0,1,2,3},{5,6,7,4},{10,11,8,9},{15,12,13,14}}; for (auto &k : q) { x[k[1]] ^= R(x[k[0]] + x[k[3]], 7); x[k[2]] ^= R(x[k[1]] + x[k[0]], 9); x[k[3]] ^= R(x[k[2]] + x[k[1]], 13); x[k[0]] ^= R(x[k[3]] + x[k[2]], 18); } } for (int i = 0; i < 16; i++) b[i] += x[i]; }
static void blockmix(std::vector<u32> &b, u32 r) { std::vector<u32> y(b.size()); u32 x[16]; memcpy(x, &b[(2 * r - 1) * 16], 64); for (u32 i = 0; i < 2 * r; i++) { for (int j = 0; j < 16; j++) x[j] ^= b[i * 16 + j]; salsa8(x); memcpy(&y[((i & 1) * r + i / 2) * 16], x, 64); } b = y; }
static void scrypt(Ctx &c, u64 seed) {
  reset(); Bytes pw = seed_bytes(seed, 16 + (seed >> 8) % 60), salt = seed_bytes(seed + 1, (seed >> 16) % 40); u32 N = 2u << ((seed >> 24) % 5), r = 1 + (u32)(seed >> 28) % 4, p = 1 + (u32)(seed >> 32) % 3; size_t len = 16 + (seed >> 36) % 70; Bytes B(128 * r * p), out(len); PKCS5_PBKDF2_HMAC((const char *)pw.data(), (int)pw.size(), salt.data(), (int)salt.size(), 1, EVP_sha256(), (int)B.size(), B.data());
  hide("the password", pw); hide("the first derived block", B); Bytes F = B; for (u32 i = 0; i < p; i++) { std::vector<u32> x(32 * r); memcpy(x.data(), &B[128 * r * i], 128 * r); std::vector<std::vector<u32>> V; for (u32 j = 0; j < N; j++) { V.push_back(x); blockmix(x, r); } for (u32 j = 0; j < N; j++) { auto &v = V[x[(2 * r - 1) * 16] & (N - 1)]; for (size_t t = 0; t < x.size(); t++) x[t] ^= v[t]; blockmix(x, r); } memcpy(&F[128 * r * i], x.data(), 128 * r); Bytes m(128 * r); memcpy(m.data(), V[N / 2].data(), m.size()); form("an intermediate block", m); }
  Bytes want(len); PKCS5_PBKDF2_HMAC((const char *)pw.data(), (int)pw.size(), F.data(), (int)F.size(), 1, EVP_sha256(), (int)len, want.data()); hide("the last derived block", F); hide("the derived key", want);
  int ok; Guard o(len, seed); { Watch wt("scrypt", "scrypt"); ok = scrypt_derive(o.p(), pw.data(), pw.size(), salt.data(), salt.size(), N, r, p, len); } CHECK(starved ? !ok || o.get(len) == want : ok && o.get(len) == want, "refused", "scrypt gave another key than the model"); done(c, ok);
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; int n = (int)r.range(1, cfg.thorough ? 12 : 6); auto sd = [&] { return (i64)(r.next() >> 1); }; auto short_of = [&] { return r.chance(3, 4) ? 0 : 1 + (i64)(r.chance(1, 2) ? r.below(8) : r.below(60)); };
  for (int i = 0; i < n; i++) { i64 f = r.chance(1, 2) ? 0 : (i64)r.below(8); u64 x = r.below(20);
    if (x < 11) { i64 v = (i64)r.below(NRV); if (v == 11 && !r.chance(1, 6)) v = 4; p.add(OP_RSA, {v, r.chance(1, 8) ? (i64)r.below(NK) : (i64)r.below(8), f, sd(), short_of()}); }
    else if (x < 16) { i64 v = (i64)r.below(NDV); if (v == 7 && !r.chance(1, 20)) v = 4; p.add(OP_DSA, {v, r.chance(1, 8) ? (i64)r.below(ND) : (i64)r.below(4), f, sd(), short_of()}); }
    else if (x < 18) p.add(OP_CURVE, {(i64)r.below(9), (i64)r.below(16), sd()}); else p.add(OP_SCRYPT, {sd(), r.chance(1, 2) ? (i64)r.below(4) : 0}); }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); running = nullptr; g_on_release = nullptr; u64 total = 0, tb = 0;
  for (auto &st : pl.steps) {
    c.step(); auto A = [&](int i, u64 m) { return (int)((u64)st.arg(i) % m); }; u64 live = heap_live(); c.log("%s %lld %lld %lld", ops[st.op], (long long)st.arg(0), (long long)st.arg(1), (long long)st.arg(2));
    starve = st.op == OP_RSA || st.op == OP_DSA ? (u64)st.arg(4) % 200 : st.op == OP_SCRYPT ? (u64)st.arg(1) % 8 : 0; std::vector<Range> before; if (starve) before = library_heap();
    try {
    switch (st.op) { case OP_RSA: c.sh((u64)(A(0, NRV) * 4096 + A(1, NK) * 64 + A(2, 8))); rsa(c, A(0, NRV), A(1, NK), A(2, 8), (u64)st.arg(3)); c.probe(rsa_names[A(0, NRV)]); break; case OP_DSA: c.sh((u64)(100000 + A(0, NDV) * 4096 + A(1, ND) * 64 + A(2, 8))); dsa(c, A(0, NDV), A(1, ND), A(2, 8), (u64)st.arg(3)); c.probe(dsa_names[A(0, NDV)]); break; case OP_CURVE: c.sh((u64)(200000 + A(0, 9) * 64 + A(1, 16))); curve(c, A(0, 9), A(1, 16), (u64)st.arg(2)); c.probe("curve context"); break; default: c.sh(300000); scrypt(c, (u64)st.arg(0)); c.probe("scrypt"); }
    } catch (AbortCalled &) { CHECK(starve && starved, "abort", "%s terminated the process although memory was available", ops[st.op]); c.probe("terminated for lack of memory"); heap_drop_new(before); }
    CHECK(heap_live() == live, "leak", "%s kept memory", ops[st.op]); total += blocks; tb += bytes;
  }
  c.probe("blocks read", total); c.state(hash2(total, tb));
}
const Scenario scenario = {"C22", ops, gen, exec, init, "distinct (sequence of operations with variant, key and fault) with at least one block given back", 120};
