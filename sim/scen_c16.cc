// C16: a key store on a disk that loses, tears, splices and rots what was written.
#include "world.h"
#include "der.h"
#include "groups.h"
#include "input.h"
#include <crypt.h>
extern "C" {
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/ecc.h>
#include <torsion/kdf.h>
}
enum { OP_STORE, OP_TORN, OP_ROT, OP_SHAPE, OP_LOAD, OP_CROSSLOAD };
static const char *const ops[] = {"store", "torn-write", "rot", "reshape", "load", "load-as", nullptr};
enum Kind { RSA_PRIV, RSA_PUB, RSA_PRIVP, RSA_PUBP, DSA_PRM, DSA_PUB, DSA_PRIV, DSA_PRMP, DSA_PUBP, DSA_PRIVP, DSA_SIG, DSA_RS, EC_SIG, EC_RS, EC_PUB, EC_SEC, EC_XY, X_PUB, ED_PUB, ED_SEC, ED_XY, RI_PUB, RI_SEC, MO_PUB, MO_SEC, PASSWORD, NK };
static const char *const kname[] = {"RSA private key", "RSA public key", "RSA private parts", "RSA public parts", "DSA parameters", "DSA public key", "DSA private key", "DSA parameter parts", "DSA public parts", "DSA private parts", "DSA signature", "raw DSA signature", "ECDSA signature", "raw ECDSA signature", "curve point", "curve scalar", "curve coordinates", "x-only point", "Edwards point", "Edwards key", "Edwards coordinates", "group element", "group scalar", "Montgomery point", "Montgomery scalar", "password record"};
static const int NS = 4, NR = sizeof rprimes / sizeof *rprimes, ND = sizeof fgroups / sizeof *fgroups, NROT = 14, NSHAPE = 30;
static DGroup dg[ND]; static Z rp[NR][2]; static wei_curve_t *wc[6]; static edwards_curve_t *ecv[3]; static mont_curve_t *mc[2];
static void init(const Cfg &) {
  for (int i = 0; i < NR; i++) { rp[i][0] = Z(rprimes[i].p, 16); rp[i][1] = Z(rprimes[i].q, 16); }
  for (int i = 0; i < ND; i++) { dg[i].p = Z(fgroups[i].p, 16); dg[i].q = Z(fgroups[i].q, 16); dg[i].g = Z(fgroups[i].g, 16); }
  for (int i = 0; i < 6; i++) { mwei(i); wc[i] = wei_curve_create((wei_curve_id_t)i); } for (int i = 0; i < 3; i++) { med(i); ecv[i] = edwards_curve_create((edwards_curve_id_t)i); } for (int i = 0; i < 2; i++) { mmont(i); mc[i] = mont_curve_create((mont_curve_id_t)i); }
}
namespace { struct Obj { bool live = false; int kind = 0, cu = 0; Bytes b, orig; std::vector<Z> v; u64 seed = 0; bool ver = false; }; }
static Obj sl[NS];
static size_t zbits(const Z &z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static Z zgcd(const Z &a, const Z &b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static bool isder(int k) { return k <= RSA_PUB || (k >= DSA_PRM && k <= DSA_PRIV) || k == DSA_SIG || k == EC_SIG; }
static bool isparts(int k) { return k == RSA_PRIVP || k == RSA_PUBP || (k >= DSA_PRMP && k <= DSA_PRIVP); }
static Bytes der_of(const std::vector<Z> &v, bool ver) { Bytes b; if (ver) b = Bytes{2, 1, 0}; for (auto &z : v) app(b, der_int(z)); return der_seq(b); }
static Bytes parts_of(const std::vector<Z> &v) { Bytes o; for (auto &z : v) { Bytes x = b_be(z, zbytes(z)); o.push_back((u8)(x.size() >> 8)); o.push_back((u8)x.size()); app(o, x); } return o; }
static bool der_read(const Bytes &b, size_t n, bool ver, std::vector<Z> &v) { DerIn d(b); d.seq(); if (d.ok && ver) d.version(0); v.clear(); for (size_t i = 0; i < n; i++) v.push_back(d.integer()); return d.end(); }
static bool parts_read(const Bytes &b, size_t n, std::vector<Z> &v) { size_t i = 0; v.clear(); for (size_t j = 0; j < n; j++) { if (b.size() - i < 2) return false; size_t l = (size_t)b[i] << 8 | b[i + 1]; i += 2; if (l > b.size() - i) return false; v.push_back(z_be(b.data() + i, l)); i += l; } return true; }
static bool pub_fine(const Z &n, const Z &e) { return zbits(n) >= 512 && zbits(n) <= 16384 && zodd(n) && zodd(e) && e >= 3 && zbits(e) <= 33; }
static bool priv_fine(const std::vector<Z> &k) {
  const Z &n = k[0], &e = k[1], &d = k[2], &p = k[3], &q = k[4]; if (!pub_fine(n, e) || p < 3 || q < 3 || p == q || p * q != n) return false; Z a = p - 1, b = q - 1, phi = a * b, lam = phi / zgcd(a, b);
  return d >= 2 && d < phi && zmod(e * d, lam) == 1 && k[5] == zmod(d, a) && k[6] == zmod(d, b) && k[5] > 0 && k[6] > 0 && k[7] >= 2 && k[7] < p && zmod(k[7] * q, p) == 1;
}
static void rc(const Obj &o, const char *f, int r, bool want) { CHECK(r == (int)want, want ? "intact-refused" : "damaged-accepted", "%s of a %s %s returned %d, expected %d", f, kname[o.kind], hex(o.b, 400).c_str(), r, (int)want); }
static void eq(const Obj &o, const char *f, const Bytes &got, const Bytes &want) { CHECK(got == want, "bad-reexport", "%s of a %s %s gave %s, expected %s", f, kname[o.kind], hex(o.b, 400).c_str(), hex(got, 400).c_str(), hex(want, 400).c_str()); }
static void num(const Obj &o, const char *f, u64 got, u64 want) { CHECK(got == want, "bad-size", "%s of a %s %s gave %llu, expected %llu", f, kname[o.kind], hex(o.b, 400).c_str(), (unsigned long long)got, (unsigned long long)want); }
static Z rnd(u64 seed, const Z &n) { Z k = zmod(z_be(seed_bytes(seed, zbytes(n) + 8)), n - 1) + 1; if ((seed >> 40) % 5 == 0) k = zmod(k, Z(1) << (unsigned)(1 + (seed >> 44) % zbits(n))); if ((seed >> 40) % 11 == 1) k = n - 1 - (int)(seed >> 50 & 3); return zmod(k, n) == 0 ? Z(1) : zmod(k, n); }
static std::string phrase(u64 seed) { size_t n = (seed >> 20) % 24; if ((seed >> 32) % 6 == 0) n = 66 + (seed >> 36) % 10; if ((seed >> 32) % 9 == 1) n = 240 + (seed >> 36) % 15; Bytes b = seed_bytes(seed ^ 0x9a55, n); std::string s; for (u8 x : b) s += (char)(32 + x % 95); return s; }
static const char itoa64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static int a64(u8 c) { const char *p = c ? strchr(itoa64, c) : nullptr; return p ? (int)(p - itoa64) : -1; }
static bool b64(const Bytes &b, size_t at, size_t n, size_t bytes, Bytes &out, bool *spare) { out.clear(); u32 acc = 0; int nb = 0; for (size_t i = 0; i < n; i++) { int v = a64(b[at + i]); if (v < 0) return false; acc = acc << 6 | (u32)v; nb += 6; if (nb >= 8 && out.size() < bytes) { nb -= 8; out.push_back((u8)(acc >> nb)); acc &= (1u << nb) - 1; } } if (acc) *spare = true; return true; }
static std::string mcrypt(const std::string &pass, const std::string &setting) { static struct crypt_data d; memset(&d, 0, sizeof d); char *r = crypt_r(pass.c_str(), setting.c_str(), &d); return r ? r : ""; }

static void make(Ctx &c, Obj &o, int kind, u64 seed) {
  o = Obj(); o.kind = kind; o.seed = seed; o.live = true; Z k; Guard g(RSA_MAX_PRIV_SIZE, seed); size_t n = 0;
  if (kind <= RSA_PUBP) {
    int pi = (int)(seed % NR); if (rprimes[pi].bits > 1100) pi = (int)((seed >> 8) % 3); Z p = rp[pi][0], q = rp[pi][1], e = (seed >> 12 & 1) ? 65537 : 3; if (p < q) std::swap(p, q); Z a = p - 1, b = q - 1; if (zgcd(e, a * b) != 1) e = 65537; Z d = zinv(e, (seed >> 13 & 1) ? Z(a * b) : Z(a * b / zgcd(a, b)));
    if (kind == RSA_PRIV || kind == RSA_PRIVP) o.v = {p * q, e, d, p, q, zmod(d, a), zmod(d, b), zinv(q, p)}; else o.v = {p * q, e}; o.ver = kind == RSA_PRIV;
    if (kind == RSA_PRIVP && (seed >> 16) % 4) { int how = (int)((seed >> 16) % 4); o.v = how == 1 ? std::vector<Z>{0, e, 0, p, q, 0, 0, 0} : how == 2 ? std::vector<Z>{0, 0, d, p, q, 0, 0, 0} : std::vector<Z>{p * q, e, d, 0, 0, 0, 0, 0}; }
  } else if (kind <= DSA_PRIVP) {
    const DGroup &G = dg[o.cu = (int)(seed % ND)]; Z x = rnd(seed, G.q), y = zpow(G.g, x, G.p); switch (kind) { case DSA_PRM: case DSA_PRMP: o.v = {G.p, G.q, G.g}; break; case DSA_PUB: o.v = {y, G.p, G.q, G.g}; break; case DSA_PUBP: o.v = {G.p, G.q, G.g, y}; break; case DSA_PRIV: o.v = {G.p, G.q, G.g, y, x}; o.ver = true; break; default: o.v = {G.p, G.q, G.g, y, x}; if (seed >> 16 & 1) o.v[3] = 0; }
  } else if (kind == DSA_SIG || kind == DSA_RS) { static const unsigned qs[] = {20, 28, 32}; o.cu = (int)(seed % 3); Z m = Z(1) << (8 * qs[o.cu]); o.v = {rnd(seed, m), rnd(seed ^ 77, m)}; if (kind == DSA_RS) { o.b = b_be(o.v[0], qs[o.cu]); app(o.b, b_be(o.v[1], qs[o.cu])); } }
  else if (kind <= X_PUB) { const MWei &M = mwei(o.cu = (int)(seed % 6)); k = rnd(seed, M.n); Pt P;
    switch (kind) { case EC_SIG: case EC_RS: o.v = {k, rnd(seed ^ 3, M.n)}; if (kind == EC_RS) { o.b = b_be(o.v[0], M.ss); app(o.b, b_be(o.v[1], M.ss)); } break; case EC_SEC: o.b = b_be(k, M.ss); break; default: P = M.mulg(k); if (kind == EC_PUB) { o.b = M.encode(P, seed >> 12 & 1); if ((seed >> 13) % 4 == 0 && !(seed >> 12 & 1)) o.b[0] = (u8)(6 | zodd(P.y)); } else if (kind == X_PUB) o.b = b_be(P.x, M.fs); else { o.b = b_be(P.x, M.fs); if (seed >> 12 & 1) app(o.b, b_be(P.y, M.fs)); } } }
  else if (kind <= RI_SEC) { const MEd &M = med(o.cu = (int)(seed % 3)); k = rnd(seed, M.n); Pt P; switch (kind) { case ED_SEC: o.b = seed_bytes(seed, M.as); break; case RI_SEC: o.b = b_le(k, M.ss); break; case ED_PUB: P = M.mulg(k); if ((seed >> 12) % 4 == 0) P = M.add(P, M.tor[(seed >> 16) % M.tor.size()]); o.b = M.encode(P); break; case RI_PUB: o.b = rist_encode(M, M.mulg(k)); break; default: P = M.mulg(k); o.b = b_le(P.x, M.fs); app(o.b, b_le(P.y, M.fs)); } }
  else if (kind <= MO_SEC) { const MMont &M = mmont(o.cu = (int)(seed % 2)); if (kind == MO_SEC) o.b = seed_bytes(seed, M.ss); else o.b = b_le(M.ladder(rnd(seed, M.n), M.gx), M.fs); }
  else { std::string pw = phrase(seed); Bytes salt = seed_bytes(seed ^ 5, 16); char minor = (seed >> 14 & 1) ? 'a' : 'b'; unsigned cost = 4 + (unsigned)((seed >> 15) % 8 == 0); Guard r(64, seed); int ok = (seed >> 18 & 1) ? bcrypt_hash((char *)r.p(), pw.c_str(), salt.data(), cost, minor) : bcrypt_generate((char *)r.p(), (const u8 *)pw.data(), pw.size(), salt.data(), cost, minor); r.check("making a password record");
    CHECK(ok == 1, "intact-refused", "a password record could not be made"); Bytes b = r.get(64); size_t l = 0; while (l < 64 && b[l]) l++; CHECK(l == 60, "bad-reexport", "the password record has %zu characters", l); b.resize(60); std::string rec(b.begin(), b.end()), want = mcrypt(pw, rec.substr(0, 29)); CHECK(rec == want, "bad-reexport", "the password record is %s, the system's is %s", rec.c_str(), want.c_str()); o.b = b; c.probe("password"); }
  if (isder(kind)) o.b = der_of(o.v, o.ver); if (isparts(kind)) o.b = parts_of(o.v); o.orig = o.b; (void)n;
}
// --- what the definition of each format says about the stored bytes, compared with every reader of that format
static void load(Ctx &c, const Obj &o, u64 seed) {
  Input in(o.b, seed % 5); Guard g(RSA_MAX_PRIV_SIZE + 64, seed), h(RSA_MAX_PRIV_SIZE + 64, seed + 1); size_t n = 0, m = 0; std::vector<Z> v; bool ok = false; Bytes ent = seed_bytes(seed, 32); c.eval(3); bool intact = o.b == o.orig;
  switch (o.kind) {
    case RSA_PRIV: ok = der_read(o.b, 8, true, v) && priv_fine(v); rc(o, "checking", rsa_privkey_verify(in.p, in.n), ok); num(o, "size", rsa_privkey_bits(in.p, in.n), ok ? zbits(v[0]) : 0); rc(o, "export", rsa_privkey_export(g.p(), &n, in.p, in.n), ok); if (ok) eq(o, "export", g.get(n), parts_of(v)); rc(o, "public half", rsa_pubkey_create(h.p(), &m, in.p, in.n), ok); if (ok) eq(o, "public half", h.get(m), der_of({v[0], v[1]}, false));
      if (ok) { Bytes e = g.get(n); Input q(e, seed % 3); rc(o, "import of the export", rsa_privkey_import(h.p(), &m, q.p, q.n, ent.data()), true); eq(o, "import of the export", h.get(m), o.b); } break;
    case RSA_PUB: ok = der_read(o.b, 2, false, v) && pub_fine(v[0], v[1]); rc(o, "checking", rsa_pubkey_verify(in.p, in.n), ok); num(o, "size", rsa_pubkey_bits(in.p, in.n), ok ? zbits(v[0]) : 0); rc(o, "export", rsa_pubkey_export(g.p(), &n, in.p, in.n), ok); if (ok) { eq(o, "export", g.get(n), parts_of(v)); Bytes e = g.get(n); rc(o, "import of the export", rsa_pubkey_import(h.p(), &m, e.data(), e.size()), true); eq(o, "import of the export", h.get(m), o.b); } break;
    case RSA_PUBP: ok = parts_read(o.b, 2, v) && pub_fine(v[0], v[1]); rc(o, "import", rsa_pubkey_import(g.p(), &n, in.p, in.n), ok); if (ok) eq(o, "import", g.get(n), der_of(v, false)); break;
    case RSA_PRIVP: { bool rd = parts_read(o.b, 8, v); int r = rsa_privkey_import(g.p(), &n, in.p, in.n, (seed >> 8 & 3) ? ent.data() : nullptr); ok = r == 1; if (!rd) rc(o, "import", r, false); else if (priv_fine(v)) { rc(o, "import", r, true); eq(o, "import", g.get(n), der_of(v, true)); } else if (intact) rc(o, "import", r, true);
      if (r) { std::vector<Z> w; CHECK(der_read(g.get(n), 8, true, w) && priv_fine(w), "bad-reexport", "importing a %s %s gave an inconsistent key", kname[o.kind], hex(o.b, 400).c_str()); if (v[3] > 0 && v[4] > 0) CHECK((w[3] == v[3] && w[4] == v[4]) || (w[3] == v[4] && w[4] == v[3]), "bad-reexport", "importing parts gave other primes"); else CHECK(w[0] == v[0] && w[1] == v[1], "bad-reexport", "importing parts gave another modulus"); Bytes e = g.get(n); rc(o, "checking the import", rsa_privkey_verify(e.data(), e.size()), true); } break; }
    case DSA_PRM: case DSA_PRMP: { bool rd = o.kind == DSA_PRM ? der_read(o.b, 3, false, v) : parts_read(o.b, 3, v); DGroup G; if (rd) { G.p = v[0]; G.q = v[1]; G.g = v[2]; } ok = rd && group_sane(G); if (o.kind == DSA_PRMP) { rc(o, "import", dsa_params_import(g.p(), &n, in.p, in.n), ok); if (ok) eq(o, "import", g.get(n), der_of(v, false)); break; }
      num(o, "size", dsa_params_bits(in.p, in.n), ok ? zbits(v[0]) : 0); num(o, "subgroup size", dsa_params_qbits(in.p, in.n), ok ? zbits(v[1]) : 0); rc(o, "checking", dsa_params_verify(in.p, in.n), ok && zpow(G.g, G.q, G.p) == 1); rc(o, "export", dsa_params_export(g.p(), &n, in.p, in.n), ok); if (ok) { eq(o, "export", g.get(n), parts_of(v)); Bytes e = g.get(n); rc(o, "import of the export", dsa_params_import(h.p(), &m, e.data(), e.size()), true); eq(o, "import of the export", h.get(m), o.b); }
      if ((seed >> 12) % 4 == 0) { int r = dsa_privkey_create(h.p(), &m, in.p, in.n, ent.data()); rc(o, "creating a key", r, ok); if (ok) { DPriv d; CHECK(der_priv(h.get(m), d) && d.g.p == G.p && d.g.q == G.q && d.g.g == G.g && d.x > 0 && d.x < G.q && d.y == zpow(G.g, d.x, G.p), "bad-reexport", "the key created in the stored group is inconsistent"); } } break; }
    case DSA_PUB: case DSA_PUBP: { bool rd = o.kind == DSA_PUB ? der_read(o.b, 4, false, v) : parts_read(o.b, 4, v); DGroup G; Z y; if (rd) { if (o.kind == DSA_PUBP) v = {v[3], v[0], v[1], v[2]}; y = v[0]; G.p = v[1]; G.q = v[2]; G.g = v[3]; } bool gs = rd && group_sane(G); ok = gs && y >= 2 && y < G.p - 1; if (o.kind == DSA_PUBP) { rc(o, "import", dsa_pubkey_import(g.p(), &n, in.p, in.n), ok); if (ok) eq(o, "import", g.get(n), der_of(v, false)); break; }
      num(o, "size", dsa_pubkey_bits(in.p, in.n), ok ? zbits(G.p) : 0); num(o, "subgroup size", dsa_pubkey_qbits(in.p, in.n), ok ? zbits(G.q) : 0); rc(o, "checking", dsa_pubkey_verify(in.p, in.n), ok && zpow(G.g, G.q, G.p) == 1 && zpow(y, G.q, G.p) == 1); rc(o, "export", dsa_pubkey_export(g.p(), &n, in.p, in.n), ok); if (ok) { eq(o, "export", g.get(n), parts_of({G.p, G.q, G.g, y})); Bytes e = g.get(n); rc(o, "import of the export", dsa_pubkey_import(h.p(), &m, e.data(), e.size()), true); eq(o, "import of the export", h.get(m), o.b); }
      std::vector<Z> w; DPriv d; bool pr = der_read(o.b, 5, true, w); if (!pr) { rc(o, "extracting parameters", dsa_params_create(h.p(), &m, in.p, in.n), gs); if (gs) eq(o, "extracting parameters", h.get(m), der_of({G.p, G.q, G.g}, false)); } break; }
    case DSA_PRIV: case DSA_PRIVP: { bool rd = o.kind == DSA_PRIV ? der_read(o.b, 5, true, v) : parts_read(o.b, 5, v); DGroup G; if (rd) { G.p = v[0]; G.q = v[1]; G.g = v[2]; } bool gs = rd && group_sane(G); ok = gs && v[3] >= 2 && v[3] < G.p - 1 && v[4] > 0 && v[4] < G.q;
      if (o.kind == DSA_PRIVP) { bool rec = gs && v[3] == 0 && v[4] > 0 && v[4] < G.q; int r = dsa_privkey_import(g.p(), &n, in.p, in.n); if (rec) { Z y = zpow(G.g, v[4], G.p); if (y >= 2 && y < G.p - 1) rc(o, "import", r, true); ok = r == 1; if (r) { v[3] = y; eq(o, "import", g.get(n), der_of(v, true)); } } else { rc(o, "import", r, ok); if (ok) eq(o, "import", g.get(n), der_of(v, true)); } break; }
      num(o, "size", dsa_privkey_bits(in.p, in.n), ok ? zbits(G.p) : 0); num(o, "subgroup size", dsa_privkey_qbits(in.p, in.n), ok ? zbits(G.q) : 0); rc(o, "checking", dsa_privkey_verify(in.p, in.n), ok && zpow(G.g, G.q, G.p) == 1 && zpow(v[3], G.q, G.p) == 1 && zpow(G.g, v[4], G.p) == v[3]); rc(o, "export", dsa_privkey_export(g.p(), &n, in.p, in.n), ok); if (ok) { eq(o, "export", g.get(n), parts_of(v)); Bytes e = g.get(n); rc(o, "import of the export", dsa_privkey_import(h.p(), &m, e.data(), e.size()), true); eq(o, "import of the export", h.get(m), o.b); }
      rc(o, "public half", dsa_pubkey_create(h.p(), &m, in.p, in.n), ok); if (ok) eq(o, "public half", h.get(m), der_of({v[3], v[0], v[1], v[2]}, false)); std::vector<Z> w; if (!der_read(o.b, 4, false, w)) { rc(o, "extracting parameters", dsa_params_create(h.p(), &m, in.p, in.n), gs); if (gs) eq(o, "extracting parameters", h.get(m), der_of({v[0], v[1], v[2]}, false)); } break; }
    case DSA_SIG: { static const size_t qs[] = {20, 28, 32}; size_t q = qs[o.cu]; ok = der_read(o.b, 2, false, v) && zbytes(v[0]) <= q && zbytes(v[1]) <= q; rc(o, "import", dsa_sig_import(g.p(), &n, in.p, in.n, q), ok); if (ok) { Bytes w = b_be(v[0], q); app(w, b_be(v[1], q)); eq(o, "import", g.get(n), w); rc(o, "export of the import", dsa_sig_export(h.p(), &m, w.data(), w.size(), (seed & 8) ? q : 0), true); eq(o, "export of the import", h.get(m), o.b); } break; }
    case DSA_RS: { static const size_t qs[] = {20, 28, 32}; size_t q = (seed & 16) ? 0 : qs[o.cu], l = q ? q : o.b.size() / 2; ok = o.b.size() <= 64 && o.b.size() == 2 * l; rc(o, "export", dsa_sig_export(g.p(), &n, in.p, in.n, q), ok); if (ok) eq(o, "export", g.get(n), der_of({z_be(o.b.data(), l), z_be(o.b.data() + l, l)}, false)); break; }
    case EC_SIG: { const MWei &M = mwei(o.cu); ok = der_read(o.b, 2, false, v) && v[0] < M.n && v[1] < M.n; rc(o, "import", ecdsa_sig_import(wc[o.cu], g.p(), in.p, in.n), ok); Bytes z(2 * M.ss, 0), w = z; if (ok) { w = b_be(v[0], M.ss); app(w, b_be(v[1], M.ss)); } eq(o, "import", g.get(2 * M.ss), w); int r = ecdsa_sig_import_lax(wc[o.cu], h.p(), in.p, in.n); Bytes lx = h.get(2 * M.ss); if (ok) { rc(o, "lax import", r, true); eq(o, "lax import", lx, w); rc(o, "export of the import", ecdsa_sig_export(wc[o.cu], g.p(), &n, w.data()), true); eq(o, "export of the import", g.get(n), o.b); }
      if (r) { CHECK(z_be(lx.data(), M.ss) < M.n && z_be(lx.data() + M.ss, M.ss) < M.n, "bad-reexport", "a lax import gave values out of range"); rc(o, "export of the lax import", ecdsa_sig_export(wc[o.cu], g.p(), &n, lx.data()), true); eq(o, "export of the lax import", g.get(n), der_of({z_be(lx.data(), M.ss), z_be(lx.data() + M.ss, M.ss)}, false)); } break; }
    case EC_RS: { const MWei &M = mwei(o.cu); if (o.b.size() != 2 * M.ss) break; Z r = z_be(o.b.data(), M.ss), s = z_be(o.b.data() + M.ss, M.ss); ok = r < M.n && s < M.n; rc(o, "export", ecdsa_sig_export(wc[o.cu], g.p(), &n, in.p), ok); if (ok) eq(o, "export", g.get(n), der_of({r, s}, false)); rc(o, "normalising", ecdsa_sig_normalize(wc[o.cu], h.p(), in.p), ok); if (ok) { Bytes w = b_be(r, M.ss); app(w, b_be(2 * s > M.n ? Z(M.n - s) : s, M.ss)); eq(o, "normalising", h.get(2 * M.ss), w); } rc(o, "low test", ecdsa_is_low_s(wc[o.cu], in.p), ok && 2 * s < M.n); break; }
    case EC_PUB: { const MWei &M = mwei(o.cu); Pt P; ok = M.decode(o.b, P); rc(o, "checking", ecdsa_pubkey_verify(wc[o.cu], in.p, in.n), ok); for (int k = 0; k < 2; k++) { rc(o, "re-encoding", ecdsa_pubkey_convert(wc[o.cu], g.p(), &n, in.p, in.n, k), ok); if (ok) eq(o, "re-encoding", g.get(n), M.encode(P, k)); } rc(o, "export", ecdsa_pubkey_export(wc[o.cu], g.p(), h.p(), in.p, in.n), ok); if (ok) { eq(o, "export", g.get(M.fs), b_be(P.x, M.fs)); eq(o, "export", h.get(M.fs), b_be(P.y, M.fs)); } break; }
    case EC_SEC: { const MWei &M = mwei(o.cu); Z k = z_be(o.b); ok = k > 0 && k < M.n; rc(o, "import", ((seed & 32) ? ecdsa_privkey_import : bip340_privkey_import)(wc[o.cu], g.p(), in.p, in.n), ok); if (ok) eq(o, "import", g.get(M.ss), b_be(k, M.ss)); if (o.b.size() == M.ss) { rc(o, "checking", ecdsa_privkey_verify(wc[o.cu], in.p), ok); rc(o, "export", ecdsa_privkey_export(wc[o.cu], h.p(), in.p), ok); if (ok) eq(o, "export", h.get(M.ss), o.b); } break; }
    case EC_XY: { const MWei &M = mwei(o.cu); size_t xl = std::min(o.b.size(), M.fs), yl = o.b.size() - xl; if (seed & 64) { xl = o.b.size() > M.fs ? o.b.size() / 2 : o.b.size(); yl = o.b.size() - xl; } Input x(Bytes(o.b.begin(), o.b.begin() + (long)xl), seed % 3), y(Bytes(o.b.begin() + (long)xl, o.b.end()), seed % 2); int sign = (int)((seed >> 7) % 3) - 1, k = (int)(seed >> 9 & 1); Z X = z_be(x.copy), Y = z_be(y.copy); Pt P; P.x = X; P.y = Y; ok = xl > 0 && X < M.p && Y < M.p && (yl ? M.on(X, Y) : M.lift(X, sign, P));
      rc(o, "import", ecdsa_pubkey_import(wc[o.cu], g.p(), &n, x.p, x.n, y.p, y.n, sign, k), ok); if (ok) { if (yl || sign >= 0) eq(o, "import", g.get(n), M.encode(P, k)); else { Pt Q; CHECK(M.decode(g.get(n), Q) && Q.x == X, "bad-reexport", "importing coordinates gave another point"); } } rc(o, "x-only import", bip340_pubkey_import(wc[o.cu], h.p(), x.p, x.n, y.p, y.n), ok); if (ok) eq(o, "x-only import", h.get(M.fs), b_be(X, M.fs)); break; }
    case X_PUB: { const MWei &M = mwei(o.cu); if (o.b.size() != M.fs) break; Pt P; ok = M.lift(z_be(o.b), 0, P) && z_be(o.b) < M.p; rc(o, "checking", bip340_pubkey_verify(wc[o.cu], in.p), ok); rc(o, "export", bip340_pubkey_export(wc[o.cu], g.p(), h.p(), in.p), ok); if (ok) { eq(o, "export", g.get(M.fs), o.b); eq(o, "export", h.get(M.fs), b_be(P.y, M.fs)); } break; }
    case ED_PUB: { const MEd &M = med(o.cu); if (o.b.size() != M.as) break; Pt P; ok = M.decode(o.b, P); rc(o, "checking", eddsa_pubkey_verify(ecv[o.cu], in.p), ok); rc(o, "export", eddsa_pubkey_export(ecv[o.cu], g.p(), h.p(), in.p), ok); if (ok) { eq(o, "export", g.get(M.fs), b_le(P.x, M.fs)); eq(o, "export", h.get(M.fs), b_le(P.y, M.fs)); Bytes x = g.get(M.fs), y = h.get(M.fs); rc(o, "import of the export", eddsa_pubkey_import(ecv[o.cu], g.p(), x.data(), x.size(), y.data(), y.size(), -1), true); eq(o, "import of the export", g.get(M.as), o.b); } break; }
    case ED_SEC: { const MEd &M = med(o.cu); ok = o.b.size() == M.as; rc(o, "import", eddsa_privkey_import(ecv[o.cu], g.p(), in.p, in.n), ok); if (ok) { eq(o, "import", g.get(M.as), o.b); rc(o, "export", eddsa_privkey_export(ecv[o.cu], h.p(), in.p), true); eq(o, "export", h.get(M.as), o.b); } break; }
    case ED_XY: { const MEd &M = med(o.cu); size_t xl = std::min(o.b.size(), M.fs); if (seed & 64) xl = o.b.size() / 2; Input x(Bytes(o.b.begin(), o.b.begin() + (long)xl), seed % 3), y(Bytes(o.b.begin() + (long)xl, o.b.end()), seed % 2); if (!x.n || !y.n) break; Pt P; P.x = z_le(x.copy.data(), x.n); P.y = z_le(y.copy.data(), y.n); ok = P.x < M.p && P.y < M.p && M.on(P.x, P.y); rc(o, "import", eddsa_pubkey_import(ecv[o.cu], g.p(), x.p, x.n, y.p, y.n, -1), ok); if (ok) eq(o, "import", g.get(M.as), M.encode(P)); break; }
    case RI_PUB: { const MEd &M = med(o.cu); if (o.b.size() != M.fs) break; Pt P; ok = rist_decode(M, o.b, P); rc(o, "checking", ristretto_pubkey_verify(ecv[o.cu], in.p), ok); rc(o, "negating", ristretto_pubkey_negate(ecv[o.cu], g.p(), in.p), ok); if (ok) { Bytes e = g.get(M.fs); rc(o, "negating twice", ristretto_pubkey_negate(ecv[o.cu], h.p(), e.data()), true); eq(o, "negating twice", h.get(M.fs), o.b); } break; }
    case RI_SEC: { const MEd &M = med(o.cu); Z k = z_le(o.b.data(), o.b.size()); ok = k < M.n; rc(o, "import", ristretto_privkey_import(ecv[o.cu], g.p(), in.p, in.n), ok); if (ok) eq(o, "import", g.get(M.ss), b_le(k, M.ss)); if (o.b.size() == M.ss) { rc(o, "checking", ristretto_privkey_verify(ecv[o.cu], in.p), ok); rc(o, "export", ristretto_privkey_export(ecv[o.cu], h.p(), in.p), ok); if (ok) eq(o, "export", h.get(M.ss), o.b); } break; }
    case MO_PUB: { const MMont &M = mmont(o.cu); if (o.b.size() != M.fs) break; Bytes k = o.b; if (M.fb & 7) k[M.fs - 1] &= (u8)((1u << (M.fb & 7)) - 1); Z u = zmod(z_le(k.data(), k.size()), M.p); int sign = (int)(seed % 3) - 1, r = ecdh_pubkey_export(mc[o.cu], g.p(), h.p(), in.p, sign); if (!M.on(u) || (sign == 1 && zmod(u * u * u + M.A * u * u + u, M.p) == 0)) rc(o, "export", r, false); else { rc(o, "export", r, true); eq(o, "export", g.get(M.fs), b_le(u, M.fs)); Z y = z_le(h.p(), M.fs); CHECK(y < M.p && zmod(y * y, M.p) == zmod(u * u * u + M.A * u * u + u, M.p), "bad-reexport", "exported Montgomery coordinates are not on the curve"); Bytes X = g.get(M.fs), Y = h.get(M.fs); rc(o, "import of the export", ecdh_pubkey_import(mc[o.cu], g.p(), X.data(), X.size(), Y.data(), Y.size()), true); eq(o, "import of the export", g.get(M.fs), X); } ok = M.on(u); break; }
    case MO_SEC: { const MMont &M = mmont(o.cu); Z k = z_le(o.b.data(), o.b.size()); ok = zbytes(k) <= M.ss; rc(o, "import", ecdh_privkey_import(mc[o.cu], g.p(), in.p, in.n), ok); if (ok) eq(o, "import", g.get(M.ss), b_le(k, M.ss)); break; }
    default: { // password record: a C string
      Bytes z = o.b; z.push_back(0); Input rec(z, seed % 3); size_t l = 0; while (z[l]) l++; Bytes b(z.begin(), z.begin() + (long)l); std::string s(b.begin(), b.end()), pw = phrase(o.seed), bad = pw; if (bad.empty()) bad = "x"; else bad[0] ^= 1; Bytes salt, hash; bool spare = false; ok = l == 60 && s[0] == '$' && s[1] == '2' && (s[2] == 'a' || s[2] == 'b') && s[3] == '$' && isdigit((u8)s[4]) && isdigit((u8)s[5]) && s[6] == '$' && b64(b, 7, 22, 16, salt, &spare) && b64(b, 29, 31, 23, hash, &spare); int cost = ok ? (s[4] - '0') * 10 + s[5] - '0' : 0; if (ok && (cost < 4 || cost > 31)) ok = false;
      if (ok && cost > 6) { c.probe("expensive-record"); break; }     // well formed, only slow
      bool right = false; if (ok) { std::string st = s.substr(0, 29); st[28] = itoa64[a64((u8)st[28]) & 0x30]; std::string w = mcrypt(pw, st); Bytes wb(w.begin(), w.end()), want; bool sp; if (w.size() == 60) b64(wb, 29, 31, 23, want, &sp); right = want == hash; }
      for (int k = 0; k < 3; k++) { int r = k == 0 ? bcrypt_verify((const u8 *)pw.data(), pw.size(), (const char *)rec.p) : k == 1 ? bcrypt_check(pw.c_str(), (const char *)rec.p) : bcrypt_check(bad.c_str(), (const char *)rec.p); bool want = k < 2 && right; if (want && spare) { c.probe("spare-bits"); continue; } rc(o, k < 2 ? "checking the password" : "checking a wrong password", r, want); } rec.check("checking a password"); break; } }
  in.check("loading"); g.check("loading"); h.check("loading"); c.sh((u64)o.kind * 4 + (u64)ok * 2 + intact); c.tr((u64)ok); if (ok && !intact) c.probe("damaged-but-valid"); if (intact) { c.probe("intact"); CHECK(ok, "intact-refused", "model: an intact %s is not accepted", kname[o.kind]); }
}
// --- damage
static void rot(Ctx &c, Obj &o, const Obj &x, int f, u64 seed) {
  Bytes &b = o.b; size_t l = b.size(), at = l ? (seed >> 8) % l : 0; const char *what = ""; static const u8 bytes[] = {0, 1, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff, 0x30, 2, '$', '/', '9'};
  switch (f) {
    case 0: if (l) { b[at] ^= (u8)(1 << (seed & 7)); what = "bit flip"; } break; case 1: if (l) { at %= std::min<size_t>(l, 12); b[at] ^= (u8)(1 << (seed & 7)); what = "header bit flip"; } break; case 2: for (int i = 0; i < 4 && l; i++) b[mix64(seed + (u64)i) % l] ^= (u8)(1 << (seed >> (3 * i) & 7)); what = "several bit flips"; break; case 3: b.resize(at); what = "truncated"; break; case 4: if (l) { b.pop_back(); what = "last byte lost"; } break;
    case 5: { Bytes t = seed_bytes(seed, 1 + seed % 9); if (seed >> 40 & 1) std::fill(t.begin(), t.end(), 0); app(b, t); what = "extended"; break; } case 6: b.insert(b.begin() + (long)at, bytes[seed % 14]); what = "byte inserted"; break; case 7: if (l) { b.erase(b.begin() + (long)at); what = "byte lost"; } break; case 8: { size_t sec = 8u << (seed & 3), s0 = at / sec * sec; for (size_t i = s0; i < std::min(l, s0 + sec); i++) b[i] = (seed >> 41 & 1) ? 0xff : 0; what = "sector lost"; break; }
    case 9: { size_t sec = 8u << (seed & 3), s0 = at / sec * sec; for (size_t i = s0; i < std::min(l, s0 + sec) && i < x.b.size(); i++) b[i] = x.b[i]; what = "sector spliced from another object"; break; } case 10: { size_t sec = 8u << (seed & 3); for (size_t i = 0; i + sec + at < l && i < sec; i++) b[at + i] = b[at + sec + i]; what = "sector written twice"; break; } case 11: if (l) { b[at] = bytes[seed % 14]; what = "byte replaced"; } break; case 12: b.insert(b.begin(), (size_t)(seed % 3) + 1, 0); what = "leading zeros"; break;
    default: if (l) { b.erase(b.begin()); what = "first byte lost"; } }
  if (*what) c.fault(what);
}
static void reshape(Ctx &c, Obj &o, const Obj &x, int f, u64 seed) {          // damage that respects the outer structure
  const char *what = "";
  if (isder(o.kind) || isparts(o.kind)) {
    std::vector<Z> v = o.v; if (v.empty()) return; size_t i = (seed >> 8) % v.size(), j = (seed >> 16) % v.size(); Z &t = v[i]; bool der = isder(o.kind); Bytes body; bool raw = false; int pad = -1, lng = -1;
    switch (f) {
      case 0: t = t + 1; what = "value plus one"; break; case 1: if (t > 0) t = t - 1; what = "value less one"; break; case 2: t = 0; what = "value zero"; break; case 3: t = 1; what = "value one"; break; case 4: std::swap(v[i], v[j]); what = "values swapped"; break; case 5: t = v[j]; what = "value duplicated"; break; case 6: t = t + v[j]; what = "values added"; break; case 7: t = t * 2; what = "value doubled"; break; case 8: t = t >> 1; what = "value halved"; break;
      case 9: if (!x.v.empty()) { t = x.v[(seed >> 24) % x.v.size()]; what = "value from another object"; } break; case 10: mpz_combit(t.get_mpz_t(), seed >> 20 & (u64)(zbits(t) < 64 ? 63 : 511)); what = "value bit flip"; break; case 11: v.pop_back(); what = "last value missing"; break; case 12: v.push_back(t); what = "extra value"; break; case 13: pad = (int)i; what = "integer padded"; break; case 14: lng = (int)i; what = "long-form length"; break;
      case 15: t = (Z(1) << (unsigned)(16384 + seed % 3 - 1)) + t; what = "oversized value"; break; case 16: o.ver = !o.ver; what = "version toggled"; break; case 17: t = t * v[j]; what = "values multiplied"; break; case 18: t = (Z(1) << (unsigned)((seed >> 20) % 1100)); if (seed & 1) t = t - 1; what = "value near a power of two"; break; case 19: if (v[j] > 1) t = zmod(t, v[j]); what = "value reduced"; break; case 20: if (v[0] > t) t = v[0] - t; what = "value complemented"; break; default: raw = true; }
    if (der) {
      Bytes b; if (o.ver) b = Bytes{2, 1, 0}; std::vector<size_t> pos; int q = 0; for (auto &z : v) { pos.push_back(b.size()); app(b, der_int(z, q == pad, q == lng)); q++; } if (pos.empty()) return; size_t at = pos[i % pos.size()];
      if (raw) switch (f) { case 21: b[at] = (u8)((seed >> 30 & 1) ? 3 : 0x82); what = "wrong tag"; break; case 22: b[at + 1] = (u8)(b[at + 1] + ((seed >> 30 & 1) ? 1 : -1)); what = "integer length off by one"; break; case 23: { size_t hl = b[at + 1] < 0x80 ? 1 : 1 + (b[at + 1] & 0x7f); Bytes e; static const Bytes big[] = {{0x84, 0xff, 0xff, 0xff, 0xff}, {0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x84, 0x80, 0, 0, 0}, {0x80}, {0x83, 1, 0, 0}, {0xff}, {0x85, 1, 0, 0, 0, 5}}; e = big[(seed >> 30) % 7]; b.erase(b.begin() + (long)at + 1, b.begin() + (long)(at + 1 + hl)); b.insert(b.begin() + (long)at + 1, e.begin(), e.end()); what = "absurd integer length"; break; }
        case 24: { size_t hl = b[at + 1] < 0x80 ? 1 : 1 + (b[at + 1] & 0x7f); if (at + 1 + hl < b.size()) b[at + 1 + hl] |= 0x80; what = "negative integer"; break; } case 25: { Bytes e{2, 0}; b.insert(b.begin() + (long)at, e.begin(), e.end()); what = "empty integer"; break; } case 26: if (o.ver) b[2] = (u8)(1 + (seed >> 30) % 3); what = "other version"; break; case 27: { if (o.ver) { b[1] = 2; b.insert(b.begin() + 2, 0); } what = "padded version"; break; } default: break; }
      o.b = der_seq(b); if (f == 28) { o.b[1] = (u8)(o.b[1] + ((seed >> 30 & 1) ? 1 : -1)); what = "sequence length off by one"; } if (f == 29) { size_t bl = b.size(); Bytes e{0x30}; app(e, der_len(bl, true)); if ((seed >> 30) % 3 == 0) { e = Bytes{0x30, 0x80}; app(b, Bytes{0, 0}); } app(e, b); o.b = e; what = "sequence length not minimal"; }
    } else { o.b = parts_of(v); if (pad >= 0 || lng >= 0 || raw) { Bytes r; size_t q = 0; for (auto &z : v) { Bytes y = b_be(z, zbytes(z)); size_t ln = y.size(); if (q == i) { if (pad >= 0) { y.insert(y.begin(), (size_t)(1 + (seed >> 30) % 5), 0); ln = y.size(); what = "part padded"; } else if (f == 21) { ln += 1; what = "part length off by one"; } else if (f == 22 && ln) { ln -= 1; what = "part length off by one"; } else if (f == 23) { ln = 0xffff; what = "absurd part length"; } else if (f == 24) { y.assign((size_t)(2000 + (seed >> 30) % 3000), (u8)0xff); ln = y.size(); what = "oversized part"; } } r.push_back((u8)(ln >> 8)); r.push_back((u8)ln); app(r, y); q++; } o.b = r; } }
    if (f <= 20) { o.v = v; } if (*what) c.fault(what); return;
  }
  auto num = [&](const Z &p, size_t at, size_t len, bool le) { if (o.b.size() < at + len) return; Z z = le ? z_le(o.b.data() + at, len) : z_be(o.b.data() + at, len), full = Z(1) << (unsigned)(8 * len); switch (f % 10) { case 0: z = z + p; what = "modulus added"; break; case 1: z = p; what = "modulus"; break; case 2: z = p - 1; what = "modulus less one"; break; case 3: z = p + 1; what = "modulus plus one"; break; case 4: z = 0; what = "zero"; break; case 5: z = 1; what = "one"; break; case 6: z = full - 1; what = "all ones"; break; case 7: z = p - z; what = "negated"; break; case 8: z = z + 1; what = "plus one"; break; default: z = full >> 1; what = "top bit"; } z = ((z % full) + full) % full; Bytes e = le ? b_le(z, len) : b_be(z, len); std::copy(e.begin(), e.end(), o.b.begin() + (long)at); };
  switch (o.kind) { case EC_RS: num(mwei(o.cu).n, (seed & 1) ? mwei(o.cu).ss : 0, mwei(o.cu).ss, false); break; case EC_SEC: num(mwei(o.cu).n, 0, mwei(o.cu).ss, false); break; case EC_PUB: if (f >= 20 && !o.b.empty()) { static const u8 t[] = {0, 2, 3, 4, 5, 6, 7, 8}; o.b[0] = t[seed % 8]; what = "other form byte"; } else num(mwei(o.cu).p, 1 + ((seed & 1) ? mwei(o.cu).fs : 0), mwei(o.cu).fs, false); break; case EC_XY: case X_PUB: num(mwei(o.cu).p, (o.kind == EC_XY && (seed & 1)) ? mwei(o.cu).fs : 0, mwei(o.cu).fs, false); break;
    case ED_PUB: case ED_XY: case RI_PUB: num(med(o.cu).p, (o.kind == ED_XY && (seed & 1)) ? med(o.cu).fs : 0, med(o.cu).fs, true); break; case RI_SEC: num(med(o.cu).n, 0, med(o.cu).ss, true); break; case MO_PUB: num(mmont(o.cu).p, 0, mmont(o.cu).fs, true); break;
    case PASSWORD: if (o.b.size() == 60) { static const char *const cost[] = {"03", "32", "00", "99", "4$", "05", "04", "06", ":4", "0/"}; switch (f % 7) { case 0: memcpy(&o.b[4], cost[seed % 10], 2); what = "other cost"; break; case 1: o.b[2] = (u8)"abxy$\0c"[seed % 7]; what = "other minor version"; break; case 2: o.b[28] = (u8)itoa64[seed % 64]; what = "spare bits of the salt"; break; case 3: o.b[59] = (u8)itoa64[seed % 64]; what = "spare bits of the hash"; break; case 4: o.b[29 + seed % 31] = (u8)itoa64[(seed >> 8) % 64]; what = "other hash"; break; case 5: o.b[seed % 60] = (u8)"\0 =+$\x80\xff-_"[(seed >> 8) % 10]; what = "foreign character"; break; default: o.b[7 + seed % 22] = (u8)itoa64[(seed >> 8) % 64]; what = "other salt"; } } break; default: break; }
  if (*what) c.fault(what);
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; auto sd = [&] { return (i64)(r.next() >> 1); }; int n = (int)r.range(3, cfg.thorough ? 40 : 16); i64 fav = r.chance(1, 2) ? (i64)r.below(NK) : -1; auto kind = [&] { i64 k = fav >= 0 && r.chance(3, 4) ? fav : (i64)r.below(NK); if (k == PASSWORD && r.chance(1, 2)) k = (i64)r.below(PASSWORD); return k; }; u64 wr = r.below(4), ws = r.below(5), wt = r.below(2);
  for (i64 i = 0; i < 2; i++) p.add(OP_STORE, {i, kind(), sd()});
  for (int i = 0; i < n; i++) { i64 s = (i64)r.below(NS); if (r.chance(1, 2)) s = 0; u64 x = r.below(wr + ws + wt + 4);
    if (x < wr) p.add(OP_ROT, {s, (i64)r.below(NROT), sd()}); else if (x < wr + ws) p.add(OP_SHAPE, {s, (i64)r.below(NSHAPE), sd()}); else if (x < wr + ws + wt) p.add(OP_TORN, {s, kind(), sd()}); else if (x == wr + ws + wt) p.add(OP_STORE, {s, kind(), sd()}); else if (r.chance(1, 8)) p.add(OP_CROSSLOAD, {s, (i64)r.below(NK), sd()}); else p.add(OP_LOAD, {s, 0, sd()}); if ((x < wr + ws) && r.chance(4, 5)) p.add(OP_LOAD, {s, 0, sd()}); }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); for (auto &s : sl) s = Obj(); c.interesting = true; u64 dmg = 0;
  for (auto &st : pl.steps) {
    c.step(); int i = (int)((u64)st.arg(0) % NS); Obj &o = sl[i], &x = sl[(i + 1) % NS]; u64 seed = (u64)st.arg(2); int a = (int)((u64)st.arg(1)); c.sh((u64)st.op * 512 + (u64)a);
    switch (st.op) {
      case OP_STORE: make(c, o, a % NK, seed); load(c, o, seed); break;
      case OP_TORN: { Obj old = o; make(c, o, a % NK, seed); size_t cut = (seed >> 16) % (o.b.size() + 1); if (seed >> 50 & 1) cut = cut / 16 * 16; Bytes b(o.b.begin(), o.b.begin() + (long)cut); if (seed >> 51 & 1) { if (old.b.size() > cut) b.insert(b.end(), old.b.begin() + (long)cut, old.b.end()); } else b.resize(o.b.size(), 0); o.b = b; c.fault("torn write"); load(c, o, seed); dmg++; break; }
      case OP_ROT: if (o.live) { rot(c, o, x, a % NROT, seed); dmg++; } break;
      case OP_SHAPE: if (o.live) { reshape(c, o, x, a % NSHAPE, seed); dmg++; } break;
      case OP_LOAD: if (o.live) load(c, o, seed); break;
      default: if (o.live) { Obj t = o; t.kind = a % NK; static const int lim[] = {6, 3, 2, 3}; int k = t.kind; t.cu = (int)(seed % (u64)(k == DSA_SIG || k == DSA_RS ? lim[1] : k >= EC_SIG && k <= X_PUB ? lim[0] : k >= ED_PUB && k <= RI_SEC ? lim[3] : k >= MO_PUB && k <= MO_SEC ? lim[2] : 1)); t.orig = Bytes(); t.orig.push_back(0xee); if (t.orig == t.b) break; c.fault("object of another kind"); load(c, t, seed); } break; }
  }
  c.state(hash2(dmg, (u64)sl[0].kind));
}
const Scenario scenario = {"C16", ops, gen, exec, init, "distinct (sequence of stores, damages and loads with format and verdict)", 120};
