// C17: text encodings over a channel that damages text.
#include "world.h"
#include "input.h"
#include <algorithm>
extern "C" {
#include <torsion/encoding.h>
}
enum { OP_PUT, OP_FAULT, OP_GET, OP_RAW, OP_BADENC, OP_BITS, OP_CRAFT };
static const char *const ops[] = {"put", "fault", "get", "raw", "badenc", "bits", "craft", nullptr};
enum { B16, B16LE, B32, B32P, B32HEX, B32HEXP, B58, B64, B64URL, BECH, BECHDATA, CASH, CASHDATA, NE };
static const char *const en[] = {"base16", "base16le", "base32", "base32-padded", "base32hex", "base32hex-padded", "base58", "base64", "base64url", "bech32", "bech32-data", "cash32", "cash32-data"};
static const char A16[] = "0123456789abcdef", A32[] = "abcdefghijklmnopqrstuvwxyz234567", A32H[] = "0123456789abcdefghijklmnopqrstuv", A58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
  A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", AB[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
typedef std::string S;
struct Val { int e; Bytes data; S prefix; unsigned version; u32 chk; bool operator==(const Val &o) const { return data == o.data && prefix == o.prefix && version == o.version; } };

// ---- models: the canonical text of a value, and the value of a text (by searching for the value whose canonical text it is)
static S bits_text(const Bytes &d, int bits, const char *al, size_t group, bool pad) {
  S s; u32 acc = 0; int n = 0;
  for (u8 b : d) { acc = acc << 8 | b; n += 8; while (n >= bits) { n -= bits; s += al[acc >> n & ((1u << bits) - 1)]; } }
  if (n) s += al[acc << (bits - n) & ((1u << bits) - 1)];
  while (pad && s.size() % group) s += '=';
  return s;
}
static S b58_text(const Bytes &d) {
  S s; Bytes x = d; size_t z = 0; while (z < x.size() && !x[z]) z++;
  Bytes q(x.begin() + z, x.end());
  while (!q.empty()) { u32 r = 0; Bytes o; for (u8 b : q) { r = r << 8 | b; if (!o.empty() || r / 58) o.push_back((u8)(r / 58)); r %= 58; } s.insert(s.begin(), A58[r]); q = o; }
  return S(z, '1') + s;
}
static Bytes regroup(const Bytes &d, int from, int to) { Bytes r; u32 acc = 0; int n = 0; for (u8 b : d) { acc = acc << from | b; n += from; while (n >= to) { n -= to; r.push_back((u8)(acc >> n & ((1u << to) - 1))); } acc &= 0xffff; } if (n) r.push_back((u8)(acc << (to - n) & ((1u << to) - 1))); return r; }
// remainder of the message polynomial, coefficient by coefficient
static u64 pmod(const Bytes &v, const u64 *g, int top) { u64 c = 1; for (u8 x : v) { u64 b = c >> top; c = (c & ((1ull << top) - 1)) << 5 ^ x; for (int i = 0; i < 5; i++) if (b >> i & 1) c ^= g[i]; } return c; }
static const u64 GB[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}, GC[5] = {0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470};
static S bech_text(const S &hrp, const Bytes &d5, u32 k) {
  Bytes v; for (char ch : hrp) v.push_back((u8)ch >> 5); v.push_back(0); for (char ch : hrp) v.push_back(ch & 31); v.insert(v.end(), d5.begin(), d5.end()); v.insert(v.end(), 6, 0);
  u64 c = pmod(v, GB, 25) ^ k; S s = hrp + "1"; for (u8 x : d5) s += AB[x]; for (int i = 5; i >= 0; i--) s += AB[c >> (5 * i) & 31]; return s;
}
static S cash_text(const S &pre, const Bytes &d5) {
  Bytes v; for (char ch : pre) v.push_back(ch & 31); v.push_back(0); v.insert(v.end(), d5.begin(), d5.end()); v.insert(v.end(), 8, 0);
  u64 c = pmod(v, GC, 35) ^ 1; S s = pre + ":"; for (u8 x : d5) s += AB[x]; for (int i = 7; i >= 0; i--) s += AB[c >> (5 * i) & 31]; return s;
}
static S text(const Val &v) {
  switch (v.e) {
    case B16: return bits_text(v.data, 4, A16, 1, false);
    case B16LE: return bits_text(Bytes(v.data.rbegin(), v.data.rend()), 4, A16, 1, false);
    case B32: case B32P: return bits_text(v.data, 5, A32, 8, v.e == B32P);
    case B32HEX: case B32HEXP: return bits_text(v.data, 5, A32H, 8, v.e == B32HEXP);
    case B58: return b58_text(v.data);
    case B64: return bits_text(v.data, 6, A64, 4, true);
    case B64URL: return bits_text(v.data, 6, A64U, 4, false);
    case BECH: { Bytes d = regroup(v.data, 8, 5); d.insert(d.begin(), (u8)v.version); return bech_text(v.prefix, d, v.chk); }
    case BECHDATA: return bech_text(v.prefix, v.data, v.chk);
    case CASH: { static const int sz[] = {20, 24, 28, 32, 40, 48, 56, 64}; int k = 0; while (sz[k] != (int)v.data.size()) k++; Bytes d = v.data; d.insert(d.begin(), (u8)(v.version << 3 | k)); return cash_text(v.prefix, regroup(d, 8, 5)); }
    default: return cash_text(v.prefix, v.data);
  }
}
static bool legal(const Val &v) {
  size_t n = v.data.size(), p = v.prefix.size();
  if (v.e == BECH || v.e == BECHDATA) {
    if (p < 1 || p > 83) return false; for (char c : v.prefix) if (c < 33 || c > 126 || (c >= 'A' && c <= 'Z')) return false;
    if (v.e == BECH && (v.version > 31 || n < 2 || n > 40)) return false;
    return p + 1 + (v.e == BECH ? 1 + (n * 8 + 4) / 5 : n) + 6 <= 90;
  }
  if (v.e == CASH || v.e == CASHDATA) {
    if (p < 1 || p > 83) return false; for (char c : v.prefix) if (c < 'a' || c > 'z') return false;
    if (v.e == CASH) return v.version <= 15 && (n == 20 || n == 24 || n == 28 || n == 32 || n == 40 || n == 48 || n == 56 || n == 64);
    return n <= 104;
  }
  return true;
}
static S lower(const S &s) { S r = s; for (char &c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
static bool mixed(const S &s) { bool l = false, u = false; for (char c : s) { l |= c >= 'a' && c <= 'z'; u |= c >= 'A' && c <= 'Z'; } return l && u; }
// candidate value read off leniently; the text is good exactly if it is the candidate's canonical text
static bool parse(int e, const S &t, const S &expect, u32 chk, Val &v) {
  v = Val{e, {}, "", 0, chk}; S s = t; bool nocase = e <= B32HEXP;
  if (nocase) s = lower(s);
  if (e >= BECH) { if (mixed(s)) return false; s = lower(s); for (char c : s) if (c < 33 || c > 126) return false; }
  auto idx = [](const char *al, char c) { const char *q = c ? strchr(al, c) : nullptr; return q ? (int)(q - al) : -1; };
  if (e == B58) {
    size_t z = 0; while (z < s.size() && s[z] == '1') z++;
    Bytes num; for (size_t i = z; i < s.size(); i++) { int k = idx(A58, s[i]); if (k < 0) return false; u32 c = (u32)k; for (size_t j = num.size(); j-- > 0;) { c += num[j] * 58u; num[j] = (u8)c; c >>= 8; } while (c) { num.insert(num.begin(), (u8)c); c >>= 8; } }
    v.data.assign(z, 0); v.data.insert(v.data.end(), num.begin(), num.end()); return text(v) == s;
  }
  if (e < BECH) {
    const char *al = e <= B16LE ? A16 : e <= B32P ? A32 : e <= B32HEXP ? A32H : e == B64 ? A64 : A64U; int bits = e <= B16LE ? 4 : e <= B32HEXP ? 5 : 6;
    u32 acc = 0; int n = 0; for (char c : s) { int k = idx(al, c); if (k < 0) break; acc = (acc << bits | (u32)k) & 0xffffff; n += bits; if (n >= 8) { n -= 8; v.data.push_back((u8)(acc >> n)); } }
    if (e == B16LE) std::reverse(v.data.begin(), v.data.end());
    return text(v) == s;
  }
  bool cash = e >= CASH; size_t sep = cash ? s.find(':') : s.rfind('1'); size_t ck = cash ? 8 : 6; S body;
  if (s.size() > (cash ? 196u : 90u)) return false;
  if (sep == S::npos) { if (!cash) return false; v.prefix = expect; body = s; } else { v.prefix = s.substr(0, sep); body = s.substr(sep + 1); }
  if (body.size() < ck || (cash && body.size() > 112)) return false;
  Bytes d; for (size_t i = 0; i + ck < body.size(); i++) { int k = idx(AB, body[i]); if (k < 0) return false; d.push_back((u8)k); }
  S full = sep == S::npos ? v.prefix + ":" + body : s;
  if (e == BECHDATA || e == CASHDATA) { v.data = d; return legal(v) && text(v) == full; }
  if (cash && v.prefix != expect) return false;
  if (d.empty()) return false;
  if (!cash) { v.version = d[0]; d.erase(d.begin()); }
  Bytes b = regroup(d, 5, 8); if (d.size() * 5 % 8) b.pop_back();       // drop the partial byte
  if (cash) { if (b.empty()) return false; v.version = b[0] >> 3; b.erase(b.begin()); }
  v.data = b;
  return legal(v) && text(v) == full;
}
// ---- the library
static S encode(const Val &v, bool wantlen, bool *ok, Ctx &c) {
  Input in(v.data, 1); size_t cap, n = 9999; int r = 1;
  switch (v.e) { case B16: cap = base16_encode_size(in.n); break; case B16LE: cap = base16le_encode_size(in.n); break; case B32: case B32P: cap = base32_encode_size(in.n, v.e == B32P); break; case B32HEX: case B32HEXP: cap = base32hex_encode_size(in.n, v.e == B32HEXP); break;
    case B58: cap = BASE58_ENCODE_SIZE(in.n); break; case B64: cap = base64_encode_size(in.n); break; case B64URL: cap = base64url_encode_size(in.n); break; case BECH: case BECHDATA: cap = BECH32_MAX_ENCODE_SIZE; break; default: cap = CASH32_MAX_ENCODE_SIZE; }
  Guard g(cap + 1, 3); char *d = (char *)g.p(); size_t *l = wantlen ? &n : nullptr; S pre = v.prefix;
  switch (v.e) {
    case B16: base16_encode(d, l, in.p, in.n); break; case B16LE: base16le_encode(d, l, in.p, in.n); break;
    case B32: case B32P: base32_encode(d, l, in.p, in.n, v.e == B32P); break; case B32HEX: case B32HEXP: base32hex_encode(d, l, in.p, in.n, v.e == B32HEXP); break;
    case B58: r = base58_encode(d, l, in.p, in.n); break; case B64: base64_encode(d, l, in.p, in.n); break; case B64URL: base64url_encode(d, l, in.p, in.n); break;
    case BECH: r = bech32_encode(d, pre.c_str(), v.version, in.p, in.n, v.chk); l = nullptr; break; case BECHDATA: r = bech32_serialize(d, pre.c_str(), in.p, in.n, v.chk); l = nullptr; break;
    case CASH: r = cash32_encode(d, pre.c_str(), v.version, in.p, in.n); l = nullptr; break; default: r = cash32_serialize(d, pre.c_str(), in.p, in.n); l = nullptr; break;
  }
  g.check("encode"); in.check("encode"); *ok = r; c.eval();
  if (!r) return "";
  size_t len = strnlen(d, cap + 1); CHECK(len <= cap, "not-terminated", "%s text is not terminated", en[v.e]);
  if (l) CHECK(n == len, "length-differs", "%s announces %zu characters, text has %zu", en[v.e], n, len);
  if (v.e < BECH && v.e != B58) CHECK(len == cap, "length-differs", "%s promised %zu characters, text has %zu", en[v.e], cap, len);
  return S(d, len);
}
static void deliver(int e, const S &t, const S &expect, u32 chk, bool wantlen, Ctx &c, const Val *sent, bool guaranteed) {
  if (e >= BECH && t.find('\0') != S::npos) return;
  Bytes tb(t.begin(), t.end()); if (e >= BECH) tb.push_back(0); Input in(tb, 2); const char *s = (const char *)in.p; size_t n = t.size(), got = 7777, cap; int r, r2; S pre; unsigned ver = 77;
  switch (e) { case B16: cap = base16_decode_size(n); break; case B16LE: cap = base16le_decode_size(n); break; case B32: case B32P: cap = base32_decode_size(s, n); break; case B32HEX: case B32HEXP: cap = base32hex_decode_size(s, n); break;
    case B58: cap = BASE58_DECODE_SIZE(n); break; case B64: cap = base64_decode_size(s, n); break; case B64URL: cap = base64url_decode_size(s, n); break; case BECH: cap = BECH32_MAX_DECODE_SIZE; break; case BECHDATA: cap = BECH32_MAX_DESERIALIZE_SIZE; break; case CASH: cap = CASH32_MAX_DECODE_SIZE; break; default: cap = CASH32_MAX_DESERIALIZE_SIZE; }
  Guard g(cap, 5), p(84, 6); size_t *l = wantlen || e >= BECH ? &got : nullptr; u8 *d = g.p();
  switch (e) {
    case B16: r = base16_decode(d, l, s, n); r2 = base16_test(s, n); break; case B16LE: r = base16le_decode(d, l, s, n); r2 = base16le_test(s, n); break;
    case B32: case B32P: r = base32_decode(d, l, s, n, e == B32P); r2 = base32_test(s, n, e == B32P); break; case B32HEX: case B32HEXP: r = base32hex_decode(d, l, s, n, e == B32HEXP); r2 = base32hex_test(s, n, e == B32HEXP); break;
    case B58: r = base58_decode(d, l, s, n); r2 = base58_test(s, n); break; case B64: r = base64_decode(d, l, s, n); r2 = base64_test(s, n); break; case B64URL: r = base64url_decode(d, l, s, n); r2 = base64url_test(s, n); break;
    case BECH: r = bech32_decode((char *)p.p(), &ver, d, l, s, chk); r2 = bech32_test(s, chk); break; case BECHDATA: r = bech32_deserialize((char *)p.p(), d, l, s, chk); r2 = bech32_is(s, chk); break;
    case CASH: r = cash32_decode(&ver, d, l, s, expect.c_str()); r2 = cash32_test(s, expect.c_str()); break; default: r = cash32_deserialize((char *)p.p(), d, l, s, expect.c_str()); r2 = cash32_is(s, expect.c_str()); break;
  }
  g.check("decode"); p.check("decode"); in.check("decode");
  Val v; bool ok = parse(e, t, expect, chk, v); c.eval(); c.tr((u64)r); c.interesting = true; c.sh(0x100 + (u64)r); c.state(hash2((u64)e, hash2(n, (u64)r)));
  CHECK(!guaranteed || !ok, "model-broken", "the model accepts a text with up to four changed characters");
  CHECK(r == (int)ok, ok ? "valid-refused" : "damaged-accepted", "%s decoding \"%s\" returned %d", en[e], t.c_str(), r);
  CHECK(r2 == (int)ok, "test-differs", "%s testing \"%s\" returned %d, decoding %d", en[e], t.c_str(), r2, r);
  if (sent) CHECK(r, "valid-refused", "%s refused its own text \"%s\"", en[e], t.c_str());
  if (!r) { c.probe("refused"); return; }
  c.probe("accepted");
  if (l) CHECK(got == v.data.size(), "value-differs", "%s \"%s\" decoded to %zu bytes, value has %zu", en[e], t.c_str(), got, v.data.size());
  CHECK(v.data.size() <= cap, "length-differs", "%s promised %zu bytes for \"%s\"", en[e], cap, t.c_str());
  CHECK(g.get(v.data.size()) == v.data, "value-differs", "%s \"%s\" decoded to %s, value is %s", en[e], t.c_str(), hex(d, v.data.size()).c_str(), hex(v.data).c_str());
  if (e == BECH || e == CASH) CHECK(ver == v.version, "value-differs", "%s version %u, not %u", en[e], ver, v.version);
  if (e == BECH || e == BECHDATA || e == CASHDATA) CHECK(v.prefix == (char *)p.p(), "value-differs", "%s prefix %s, not %s", en[e], (char *)p.p(), v.prefix.c_str());
  if (sent) CHECK(v == *sent, "value-differs", "%s round trip changed the value", en[e]);
}
struct Slot { bool used = false; Val v; S t, orig; bool damaged = false; };
static std::vector<Slot> sl;
static Val value(const Step &st, size_t o) {
  // encoding, seed, len, prefix kind, version, style
  Val v; v.e = (int)((u64)st.arg(o) % NE); u64 seed = (u64)st.arg(o + 1), style = (u64)st.arg(o + 5); v.data = seed_bytes(seed, (u64)st.arg(o + 2) % 1200); v.version = (unsigned)((u64)st.arg(o + 4) % 64); v.chk = style & 1 ? 1 : style & 2 ? 0x2bc830a3 : (u32)(mix64(seed) & 0x3fffffff);
  if (style & 4) std::fill(v.data.begin(), v.data.begin() + (seed % (v.data.size() + 1)), 0);
  if (style & 8) std::fill(v.data.begin(), v.data.end(), 0xff);
  if (style & 64) std::fill(v.data.end() - (seed % (v.data.size() + 1)), v.data.end(), 0);
  if (v.e >= BECH) {
    static const char *const known[] = {"bc", "tb", "bitcoincash", "bchtest", "a", "bcrt", "ltc", "x1y"}; u64 k = (u64)st.arg(o + 3);
    if (k % 3 < 2) v.prefix = known[k / 3 % 8]; else { Rng r(seed + 5); size_t n = r.chance(1, 6) ? r.below(86) : 1 + r.below(10); for (size_t i = 0; i < n; i++) v.prefix += v.e >= CASH ? (char)('a' + r.below(26)) : (char)(33 + r.below(94)); if (!(style & 16)) v.prefix = lower(v.prefix); }
  }
  return v;
}
static void shape(Val &v) {          // bring it into the format's range
  if (v.e == BECH) { v.version %= 32; v.data.resize(2 + v.data.size() % 39); v.prefix = lower(v.prefix).substr(0, 18); if (v.prefix.empty()) v.prefix = "bc"; size_t room = 90 - 8 - v.prefix.size(); while ((v.data.size() * 8 + 4) / 5 > room) v.data.pop_back(); }
  if (v.e == BECHDATA) { v.prefix = lower(v.prefix).substr(0, 83); if (v.prefix.empty()) v.prefix = "bc"; v.data.resize(std::min(v.data.size(), 90 - 7 - v.prefix.size())); for (u8 &b : v.data) b &= 31; }
  if (v.e >= CASH) { S p; for (char ch : lower(v.prefix)) p += ch >= 'a' && ch <= 'z' ? ch : 'z'; v.prefix = p.substr(0, 83); if (v.prefix.empty()) v.prefix = "p"; }
  if (v.e == CASH) { static const int sz[] = {20, 24, 28, 32, 40, 48, 56, 64}; v.data.resize(sz[v.data.size() % 8], 0x5a); v.version %= 16; }
  if (v.e == CASHDATA) { v.data.resize(v.data.size() % 105); for (u8 &b : v.data) b &= 31; }
}
static void put(Slot &s, const Step &st, Ctx &c) {
  s = Slot(); s.used = true; s.v = value(st, 1); shape(s.v);
  if (s.v.e == B58) s.v.data.resize(std::min<size_t>(s.v.data.size(), 300));
  bool ok; s.t = encode(s.v, !(st.arg(6) & 32), &ok, c); S m = text(s.v);
  if (s.v.e < BECH) { s.v.prefix.clear(); s.v.version = 0; } if (s.v.e == BECHDATA || s.v.e == CASHDATA) s.v.version = 0;
  CHECK(ok, "valid-refused", "%s refused to encode %zu bytes", en[s.v.e], s.v.data.size());
  CHECK(s.t == m, "text-differs", "%s of %s is \"%s\", definition \"%s\"", en[s.v.e], hex(s.v.data).c_str(), s.t.c_str(), m.c_str());
  s.orig = s.t; c.tr(s.t.data(), s.t.size()); c.sh(hash2((u64)s.v.e, s.v.data.size() % 41));
}
static void damage(Slot &s, const Step &st, Ctx &c) {
  u64 a = (u64)st.arg(2), b = (u64)st.arg(3); S &t = s.t; size_t n = t.size(); const char *k = nullptr; const char *al = s.v.e >= BECH ? AB : s.v.e <= B16LE ? A16 : s.v.e <= B32P ? A32 : s.v.e <= B32HEXP ? A32H : s.v.e == B58 ? A58 : s.v.e == B64 ? A64 : A64U;
  auto in = [&](u64 x) { return al[x % strlen(al)]; };
  switch ((u64)st.arg(1) % 12) {
    case 0: if (n) { t[a % n] = in(b); k = "substitute"; } break;
    case 1: if (n) { t[a % n] = (char)b; k = "foreign-character"; } break;
    case 2: t.insert(a % (n + 1), 1, in(b)); k = "insert"; break;
    case 3: if (n) { t.erase(a % n, 1); k = "delete"; } break;
    case 4: if (n > 1) { size_t i = a % (n - 1); std::swap(t[i], t[i + 1]); k = "transpose"; } break;
    case 5: if (n) { size_t i = a % n; if (t[i] >= 'a' && t[i] <= 'z') t[i] -= 32; else if (t[i] >= 'A' && t[i] <= 'Z') t[i] += 32; k = "case-change"; } break;
    case 6: for (char &x : t) if (x >= 'a' && x <= 'z') x -= 32; k = "upper-cased"; break;
    case 7: if (n) { t.resize(a % n); k = "truncate"; } break;
    case 8: t += S(1 + a % 9, '='); k = "extra-padding"; break;
    case 9: while (!t.empty() && t.back() == '=') { t.pop_back(); k = "padding-removed"; if (b & 1) break; } break;
    case 10: {          // the last character that carries data, moved by one: trailing bits
      size_t i = n; while (i && t[i - 1] == '=') i--; if (i) { const char *q = strchr(al, t[i - 1]); if (q) { size_t L = strlen(al); t[i - 1] = al[((size_t)(q - al) ^ (1 + a % (L >= 32 ? 15 : 3))) % L]; k = "trailing-bits"; } } break; }
    case 11: if (s.v.e >= CASH) { size_t q = t.find(':'); if (q != S::npos) { t.erase(0, q + 1); k = "prefix-dropped"; } } else if (n) { t.insert(0, t.substr(0, 1 + a % std::min<size_t>(n, 4))); k = "prefix-repeated"; } break;
  }
  if (k) { s.damaged = true; c.fault(k); c.sh(0x300 + (u64)st.arg(1) % 12); }
}
static void get(Slot &s, u64 style, Ctx &c) {
  bool same = s.t == s.orig; bool guar = false;
  if (s.v.e >= BECH && !same && s.t.size() == s.orig.size()) {
    // up to four characters changed (not merely letter case), separator kept in place
    S a = lower(s.t), b = lower(s.orig); int diff = 0; for (size_t i = 0; i < a.size(); i++) diff += a[i] != b[i];
    size_t sep = s.v.e >= CASH ? b.find(':') : b.rfind('1'), sep2 = s.v.e >= CASH ? a.find(':') : a.rfind('1');
    guar = diff >= 1 && diff <= 4 && sep == sep2 && sep != S::npos; if (guar) c.probe("within-detection-guarantee");
  }
  S expect = s.v.e >= CASH ? s.v.prefix : "";
  deliver(s.v.e, s.t, expect, s.v.chk, !(style & 1), c, same ? &s.v : nullptr, guar);
  if (style & 2) { s.t = s.orig; s.damaged = false; }
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); sl.assign(4, Slot());
  for (auto &st : pl.steps) {
    c.step(); Slot &s = sl[(u64)st.arg(0) % 4];
    switch (st.op) {
      case OP_PUT: put(s, st, c); break;
      case OP_FAULT: if (s.used) damage(s, st, c); break;
      case OP_GET: if (s.used) get(s, (u64)st.arg(1), c); break;
      case OP_RAW: {            // text from nowhere
        int e = (int)((u64)st.arg(0) % NE); Rng r((u64)st.arg(1)); S t; size_t n = (u64)st.arg(2) % 220; static const char junk[] = "=1:aAqQ2 z/+-_0\x80\xff\n";
        const char *al = e >= BECH ? AB : e <= B16LE ? A16 : e <= B32P ? A32 : e <= B32HEXP ? A32H : e == B58 ? A58 : e == B64 ? A64 : A64U;
        for (size_t i = 0; i < n; i++) t += r.chance(1, 1 + (u64)st.arg(3) % 60) ? junk[r.below(sizeof junk - 1)] : al[r.below(strlen(al))];
        c.fault("text-from-nowhere"); deliver(e, t, e >= CASH ? "bitcoincash" : "", 1, true, c, nullptr, false); break; }
      case OP_BADENC: {         // values outside the format's range
        Val v = value(st, 1); if (v.e < BECH) break; if (v.data.size() > 250) v.data.resize(250);
        if ((v.e == BECHDATA || v.e == CASHDATA) && !(st.arg(0) & 1)) for (u8 &b : v.data) b &= 31;
        bool ok, want = legal(v); if (v.e == BECHDATA || v.e == CASHDATA) for (u8 b : v.data) want &= b < 32;
        S t = encode(v, false, &ok, c); c.fault(want ? "legal-value" : "illegal-value"); c.interesting = true; c.sh(0x500 + (u64)v.e * 2 + want);
        CHECK(ok == want, want ? "valid-refused" : "illegal-encoded", "%s with prefix \"%s\", version %u, %zu bytes: returned %d", en[v.e], v.prefix.c_str(), v.version, v.data.size(), ok);
        if (ok) CHECK(t == text(v), "text-differs", "%s differs from the definition", en[v.e]);
        break; }
      case OP_CRAFT: {          // right checksum, wrong contents
        Val v = value(st, 1); v.e = v.e & 1 ? BECH : CASH; shape(v); Bytes d;
        if (v.e == BECH) { d = regroup(v.data, 8, 5); d.insert(d.begin(), (u8)v.version); } else { Bytes b = v.data; static const int sz[] = {20, 24, 28, 32, 40, 48, 56, 64}; int k = 0; while (sz[k] != (int)b.size()) k++; b.insert(b.begin(), (u8)(v.version << 3 | k)); d = regroup(b, 8, 5); }
        u64 a = (u64)st.arg(7);
        switch (a % 8) { case 0: d.back() ^= 1 + a / 8 % 31; break; case 1: d.push_back(0); break; case 2: d.pop_back(); break; case 3: d[0] ^= 1 + a / 8 % 31; break; case 4: d[1 % d.size()] ^= 1 + a / 8 % 31; break; case 5: d.resize(a / 8 % 104); break; case 6: d.push_back((u8)(a / 8 % 32)); d.push_back(0); break; }
        if (v.e == BECH) d.resize(std::min(d.size(), 83 - v.prefix.size())); else d.resize(std::min<size_t>(d.size(), 104));
        S t = v.e == BECH ? bech_text(v.prefix, d, v.chk) : cash_text(v.prefix, d); c.fault("right-checksum-wrong-contents");
        deliver(v.e, t, v.e == CASH ? (a / 256 % 8 ? v.prefix : "bitcoincash") : "", v.chk, true, c, nullptr, false); c.sh(0x700 + a % 8); break; }
      case OP_BITS: {           // regrouping bits
        bool cash = st.arg(0) & 1, pad = st.arg(0) & 2; int from = 1 + (int)((u64)st.arg(1) % 8), to = 1 + (int)((u64)st.arg(2) % 8); Bytes d = seed_bytes((u64)st.arg(3), (u64)st.arg(4) % 60); for (u8 &b : d) b &= (1 << from) - 1;
        if (!pad && (st.arg(0) & 4) && !d.empty()) d.back() = 0;
        size_t full = d.size() * from / to, rest = d.size() * from % to; Guard g(full + (pad && rest)); size_t n = 99; Input in(d, 1);
        int r = (cash ? cash32_convert_bits : bech32_convert_bits)(g.p(), &n, to, in.p, in.n, from, pad); g.check("convert"); c.eval();
        Bytes e = regroup(d, from, to); bool ok = true; if (!pad) { if (rest) { ok = e.back() == 0 && rest < (size_t)from; e.pop_back(); } }
        CHECK(r == (int)ok, "bits-decision", "regrouping %zu x %d bits into %d returned %d", d.size(), from, to, r);
        if (r) CHECK(n == e.size() && g.get(n) == e, "value-differs", "regrouping %zu x %d bits into %d gives %s, not %s", d.size(), from, to, hex(g.p(), n > 64 ? 64 : n).c_str(), hex(e).c_str());
        c.sh(0x600 + from * 8 + to); break; }
    }
  }
  for (auto &s : sl) if (s.used) get(s, 0, c);
}
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int n = (int)r.range(2, 20), fav = r.chance(1, 2) ? (int)r.below(NE) : -1;
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(4), e = fav >= 0 ? fav : (int)r.below(NE); u64 k = r.below(20);
    i64 len = r.chance(1, 30) ? (i64)r.below(1200) : (i64)r.below(r.chance(1, 2) ? 12 : 90), style = (i64)r.below(128) & ~(r.chance(3, 4) ? 12 | 64 : 0);
    if (k < 5 || i == 0) p.add(OP_PUT, {s, e, (i64)r.below(1 << 20), len, (i64)r.below(64), (i64)r.below(64), style});
    else if (k < 12) p.add(OP_FAULT, {s, (i64)r.below(12), (i64)r.below(1 << 12), (i64)r.below(256)});
    else if (k < 16) p.add(OP_GET, {s, (i64)r.below(4)});
    else if (k < 17) p.add(OP_CRAFT, {0, (i64)r.below(2), (i64)r.below(1 << 20), (i64)r.below(90), (i64)r.below(64), (i64)r.below(64), style, (i64)r.below(1 << 12)});
    else if (k < 18) p.add(OP_RAW, {e, (i64)r.below(1 << 20), (i64)r.below(r.chance(1, 2) ? 24 : 220), (i64)r.below(200)});
    else if (k < 19) p.add(OP_BADENC, {(i64)r.below(2), BECH + (i64)r.below(4), (i64)r.below(1 << 20), r.chance(1, 2) ? len : (i64)r.below(110), (i64)r.below(64), (i64)r.below(64), style});
    else p.add(OP_BITS, {(i64)r.below(8), (i64)r.below(8), (i64)r.below(8), (i64)r.below(1 << 20), (i64)r.below(60)});
  }
  return p;
}
const Scenario scenario = {"C17", ops, gen, exec, nullptr, "histories with at least one delivered text, distinct by encoding, lengths, faults and verdicts", 60};
